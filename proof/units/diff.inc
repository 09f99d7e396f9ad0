verus! {
//@default cell;; pin
//@struct df Inner
//@opt generics=<K, R>
//@endfn
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(F)]
//@struct df DiffedList
//@opt generics=<K, R, F>;; type=DynamicList<'c,K,F>->DynamicList<K, F>;; type=RefCell<Inner<K,R>>->Inner<K, R>;; where=
//@endfn
impl<K: VxKey, R: VxRender<K, F>, F> DiffedList<K, R, F> {
    spec fn shown(&self, w: World) -> Seq<K> { self.dl.order(w) }
    spec fn good(&self, w: World) -> bool { self.dl.good(w) && self.shown(w) == self.inner.prev_keys_list@ }
//@fn df DiffedList::new
//@opt addparam=w: &mut World;; expr=DynamicList::new()->DynamicList::new(w);; call=RefCell::new->vx_cell
//@spec
    requires old(w).tidy(),
    ensures
        r.good(*final(w)), // [L02]
        r.shown(*final(w)) == Seq::<K>::empty(), // [L02]
        r.inner.renderer == renderer, // [L02]
//@endfn
//@fn df DiffedList::contains_key
//@opt generics=;; where=;; param=key: &K
//@spec
    ensures
        r == self.dl.items().dom().contains(*key), // [L02]
        forall|w: World| self.dl.good(w) ==> r == #[trigger] self.shown(w).contains(*key), // [L02]
//@begin
    proof { assert forall|w: World| self.dl.good(w) implies self.dl.items().dom().contains(*key) == #[trigger] self.shown(w).contains(*key) by { self.dl.listed(w); } }
//@endfn
//@fn df DiffedList::update
//@opt self=mut;; fnvar=renderer;; chain=iter.peekable->vx_peekable,iter.collect->vx_set,peek.cloned->peek,peek.copied->peek;; passto=dl.insert:w;; passto=dl.remove:w;; passto=dl.move_before:w;; addparam=w: &mut World;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(self).good(*old(w)), new_keys@.no_duplicates(),
    ensures
        final(self).good(*final(w)), // [L02]
        // the keys given, in that order
        final(self).shown(*final(w)) == new_keys@, // [L02]
        // those that were there keep their futures
        same_tasks(old(self).dl.items(), final(self).dl.items()), // [L02]
        // the others got theirs from one call of the renderer each; it was not called for anything else
        old(self).inner.renderer.calls().len() <= final(self).inner.renderer.calls().len(), // [L02]
        final(self).inner.renderer.calls().take(old(self).inner.renderer.calls().len() as int) == old(self).inner.renderer.calls(), // [L02]
        made(final(self).inner.renderer.calls(), old(self).inner.renderer.calls().len() as int, new_keys@, old(self).shown(*old(w)), final(self).dl.items()), // [L02]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(half); hide(made); hide(same_tasks); hide(DynamicList::good);
    let ghost g0 = *self;
    let ghost P = self.inner.prev_keys_list@; let ghost c0 = self.inner.renderer.calls(); let ghost n = c0.len() as int; let ghost m0 = self.dl.items(); let ghost N = new_keys@; let ghost mut left: Set<K> = Set::empty();
    proof { self.dl.listed(*w); }
//@loopbefore 0
    proof {
        assert(N.take(0) =~= Seq::<K>::empty());
        reveal(half); reveal(made); reveal(same_tasks); reveal(Seq::contains); reveal(Seq::no_duplicates);
        half_start(P, prev_keys_set@);
        asked_none(c0);
        assert forall|k: K| #[trigger] prev_keys_set@.contains(k) implies idx(P, k) >= 0 by { at_idx(P, k); }
    }
//@loop 0
    invariant
        self.dl.good(*w), half(self.dl.order(*w), new_keys@.take(__it1.i as int), P, prev_keys_set@),
        P == prev_keys_list@, N == new_keys@, P.no_duplicates(), n == c0.len(), c0 == g0.inner.renderer.calls(),
        forall|k: K| #[trigger] prev_keys_set@.contains(k) ==> P.contains(k) && idx(P, k) >= prev_keys_iter.i,
        same_tasks(m0, self.dl.items()), forall|k: K| #[trigger] m0.dom().contains(k) <==> P.contains(k),
        renderer.calls().len() >= n, renderer.calls().take(n) == c0,
        made(renderer.calls(), n, new_keys@.take(__it1.i as int), P, self.dl.items()),
        forall|k: K| #[trigger] P.contains(k) ==> new_keys@.take(__it1.i as int).contains(k) || prev_keys_set@.contains(k),
        new_keys@.no_duplicates(), __it1.v == &new_keys, 0 <= __it1.i <= new_keys@.len(), prev_keys_iter.v == &*prev_keys_list, prev_keys_iter.i <= P.len(),
    ensures
        __it1.i == N.len(),
//@loopstart 0
    let ghost i = __it1.i as int;
//@loop 1
    invariant
        self.dl.good(*w), half(self.dl.order(*w), new_keys@.take(i), P, prev_keys_set@),
        P == prev_keys_list@, N == new_keys@, P.no_duplicates(), n == c0.len(), c0 == g0.inner.renderer.calls(),
        forall|k: K| #[trigger] prev_keys_set@.contains(k) ==> P.contains(k)  && idx(P, k) >= prev_keys_iter.i,
        same_tasks(m0, self.dl.items()), forall|k: K| #[trigger] m0.dom().contains(k) <==> P.contains(k),
        renderer.calls().len() >= n, renderer.calls().take(n) == c0,
        made(renderer.calls(), n, new_keys@.take(i), P, self.dl.items()),
        forall|k: K| #[trigger] P.contains(k) ==> new_keys@.take(i).contains(k) || prev_keys_set@.contains(k),
        prev_keys_iter.v == &*prev_keys_list, prev_keys_iter.i <= P.len(),
    ensures
        prev_keys_iter.i >= P.len() || prev_keys_set@.contains(P[prev_keys_iter.i as int]),
//@loopstart 1
    proof { assert forall|k: K| #[trigger] prev_keys_set@.contains(k) && idx(P, k) == prev_keys_iter.i implies k == P[prev_keys_iter.i as int] by { at_idx(P, k); } }
//@before if prev_keys_set.remove(
    let ghost T = N.take(i); let ghost S = prev_keys_set@; let ghost j = prev_keys_iter.i as int; let ghost w1 = *w; let ghost d1 = self.dl; let ghost o1 = d1.order(w1); let ghost q1 = renderer.calls();
    let ghost b = if j < P.len() { Some(P[j]) } else { None };
    proof {
        assert(*key == N[i]);
        assert(N.take(i + 1) =~= T.push(*key));
        taken(N, i);
        assert forall|y: K| #[trigger] S.contains(y) && b is Some && y != b.unwrap() implies bef(P, b.unwrap(), y) by { at_idx(P, y); idx_at(P, j); }
        assert forall|y: K| #[trigger] S.contains(y) implies b is Some by { at_idx(P, y); }
        assert(!S.contains(*key) ==> S.remove(*key) =~= S);
        d1.listed(w1);
        assert(d1.items().dom().contains(*key) == S.contains(*key)) by { reveal(half); assert(o1.contains(*key) == (T.contains(*key) || S.contains(*key))); }
        half_push(T, *key);
        assert(S.contains(*key) ==> P.contains(*key));
    }
//@before =continue;
    proof {
        half_stay(o1, T, P, S, *key); made_kept(q1, n, T, P, d1.items(), *key, self.dl.items());
        assert forall|k: K| #[trigger] prev_keys_set@.contains(k) implies idx(P, k) >= j + 1 by { at_idx(P, k); }
    }
//@after self.dl.move_before(
    proof { half_put(o1, T, P, S, *key, b); made_kept(q1, n, T, P, d1.items(), *key, self.dl.items()); }
//@after self.dl.insert(
    proof {
        half_put(o1, T, P, S, *key, b);
        made_more(q1, n, T, P, d1.items(), *key, fut, self.dl.items()[*key]);
        asked_more(q1, n, (*key, fut));
        reveal(same_tasks);
    }
//@before prev_keys_set.drain(
    proof { left = prev_keys_set@; assert(N.take(N.len() as int) =~= N); }
//@loop 2
    invariant
        self.dl.good(*w), half(self.dl.order(*w), N, P, left),
        forall|k: K| #[trigger] left.contains(k) <==> __it2.left@.contains(k), __it2.left@.no_duplicates(),
        forall|k: K| #[trigger] left.contains(k) ==> P.contains(k),
        P == prev_keys_list@, N == new_keys@, P.no_duplicates(), n == c0.len(), c0 == g0.inner.renderer.calls(),
        same_tasks(m0, self.dl.items()), forall|k: K| #[trigger] m0.dom().contains(k) <==> P.contains(k),
        renderer.calls().len() >= n, renderer.calls().take(n) == c0,
        made(renderer.calls(), n, N, P, self.dl.items()),
    ensures
        forall|k: K| !#[trigger] left.contains(k),
//@loopstart 2
    let ghost w1 = *w; let ghost d1 = self.dl; let ghost l1 = __it2.left@;
    proof { if l1.len() > 0 { cut_first(l1); cut_rank(l1, l1[0]); idx_at(l1, 0); } else { none_in(l1); } }
//@after self.dl.remove(
    proof {
        half_drop(d1.order(w1), N, P, left, *key);
        made_dropped(renderer.calls(), n, N, P, d1.items(), *key);
        reveal(same_tasks);
        left = left.remove(*key);
    }
//@end
    proof { half_done(self.dl.order(*w), N, P, left); }
//@endfn
}
} // verus!
