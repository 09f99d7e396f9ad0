verus! {
/// A Vec of non-zero-sized elements holds at most isize::MAX bytes (alloc::vec), so doubling a length cannot overflow.
#[verifier::external_body]
proof fn axiom_vec_len(v: &Vec<Item>)
    ensures v@.len() * 4 <= usize::MAX,
{}

impl WakersArena {
//@fn arena WakersArena::new
//@begin
    proof { at_def(0, seq![1int], 0); at_def(0, seq![1int], 1); }
//@spec
    ensures r.wf(), r.lists() == Map::<int, Seq<int>>::empty(), r.g@.free == seq![1int],
//@opt lit=Self|g: Ghost(AG { lists: Map::empty(), free: seq![1int], own: seq![0int, 0int] })
//@endfn

//@fn arena WakersArena::grow_full_list
//@opt extend
//@spec
    requires
        old(self).wf(),
        old(self).g@.free.len() == 0,
    ensures
        final(self).wf(),
        final(self).lists() == old(self).lists(),
        r == old(self).items@.len(),
        final(self).items@.len() > r,
        final(self).task(r as int) == no_task(),
        final(self).g@.own[r as int] == -1,
        forall|s: int| 0 <= s < r ==> (#[trigger] final(self).items@[s]).waker.task() == old(self).items@[s].waker.task(),
        forall|s: int| 0 <= s < r ==> #[trigger] final(self).g@.own[s] == old(self).g@.own[s],
//@begin
    proof { axiom_vec_len(&self.items); }
//@loop 0
    invariant
        self.items@.len() == __it1.i, __it1.e == 2 * old(self).items@.len(), old(self).items@.len() <= __it1.i <= __it1.e,
        self.g == old(self).g, old(self).wf(), __it1.e * 2 <= usize::MAX,
        forall|k: int| 0 <= k < old(self).items@.len() ==> self.items@[k] == old(self).items@[k],
        forall|k: int| old(self).items@.len() <= k < self.items@.len() ==> (#[trigger] self.items@[k]).prev == k - 1 && self.items@[k].next == k + 1 && self.items@[k].waker.task() == no_task(),
    ensures __it1.i == __it1.e,
    decreases __it1.e - __it1.i,
//@end
    proof {
        let n = old(self).items@.len() as int;
        let f = Seq::new((n - 1) as nat, |i: int| n + 1 + i);
        let og = old(self).g@;
        self.g@ = AG { lists: og.lists, free: f, own: Seq::new((2 * n) as nat, |k: int| if k < n { og.own[k] } else if k == n { -1 } else { 0 }) };
        assert(chain(self.items@, f)) by { reveal(at); }
        assert forall|h: int| #[trigger] og.lists.dom().contains(h) implies self.list_wf(h) by {
            assert(old(self).list_wf(h));
        }
    }
//@endfn
//@fn arena WakersArena::add_sublist
//@begin
    proof {
        at_def(0, self.g@.free, 0);
        at_def(0, self.g@.free, 1);
    }
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        !old(self).lists().contains_key(r.0 as int),
        old(self).g@.free.len() > 0 ==> r.0 == old(self).g@.free[0],
        final(self).lists() == old(self).lists().insert(r.0 as int, Seq::empty()),
        forall|s: int| 0 <= s < old(self).items@.len() ==> #[trigger] final(self).task(s) == old(self).task(s),
        forall|s: int| #[trigger] old(self).live(s) ==> final(self).live(s) && final(self).list_of(s) == old(self).list_of(s),
        final(self).items@.len() >= old(self).items@.len(),
//@end
    proof {
        let x = __r.0 as int;
        let o = old(self).g@;
        let mid = self.g@;
        let fr = if o.free.len() == 0 { mid.free } else { mid.free.subrange(1, mid.free.len() as int) };
        self.g@ = AG { lists: mid.lists.insert(x, Seq::empty()), free: fr, own: mid.own.update(x, x) };
        assert forall|s: int| 0 <= s < old(self).items@.len() implies #[trigger] self.task(s) == old(self).task(s) by {}
        assert(chain(self.items@, fr)) by {
            assert forall|i: int| 0 <= i < fr.len() implies self.items@[#[trigger] fr[i]].next == at(0, fr, i + 1) by {
                at_def(0, fr, i + 1);
                if o.free.len() > 0 { at_def(0, o.free, i + 2); assert(o.free[i + 1] == fr[i]); }
            }
            at_def(0, fr, 0);
        }
        at_def(x, Seq::empty(), 0);
        at_def(x, Seq::empty(), -1);
        assert(self.list_wf(x));
        assert forall|k: int| #[trigger] self.lists().dom().contains(k) implies self.list_wf(k) by {
            if k != x { assert(old(self).list_wf(k)); }
        }
    }
//@endfn

//@fn arena WakersArena::add
//@begin
    proof {
        let h = p1.0 as int;
        let s = self.g@.lists[h];
        assert(self.list_wf(h));
        at_def(0, self.g@.free, 0);
        at_def(0, self.g@.free, 1);
        at_def(h, s, s.len() - 1);
    }
//@spec
    requires old(self).wf(), old(self).lists().contains_key(p1.0 as int),
    ensures
        final(self).wf(),
        !old(self).live(r.0 as int),
        final(self).lists() == old(self).lists().insert(p1.0 as int, old(self).lists()[p1.0 as int].push(r.0 as int)),
        final(self).task(r.0 as int) == no_task(),
        forall|s: int| 0 <= s < old(self).items@.len() ==> #[trigger] final(self).task(s) == old(self).task(s),
        forall|s: int| #[trigger] old(self).live(s) ==> final(self).live(s) && final(self).list_of(s) == old(self).list_of(s),
        final(self).items@.len() >= old(self).items@.len(),
//@end
    proof {
        let x = __r.0 as int;
        let h = p1.0 as int;
        let o = old(self).g@;
        let mid = self.g@;
        let fr = if o.free.len() == 0 { mid.free } else { mid.free.subrange(1, mid.free.len() as int) };
        self.g@ = AG { lists: mid.lists.insert(h, mid.lists[h].push(x)), free: fr, own: mid.own.update(x, h) };
        let s0 = mid.lists[h];
        let s1 = self.g@.lists[h];
        assert forall|s: int| 0 <= s < old(self).items@.len() implies #[trigger] self.task(s) == old(self).task(s) by {}
        assert(chain(self.items@, fr)) by {
            assert forall|i: int| 0 <= i < fr.len() implies self.items@[#[trigger] fr[i]].next == at(0, fr, i + 1) by {
                at_def(0, fr, i + 1);
                if o.free.len() > 0 { at_def(0, o.free, i + 2); assert(o.free[i + 1] == fr[i]); }
            }
            at_def(0, fr, 0);
        }
        assert(old(self).list_wf(h));
        assert(self.list_wf(h)) by {
            assert(forall|i: int| 0 <= i < s0.len() ==> s1[i] == s0[i] && s0[i] != x);
            assert forall|i: int| 0 <= i < s1.len() implies self.items@[#[trigger] s1[i]].next == at(h, s1, i + 1) && self.items@[s1[i]].prev == at(h, s1, i - 1) by {
                at_def(h, s1, i + 1);
                at_def(h, s1, i - 1);
                at_def(h, s0, i + 1);
                at_def(h, s0, i - 1);
            }
            at_def(h, s1, 0);
            at_def(h, s1, s1.len() - 1);
            at_def(h, s0, 0);
        }
        assert forall|k: int| #[trigger] self.lists().dom().contains(k) implies self.list_wf(k) by {
            if k != h {
                assert(old(self).list_wf(k));
                }
        }
        assert forall|s: int| #[trigger] old(self).live(s) implies self.live(s) && self.list_of(s) == old(self).list_of(s) by {
            let q = old(self).g@.own[s];
            assert(old(self).list_wf(q));
            if q == h {
                let j = s0.index_of(s);
                assert(s0[j] == s);
                assert(s1[j] == s);
            }
        }
    }
//@endfn

//@fn arena WakersArena::remove
//@spec
    requires old(self).wf(), old(self).live(handle.0 as int),
    ensures
        final(self).wf(),
        final(self).lists() == old(self).lists().insert(old(self).list_of(handle.0 as int), old(self).without(handle.0 as int)),
        final(self).task(handle.0 as int) == no_task(),
        forall|s: int| 0 <= s < old(self).items@.len() && s != handle.0 ==> #[trigger] final(self).task(s) == old(self).task(s),
        forall|s: int| s != handle.0 && #[trigger] old(self).live(s) ==> final(self).live(s) && final(self).list_of(s) == old(self).list_of(s),
        final(self).items@.len() == old(self).items@.len(),
//@opt param=handle:&WakerSlot
//@begin
    proof {
        let x = handle.0 as int;
        let h = self.g@.own[x];
        let s = self.g@.lists[h];
        let k = s.index_of(x);
        assert(self.list_wf(h));
        assert(0 <= k < s.len() && s[k] == x);
        at_def(h, s, k + 1);
        at_def(h, s, k - 1);
        at_def(0, self.g@.free, 0);
        at_def(0, self.g@.free, 1);
    }
//@end
    proof {
        let x = handle.0 as int;
        let o = old(self).g@;
        let h = o.own[x];
        let s0 = o.lists[h];
        let k = s0.index_of(x);
        let s1 = s0.remove(k);
        let fr = seq![x] + o.free;
        self.g@ = AG { lists: o.lists.insert(h, s1), free: fr, own: o.own.update(x, 0) };
        assert forall|s: int| 0 <= s < old(self).items@.len() && s != x implies #[trigger] self.task(s) == old(self).task(s) by {}
        assert(forall|i: int| 1 <= i < fr.len() ==> fr[i] == o.free[i - 1]);
        assert(fr[0] == x);
        assert(forall|i: int| 0 <= i < o.free.len() ==> o.free[i] != x);
        assert(chain(self.items@, fr)) by {
            assert forall|i: int| 0 <= i < fr.len() implies self.items@[#[trigger] fr[i]].next == at(0, fr, i + 1) by {
                at_def(0, fr, i + 1);
                at_def(0, o.free, i);
                if i > 0 { assert(o.free[i - 1] == fr[i]); }
            }
            at_def(0, fr, 0);
        }
        assert(self.list_wf(h)) by {
            assert forall|i: int| 0 <= i < s1.len() implies self.items@[#[trigger] s1[i]].next == at(h, s1, i + 1) && self.items@[s1[i]].prev == at(h, s1, i - 1) by {
                let j = if i < k { i } else { i + 1 };
                assert(s1[i] == s0[j]);
                at_def(h, s1, i + 1);
                at_def(h, s1, i - 1);
                at_def(h, s0, j + 1);
                at_def(h, s0, j - 1);
                at_def(h, s0, k + 1);
                at_def(h, s0, k - 1);
            }
            assert(forall|i: int| 0 <= i < s1.len() ==> s1[i] != x && s0.contains(#[trigger] s1[i]));
            at_def(h, s1, 0);
            at_def(h, s1, s1.len() - 1);
            at_def(h, s0, 0);
            at_def(h, s0, s0.len() - 1);
        }
        assert forall|q: int| #[trigger] self.lists().dom().contains(q) implies self.list_wf(q) by {
            if q != h {
                assert(old(self).list_wf(q));
            }
        }
        assert forall|s: int| s != x && #[trigger] old(self).live(s) implies self.live(s) && self.list_of(s) == old(self).list_of(s) by {
            let q = o.own[s];
            if q == h {
                let j = s0.index_of(s);
                assert(s0[j] == s);
                assert(s1[if j < k { j } else { j - 1 }] == s);
            }
        }
    }
//@endfn

//@fn arena WakersArena::remove_sublist_if_empty
//@spec
    requires old(self).wf(), old(self).lists().contains_key(p1.0 as int),
    ensures
        final(self).wf(),
        r == (old(self).lists()[p1.0 as int].len() == 0),
        !r ==> final(self).lists() == old(self).lists(),
        r ==> final(self).lists() == old(self).lists().remove(p1.0 as int),
        forall|s: int| 0 <= s < old(self).items@.len() ==> #[trigger] final(self).task(s) == old(self).task(s),
        forall|s: int| #[trigger] old(self).live(s) ==> final(self).live(s) && final(self).list_of(s) == old(self).list_of(s),
        final(self).items@.len() == old(self).items@.len(),
//@begin
    proof {
        let h = p1.0 as int;
        let s = self.g@.lists[h];
        assert(self.list_wf(h));
        at_def(h, s, 0);
        at_def(0, self.g@.free, 0);
        at_def(0, self.g@.free, 1);
    }
//@end
    proof {
        if __r {
            let x = p1.0 as int;
            let o = old(self).g@;
            let fr = seq![x] + o.free;
            self.g@ = AG { lists: o.lists.remove(x), free: fr, own: o.own.update(x, 0) };
            assert(forall|i: int| 1 <= i < fr.len() ==> fr[i] == o.free[i - 1]);
            assert(forall|i: int| 0 <= i < o.free.len() ==> o.free[i] != x);
            assert(chain(self.items@, fr)) by {
                assert forall|i: int| 0 <= i < fr.len() implies self.items@[#[trigger] fr[i]].next == at(0, fr, i + 1) by {
                    at_def(0, fr, i + 1);
                    at_def(0, o.free, i);
                    if i > 0 { assert(o.free[i - 1] == fr[i]); }
                }
                at_def(0, fr, 0);
            }
        }
        assert forall|q: int| #[trigger] self.lists().dom().contains(q) implies self.list_wf(q) by {
            assert(old(self).list_wf(q));
        }
        assert forall|s: int| #[trigger] old(self).live(s) implies self.live(s) && self.list_of(s) == old(self).list_of(s) by {
            assert(old(self).list_wf(old(self).g@.own[s]));
        }
    }
//@endfn

//@fn arena WakersArena::update
//@spec
    requires old(self).wf(), old(self).live(p1.0 as int),
    ensures
        final(self).wf(),
        final(self).lists() == old(self).lists(),
        final(self).task(p1.0 as int) == waker.task(),
        forall|s: int| 0 <= s < old(self).items@.len() && s != p1.0 ==> #[trigger] final(self).task(s) == old(self).task(s),
        forall|s: int| #[trigger] old(self).live(s) ==> final(self).live(s) && final(self).list_of(s) == old(self).list_of(s),
        final(self).items@.len() == old(self).items@.len(),
//@begin
    proof { assert(self.list_wf(self.g@.own[p1.0 as int])); }
//@end
    proof {
        assert forall|q: int| #[trigger] self.lists().dom().contains(q) implies self.list_wf(q) by {
            assert(old(self).list_wf(q));
            if q == old(self).g@.own[p1.0 as int] {}
        }
    }
//@endfn

//@fn arena WakersArena::iter
//@opt fromfn=WakersIter { arena: self, head: sublist_head_index, index, pos: Ghost(0int) };; ret=WakersIter<'s>
//@spec
    requires self.wf(), self.lists().contains_key(p1.0 as int),
    ensures r.wf(), r.arena == self, r.head == p1.0, r.pos@ == 0,
//@begin
    proof { assert(self.list_wf(p1.0 as int)); at_def(p1.0 as int, self.lists()[p1.0 as int], 0); }
//@endfn
}
impl<'s> WakersIter<'s> {
//@fn arena WakersArena::iter
//@opt closure=0;; name=next;; sig=fn next(&mut self) -> (r: Option<&'s Waker>);; subst=index->self.index;; subst=sublist_head_index->self.head;; subst=self.items->self.arena.items
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).arena == old(self).arena && final(self).head == old(self).head,
        old(self).pos@ < old(self).seq().len() ==> r.is_some() && r.unwrap().task() == old(self).arena.task(old(self).seq()[old(self).pos@]) && final(self).pos@ == old(self).pos@ + 1,
        old(self).pos@ >= old(self).seq().len() ==> r.is_none() && final(self).pos@ == old(self).pos@,
//@begin
    proof {
        let h = self.head as int;
        assert(self.arena.list_wf(h));
        at_def(h, self.seq(), self.pos@);
        at_def(h, self.seq(), self.pos@ + 1);
    }
//@end
    proof { if old(self).pos@ < old(self).seq().len() { self.pos@ = self.pos@ + 1; } }
//@endfn
}
} // verus!
