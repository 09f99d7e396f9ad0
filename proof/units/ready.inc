//@file ra async_ui_web_core/src/combinators/utils/wakers/array/readiness.rs
//@file rv async_ui_web_core/src/combinators/utils/wakers/vec/readiness.rs
verus! {
/// the children of a combinator whose waker fired and that have not been handed to it since
pub open spec fn list_ok(list: Seq<usize>, set: Seq<bool>) -> bool {
    &&& forall|k: int| 0 <= k < list.len() ==> #[trigger] list[k] < set.len() && set[list[k] as int]
    &&& forall|j: int, k: int| 0 <= j < list.len() && 0 <= k < list.len() && j != k ==> list[j] != list[k]
    &&& forall|i: int| 0 <= i < set.len() && #[trigger] set[i] ==> list.contains(i as usize)
}
/// every index below n, in order
pub open spec fn upto(n: nat) -> Seq<usize> { Seq::new(n, |i: int| i as usize) }
/// what waking one child does to the list of awake children, and to the log of the world
pub open spec fn woken(l: Seq<usize>, i: usize) -> Seq<usize> { if l.contains(i) { l } else { l.push(i) } }
pub open spec fn wake_log(l: Seq<usize>, i: usize, parent: int) -> Seq<Ev> { if l.len() == 0 { seq![Ev::Wake(parent)] } else { seq![] } }
} // verus!
verus! {
//@struct ra ReadinessArray
//@opt lit=
//@endfn
impl<const N: usize> ReadinessArray<N> {
    spec fn n(&self) -> nat { N as nat }
    /// the awake children, in the order they woke
    spec fn list(&self) -> Seq<usize> { self.awake_list@.take(self.awake_list_len as int) }
    spec fn parent(&self) -> int { self.parent_waker.task() }
    spec fn wf(&self) -> bool {
        &&& self.awake_list_len <= N
        &&& list_ok(self.list(), self.awake_set@)
        &&& forall|k: int| 0 <= k < N ==> #[trigger] self.awake_list@[k] < N
    }
}
impl<const N: usize> ReadinessArray<N> {
//@const ra ReadinessArray::TRESHOLD
//@opt asfn=()
//@endfn
//@fn ra ReadinessArray::new
//@opt expr=core::array::from_fn(core::convert::identity)->vx_from_fn_identity()
//@spec
    ensures r.wf(), r.list() == upto(N as nat), r.parent() == no_task(),
//@end
    proof {
        assert(__r.list() =~= upto(N as nat));
        assert forall|i: int| 0 <= i < N && #[trigger] __r.awake_set@[i] implies __r.list().contains(i as usize) by { assert(__r.list()[i] == i as usize); }
    }
//@endfn
//@fn ra ReadinessArray::set_parent_waker
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).list() == old(self).list(), final(self).parent() == waker.task(),
//@endfn
//@fn ra ReadinessArray::set_woken
//@spec
    requires old(self).wf(), index < old(self).n(),
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).parent() == old(self).parent(),
        final(self).list() == woken(old(self).list(), index),
        r == old(self).list().contains(index),
//@begin
    proof {
        let l = self.list();
        if l.len() == N as nat && !l.contains(index) { pigeon(l, index, N as nat); }
    }
//@end
    proof {
        let l = old(self).list();
        if !__r { assert(self.list() =~= l.push(index)); assert(l.push(index)[l.len() as int] == index);
            assert forall|i: int| 0 <= i < N && #[trigger] self.awake_set@[i] implies self.list().contains(i as usize) by {
                if i != index { assert(l.contains(i as usize)); let k = l.index_of(i as usize); assert(self.list()[k] == i as usize); }
            }
        } else { assert(self.list() =~= l); assert(l.contains(index)); assert(self.awake_set@ =~= old(self).awake_set@); }
    }
//@endfn
//@fn ra ReadinessArray::wake
//@opt world=wake_by_ref
//@spec
    requires old(self).wf(), index < old(self).n(),
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).parent() == old(self).parent(),
        final(self).list() == woken(old(self).list(), index),
        final(w).log@ == old(w).log@ + wake_log(old(self).list(), index, old(self).parent()),
//@end
    proof { assert(self.list().len() == self.awake_list_len); assert(old(self).list().len() == old(self).awake_list_len); assert(w.log@ =~= old(w).log@ + wake_log(old(self).list(), index, old(self).parent())); }
//@endfn
//@fn ra ReadinessArray::awake_list
//@spec
    requires self.wf(),
    ensures r@ == self.list(),
//@endfn
//@fn ra ReadinessArray::clear
//@opt rename=fill:vx_fill,iter:vx_iter;; expr=Self::TRESHOLD->Self::TRESHOLD()
//@spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).parent() == old(self).parent(),
        final(self).list() == Seq::<usize>::empty(),
//@begin
    let ghost set0 = self.awake_set@;
//@loop 0
    invariant
        __it1.v == self.awake_list, __it1.e == N, 0 <= __it1.i <= N,
        self.awake_list == old(self).awake_list, old(self).wf(), set0 == old(self).awake_set@,
        awake_set@.len() == N,
        forall|i: int| 0 <= i < N && #[trigger] awake_set@[i] ==> set0[i],
        forall|k: int| 0 <= k < __it1.i ==> !awake_set@[#[trigger] self.awake_list@[k] as int],
    ensures __it1.i == N,
    decreases N - __it1.i,
//@end
    proof {
        assert(self.list() =~= Seq::<usize>::empty());
        assert forall|i: int| 0 <= i < N implies !#[trigger] self.awake_set@[i] by {
            if self.awake_set@[i] {
                assert(old(self).awake_set@[i]);
                let k = old(self).list().index_of(i as usize);
                assert(old(self).list()[k] == i as usize);
                assert(self.awake_list@[k] == i as usize);
            }
        }
    }
//@endfn
}
} // verus!
verus! {
//@struct rv ReadinessVec
//@opt type=BitVec<u8>->Vec<bool>
//@endfn
impl ReadinessVec {
    spec fn n(&self) -> nat { self.awake_set@.len() }
    spec fn list(&self) -> Seq<usize> { self.awake_list@ }
    spec fn parent(&self) -> int { self.parent_waker.task() }
    spec fn wf(&self) -> bool { list_ok(self.list(), self.awake_set@) }
//@fn rv ReadinessVec::new
//@opt call=BitVec::repeat->vx_repeat;; expr=(0..len).collect()->vx_range_vec(0, len)
//@spec
    ensures r.wf(), r.list() == upto(len as nat), r.n() == len, r.parent() == no_task(),
//@end
    proof {
        assert(__r.list() =~= upto(len as nat));
        assert forall|i: int| 0 <= i < len && #[trigger] __r.awake_set@[i] implies __r.list().contains(i as usize) by { assert(__r.list()[i] == i as usize); }
    }
//@endfn
//@fn rv ReadinessVec::set_parent_waker
//@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).list() == old(self).list(), final(self).parent() == waker.task(),
//@endfn
//@fn rv ReadinessVec::set_woken
//@opt rename=replace:vx_replace
//@spec
    requires old(self).wf(), index < old(self).n(),
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).parent() == old(self).parent(),
        final(self).list() == woken(old(self).list(), index),
        r == old(self).list().contains(index),
//@end
    proof {
        let l = old(self).list();
        if !__r { assert(self.list() =~= l.push(index)); assert(l.push(index)[l.len() as int] == index);
            assert forall|i: int| 0 <= i < self.n() && #[trigger] self.awake_set@[i] implies self.list().contains(i as usize) by {
                if i != index { assert(l.contains(i as usize)); let k = l.index_of(i as usize); assert(self.list()[k] == i as usize); }
            }
        } else { assert(self.list() =~= l); assert(l.contains(index)); assert(self.awake_set@ =~= old(self).awake_set@); }
    }
//@endfn
//@fn rv ReadinessVec::wake
//@opt world=wake_by_ref
//@spec
    requires old(self).wf(), index < old(self).n(),
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).parent() == old(self).parent(),
        final(self).list() == woken(old(self).list(), index),
        final(w).log@ == old(w).log@ + wake_log(old(self).list(), index, old(self).parent()),
//@end
    proof { assert(w.log@ =~= old(w).log@ + wake_log(old(self).list(), index, old(self).parent())); }
//@endfn
//@fn rv ReadinessVec::awake_list
//@spec
    requires self.wf(),
    ensures r@ == self.list(),
//@endfn
//@fn rv ReadinessVec::clear
//@opt rename=fill:vx_fill,set:vx_set;; expr=self.awake_list.drain(..)->vx_drain(&mut self.awake_list)
//@spec
    requires old(self).wf(), old(self).n() <= usize::MAX / 64,
    ensures
        final(self).wf(), final(self).n() == old(self).n(), final(self).parent() == old(self).parent(),
        final(self).list() == Seq::<usize>::empty(),
//@begin
    let ghost set0 = self.awake_set@;
    proof { pigeons(self.list(), self.n()); }
//@loop 0
    invariant
        __it1.wf(), __it1.v@ == old(self).list(), old(self).wf(), set0 == old(self).awake_set@, awake_set@.len() == set0.len(), self.awake_list@.len() == 0,
        forall|i: int| 0 <= i < set0.len() && #[trigger] awake_set@[i] ==> set0[i],
        forall|k: int| 0 <= k < __it1.i@ ==> !awake_set@[#[trigger] __it1.v@[k] as int],
    ensures __it1.i@ == __it1.v@.len(),
    decreases __it1.v@.len() - __it1.i@,
//@end
    proof {
        assert(self.list() =~= Seq::<usize>::empty());
        assert forall|i: int| 0 <= i < self.n() implies !#[trigger] self.awake_set@[i] by {
            if self.awake_set@[i] {
                assert(old(self).awake_set@[i]);
                let k = old(self).list().index_of(i as usize);
                assert(old(self).list()[k] == i as usize);
            }
        }
    }
//@endfn
}
/// n distinct indices below n leave no other
proof fn pigeon(l: Seq<usize>, x: usize, n: nat)
    requires l.len() == n, x < n, !l.contains(x), l.no_duplicates(), forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] < n,
    ensures false,
{
    pigeons(l.push(x), n);
}
/// distinct indices below n are at most n
proof fn pigeons(l: Seq<usize>, n: nat)
    requires l.no_duplicates(), forall|k: int| 0 <= k < l.len() ==> #[trigger] l[k] < n,
    ensures l.len() <= n,
{
    let s = l.map_values(|y: usize| y as int);
    assert(s.no_duplicates());
    s.unique_seq_to_set();
    let u = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(s.to_set().subset_of(u));
    vstd::set_lib::lemma_len_subset(s.to_set(), u);
}
} // verus!
