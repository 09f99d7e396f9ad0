//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include arena_types.inc
//@contracts on
//@include arena_fns.inc
//@contracts off
//@file cell async_ui_internal_utils/src/reactive_cell/mod.rs
//@file bm async_ui_internal_utils/src/reactive_cell/borrow_mut.rs
//@file uc async_ui_internal_utils/src/reactive_cell/until_change.rs
//@default cell;; pin
verus! {
// ======== ReactiveCell ========
//@struct cell ReactiveCell
//@opt type=RefCell<Inner<T>>->Inner<T>
//@endfn
//@struct cell Inner
//@endfn
//@const cell SUBLIST
//@endfn
//@struct bm ReactiveCellBorrowMut
//@opt type=RefMut<'b, Inner<T>>->&'b mut Inner<T>
//@endfn
//@struct uc UntilChangeFuture
//@opt dropfield=target;; generics=
//@endfn

impl<T> Inner<T> {
    spec fn wf(&self) -> bool {
        &&& self.listeners.wf()
        &&& self.listeners.lists().contains_key(1)
        &&& self.version >= 1
    }
    /// the slots of the subscriptions that are alive, in the order they were made
    spec fn slots(&self) -> Seq<int> { self.listeners.lists()[1] }
    /// the task registered in a slot
    spec fn task(&self, slot: int) -> int { self.listeners.task(slot) }
}
impl UntilChangeFuture {
    spec fn slot(&self) -> int { self.waker_slot.0 as int }
    /// a live subscription to the cell
    spec fn of<T>(&self, c: ReactiveCell<T>) -> bool {
        &&& c.inner.wf()
        &&& c.inner.slots().contains(self.slot())
        &&& self.last_version <= c.inner.version
    }
    spec fn polled(&self) -> bool { self.last_version > 0 }
    spec fn changed<T>(&self, c: ReactiveCell<T>) -> bool { self.last_version < c.inner.version }
}

impl<T> ReactiveCell<T> {
//@fn cell ReactiveCell::new
//@opt call=RefCell::new->vx_id
//@spec
    ensures r.inner.wf(), r.inner.slots() == Seq::<int>::empty(), r.inner.data == data, r.inner.version == 1,
//@endfn
//@fn cell ReactiveCell::borrow_mut
//@opt self=mut;; sig=fn borrow_mut<'a>(&'a mut self) -> (r: ReactiveCellBorrowMut<'a, T>)
//@spec
    ensures *r.reference == old(self).inner, final(self).inner == *final(r.reference),
//@endfn
//@fn uc ReactiveCell::until_change
//@opt self=mut;; ret=UntilChangeFuture;; droplit=UntilChangeFuture|target
//@spec
    requires old(self).inner.wf(),
    ensures
        r.of(*final(self)),
        !r.polled(), // [R02]
        final(self).inner.version == old(self).inner.version,
        final(self).inner.data == old(self).inner.data,
        !old(self).inner.slots().contains(r.slot()),
        final(self).inner.slots() == old(self).inner.slots().push(r.slot()),
        final(self).inner.task(r.slot()) == no_task(),
        forall|s: int| old(self).inner.slots().contains(s) ==> #[trigger] final(self).inner.task(s) == old(self).inner.task(s),
//@begin
    proof { assert(self.inner.listeners.list_wf(1)); }
//@end
    proof {
        assert(self.inner.listeners.lists().contains_key(1));
        assert(self.inner.listeners.list_wf(1));
        let s = self.inner.slots();
        assert(s[s.len() - 1] == __r.slot());
    }
//@endfn
}

impl UntilChangeFuture {
//@fn uc UntilChangeFuture::Stream::poll_next
//@opt addparam=target: &mut ReactiveCell<T>;; generics=T;; subst=this.target->(*target);; ret=Poll<Option<()>>
//@spec
    requires old(self).of(*old(target)),
    ensures
        r == (if old(self).polled() && old(self).changed(*old(target)) { Poll::Ready(Some(())) } else { Poll::Pending }), // [R02]
        final(self).of(*final(target)),
        final(self).polled() && !final(self).changed(*final(target)), // [R02]
        final(self).slot() == old(self).slot(),
        final(target).inner.version == old(target).inner.version,
        final(target).inner.data == old(target).inner.data,
        final(target).inner.slots() == old(target).inner.slots(),
        final(target).inner.task(final(self).slot()) == old(cx).task(), // [R01]
        forall|s: int| s != final(self).slot() && old(target).inner.slots().contains(s) ==> #[trigger] final(target).inner.task(s) == old(target).inner.task(s),
//@begin
    proof { assert(target.inner.listeners.list_wf(1)); }
//@endfn
//@fn uc UntilChangeFuture::Future::poll
//@opt addparam=target: &mut ReactiveCell<T>;; generics=T;; ret=Poll<()>;; pollmap;; passto=poll_next:target
//@spec
    requires old(self).of(*old(target)),
    ensures
        r == (if old(self).polled() && old(self).changed(*old(target)) { Poll::Ready(()) } else { Poll::Pending }), // [R02]
        final(self).of(*final(target)),
        final(self).polled() && !final(self).changed(*final(target)), // [R02]
        final(self).slot() == old(self).slot(),
        final(target).inner.version == old(target).inner.version,
        final(target).inner.data == old(target).inner.data,
        final(target).inner.slots() == old(target).inner.slots(),
        final(target).inner.task(final(self).slot()) == old(cx).task(), // [R01]
        forall|s: int| s != final(self).slot() && old(target).inner.slots().contains(s) ==> #[trigger] final(target).inner.task(s) == old(target).inner.task(s),
//@endfn
//@fn uc UntilChangeFuture::Drop::drop
//@opt addparam=target: &mut ReactiveCell<T>;; generics=T;; subst=self.target->(*target)
//@spec
    requires old(self).of(*old(target)),
    ensures
        final(target).inner.wf(),
        final(target).inner.version == old(target).inner.version,
        final(target).inner.data == old(target).inner.data,
        final(target).inner.slots() == old(target).inner.slots().remove(old(target).inner.slots().index_of(old(self).slot())),
        forall|s: int| s != old(self).slot() && old(target).inner.slots().contains(s) ==> #[trigger] final(target).inner.task(s) == old(target).inner.task(s),
//@begin
    proof { assert(target.inner.listeners.list_wf(1)); }
//@endfn
}
impl<'b, T> ReactiveCellBorrowMut<'b, T> {
//@fn bm ReactiveCellBorrowMut::DerefMut::deref_mut
//@opt sig=fn deref_mut(&mut self) -> (r: &mut T)
//@spec
    ensures
        *r == old(self).reference.data,
        final(self).reference.data == *final(r),
        final(self).reference.listeners == old(self).reference.listeners,
        final(self).reference.version == old(self).reference.version,
//@endfn
//@fn bm ReactiveCellBorrowMut::Drop::drop
//@opt world=wake_by_ref
//@spec
    requires
        old(self).reference.wf(),
        old(self).reference.version < u64::MAX, // [R02]
    ensures
        final(self).reference.wf(),
        final(self).reference.version == old(self).reference.version + 1, // [R02]
        final(self).reference.listeners == old(self).reference.listeners,
        final(self).reference.data == old(self).reference.data,
        final(w).log@ == old(w).log@ + wakes(old(self).reference.listeners.tasks(1)), // [R01]
        *final(final(self).reference) == *final(old(self).reference),
//@loop 0
    invariant
        __it1.wf(), __it1.arena == self.reference.listeners, __it1.head == 1,
        w.log@ =~= old(w).log@ + wakes(self.reference.listeners.tasks(1).take(__it1.pos@)), // [R01]
    ensures __it1.pos@ >= self.reference.listeners.lists()[1].len(),
    decreases self.reference.listeners.lists()[1].len() - __it1.pos@,
//@loopstart 0
    let ghost log0 = w.log@;
//@loopend 0
    proof {
        let t = self.reference.listeners.tasks(1);
        assert(wakes(t.take(__it1.pos@)) =~= wakes(t.take(__it1.pos@ - 1)).push(Ev::Wake(t[__it1.pos@ - 1])));
    }
//@end
    proof {
        let t = self.reference.listeners.tasks(1);
        assert(t.take(t.len() as int) =~= t);
    }
//@endfn
}

// ======== every history: the most general client of a cell (R01, R02) ========
enum Op { Subscribe, Poll(usize, Waker), Unsubscribe(usize), Borrow }
/// what the properties say a subscription is
ghost struct Sub { task: int, polled: bool, changed: bool }
spec fn slots_of(futs: Seq<UntilChangeFuture>) -> Seq<int> { futs.map_values(|f: UntilChangeFuture| f.slot()) }
spec fn tasks_of(m: Seq<Sub>) -> Seq<int> { m.map_values(|s: Sub| s.task) }
spec fn agree<T>(c: ReactiveCell<T>, futs: Seq<UntilChangeFuture>, m: Seq<Sub>) -> bool {
    &&& c.inner.wf()
    &&& m.len() == futs.len()
    &&& c.inner.slots() == slots_of(futs)
    &&& forall|i: int| 0 <= i < futs.len() ==> agree1(c, #[trigger] futs[i], m[i])
}
spec fn agree1<T>(c: ReactiveCell<T>, f: UntilChangeFuture, s: Sub) -> bool {
    &&& c.inner.task(f.slot()) == s.task
    &&& f.polled() == s.polled
    &&& f.polled() ==> f.changed(c) == s.changed
    &&& f.last_version <= c.inner.version
}
proof fn distinct<T>(c: ReactiveCell<T>, futs: Seq<UntilChangeFuture>)
    requires c.inner.wf(), c.inner.slots() == slots_of(futs),
    ensures
        forall|i: int, j: int| 0 <= i < futs.len() && 0 <= j < futs.len() && i != j ==> (#[trigger] futs[i]).slot() != (#[trigger] futs[j]).slot(),
        forall|i: int| 0 <= i < futs.len() ==> c.inner.slots().contains((#[trigger] futs[i]).slot()),
{
    assert(c.inner.listeners.list_wf(1));
    let s = slots_of(futs);
    assert forall|i: int, j: int| 0 <= i < futs.len() && 0 <= j < futs.len() && i != j implies (#[trigger] futs[i]).slot() != (#[trigger] futs[j]).slot() by {
        assert(s[i] == futs[i].slot() && s[j] == futs[j].slot());
    }
    assert forall|i: int| 0 <= i < futs.len() implies c.inner.slots().contains((#[trigger] futs[i]).slot()) by {
        assert(s[i] == futs[i].slot());
    }
}
fn every_history<T>(data: T, ops: Vec<Op>, w: &mut World)
    requires ops@.len() < u64::MAX,
{
    let mut c = ReactiveCell::new(data);
    let mut futs: Vec<UntilChangeFuture> = Vec::new();
    let ghost mut m: Seq<Sub> = Seq::empty();
    let mut k: usize = 0;
    proof { assert(slots_of(futs@) =~= Seq::<int>::empty()); }
    while k < ops.len()
        invariant
            k <= ops@.len() < u64::MAX,
            c.inner.version <= 1 + k,
            agree(c, futs@, m),
        decreases ops@.len() - k,
    {
        let ghost c0 = c;
        let ghost f0 = futs@;
        let ghost m0 = m;
        proof { distinct(c, futs@); }
        match &ops[k] {
            Op::Subscribe => {
                let f = c.until_change();
                futs.push(f);
                proof {
                    m = m.push(Sub { task: no_task(), polled: false, changed: false });
                    assert(slots_of(futs@) =~= slots_of(f0).push(f.slot()));
                    assert forall|i: int| 0 <= i < futs@.len() implies agree1(c, #[trigger] futs@[i], m[i]) by {
                        if i < f0.len() { assert(agree1(c0, f0[i], m0[i])); assert(c0.inner.slots().contains(f0[i].slot())); }
                    }
                }
            }
            Op::Poll(i, wk) => {
                let i = *i;
                if i < futs.len() {
                    assert(agree1(c, futs@[i as int], m[i as int]));
                    let mut cx = Context::from_waker(wk);
                    let mut f = futs.remove(i);
                    let r = f.poll(&mut cx, &mut c);
                    // R02: ready exactly when a borrow ended since the last poll, and never on the first
                    assert(r == (if m[i as int].polled && m[i as int].changed { Poll::Ready(()) } else { Poll::Pending }));
                    futs.insert(i, f);
                    proof {
                        m = m.update(i as int, Sub { task: wk.task(), polled: true, changed: false });
                        assert(forall|j: int| 0 <= j < f0.len() && j != i ==> futs@[j] == f0[j]);
                        assert(slots_of(futs@) =~= slots_of(f0));
                        assert forall|j: int| 0 <= j < futs@.len() implies agree1(c, #[trigger] futs@[j], m[j]) by {
                            if j != i {
                                assert(agree1(c0, f0[j], m0[j]));
                                assert(f0[j].slot() != f0[i as int].slot());
                                assert(c0.inner.slots().contains(f0[j].slot()));
                            }
                        }
                    }
                }
            }
            Op::Unsubscribe(i) => {
                let i = *i;
                if i < futs.len() {
                    assert(agree1(c, futs@[i as int], m[i as int]));
                    let mut f = futs.remove(i);
                    f.drop(&mut c);
                    proof {
                        m = m.remove(i as int);
                        let s = slots_of(f0);
                        assert(s[i as int] == f.slot() || true);
                        assert(c0.inner.slots().index_of(f0[i as int].slot()) == i) by {
                            assert(s[i as int] == f0[i as int].slot());
                            let q = s.index_of(f0[i as int].slot());
                            assert(s[q] == f0[i as int].slot());
                            assert(s[q] == f0[q].slot());
                        }
                        assert(slots_of(futs@) =~= s.remove(i as int));
                        assert forall|j: int| 0 <= j < futs@.len() implies agree1(c, #[trigger] futs@[j], m[j]) by {
                            let o = if j < i { j } else { j + 1 };
                            assert(futs@[j] == f0[o]);
                            assert(agree1(c0, f0[o], m0[o]));
                            assert(f0[o].slot() != f0[i as int].slot());
                            assert(c0.inner.slots().contains(f0[o].slot()));
                        }
                    }
                }
            }
            Op::Borrow => {
                let ghost l0 = w.log@;
                let mut g = c.borrow_mut();
                g.drop(w);
                proof {
                    // R01: the tasks now registered by the live subscriptions, each once, and nobody else
                    assert(c0.inner.listeners.tasks(1) =~= tasks_of(m)) by {
                        assert forall|i: int| 0 <= i < m.len() implies c0.inner.listeners.tasks(1)[i] == tasks_of(m)[i] by {
                            assert(agree1(c0, f0[i], m0[i]));
                        }
                    }
                    assert(w.log@ == l0 + wakes(tasks_of(m)));
                    m = m.map_values(|s: Sub| Sub { task: s.task, polled: s.polled, changed: true });
                    assert forall|j: int| 0 <= j < futs@.len() implies agree1(c, #[trigger] futs@[j], m[j]) by {
                        assert(agree1(c0, f0[j], m0[j]));
                    }
                }
            }
        }
        k = k + 1;
    }
}
pub fn vx_id<T>(x: T) -> (r: T) ensures r == x { x }
} // verus!
fn main() {}
