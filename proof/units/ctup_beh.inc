//@file tj async_ui_web_core/src/combinators/join/tuple.rs
//@file ttj async_ui_web_core/src/combinators/try_join/tuple.rs
//@file tr async_ui_web_core/src/combinators/race/tuple.rs
//@file tro async_ui_web_core/src/combinators/race_ok/tuple.rs
verus! {
#[verifier::opaque]
spec fn listed(b: Seq<usize>, list: Seq<usize>) -> bool { forall|k: int| 0 <= k < list.len() ==> b[k] == #[trigger] list[k] }
proof fn listed_at(b: Seq<usize>, list: Seq<usize>, k: int)
    requires listed(b, list), 0 <= k < list.len(),
    ensures b[k] == list[k],
{ reveal(listed); }
#[verifier::opaque]
spec fn list0<const N: usize>(r: ReadinessArray<N>) -> Seq<usize> { r.list() }
/// the bookkeeping is in order and wakes this task; if a child woke since it was emptied, this task was woken
#[verifier::opaque]
spec fn rd_ok<const N: usize>(r: ReadinessArray<N>, task: int, la: Seq<Ev>, lb: Seq<Ev>) -> bool {
    &&& r.wf() && r.parent() == task
    &&& r.list().len() > 0 ==> lb.skip(la.len() as int).contains(Ev::Wake(task))
}
proof fn rd_end<const N: usize>(a: ReadinessArray<N>, b: ReadinessArray<N>, la: Seq<Ev>, lb: Seq<Ev>)
    requires evolves(a, b, la, lb), a.list().len() == 0,
    ensures rd_ok(b, a.parent(), la, lb),
{ reveal(evolves); reveal(rd_ok); }
trait TupleBehavior {
    /// whether a child's outcome is ever kept
    spec fn keeps() -> bool;
}
trait TupleMaybeReturn<R, O>: TupleBehavior {
    type StoredItem;
    spec fn decide(idx: usize, res: R) -> ControlFlow<O, Self::StoredItem>;
    fn maybe_return(idx: usize, res: R) -> (r: ControlFlow<O, Self::StoredItem>)
        ensures r == Self::decide(idx, res);
    proof fn keeping(idx: usize, res: R, item: Self::StoredItem)
        requires Self::decide(idx, res) == ControlFlow::<O, Self::StoredItem>::Continue(item),
        ensures Self::keeps();
}
trait TupleWhenCompleted<S, O>: TupleBehavior {
    /// o is what all kept items amount to
    spec fn combined(o: O, s: S) -> bool;
    fn when_completed(s: S) -> (r: O)
        requires Self::keeps(),
        ensures Self::combined(r, s);
}
trait CombineTuple: Sized {
    type Combined;
    spec fn fresh(&self) -> bool;
    spec fn made(&self, r: Self::Combined) -> bool;
    fn combine(self) -> (r: Self::Combined)
        requires self.fresh(),
        ensures self.made(r); // [C01,C02,C04,D02]
}
struct JoinBehavior;
struct TryJoinBehavior;
struct RaceBehavior;
struct RaceOkBehavior;
impl TupleBehavior for JoinBehavior { spec fn keeps() -> bool { true } }
impl TupleBehavior for TryJoinBehavior { spec fn keeps() -> bool { true } }
impl TupleBehavior for RaceBehavior { spec fn keeps() -> bool { false } }
impl TupleBehavior for RaceOkBehavior { spec fn keeps() -> bool { true } }
impl<T, O> TupleMaybeReturn<T, O> for JoinBehavior {
    type StoredItem = T;
    spec fn decide(idx: usize, res: T) -> ControlFlow<O, T> { ControlFlow::Continue(res) }
    proof fn keeping(idx: usize, res: T, item: T) {}
//@fn tj JoinBehavior::TupleMaybeReturn::maybe_return
//@endfn
}
impl<O> TupleWhenCompleted<O, O> for JoinBehavior {
    spec fn combined(o: O, s: O) -> bool { o == s }
//@fn tj JoinBehavior::TupleWhenCompleted::when_completed
//@endfn
}
impl<T, AggT, E> TupleMaybeReturn<Result<T, E>, Result<AggT, E>> for TryJoinBehavior {
    type StoredItem = T;
    spec fn decide(idx: usize, res: Result<T, E>) -> ControlFlow<Result<AggT, E>, T> { match res { Ok(t) => ControlFlow::Continue(t), Err(e) => ControlFlow::Break(Err(e)) } }
    proof fn keeping(idx: usize, res: Result<T, E>, item: T) {}
//@fn ttj TryJoinBehavior::TupleMaybeReturn::maybe_return
//@endfn
}
impl<AggT, E> TupleWhenCompleted<AggT, Result<AggT, E>> for TryJoinBehavior {
    spec fn combined(o: Result<AggT, E>, s: AggT) -> bool { o == Ok::<AggT, E>(s) }
//@fn ttj TryJoinBehavior::TupleWhenCompleted::when_completed
//@endfn
}
impl<T> TupleMaybeReturn<T, T> for RaceBehavior {
    type StoredItem = Infallible;
    spec fn decide(idx: usize, res: T) -> ControlFlow<T, Infallible> { ControlFlow::Break(res) }
    proof fn keeping(idx: usize, res: T, item: Infallible) {}
//@fn tr RaceBehavior::TupleMaybeReturn::maybe_return
//@endfn
}
impl<S, O> TupleWhenCompleted<S, O> for RaceBehavior {
    spec fn combined(o: O, s: S) -> bool { false }
//@fn tr RaceBehavior::TupleWhenCompleted::when_completed
//@endfn
}
impl<T, E, AggE> TupleMaybeReturn<Result<T, E>, Result<T, AggE>> for RaceOkBehavior {
    type StoredItem = E;
    spec fn decide(idx: usize, res: Result<T, E>) -> ControlFlow<Result<T, AggE>, E> { match res { Ok(t) => ControlFlow::Break(Ok(t)), Err(e) => ControlFlow::Continue(e) } }
    proof fn keeping(idx: usize, res: Result<T, E>, item: E) {}
//@fn tro RaceOkBehavior::TupleMaybeReturn::maybe_return
//@endfn
}
impl<T, AggE> TupleWhenCompleted<AggE, Result<T, AggE>> for RaceOkBehavior {
    spec fn combined(o: Result<T, AggE>, s: AggE) -> bool { o == Err::<T, AggE>(s) }
//@fn tro RaceOkBehavior::TupleWhenCompleted::when_completed
//@endfn
}
} // verus!
