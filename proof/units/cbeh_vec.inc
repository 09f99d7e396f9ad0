//@file bjv async_ui_web_core/src/combinators/join/vec.rs
verus! {
struct JoinBehavior;
impl<O> CombinatorBehaviorVec<O> for JoinBehavior {
    type Output = Vec<O>;
    type StoredItem = O;
    spec fn pends() -> bool { false }
//@const bjv JoinBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: O) -> ControlFlow<Self::Output, Self::StoredItem> { ControlFlow::Continue(res) }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { o@ == items }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { true }
    proof fn can_complete(outs: Seq<O>, items: Seq<Self::StoredItem>) {
    }
//@fn bjv JoinBehavior::CombinatorBehaviorVec::maybe_return
//@opt type=<Fut as Future>::Output->O
//@endfn
//@fn bjv JoinBehavior::CombinatorBehaviorVec::when_completed
//@endfn
}
} // verus!
//@file btjv async_ui_web_core/src/combinators/try_join/vec.rs
verus! {
struct TryJoinBehavior;
impl<T, E> CombinatorBehaviorVec<Result<T, E>> for TryJoinBehavior {
    type Output = Result<Vec<T>, E>;
    type StoredItem = T;
    spec fn pends() -> bool { false }
//@const btjv TryJoinBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: Result<T, E>) -> ControlFlow<Self::Output, Self::StoredItem> { match res { Ok(v) => ControlFlow::Continue(v), Err(e) => ControlFlow::Break(Err(e)) } }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { o is Ok && o->Ok_0@ == items }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { true }
    proof fn can_complete(outs: Seq<Result<T, E>>, items: Seq<Self::StoredItem>) {
    }
//@fn btjv TryJoinBehavior::CombinatorBehaviorVec::maybe_return
//@opt type=<Fut as Future>::Output->Result<T, E>
//@endfn
//@fn btjv TryJoinBehavior::CombinatorBehaviorVec::when_completed
//@endfn
}
} // verus!
//@file brv async_ui_web_core/src/combinators/race/vec.rs
verus! {
struct RaceBehavior;
impl<O> CombinatorBehaviorVec<O> for RaceBehavior {
    type Output = O;
    type StoredItem = Infallible;
    spec fn pends() -> bool { true }
//@const brv RaceBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: O) -> ControlFlow<Self::Output, Self::StoredItem> { ControlFlow::Break(res) }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { false }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { false }
    proof fn can_complete(outs: Seq<O>, items: Seq<Self::StoredItem>) {
        if outs.len() > 0 { assert(<Self as CombinatorBehaviorVec<O>>::decide(0, outs[0]) is Continue); }
    }
//@fn brv RaceBehavior::CombinatorBehaviorVec::maybe_return
//@opt type=<Fut as Future>::Output->O
//@endfn
//@fn brv RaceBehavior::CombinatorBehaviorVec::when_completed
//@endfn
}
} // verus!
//@file brov async_ui_web_core/src/combinators/race_ok/vec.rs
verus! {
struct RaceOkBehavior;
impl<T, E> CombinatorBehaviorVec<Result<T, E>> for RaceOkBehavior {
    type Output = Result<T, Vec<E>>;
    type StoredItem = E;
    spec fn pends() -> bool { false }
//@const brov RaceOkBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: Result<T, E>) -> ControlFlow<Self::Output, Self::StoredItem> { match res { Ok(v) => ControlFlow::Break(Ok(v)), Err(e) => ControlFlow::Continue(e) } }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { o is Err && o->Err_0@ == items }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { true }
    proof fn can_complete(outs: Seq<Result<T, E>>, items: Seq<Self::StoredItem>) {
    }
//@fn brov RaceOkBehavior::CombinatorBehaviorVec::maybe_return
//@opt type=<Fut as Future>::Output->Result<T, E>
//@endfn
//@fn brov RaceOkBehavior::CombinatorBehaviorVec::when_completed
//@endfn
}
} // verus!
