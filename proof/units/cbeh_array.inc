//@file bja async_ui_web_core/src/combinators/join/array.rs
verus! {
struct JoinBehavior;
impl<O, const N: usize> CombinatorBehaviorArray<O, N> for JoinBehavior {
    type Output = [O; N];
    type StoredItem = O;
    spec fn pends() -> bool { false }
//@const bja JoinBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: O) -> ControlFlow<Self::Output, Self::StoredItem> { ControlFlow::Continue(res) }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { o@ == items }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { true }
    proof fn can_complete(outs: Seq<O>, items: Seq<Self::StoredItem>) {
    }
//@fn bja JoinBehavior::CombinatorBehaviorArray::maybe_return
//@opt type=<Fut as Future>::Output->O
//@endfn
//@fn bja JoinBehavior::CombinatorBehaviorArray::when_completed
//@endfn
}
} // verus!
//@file btja async_ui_web_core/src/combinators/try_join/array.rs
verus! {
struct TryJoinBehavior;
impl<T, E, const N: usize> CombinatorBehaviorArray<Result<T, E>, N> for TryJoinBehavior {
    type Output = Result<[T; N], E>;
    type StoredItem = T;
    spec fn pends() -> bool { false }
//@const btja TryJoinBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: Result<T, E>) -> ControlFlow<Self::Output, Self::StoredItem> { match res { Ok(v) => ControlFlow::Continue(v), Err(e) => ControlFlow::Break(Err(e)) } }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { o is Ok && o->Ok_0@ == items }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { true }
    proof fn can_complete(outs: Seq<Result<T, E>>, items: Seq<Self::StoredItem>) {
    }
//@fn btja TryJoinBehavior::CombinatorBehaviorArray::maybe_return
//@opt type=<Fut as Future>::Output->Result<T, E>
//@endfn
//@fn btja TryJoinBehavior::CombinatorBehaviorArray::when_completed
//@endfn
}
} // verus!
//@file bra async_ui_web_core/src/combinators/race/array.rs
verus! {
struct RaceBehavior;
impl<O, const N: usize> CombinatorBehaviorArray<O, N> for RaceBehavior {
    type Output = O;
    type StoredItem = Infallible;
    spec fn pends() -> bool { true }
//@const bra RaceBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: O) -> ControlFlow<Self::Output, Self::StoredItem> { ControlFlow::Break(res) }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { false }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { false }
    proof fn can_complete(outs: Seq<O>, items: Seq<Self::StoredItem>) {
        if outs.len() > 0 { assert(<Self as CombinatorBehaviorArray<O, N>>::decide(0, outs[0]) is Continue); }
    }
//@fn bra RaceBehavior::CombinatorBehaviorArray::maybe_return
//@opt type=<Fut as Future>::Output->O
//@endfn
//@fn bra RaceBehavior::CombinatorBehaviorArray::when_completed
//@endfn
}
} // verus!
//@file broa async_ui_web_core/src/combinators/race_ok/array.rs
verus! {
struct RaceOkBehavior;
impl<T, E, const N: usize> CombinatorBehaviorArray<Result<T, E>, N> for RaceOkBehavior {
    type Output = Result<T, [E; N]>;
    type StoredItem = E;
    spec fn pends() -> bool { false }
//@const broa RaceOkBehavior::PEND_IF_EMPTY
//@opt asfn=();; name=pend_if_empty
//@endfn
    spec fn decide(idx: usize, res: Result<T, E>) -> ControlFlow<Self::Output, Self::StoredItem> { match res { Ok(v) => ControlFlow::Break(Ok(v)), Err(e) => ControlFlow::Continue(e) } }
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool { o is Err && o->Err_0@ == items }
    spec fn completes(items: Seq<Self::StoredItem>) -> bool { true }
    proof fn can_complete(outs: Seq<Result<T, E>>, items: Seq<Self::StoredItem>) {
    }
//@fn broa RaceOkBehavior::CombinatorBehaviorArray::maybe_return
//@opt type=<Fut as Future>::Output->Result<T, E>
//@endfn
//@fn broa RaceOkBehavior::CombinatorBehaviorArray::when_completed
//@endfn
}
} // verus!
