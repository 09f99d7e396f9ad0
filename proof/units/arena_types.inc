//@file arena async_ui_internal_utils/src/wakers_arena.rs
verus! {
// ======== async_ui_internal_utils::wakers_arena ========
pub struct AG {
    /// sublist head -> its slots in order
    pub lists: Map<int, Seq<int>>,
    /// the free chain after the head 0
    pub free: Seq<int>,
    /// node -> head of the list it is in (0: free, -1: in none)
    pub own: Seq<int>,
}
//@struct arena Item
//@endfn
//@struct arena WakerSlot
//@endfn
//@struct arena WakersSublist
//@endfn
//@struct arena WakersArena
//@opt addfield=g: Ghost<AG>
//@endfn

/// the i-th of the nodes s in the circular list with head h
#[verifier::opaque]
spec fn at(h: int, s: Seq<int>, i: int) -> int { if 0 <= i < s.len() { s[i] } else { h } }
proof fn at_def(h: int, s: Seq<int>, i: int)
    ensures at(h, s, i) == (if 0 <= i < s.len() { s[i] } else { h }),
{ reveal(at); }
spec fn ring(items: Seq<Item>, h: int, s: Seq<int>) -> bool {
    &&& items[h].next == at(h, s, 0)
    &&& items[h].prev == at(h, s, s.len() - 1)
    &&& forall|i: int| 0 <= i < s.len() ==> items[#[trigger] s[i]].next == at(h, s, i + 1) && items[s[i]].prev == at(h, s, i - 1)
}
spec fn chain(items: Seq<Item>, s: Seq<int>) -> bool {
    &&& items[0].next == at(0, s, 0)
    &&& s.len() > 0 ==> items[s[0]].prev == 0
    &&& forall|i: int| 0 <= i < s.len() ==> items[#[trigger] s[i]].next == at(0, s, i + 1)
}
impl WakersArena {
    spec fn lists(&self) -> Map<int, Seq<int>> { self.g@.lists }
    spec fn task(&self, slot: int) -> int { self.items@[slot].waker.task() }
    /// the tasks registered in a list, in order
    spec fn tasks(&self, h: int) -> Seq<int> { self.lists()[h].map_values(|s: int| self.task(s)) }
    /// slot is in some list
    spec fn live(&self, slot: int) -> bool {
        &&& 0 <= slot < self.g@.own.len()
        &&& self.lists().contains_key(self.g@.own[slot])
        &&& self.lists()[self.g@.own[slot]].contains(slot)
    }
    /// the list a live slot is in
    spec fn list_of(&self, slot: int) -> int { self.g@.own[slot] }
    /// the list without the slot
    spec fn without(&self, slot: int) -> Seq<int> {
        let s = self.lists()[self.list_of(slot)];
        s.remove(s.index_of(slot))
    }
    spec fn wf(&self) -> bool {
        let n = self.items@.len();
        let g = self.g@;
        &&& n >= 2
        &&& chain(self.items@, g.free)
        &&& forall|i: int| 0 <= i < g.free.len() ==> 0 < #[trigger] g.free[i] < n && g.own[g.free[i]] == 0
        &&& forall|i: int| 0 <= i < g.free.len() ==> self.task(#[trigger] g.free[i]) == no_task()
        &&& g.own.len() == n && g.own[0] == 0
        &&& g.free.no_duplicates()
        &&& forall|h: int| #[trigger] g.lists.dom().contains(h) ==> self.list_wf(h)
    }
    spec fn list_wf(&self, h: int) -> bool {
        let n = self.items@.len();
        let g = self.g@;
        let s = g.lists[h];
        &&& 0 < h < n
        &&& g.own[h] == h
        &&& self.task(h) == no_task()
        &&& ring(self.items@, h, s)
        &&& s.no_duplicates()
        &&& !s.contains(h)
        &&& forall|i: int| 0 <= i < s.len() ==> 0 < #[trigger] s[i] < n && g.own[s[i]] == h
    }
}

/// what the closure of WakersArena::iter captures, and how far it is
struct WakersIter<'s> { arena: &'s WakersArena, head: usize, index: usize, pos: Ghost<int> }
impl<'s> WakersIter<'s> {
    spec fn seq(&self) -> Seq<int> { self.arena.lists()[self.head as int] }
    spec fn wf(&self) -> bool {
        &&& self.arena.wf()
        &&& self.arena.lists().contains_key(self.head as int)
        &&& 0 <= self.pos@ <= self.seq().len()
        &&& self.index == at(self.head as int, self.seq(), self.pos@)
    }
}
} // verus!
