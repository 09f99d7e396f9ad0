verus! {
// ======== what a path is ========
trait Path: Sized {
    type Base;
    type Out;
    /// the data it names, if it exists
    spec fn at(&self, s: Self::Base) -> Option<Self::Out>;
    /// whether it can be borrowed mutably
    spec fn open(&self, s: Self::Base) -> bool;
    /// the store with that data replaced
    spec fn put(&self, s: Self::Base, x: Self::Out) -> Self::Base;
    proof fn laws(&self, s: Self::Base, x: Self::Out, y: Self::Out)
        ensures
            self.open(s) ==> self.at(s) is Some,
            self.open(s) ==> self.open(self.put(s, x)) && self.at(self.put(s, x)) == Some(x),
            self.open(s) ==> self.put(s, self.at(s).unwrap()) == s,
            self.open(s) ==> self.put(self.put(s, x), y) == self.put(s, y);
    fn path_borrow<'b>(&self, root: &'b Self::Base) -> (r: Option<&'b Self::Out>)
        ensures
            r is Some <==> self.at(*root) is Some,
            r is Some ==> *r.unwrap() == self.at(*root).unwrap();
    fn path_borrow_mut<'b>(&self, root: &'b mut Self::Base) -> (r: Option<&'b mut Self::Out>)
        ensures
            r is Some <==> self.open(*old(root)),
            r is Some ==> self.at(*old(root)) == Some(*r.unwrap()) && *final(root) == self.put(*old(root), *final(r.unwrap())),
            r is None ==> *final(root) == *old(root);
}
} // verus!
