verus! {
// ======== std slice/Vec/bitvec operations outside vstd, written out (bitvec's BitVec is read as Vec<bool>) ========
pub fn vx_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@ == Seq::new(n as nat, |i: int| x),
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@ =~= Seq::new(i as nat, |i: int| x),
        decreases n - i,
    { v.push(x); i = i + 1; }
    v
}
/// (a..b).collect()
pub fn vx_range_vec(a: usize, b: usize) -> (r: Vec<usize>)
    ensures a <= b ==> r@ == Seq::new((b - a) as nat, |i: int| (a + i) as usize), a > b ==> r@.len() == 0,
{
    let mut v: Vec<usize> = Vec::new();
    let mut i: usize = a;
    while i < b
        invariant a <= b ==> a <= i <= b && v@ =~= Seq::new((i - a) as nat, |k: int| (a + k) as usize), a > b ==> v@.len() == 0 && i == a,
        decreases b - i,
    { v.push(i); i = i + 1; }
    v
}
/// core::array::from_fn(core::convert::identity)
pub fn vx_from_fn_identity<const N: usize>() -> (r: [usize; N])
    ensures r@ == Seq::new(N as nat, |i: int| i as usize),
{
    let mut a = [0usize; N];
    let mut i: usize = 0;
    while i < N
        invariant i <= N, forall|k: int| 0 <= k < i ==> a@[k] == k,
        decreases N - i,
    { a[i] = i; i = i + 1; }
    assert(a@ =~= Seq::new(N as nat, |i: int| i as usize));
    a
}
pub trait VxFill<T> { fn vx_fill(&mut self, x: T); }
impl<T: Copy, const N: usize> VxFill<T> for [T; N] {
    fn vx_fill(&mut self, x: T)
        ensures final(self)@ == Seq::new(N as nat, |i: int| x),
    {
        let mut i: usize = 0;
        while i < N
            invariant i <= N, forall|k: int| 0 <= k < i ==> self@[k] == x,
            decreases N - i,
        { self[i] = x; i = i + 1; }
        assert(self@ =~= Seq::new(N as nat, |i: int| x));
    }
}
impl<T: Copy> VxFill<T> for Vec<T> {
    fn vx_fill(&mut self, x: T)
        ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| x),
    {
        let n = self.len();
        let mut i: usize = 0;
        while i < n
            invariant i <= n, self@.len() == n, n == old(self)@.len(), forall|k: int| 0 <= k < i ==> self@[k] == x,
            decreases n - i,
        { self[i] = x; i = i + 1; }
        assert(self@ =~= Seq::new(n as nat, |i: int| x));
    }
}
pub trait VxBits {
    spec fn vx_n(&self) -> nat;
    fn vx_set(&mut self, i: usize, b: bool)
        requires i < old(self).vx_n();
    fn vx_replace(&mut self, i: usize, b: bool) -> bool
        requires i < old(self).vx_n();
}
impl VxBits for Vec<bool> {
    open spec fn vx_n(&self) -> nat { self@.len() }
    fn vx_set(&mut self, i: usize, b: bool)
        ensures final(self)@ == old(self)@.update(i as int, b),
    { self[i] = b; }
    fn vx_replace(&mut self, i: usize, b: bool) -> (r: bool)
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, b),
    { let r = self[i]; self[i] = b; r }
}
/// slice::iter over an array
pub struct AIter<'a, T, const N: usize> { pub v: &'a [T; N], pub i: usize, pub e: usize }
impl<'a, T, const N: usize> AIter<'a, T, N> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).e <= N,
        ensures
            final(self).v == old(self).v, final(self).e == old(self).e,
            old(self).i < old(self).e ==> r == Some(&old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).e ==> r.is_none() && final(self).i == old(self).i,
    {
        if self.i < self.e { let r = &self.v[self.i]; self.i = self.i + 1; Some(r) } else { None }
    }
    pub fn take(self, n: usize) -> (r: Self)
        requires self.i <= self.e <= N,
        ensures r.v == self.v, r.i == self.i, r.e == if n < self.e - self.i { (self.i + n) as usize } else { self.e },
    {
        AIter { v: self.v, i: self.i, e: if n < self.e - self.i { self.i + n } else { self.e } }
    }
}
pub fn vx_array_iter<'a, T, const N: usize>(v: &'a [T; N]) -> (r: AIter<'a, T, N>)
    ensures r.v == v, r.i == 0, r.e == N,
{ AIter { v, i: 0, e: N } }
pub trait VxIter<'a> { type It; fn vx_iter(&'a self) -> Self::It; }
impl<'a, T: 'a, const N: usize> VxIter<'a> for [T; N] {
    type It = AIter<'a, T, N>;
    fn vx_iter(&'a self) -> (r: AIter<'a, T, N>)
        ensures r.v == self, r.i == 0, r.e == N,
    { AIter { v: self, i: 0, e: N } }
}
/// Vec::drain(..): the items are handed out in order and the vector is left empty
pub struct VDrain<T> { pub v: Ghost<Seq<T>>, pub i: Ghost<int>, pub rest: Vec<T> }
pub fn vx_drain<T>(v: &mut Vec<T>) -> (r: VDrain<T>)
    ensures final(v)@.len() == 0, r.v@ == old(v)@, r.i@ == 0, r.wf(),
{
    let ghost g = v@;
    let mut e: Vec<T> = Vec::new();
    std::mem::swap(&mut e, v);
    assert(g.skip(0) =~= g);
    VDrain { v: Ghost(g), i: Ghost(0), rest: e }
}
impl<T> VDrain<T> {
    pub open spec fn wf(&self) -> bool { 0 <= self.i@ <= self.v@.len() && self.rest@ == self.v@.skip(self.i@) }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures
            final(self).wf(), final(self).v == old(self).v,
            old(self).i@ < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i@]) && final(self).i@ == old(self).i@ + 1,
            old(self).i@ >= old(self).v@.len() ==> r.is_none() && final(self).i@ == old(self).i@,
    {
        if self.rest.len() > 0 {
            let x = self.rest.remove(0);
            proof { self.i = Ghost(self.i@ + 1); assert(self.rest@ =~= self.v@.skip(self.i@)); }
            Some(x)
        } else { None }
    }
}
} // verus!
verus! {
pub fn vx_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b { a } else { b },
{ if a < b { a } else { b } }
pub trait VxLen { spec fn vx_spec_len(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vx_spec_len(); }
impl<T, const N: usize> VxLen for [T; N] {
    open spec fn vx_spec_len(&self) -> nat { N as nat }
    fn vx_len(&self) -> usize { N }
}
impl<T> VxLen for Vec<T> {
    open spec fn vx_spec_len(&self) -> nat { self@.len() }
    fn vx_len(&self) -> usize { self.len() }
}
/// utils::pin::get_pin_mut and get_pin_mut_from_vec (slice::get_mut through a pin)
pub fn vx_get_pin<T, const N: usize>(a: &mut [T; N], i: usize) -> (r: Option<&mut T>)
    ensures
        i < N ==> r.is_some() && *r.unwrap() == old(a)@[i as int] && final(a)@ == old(a)@.update(i as int, *final(r.unwrap())),
        i >= N ==> r.is_none() && final(a)@ == old(a)@,
{ if i < N { Some(&mut a[i]) } else { None } }
pub fn vx_get_pin_vec<T>(a: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures
        i < old(a)@.len() ==> r.is_some() && *r.unwrap() == old(a)@[i as int] && final(a)@ == old(a)@.update(i as int, *final(r.unwrap())),
        i >= old(a)@.len() ==> r.is_none() && final(a)@ == old(a)@,
{ if i < a.len() { Some(&mut a[i]) } else { None } }
pub fn vx_array_get<T, const N: usize>(a: &[T; N], i: usize) -> (r: Option<&T>)
    ensures i < N ==> r == Some(&a@[i as int]), i >= N ==> r.is_none(),
{ if i < N { Some(&a[i]) } else { None } }
/// a[..n].copy_from_slice(s): panics unless the lengths agree
pub fn vx_copy_into<const N: usize>(a: &mut [usize; N], n: usize, s: &[usize])
    requires n <= N, s@.len() == n,
    ensures
        forall|i: int| 0 <= i < n ==> #[trigger] final(a)@[i] == s@[i],
        forall|i: int| n <= i < N ==> #[trigger] final(a)@[i] == old(a)@[i],
{
    let mut i: usize = 0;
    while i < n
        invariant i <= n <= N, s@.len() == n,
            forall|k: int| 0 <= k < i ==> #[trigger] a@[k] == s@[k],
            forall|k: int| i <= k < N ==> #[trigger] a@[k] == old(a)@[k],
        decreases n - i,
    { a[i] = s[i]; i = i + 1; }
}
/// a panic: nothing after it runs
#[verifier::external_body]
pub fn vx_panic() -> !
    ensures false,
{ panic!() }
/// Vec<usize>::clone_from(slice)
pub fn vx_clone_into(a: &mut Vec<usize>, s: &[usize])
    ensures final(a)@ == s@,
{
    a.clear();
    let n = s.len();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == s@.len(), a@ =~= s@.take(i as int),
        decreases n - i,
    { a.push(s[i]); i = i + 1; }
}
/// core::mem::take on a vector
pub fn vx_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@.len() == 0,
{
    let mut e: Vec<T> = Vec::new();
    std::mem::swap(&mut e, v);
    e
}
} // verus!
