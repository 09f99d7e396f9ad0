//! X01/X02/X03: one random store and paths into it, against path-prefix and lens oracles.
use crate::core::*;
use crate::ensure;
use crate::util::CW;
use futures_core::Stream;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Context;
use x_bow::{IntoPath, Path, PathExt, PathExtGuaranteed, Store, Trackable};

type UntilChange<'a> = Pin<Box<dyn Stream<Item = ()> + 'a>>;

#[derive(Trackable, Clone, PartialEq, Debug, Default)]
#[track(deep)]
pub struct Node {
    #[track(skip)]
    pub skipped: i64,
    pub leaf: i64,
    pub list: Vec<Node>,
    pub map: HashMap<String, Node>,
    pub opt: Option<Box<Node>>,
    pub rc: Option<Rc<Node>>,
    pub tup: (i64, Option<Rc<Node>>, i64),
    pub en: En,
    #[track(shallow)]
    pub sh: Vec<i64>,
    pub vv: Vec<Vec<i64>>,
    pub km: HashMap<(u8, i16), i64>,
    pub um: HashMap<(), i64>,
    pub ts: Ts<i64>,
    pub tn: Tn,
}
#[derive(Trackable, Clone, PartialEq, Debug, Default)]
#[track(deep)]
#[allow(non_camel_case_types)]
pub enum En {
    #[default]
    Nil,
    Tup(i64, Option<Box<Node>>, #[track(skip)] i64, i64),
    Rec { a: i64, b: Vec<Node>, c: i64 },
}
#[derive(Trackable, Clone, PartialEq, Debug, Default)]
#[track(deep)]
pub struct Ts<T>(pub T, #[track(skip)] pub T, pub T);
/// tuples of every size
#[derive(Trackable, Clone, PartialEq, Debug, Default)]
#[track(deep)]
pub struct Tn {
    pub n1: (i64,),
    pub n2: (i64, i64),
    pub n3: (i64, i64, i64),
    pub n4: (i64, i64, i64, i64),
    pub n5: (i64, i64, i64, i64, i64),
    pub n6: (i64, i64, i64, i64, i64, i64),
    pub n7: (i64, i64, i64, i64, i64, i64, i64),
    pub n8: (i64, i64, i64, i64, i64, i64, i64, i64),
    pub n9: (i64, i64, i64, i64, i64, i64, i64, i64, i64),
    pub n10: (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64),
    pub n11: (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64),
    pub n12: (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64, i64),
}
/// n (size, position): the tuple's field, the builder's name for it, its own index
macro_rules! tns {
    ($m:ident) => {
        $m! { 1 0 n1 t0; 2 0 n2 t0; 2 1 n2 t1; 3 0 n3 t0; 3 1 n3 t1; 3 2 n3 t2; 4 0 n4 t0; 4 1 n4 t1; 4 2 n4 t2; 4 3 n4 t3; 5 0 n5 t0; 5 1 n5 t1; 5 2 n5 t2; 5 3 n5 t3; 5 4 n5 t4; 6 0 n6 t0; 6 1 n6 t1; 6 2 n6 t2; 6 3 n6 t3; 6 4 n6 t4; 6 5 n6 t5; 7 0 n7 t0; 7 1 n7 t1; 7 2 n7 t2; 7 3 n7 t3; 7 4 n7 t4; 7 5 n7 t5; 7 6 n7 t6; 8 0 n8 t0; 8 1 n8 t1; 8 2 n8 t2; 8 3 n8 t3; 8 4 n8 t4; 8 5 n8 t5; 8 6 n8 t6; 8 7 n8 t7; 9 0 n9 t0; 9 1 n9 t1; 9 2 n9 t2; 9 3 n9 t3; 9 4 n9 t4; 9 5 n9 t5; 9 6 n9 t6; 9 7 n9 t7; 9 8 n9 t8; 10 0 n10 t0; 10 1 n10 t1; 10 2 n10 t2; 10 3 n10 t3; 10 4 n10 t4; 10 5 n10 t5; 10 6 n10 t6; 10 7 n10 t7; 10 8 n10 t8; 10 9 n10 t9; 11 0 n11 t0; 11 1 n11 t1; 11 2 n11 t2; 11 3 n11 t3; 11 4 n11 t4; 11 5 n11 t5; 11 6 n11 t6; 11 7 n11 t7; 11 8 n11 t8; 11 9 n11 t9; 11 10 n11 t10; 12 0 n12 t0; 12 1 n12 t1; 12 2 n12 t2; 12 3 n12 t3; 12 4 n12 t4; 12 5 n12 t5; 12 6 n12 t6; 12 7 n12 t7; 12 8 n12 t8; 12 9 n12 t9; 12 10 n12 t10; 12 11 n12 t11; }
    };
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    F(u8),
    Ix(usize),
    Key(String),
    Kk(u8, i16),
    Unit,
    Content,
    /// a member of one of the tuples of Tn, both steps at once
    Tn(u8, u8),
}

type D<'s, T> = Rc<dyn Path<Out = T> + 's>;
macro_rules! kinds {
    ($m:ident) => {
        $m! { N Node, I i64, L Vec<Node>, M HashMap<String, Node>, OB Option<Box<Node>>, B Box<Node>, OR Option<Rc<Node>>, R Rc<Node>,
              T (i64, Option<Rc<Node>>, i64), E En, VI Vec<i64>, VV Vec<Vec<i64>>, KM HashMap<(u8, i16), i64>, UM HashMap<(), i64>, TS Ts<i64>, TN Tn }
    };
}
macro_rules! decl {
    ($($k:ident $t:ty),*) => {
        #[derive(Clone)]
        pub enum Any<'s> { $($k(D<'s, $t>)),* }
        #[derive(Clone, PartialEq, Debug)]
        pub enum Val { $($k($t)),* }
        pub enum RefM<'a> { $($k(&'a mut $t)),* }
        impl<'a> RefM<'a> {
            fn val(&self) -> Val { match self { $(RefM::$k(x) => Val::$k((**x).clone())),* } }
            fn set(self, v: Val) { match (self, v) { $((RefM::$k(x), Val::$k(v)) => *x = v,)* _ => panic!("kind") } }
        }
        impl<'s> Any<'s> {
            fn get(&self) -> Option<Val> { match self { $(Any::$k(p) => p.get_opt().map(Val::$k)),* } }
            fn borrow_clone(&self) -> Option<Val> { match self { $(Any::$k(p) => p.borrow_opt().map(|r| Val::$k((*r).clone()))),* } }
            fn borrow_mut_clone(&self) -> Option<Val> { match self { $(Any::$k(p) => p.borrow_opt_mut_without_notifying().map(|r| Val::$k((*r).clone()))),* } }
            fn set(&self, v: Val) -> Result<(), Val> { match (self, v) { $((Any::$k(p), Val::$k(v)) => p.set_opt(v).map_err(Val::$k),)* _ => panic!("kind") } }
            /// how: 0 notifying guard, 1 guard without notifying, 2 through a reference path, 3 through a box
            fn write(&self, v: Val, how: usize) -> bool { match (self, v) { $((Any::$k(p), Val::$k(v)) => match how {
                0 => match p.borrow_opt_mut() { Some(mut g) => { *g = v; let _ = &*g; true } None => false },
                1 => match p.borrow_opt_mut_without_notifying() { Some(mut g) => { *g = v; true } None => false },
                2 => match p.as_ref_path().borrow_opt_mut() { Some(mut g) => { *g = v; true } None => false },
                _ => { let b: Box<dyn Path<Out = $t> + '_> = Box::new(p.clone()); let r = match b.borrow_opt_mut() { Some(mut g) => { *g = v; true } None => false }; r }
            },)* _ => panic!("kind") } }
            fn notify(&self) { match self { $(Any::$k(p) => p.notify_changed()),* } }
            fn until<'a>(&'a self) -> UntilChange<'a> { match self { $(Any::$k(p) => Box::pin(p.until_change()) as UntilChange<'a>),* } }
            fn until_bubbling<'a>(&'a self) -> UntilChange<'a> { match self { $(Any::$k(p) => Box::pin(p.until_bubbling_change()) as UntilChange<'a>),* } }
            pub fn kind(&self) -> usize { let mut i = 0; $( if matches!(self, Any::$k(_)) { return i; } i += 1; )* i }
        }
        fn gen_val(k: usize, s: &mut Src, depth: usize) -> Val {
            let mut i = 0;
            $( if k == i { return Val::$k(<$t as Gen>::gen(s, depth)); } i += 1; )*
            let _ = i; unreachable!()
        }
    };
}
kinds!(decl);

trait Gen {
    fn gen(s: &mut Src, d: usize) -> Self;
}
impl Gen for i64 {
    fn gen(s: &mut Src, _: usize) -> i64 {
        s.pick(10) as i64
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if d == 0 {
            return vec![];
        }
        (0..s.pick(4)).map(|_| T::gen(s, d - 1)).collect()
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if d == 0 || s.pick(3) == 0 {
            None
        } else {
            Some(T::gen(s, d - 1))
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        Box::new(T::gen(s, d))
    }
}
impl<T: Gen> Gen for Rc<T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        Rc::new(T::gen(s, d))
    }
}
impl Gen for String {
    fn gen(s: &mut Src, _: usize) -> Self {
        ["", "a", "b", "ab"][s.pick(4)].to_string()
    }
}
impl<T: Gen> Gen for HashMap<String, T> {
    fn gen(s: &mut Src, d: usize) -> Self {
        if d == 0 {
            return HashMap::new();
        }
        (0..s.pick(4)).map(|_| (String::gen(s, 0), T::gen(s, d - 1))).collect()
    }
}
impl Gen for HashMap<(u8, i16), i64> {
    fn gen(s: &mut Src, _: usize) -> Self {
        (0..s.pick(3)).map(|_| ((s.pick(2) as u8, s.pick(2) as i16), s.pick(10) as i64)).collect()
    }
}
impl Gen for HashMap<(), i64> {
    fn gen(s: &mut Src, _: usize) -> Self {
        (0..s.pick(2)).map(|_| ((), s.pick(10) as i64)).collect()
    }
}
impl Gen for (i64, Option<Rc<Node>>, i64) {
    fn gen(s: &mut Src, d: usize) -> Self {
        (i64::gen(s, 0), Gen::gen(s, d), i64::gen(s, 0))
    }
}
impl Gen for En {
    fn gen(s: &mut Src, d: usize) -> Self {
        match s.pick(3) {
            0 => En::Nil,
            1 => En::Tup(i64::gen(s, 0), Gen::gen(s, d), 7, i64::gen(s, 0)),
            _ => En::Rec { a: i64::gen(s, 0), b: Gen::gen(s, d), c: i64::gen(s, 0) },
        }
    }
}
impl Gen for Ts<i64> {
    fn gen(s: &mut Src, _: usize) -> Self {
        Ts(s.pick(10) as i64, 7, s.pick(10) as i64)
    }
}
impl Gen for Tn {
    fn gen(s: &mut Src, _: usize) -> Self {
        let mut t = Tn::default();
        let mut n = s.pick(5) as i64;
        macro_rules! f { ($($k:tt $j:tt $f:ident $m:ident;)*) => { $( t.$f.$j = n; n += 1; )* } }
        tns!(f);
        let _ = n;
        t
    }
}
impl Gen for Node {
    fn gen(s: &mut Src, d: usize) -> Self {
        if d == 0 {
            return Node { leaf: s.pick(10) as i64, ..Default::default() };
        }
        Node {
            skipped: 7,
            leaf: Gen::gen(s, d - 1),
            list: Gen::gen(s, d - 1),
            map: Gen::gen(s, d - 1),
            opt: Gen::gen(s, d - 1),
            rc: Gen::gen(s, d - 1),
            tup: Gen::gen(s, d - 1),
            en: Gen::gen(s, d - 1),
            sh: Gen::gen(s, 1),
            vv: Gen::gen(s, 2),
            km: Gen::gen(s, 1),
            um: Gen::gen(s, 1),
            ts: Gen::gen(s, 1),
            tn: Gen::gen(s, 1),
        }
    }
}
/// structural copy that shares no reference-counted box
fn deep_node(n: &Node) -> Node {
    Node {
        skipped: n.skipped,
        leaf: n.leaf,
        list: n.list.iter().map(deep_node).collect(),
        map: n.map.iter().map(|(k, v)| (k.clone(), deep_node(v))).collect(),
        opt: n.opt.as_ref().map(|x| Box::new(deep_node(x))),
        rc: deep_or(&n.rc),
        tup: (n.tup.0, deep_or(&n.tup.1), n.tup.2),
        en: deep_en(&n.en),
        sh: n.sh.clone(),
        vv: n.vv.clone(),
        km: n.km.clone(),
        um: n.um.clone(),
        ts: n.ts.clone(),
        tn: n.tn.clone(),
    }
}
fn deep_or(x: &Option<Rc<Node>>) -> Option<Rc<Node>> {
    x.as_ref().map(|x| Rc::new(deep_node(x)))
}
fn deep_en(e: &En) -> En {
    match e {
        En::Nil => En::Nil,
        En::Tup(a, b, k, c) => En::Tup(*a, b.as_ref().map(|x| Box::new(deep_node(x))), *k, *c),
        En::Rec { a, b, c } => En::Rec { a: *a, b: b.iter().map(deep_node).collect(), c: *c },
    }
}
fn deep(v: &Val) -> Val {
    match v {
        Val::N(n) => Val::N(deep_node(n)),
        Val::L(l) => Val::L(l.iter().map(deep_node).collect()),
        Val::M(m) => Val::M(m.iter().map(|(k, v)| (k.clone(), deep_node(v))).collect()),
        Val::OB(o) => Val::OB(o.as_ref().map(|x| Box::new(deep_node(x)))),
        Val::B(x) => Val::B(Box::new(deep_node(x))),
        Val::OR(o) => Val::OR(deep_or(o)),
        Val::R(x) => Val::R(Rc::new(deep_node(x))),
        Val::T(t) => Val::T((t.0, deep_or(&t.1), t.2)),
        Val::E(e) => Val::E(deep_en(e)),
        o => o.clone(),
    }
}

/// Oracle: walk the model by hand. `mutate`: shared reference-counted content is out of reach.
fn nav<'a>(n: &'a mut Node, segs: &[Seg], mutate: bool) -> Option<RefM<'a>> {
    let mut cur = RefM::N(n);
    for g in segs {
        cur = match (cur, g) {
            (RefM::N(n), Seg::F(f)) => match f {
                0 => RefM::I(&mut n.leaf),
                1 => RefM::L(&mut n.list),
                2 => RefM::M(&mut n.map),
                3 => RefM::OB(&mut n.opt),
                4 => RefM::OR(&mut n.rc),
                5 => RefM::T(&mut n.tup),
                6 => RefM::E(&mut n.en),
                7 => RefM::VI(&mut n.sh),
                8 => RefM::VV(&mut n.vv),
                9 => RefM::KM(&mut n.km),
                10 => RefM::UM(&mut n.um),
                11 => RefM::TS(&mut n.ts),
                _ => RefM::TN(&mut n.tn),
            },
            (RefM::L(l), Seg::Ix(i)) => RefM::N(l.get_mut(*i)?),
            (RefM::VV(l), Seg::Ix(i)) => RefM::VI(l.get_mut(*i)?),
            (RefM::VI(l), Seg::Ix(i)) => RefM::I(l.get_mut(*i)?),
            (RefM::M(m), Seg::Key(k)) => RefM::N(m.get_mut(k)?),
            (RefM::KM(m), Seg::Kk(a, b)) => RefM::I(m.get_mut(&(*a, *b))?),
            (RefM::UM(m), Seg::Unit) => RefM::I(m.get_mut(&())?),
            (RefM::OB(o), Seg::F(_)) => RefM::B(o.as_mut()?),
            (RefM::OR(o), Seg::F(_)) => RefM::R(o.as_mut()?),
            (RefM::B(b), Seg::Content) => RefM::N(&mut **b),
            (RefM::R(r), Seg::Content) => {
                if mutate {
                    RefM::N(Rc::get_mut(r)?)
                } else {
                    // reading never mutates; the model is only inspected
                    RefM::N(unsafe { &mut *(Rc::as_ptr(r) as *mut Node) })
                }
            }
            (RefM::T(t), Seg::F(f)) => match f {
                0 => RefM::I(&mut t.0),
                1 => RefM::OR(&mut t.1),
                _ => RefM::I(&mut t.2),
            },
            (RefM::TS(t), Seg::F(f)) => RefM::I(if *f == 0 { &mut t.0 } else { &mut t.2 }),
            (RefM::TN(t), Seg::Tn(k, j)) => {
                macro_rules! f { ($($k:tt $j:tt $f:ident $m:ident;)*) => { match (*k, *j) { $( ($k, $j) => RefM::I(&mut t.$f.$j), )* _ => panic!("tuple") } } }
                tns!(f)
            }
            (RefM::E(e), Seg::F(f)) => match (e, f) {
                (En::Tup(a, _, _, _), 0) => RefM::I(a),
                (En::Tup(_, a, _, _), 1) => RefM::OB(a),
                (En::Tup(_, _, _, a), 2) => RefM::I(a),
                (En::Rec { a, .. }, 3) => RefM::I(a),
                (En::Rec { b, .. }, 4) => RefM::L(b),
                (En::Rec { c, .. }, 5) => RefM::I(c),
                _ => return None,
            },
            _ => panic!("bad oracle path"),
        };
    }
    Some(cur)
}

macro_rules! st {
    ($k:ident, $e:expr) => {
        Any::$k(Rc::new($e.into_path()))
    };
}
/// now and then an index that only its high bits set apart
fn index(s: &mut Src) -> usize {
    s.pick(4) + [0, 0, 0, 0, 0, 0, 0, 1 << 8, 1 << 16, 1 << 32][s.pick(10)]
}
fn step<'s>(a: &Any<'s>, s: &mut Src) -> Option<(Seg, Any<'s>)> {
    Some(match a.clone() {
        Any::N(p) => {
            let b = p.build_path();
            let f = s.pick(13);
            let n = match f {
                0 => st!(I, b.leaf()),
                1 => st!(L, b.list()),
                2 => st!(M, b.map()),
                3 => st!(OB, b.opt()),
                4 => st!(OR, b.rc()),
                5 => st!(T, b.tup()),
                6 => st!(E, b.en()),
                7 => st!(VI, b.sh()),
                8 => st!(VV, b.vv()),
                9 => st!(KM, b.km()),
                10 => st!(UM, b.um()),
                11 => st!(TS, b.ts()),
                _ => st!(TN, b.tn()),
            };
            (Seg::F(f as u8), n)
        }
        Any::I(_) => return None,
        Any::L(p) => {
            let i = index(s);
            (Seg::Ix(i), st!(N, p.build_path().index(i)))
        }
        Any::VI(p) => {
            let i = index(s);
            (Seg::Ix(i), if s.flag() { st!(I, p.build_path().index(i)) } else { st!(I, p.build_path().index_shallow(i)) })
        }
        Any::VV(p) => {
            let i = index(s);
            (Seg::Ix(i), st!(VI, p.build_path().index(i)))
        }
        Any::M(p) => {
            let k = <String as Gen>::gen(s, 0);
            (Seg::Key(k.clone()), if s.flag() { st!(N, p.build_path().key(k)) } else { st!(N, p.build_path().key_shallow(k)) })
        }
        Any::KM(p) => {
            let k = (s.pick(2) as u8, s.pick(2) as i16);
            (Seg::Kk(k.0, k.1), st!(I, p.build_path().key(k)))
        }
        Any::UM(p) => (Seg::Unit, st!(I, p.build_path().key(()))),
        Any::OB(p) => (Seg::F(0), st!(B, p.build_path().Some_0())),
        Any::OR(p) => (Seg::F(0), st!(R, p.build_path().Some_0())),
        Any::B(p) => (Seg::Content, if s.flag() { st!(N, p.build_path().content()) } else { st!(N, p.build_path().content_shallow()) }),
        Any::R(p) => (Seg::Content, st!(N, p.build_path().content())),
        Any::T(p) => {
            let b = p.build_path();
            match s.pick(3) {
                0 => (Seg::F(0), st!(I, b.t0())),
                1 => (Seg::F(1), st!(OR, b.t1())),
                _ => (Seg::F(2), st!(I, b.t2())),
            }
        }
        Any::TS(p) => {
            let b = p.build_path();
            if s.flag() {
                (Seg::F(1), st!(I, b.t2()))
            } else {
                (Seg::F(0), st!(I, b.t0()))
            }
        }
        Any::TN(p) => {
            let k = 1 + s.pick(12);
            let j = s.pick(k);
            let b = p.build_path();
            macro_rules! f { ($($k:tt $j:tt $f:ident $m:ident;)*) => { match (k, j) { $( ($k, $j) => st!(I, b.$f().$m()), )* _ => unreachable!() } } }
            (Seg::Tn(k as u8, j as u8), tns!(f))
        }
        Any::E(p) => {
            let b = p.build_path();
            let f = s.pick(6);
            let n = match f {
                0 => st!(I, b.Tup_0()),
                1 => st!(OB, b.Tup_1()),
                2 => st!(I, b.Tup_3()),
                3 => st!(I, b.Rec_a()),
                4 => st!(L, b.Rec_b()),
                _ => st!(I, b.Rec_c()),
            };
            (Seg::F(f as u8), n)
        }
    })
}
/// a path that always has its data, used through PathExtGuaranteed
enum Sure<'a> {
    Get,
    Borrow,
    BorrowMut,
    Set(&'a Val),
    Write(&'a Val),
    WriteQuietly(&'a Val),
}
/// None if there is no such path here; what it read otherwise
fn sure(store: &Store<Node>, segs: &[Seg], op: Sure) -> Option<Val> {
    macro_rules! g {
        ($k:ident $($t:tt)*) => {{
            let p = store.build_path()$($t)*.into_path();
            let x = |v: &Val| match v { Val::$k(v) => v.clone(), _ => panic!("kind") };
            Some(Val::$k(match op {
                Sure::Get => p.get(),
                Sure::Borrow => (*p.borrow()).clone(),
                Sure::BorrowMut => (*p.borrow_mut_without_notifying()).clone(),
                Sure::Set(v) => { p.set(x(v)); x(v) }
                Sure::Write(v) => { let mut g = p.borrow_mut(); *g = x(v); (*g).clone() }
                Sure::WriteQuietly(v) => { let mut g = p.borrow_mut_without_notifying(); *g = x(v); (*g).clone() }
            }))
        }};
    }
    use Seg::F;
    match segs {
        [] => g!(N),
        [F(0)] => g!(I.leaf()),
        [F(1)] => g!(L.list()),
        [F(2)] => g!(M.map()),
        [F(3)] => g!(OB.opt()),
        [F(4)] => g!(OR.rc()),
        [F(5)] => g!(T.tup()),
        [F(6)] => g!(E.en()),
        [F(7)] => g!(VI.sh()),
        [F(8)] => g!(VV.vv()),
        [F(9)] => g!(KM.km()),
        [F(10)] => g!(UM.um()),
        [F(11)] => g!(TS.ts()),
        [F(11), F(0)] => g!(I.ts().t0()),
        [F(11), F(1)] => g!(I.ts().t2()),
        [F(12)] => g!(TN.tn()),
        [F(12), Seg::Tn(12, 11)] => g!(I.tn().n12().t11()),
        [F(12), Seg::Tn(4, 1)] => g!(I.tn().n4().t1()),
        _ => None,
    }
}
fn show(g: &[Seg]) -> String {
    if g.len() > 30 {
        return format!("/deep({})", g.len());
    }
    let mut o = String::from("root");
    for x in g {
        o += &match x {
            Seg::F(f) => format!(".{f}"),
            Seg::Ix(i) => format!("[{i}]"),
            Seg::Key(k) => format!("[{k:?}]"),
            Seg::Kk(a, b) => format!("[({a},{b})]"),
            Seg::Unit => "[()]".into(),
            Seg::Content => ".*".into(),
            Seg::Tn(k, j) => format!(".n{k}.{j}"),
        };
    }
    o
}

#[derive(PartialEq, Clone, Copy)]
enum Which {
    Reg,
    Bub,
    Lens,
}
pub fn x01(s: &mut Src) -> Result<(), String> {
    run(s, Which::Reg)
}
pub fn x02(s: &mut Src) -> Result<(), String> {
    run(s, Which::Bub)
}
pub fn x03(s: &mut Src) -> Result<(), String> {
    run(s, Which::Lens)
}

struct PathRec<'s> {
    segs: Vec<Seg>,
    any: Any<'s>,
}
struct Strm<'a> {
    id: usize,
    path: usize,
    bubbling: bool,
    u: UntilChange<'a>,
    waker: CW,
    polled: bool,
    fired: bool,
}

const MANY: [usize; 9] = [1, 2, 7, 15, 126, 127, 254, 255, 65535];
fn run(s: &mut Src, which: Which) -> Result<(), String> {
    let small = s.size == 0;
    let depth = if small { 1 } else { 1 + s.pick(3) };
    let mut model: Node = Gen::gen(s, depth);
    let store = Store::new(deep_node(&model));
    let root: Any<'_> = Any::N(Rc::new(store.build_path().into_path()));
    // a family of related paths
    let mut paths: Vec<PathRec> = vec![PathRec { segs: vec![], any: root.clone() }];
    let np = if small { 3 } else { 3 + s.pick(12) };
    for _ in 0..np {
        let from = s.pick(paths.len());
        let (mut segs, mut any) = (paths[from].segs.clone(), paths[from].any.clone());
        let n = if !small && s.rare(40) { 60 + s.pick(300) } else { 1 + s.pick(3) };
        for _ in 0..n {
            if n > 10 {
                // long chain through option/box content
                if let Any::N(p) = &any {
                    any = st!(OB, p.clone().build_path().opt());
                    segs.push(Seg::F(3));
                    continue;
                }
            }
            match step(&any, s) {
                Some((g, a)) => {
                    segs.push(g);
                    any = a;
                }
                None => break,
            }
        }
        paths.push(PathRec { segs, any });
    }
    for (i, p) in paths.iter().enumerate() {
        s.t(format!("path {i} = {}", show(&p.segs)));
    }
    let pool: Vec<CW> = (0..if small { 2 } else { 6 }).map(|_| CW::new()).collect();
    let mut streams: Vec<Strm> = vec![];
    let mut holds: Vec<(Rc<Node>, Rc<Node>)> = vec![];
    let steps = s.steps(5, [0, 20, 60, 150][s.size]);
    let mut next = 0;
    for _ in 0..steps {
        for p in &pool {
            p.take();
        }
        let op = s.pick(if which == Which::Lens { 12 } else { 9 });
        let mut notified: Option<usize> = None;
        let mut touched = false;
        match op {
            0 | 1 => {
                let pi = s.pick(paths.len());
                let bubbling = match s.pick(5) {
                    0 => which != Which::Bub,
                    _ => which == Which::Bub,
                };
                let u = if bubbling { paths[pi].any.until_bubbling() } else { paths[pi].any.until() };
                streams.push(Strm { id: next, path: pi, bubbling, u, waker: pool[0].clone(), polled: false, fired: false });
                s.t(format!("stream {next} := path {pi}.{}", if bubbling { "until_bubbling_change()" } else { "until_change()" }));
                next += 1;
            }
            2 | 3 => {
                if streams.is_empty() {
                    continue;
                }
                let i = s.pick(streams.len());
                let w = s.pick(pool.len());
                let x = &mut streams[i];
                let r = x.u.as_mut().poll_next(&mut Context::from_waker(&pool[w].w));
                s.t(format!("poll stream {} with waker {w} -> {}", x.id, if r.is_ready() { "ready" } else { "pending" }));
                if let std::task::Poll::Ready(v) = &r {
                    ensure!(v.is_some(), "change stream ended");
                }
                let want = x.polled && x.fired;
                if (which == Which::Reg && !x.bubbling) || (which == Which::Bub && x.bubbling) {
                    ensure!(r.is_ready() == want, "stream {} on {} polled {}, expected {}", x.id, show(&paths[x.path].segs), if r.is_ready() { "ready" } else { "pending" }, if want { "ready" } else { "pending" });
                    if want {
                        s.hit("stream ready");
                    }
                }
                x.polled = true;
                x.fired = false;
                x.waker = pool[w].clone();
            }
            4 => {
                if !streams.is_empty() {
                    let i = s.pick(streams.len());
                    let x = streams.remove(i);
                    s.t(format!("drop stream {}", x.id));
                }
            }
            5 => {
                let pi = s.pick(paths.len());
                if !small && s.rare(8) {
                    // counters must not wrap around unnoticed
                    let n = MANY[s.pick(MANY.len())];
                    s.t(format!("notify path {pi} {n} more times"));
                    for _ in 0..n {
                        paths[pi].any.notify();
                    }
                    for p in &pool {
                        p.take();
                    }
                    s.hit("many changes between polls");
                }
                s.t(format!("notify path {pi}"));
                paths[pi].any.notify();
                notified = Some(pi);
                touched = true;
            }
            6 | 9 => {
                // set
                let pi = s.pick(paths.len());
                let v = if s.rare(3) && !holds.is_empty() && paths[pi].any.kind() == 7 {
                    // store shared content
                    let h = s.pick(holds.len());
                    s.t(format!("set path {pi} to shared box {h}"));
                    s.hit("shared content");
                    (Val::R(holds[h].0.clone()), Val::R(holds[h].1.clone()))
                } else {
                    let v = gen_val(paths[pi].any.kind(), s, 2);
                    s.t(format!("set path {pi}"));
                    let d = deep(&v);
                    (v, d)
                };
                let want = nav(&mut model, &paths[pi].segs, true).is_some();
                let keep = deep(&v.0);
                let r = if s.flag() && sure(&store, &paths[pi].segs, Sure::Set(&v.0)).is_some() {
                    s.t("(with the set of a path that always has data)");
                    Ok(())
                } else {
                    paths[pi].any.set(v.0)
                };
                if which == Which::Lens {
                    ensure!(r.is_ok() == want, "set on {} {}, but the data {}", show(&paths[pi].segs), if r.is_ok() { "succeeded" } else { "failed" }, if want { "exists" } else { "does not exist" });
                    if let Err(e) = &r {
                        ensure!(*e == keep, "failed set returned a different value");
                        s.hit("failed set");
                    }
                }
                if r.is_ok() {
                    notified = Some(pi);
                    if want {
                        nav(&mut model, &paths[pi].segs, true).unwrap().set(v.1);
                    }
                    if which == Which::Lens {
                        ensure!(paths[pi].any.get() == Some(keep), "reading {} after setting it gives another value", show(&paths[pi].segs));
                        s.hit("set then read");
                    }
                }
                touched = true;
            }
            7 | 8 | 10 => {
                let pi = s.pick(paths.len());
                let how = s.pick(4);
                let v = gen_val(paths[pi].any.kind(), s, 2);
                let d = deep(&v);
                let want = nav(&mut model, &paths[pi].segs, true).is_some();
                let r = if s.flag() && how < 2 && sure(&store, &paths[pi].segs, if how == 0 { Sure::Write(&v) } else { Sure::WriteQuietly(&v) }).is_some() {
                    s.t("(with a borrow of a path that always has data)");
                    true
                } else {
                    paths[pi].any.write(v, how)
                };
                s.t(format!("mutably borrow path {pi} ({}) -> {r}", ["notifying", "without notifying", "via as_ref_path", "via boxed path"][how]));
                if which == Which::Lens {
                    ensure!(r == want, "mutable borrow of {} gave {}, but the data {}", show(&paths[pi].segs), if r { "a guard" } else { "nothing" }, if want { "exists" } else { "does not exist" });
                }
                if r {
                    if want {
                        nav(&mut model, &paths[pi].segs, true).unwrap().set(d);
                    }
                    if how != 1 {
                        notified = Some(pi);
                    }
                }
                touched = true;
            }
            _ => {
                // take or release a clone of a reference-counted box in the store
                if !holds.is_empty() && s.flag() {
                    let h = s.pick(holds.len());
                    holds.swap_remove(h);
                    s.t("release shared box");
                } else {
                    let pi = s.pick(paths.len());
                    let m = match nav(&mut model, &paths[pi].segs, false) {
                        Some(RefM::R(r)) => Some(r.clone()),
                        Some(RefM::OR(Some(r))) => Some(r.clone()),
                        _ => None,
                    };
                    let r = match paths[pi].any.get() {
                        Some(Val::R(r)) => Some(r),
                        Some(Val::OR(r)) => r,
                        _ => None,
                    };
                    if let (Some(m), Some(r)) = (m, r) {
                        holds.push((r, m));
                        s.t(format!("hold shared box at path {pi}"));
                        s.hit("hold shared");
                    }
                }
            }
        }
        // exact wakes
        if touched {
            let mut want = vec![0usize; pool.len()];
            for x in streams.iter_mut() {
                let Some(pi) = notified else { continue };
                let (p, q) = (&paths[pi].segs, &paths[x.path].segs);
                let fires = if x.bubbling { p.starts_with(q) } else { q.starts_with(p) };
                if fires {
                    x.fired = true;
                    if x.polled {
                        let w = pool.iter().position(|c| c.w.will_wake(&x.waker.w)).unwrap();
                        want[w] += 1;
                    }
                }
            }
            let only = |b: bool| streams.iter().all(|x| x.bubbling == b || !x.polled);
            let strict = match which {
                Which::Lens => false,
                Which::Reg => only(false),
                Which::Bub => only(true),
            };
            for (i, c) in pool.iter().enumerate() {
                let n = c.n();
                if which == Which::Lens {
                    ensure!(notified.is_some() || n == 0, "a mutation that did not happen or asked not to notify woke a stream");
                } else if strict {
                    ensure!((n > 0) == (want[i] > 0), "notifying path {:?}: waker {i} woken {n} times, expected {}", notified, want[i]);
                }
            }
            if want.iter().sum::<usize>() > 0 {
                s.hit("wake");
            }
        }
        if which == Which::Lens {
            let same = root.borrow_clone() == Some(Val::N(model.clone()));
            ensure!(same, "store contents differ from the model (something outside the written path changed, or the write was lost)");
            for (i, p) in paths.iter().enumerate() {
                let want = nav(&mut model, &p.segs, false).map(|r| r.val());
                let same = p.any.borrow_clone() == want;
                drop(want);
                ensure!(same, "borrowing path {i} ({}) gives other data than it names", show(&p.segs));
                let wantm = nav(&mut model, &p.segs, true).map(|r| r.val());
                let same = p.any.borrow_mut_clone() == wantm;
                drop(wantm);
                ensure!(same, "mutably borrowing path {i} ({}) gives other data than it names", show(&p.segs));
                let ops = [Sure::Get, Sure::Borrow, Sure::BorrowMut];
                for op in ops {
                    let r = sure(&store, &p.segs, op);
                    ensure!(r.is_none() || r == nav(&mut model, &p.segs, false).map(|r| r.val()), "path {i} ({}), which always has data, gives other data than it names", show(&p.segs));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- X04 / X05

use std::cell::{Cell, RefCell};
use std::task::Poll;

struct Data {
    exists: bool,
    v: i64,
}

/// A scripted async call: completes when told, records polls and drops.
struct Call {
    id: usize,
    sh: Rc<Shared>,
    done: bool,
}
#[derive(Default)]
struct Shared {
    started: RefCell<Vec<(usize, i64)>>,
    dropped: RefCell<Vec<usize>>,
    polled: RefCell<Vec<usize>>,
    finish: Cell<bool>,
    bad: RefCell<Option<String>>,
}
impl Future for Call {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        self.sh.polled.borrow_mut().push(self.id);
        if self.done {
            *self.sh.bad.borrow_mut() = Some(format!("call {} polled again after it finished", self.id));
        }
        // every older call must be gone by now
        let d = self.sh.dropped.borrow();
        for i in 0..self.id {
            if !d.contains(&i) {
                *self.sh.bad.borrow_mut() = Some(format!("call {} was polled while call {i} was still alive", self.id));
            }
        }
        drop(d);
        if self.sh.finish.get() {
            self.done = true;
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Call {
    fn drop(&mut self) {
        self.sh.dropped.borrow_mut().push(self.id);
    }
}

pub fn x04(s: &mut Src) -> Result<(), String> {
    let store = Store::new(Node { list: vec![Node::default()], ..Default::default() });
    let p: Any = Any::N(Rc::new(store.build_path().into_path()));
    let Any::N(rp) = &p else { unreachable!() };
    let list = rp.clone().build_path().list().into_path();
    let item = rp.clone().build_path().list().index(0).leaf().into_path();
    let other = rp.clone().build_path().leaf().into_path();
    let mut d = Data { exists: true, v: 0 };
    let mode = s.pick(3);
    s.t(["for_each", "for_each_async", "signal_stream"][mode].to_string());
    let calls: Rc<RefCell<Vec<i64>>> = Default::default();
    let sh: Rc<Shared> = Default::default();
    let fire = s.flag();
    let mut fe = (mode == 0).then(|| {
        let c = calls.clone();
        Box::pin(item.for_each(move |v| c.borrow_mut().push(*v)))
    });
    let mut fa = (mode == 1).then(|| {
        let sh2 = sh.clone();
        Box::pin(item.for_each_async(move |v| {
            let id = sh2.started.borrow().len();
            sh2.started.borrow_mut().push((id, *v));
            Call { id, sh: sh2.clone(), done: false }
        }))
    });
    let mut ss = (mode == 2).then(|| Box::pin(item.signal_stream(fire)));
    if mode == 2 {
        s.t(format!("fire_immediately = {fire}"));
    }
    let (mut polled, mut changed) = (false, false);
    let mut live_call = false; // a started call has not finished
    let w = CW::new();
    let n = s.steps(7, 40);
    for _ in 0..n {
        match s.pick(9) {
            0..=3 => {
                let call = (!polled && (mode != 2 || fire)) || (polled && changed);
                sh.finish.set(s.flag());
                s.t(format!("poll{}", if mode == 1 && sh.finish.get() { " (running call may finish)" } else { "" }));
                let mut cx = Context::from_waker(&w.w);
                match mode {
                    0 => {
                        calls.borrow_mut().clear();
                        ensure!(fe.as_mut().unwrap().as_mut().poll(&mut cx).is_pending(), "for_each finished");
                        let want: Vec<i64> = if call && d.exists { vec![d.v] } else { vec![] };
                        ensure!(*calls.borrow() == want, "for_each called its function with {:?}, expected {:?}", calls.borrow(), want);
                    }
                    1 => {
                        sh.polled.borrow_mut().clear();
                        let before = sh.started.borrow().len();
                        ensure!(fa.as_mut().unwrap().as_mut().poll(&mut cx).is_pending(), "for_each_async finished");
                        if let Some(b) = sh.bad.borrow().clone() {
                            return Err(b);
                        }
                        let st = sh.started.borrow();
                        let new: Vec<i64> = st[before..].iter().map(|x| x.1).collect();
                        let want: Vec<i64> = if call && d.exists { vec![d.v] } else { vec![] };
                        ensure!(new == want, "for_each_async started calls with {new:?}, expected {want:?}");
                        if !want.is_empty() {
                            if live_call {
                                s.hit("running call replaced");
                            }
                            live_call = true;
                        }
                        let pl = sh.polled.borrow().clone();
                        let wantp: Vec<usize> = if live_call { vec![st.len() - 1] } else { vec![] };
                        ensure!(pl == wantp, "for_each_async polled calls {pl:?}, expected {wantp:?}");
                        if live_call && sh.finish.get() {
                            live_call = false;
                        }
                        // all calls but the live one are gone
                        let mut dr = sh.dropped.borrow().clone();
                        dr.sort();
                        let alive = usize::from(live_call);
                        ensure!(dr == (0..st.len() - alive).collect::<Vec<_>>(), "calls dropped: {dr:?} of {} started", st.len());
                    }
                    _ => {
                        let r = ss.as_mut().unwrap().as_mut().poll_next(&mut cx);
                        let got = r.map(|o| o.map(|r| *r));
                        let want = if call { Poll::Ready(d.exists.then_some(d.v)) } else { Poll::Pending };
                        ensure!(got == want, "signal stream yielded {got:?}, expected {want:?}");
                    }
                }
                if polled && changed {
                    s.hit("change delivered");
                }
                polled = true;
                changed = false;
            }
            4 => {
                let v = s.pick(100) as i64;
                let r = item.set_opt(v).is_ok();
                s.t(format!("set item to {v} -> {r}"));
                if r {
                    d.v = v;
                    changed = true;
                }
            }
            5 => {
                // remove or create the data, notifying the enclosing list
                d.exists = !d.exists;
                d.v = 0;
                list.set_opt(if d.exists { vec![Node::default()] } else { vec![] }).unwrap();
                changed = true;
                s.t(format!("list set: item {}", if d.exists { "exists" } else { "gone" }));
            }
            6 => {
                other.set_opt(s.pick(10) as i64).unwrap();
                s.t("change unrelated path");
            }
            7 => {
                if let Some(mut g) = item.borrow_opt_mut_without_notifying() {
                    d.v += 1;
                    *g = d.v;
                    s.t("silent change");
                }
            }
            _ => {
                rp.notify_changed();
                changed = true;
                s.t("notify root");
            }
        }
    }
    drop(fa);
    let mut dr = sh.dropped.borrow().clone();
    dr.sort();
    ensure!(dr == (0..sh.started.borrow().len()).collect::<Vec<_>>(), "calls dropped {dr:?} after dropping the for-each");
    Ok(())
}

struct Inc {
    q: Rc<RefCell<std::collections::VecDeque<Option<i64>>>>,
    polls_after_end: Rc<Cell<usize>>,
    ended: bool,
}
impl Stream for Inc {
    type Item = i64;
    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<i64>> {
        if self.ended {
            self.polls_after_end.set(self.polls_after_end.get() + 1);
        }
        let x = self.q.borrow_mut().pop_front();
        match x {
            Some(v) => {
                if v.is_none() {
                    self.ended = true;
                }
                Poll::Ready(v)
            }
            None => Poll::Pending,
        }
    }
}

pub fn x05(s: &mut Src) -> Result<(), String> {
    let store = Store::new(Node { list: vec![Node::default()], ..Default::default() });
    let p: Any = Any::N(Rc::new(store.build_path().into_path()));
    let Any::N(rp) = &p else { unreachable!() };
    let list = rp.clone().build_path().list().into_path();
    let item = rp.clone().build_path().list().index(0).leaf().into_path();
    let mut d = Data { exists: true, v: 0 };
    let q: Rc<RefCell<std::collections::VecDeque<Option<i64>>>> = Default::default();
    let pae = Rc::new(Cell::new(0));
    let calls: Rc<RefCell<Vec<i64>>> = Default::default();
    let c = calls.clone();
    let mut f = Box::pin(item.bind_for_each(move |v| c.borrow_mut().push(*v), Inc { q: q.clone(), polls_after_end: pae.clone(), ended: false }));
    let (mut polled, mut changed, mut ended) = (false, false, false);
    let w = CW::new();
    let n = s.steps(7, 40);
    for _ in 0..n {
        match s.pick(8) {
            0..=2 => {
                let mut last = None;
                let mut end = false;
                for x in q.borrow().iter() {
                    match x {
                        Some(v) => last = Some(*v),
                        None => end = true,
                    }
                }
                calls.borrow_mut().clear();
                let r = f.as_mut().poll(&mut Context::from_waker(&w.w));
                s.t(format!("poll -> {}", if r.is_ready() { "finished" } else { "pending" }));
                let unwritable = last.is_some() && !d.exists;
                if let Some(v) = last {
                    if d.exists {
                        d.v = v;
                    }
                    s.hit("incoming applied");
                }
                let got = item.get_opt();
                ensure!(got == d.exists.then_some(d.v), "after the poll the path holds {got:?}, expected {:?}", d.exists.then_some(d.v));
                ensure!(r.is_ready() == (end || unwritable), "binding {}, expected {}", if r.is_ready() { "finished" } else { "is pending" }, if end || unwritable { "finished" } else { "pending" });
                if !r.is_ready() {
                    let want: Vec<i64> = if last.is_none() && d.exists && (!polled || changed) { vec![d.v] } else { vec![] };
                    ensure!(*calls.borrow() == want, "change function called with {:?}, expected {:?}", calls.borrow(), want);
                } else {
                    ensure!(!calls.borrow().iter().any(|v| Some(*v) == last && !changed), "incoming value echoed");
                    s.hit("finished");
                    return Ok(());
                }
                polled = true;
                changed = false;
            }
            3 | 4 => {
                if !ended {
                    let v = s.pick(100) as i64;
                    q.borrow_mut().push_back(Some(v));
                    s.t(format!("incoming value {v}"));
                }
            }
            5 => {
                if !ended && s.flag() {
                    ended = true;
                    q.borrow_mut().push_back(None);
                    s.t("incoming stream ends");
                }
            }
            6 => {
                let v = s.pick(100) as i64;
                if item.set_opt(v).is_ok() {
                    d.v = v;
                    changed = true;
                    s.t(format!("set path to {v}"));
                }
            }
            _ => {
                if s.rare(3) {
                    d.exists = !d.exists;
                    d.v = 0;
                    list.set_opt(if d.exists { vec![Node::default()] } else { vec![] }).unwrap();
                    changed = true;
                    s.t(format!("path data {}", if d.exists { "created" } else { "removed" }));
                }
            }
        }
    }
    Ok(())
}
