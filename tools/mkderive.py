#!/usr/bin/env python3
"""Writes proof/derx/samples.rs (types for #[derive(Trackable)]) and the contracts of what the macro makes of them:
proof/units/derive_lens.inc (X03) and proof/units/derive_hash.inc (X01, X02). All members have one type, so that a member
taken for another still compiles."""
import os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "proof")
D, S, K = "deep", "shallow", "skip"
TYPES = [
    ("N1", "struct", [("a", D)]),
    ("N3", "struct", [("a", D), ("b", S), ("c", D)]),
    ("N5", "struct", [("a", K), ("b", D), ("c", K), ("d", S), ("e", K)]),
    ("T3", "tuple", [D, S, D]),
    ("T5", "tuple", [K, D, K, S, D]),
    ("T12", "tuple", [D] * 12),
    ("E4", "enum", [("A", None, []), ("B", "tuple", [D, S, D]), ("C", "struct", [("x", D), ("y", S)]), ("F", "tuple", [D])]),
    ("E3", "enum", [("B", "tuple", [K, D, K, S]), ("C", "struct", [("x", K), ("y", D), ("z", K), ("u", D)]), ("F", "tuple", [D, D])]),
    ("E1", "enum", [("B", "tuple", [D, D])]),
]
def members(kind, fs):
    """(name, how) of the members of a struct or of a variant"""
    return list(fs) if kind == "struct" else [(str(i), m) for i, m in enumerate(fs)]
def body(kind, fs, attrs):
    ms = members(kind, fs)
    a = lambda m: "#[track(%s)] " % m if attrs and m != D else ""
    if kind == "struct":
        return "{ " + ", ".join("%s%s: u64" % (a(m), n) for n, m in ms) + " }"
    return "(" + ", ".join("%su64" % a(m) for n, m in ms) + ")"
def decl(t, attrs):
    n, kind, x = t
    at = "#[x_bow(module_prefix = crate)] #[track(deep)] " if attrs else ""
    if kind == "enum":
        return at + "enum %s { %s }" % (n, ", ".join(v + (body(k, fs, attrs) if k else "") for v, k, fs in x))
    return at + "struct %s %s%s" % (n, body(kind, x, attrs), ";" if kind == "tuple" else "")
def fields(t):
    """(builder method, spec of reading it from v as an Option, condition, spec of v with it replaced by x)"""
    n, kind, x = t
    if kind != "enum":
        ms = members(kind, x)
        for i, (f, m) in enumerate(ms):
            if m == K:
                continue
            if kind == "struct":
                put = "%s { %s: x, ..v }" % (n, f)
            else:
                put = "%s(%s)" % (n, ", ".join("x" if j == i else "v.%d" % j for j in range(len(ms))))
            yield ("t" + f if kind == "tuple" else f, "Some(v.%s)" % f, "true", put, m)
        return
    for v, k, fs in x:
        ms = members(k, fs) if k else []
        for i, (f, m) in enumerate(ms):
            if m == K:
                continue
            one = len(x) == 1
            if k == "struct":
                pat = "%s::%s { %s: q, .. }" % (n, v, f)
                put = "%s::%s { %s }" % (n, v, ", ".join("%s: %s" % (g, "x" if g == f else "v->%s" % g) for g, _ in ms))
            else:
                pat = "%s::%s(%s)" % (n, v, ", ".join("q" if j == i else "_" for j in range(len(ms))))
                put = "%s::%s(%s)" % (n, v, ", ".join("x" if j == i else "v->%s_%d" % (v, j) for j in range(len(ms))))
            read = "match v { %s => Some(q)%s }" % (pat, "" if one else ", _ => None")
            yield ("%s_%s" % (v, f), read, "true" if one else "v is %s" % v, put, m)

with open(H + "/derx/samples.rs", "w") as o:
    o.write("// made by tools/mkderive.py\npub const SAMPLES: &[(&str, &str)] = &[\n")
    for t in TYPES:
        o.write('    ("%s", r"%s"),\n' % (t[0], decl(t, True).replace('"', "")))
    o.write("];\n")

with open(H + "/units/derive_lens.inc", "w") as o:
    p = lambda s: o.write(s + "\n")
    p("// made by tools/mkderive.py: what #[derive(Trackable)] makes of the types in proof/derx/samples.rs")
    p("verus! {")
    for t in TYPES:
        n = t[0]
        p(decl(t, False))
        p("struct %sPathBuilder<P> { inner_path: P }" % n)
        for f, read, cond, put, mode in fields(t):
            m = "Mapper_%s_%s" % (n, f)
            p("struct %s<P: Path<Out = %s>> { parent: P }" % (m, n))
            p("impl<P: Path<Out = %s>> Path for %s<P> {" % (n, m))
            p("    type Base = P::Base;")
            p("    type Out = u64;")
            p("    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => %s, None => None } }" % read)
            p("    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); %s } }" % cond)
            p("    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); %s }) }" % put)
            p("    proof fn laws(&self, s: P::Base, x: u64, y: u64) {")
            p("        let v = self.parent.at(s).unwrap();")
            p("        let a = %s;" % put)
            p("        let b = { let x = y; %s };" % put)
            p("        self.parent.laws(s, a, b);")
            p("    }")
            p("//@fn dx %s::Path::path_borrow" % m)
            p("//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)")
            p("//@endfn")
            p("//@fn dx %s::Path::path_borrow_mut" % m)
            p("//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)")
            p("//@begin")
            p("    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }")
            p("//@endfn")
            p("}")
            tr = "Trackable" if mode == D else "TrackableLeaf"
            p("impl<P> %sPathBuilder<P> {" % n)
            p("//@fn dx %sPathBuilder::%s" % (n, f))
            p("//@opt path=%s::new_path_builder->new_path_builder;; sig=fn %s(self) -> (r: Built<%s<P>>) where P: Path<Out = %s>" % (tr, f, m, n))
            p("//@spec")
            p("    ensures r.path.parent == self.inner_path, // [X01,X02,X03]")
            p("//@endfn")
            p("}")
    p("// the tuples of the standard library")
    for n in range(1, 13):
        ts = ["T%d" % i for i in range(n)]
        G, tup = ", ".join(ts), "(" + ", ".join(ts) + ",)"
        p("struct Tuple%dPathBuilder<P> { inner_path: P }" % n)
        for j in range(n):
            m = "Mapper_%d_Tuple_t%d" % (n, j)
            put = "(" + " ".join("%s," % ("x" if i == j else "v.%d" % i) for i in range(n)) + ")"
            for x in ts:
                p("#[verifier::reject_recursive_types(%s)]" % x)
            p("struct %s<%s, P: Path<Out = %s>> { parent: P, p: std::marker::PhantomData<%s> }" % (m, G, tup, tup))
            p("impl<%s, P: Path<Out = %s>> Path for %s<%s, P> {" % (", ".join(x + ": 'static" for x in ts), tup, m, G))
            p("    type Base = P::Base;")
            p("    type Out = T%d;" % j)
            p("    spec fn at(&self, s: P::Base) -> Option<T%d> { match self.parent.at(s) { Some(v) => Some(v.%d), None => None } }" % (j, j))
            p("    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }")
            p("    spec fn put(&self, s: P::Base, x: T%d) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); %s }) }" % (j, put))
            p("    proof fn laws(&self, s: P::Base, x: T%d, y: T%d) {" % (j, j))
            p("        let v = self.parent.at(s).unwrap();")
            p("        self.parent.laws(s, %s, { let x = y; %s });" % (put, put))
            p("    }")
            p("//@fn du%d Mapper_Tuple_t%d::Path::path_borrow" % (n, j))
            p("//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T%d>)" % j)
            p("//@endfn")
            p("//@fn du%d Mapper_Tuple_t%d::Path::path_borrow_mut" % (n, j))
            p("//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T%d>)" % j)
            p("//@begin")
            p("    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }")
            p("//@endfn")
            p("}")
            p("impl<P> Tuple%dPathBuilder<P> {" % n)
            p("//@fn du%d ImitatorPathBuilder::t%d" % (n, j))
            p("//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t%d->%s;; lit=%s|p: std::marker::PhantomData;; sig=fn t%d<%s>(self) -> (r: Built<%s<%s, P>>) where P: Path<Out = %s>" % (j, m, m, j, G, m, G, tup))
            p("//@spec")
            p("    ensures r.path.parent == self.inner_path, // [X01,X02,X03]")
            p("//@endfn")
            p("}")
    p("} // verus!")

with open(H + "/units/derive_hash.inc", "w") as o:
    p = lambda s: o.write(s + "\n")
    p("// made by tools/mkderive.py: what #[derive(Trackable)] makes of the types in proof/derx/samples.rs")
    p("//@include gen:derive_numbers.inc")
    p("verus! {")
    for n, ms in [(t[0], ["Mapper_%s_%s" % (t[0], f[0]) for f in fields(t)]) for t in TYPES] + [("tuple_%d" % n, ["%d_Mapper_Tuple_t%d" % (n, j) for j in range(n)]) for n in range(1, 13)]:
        lab = n.replace("tuple_", "du") if "_" in n else "dx"
        for num in ms:
            real = num[num.index("M"):]
            m = "Mapper_%s_%s" % (n, real.split("_")[-1]) if "_" in n else num
            p("struct %s<P: Path> { parent: P }" % m)
            p("impl<P: Path> Path for %s<P> {" % m)
            p("    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_%s())) }" % num)
            p("//@fn %s %s::Path::visit_hashes" % (lab, real))
            p("//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize")
            p("//@begin")
            p("    let ghost v0 = *visitor; let ghost l0 = w.log@;")
            p("//@after self.parent")
            p("    let ghost v1 = *visitor; let ghost l1 = w.log@;")
            p("    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }")
            p("//@before visitor.finish_one")
            p("    let ghost v2 = *visitor;")
            p("//@end")
            p("    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_%s()), v2, *visitor, l0, l1, w.log@); }" % num)
            p("//@endfn")
            p("}")
        if len(ms) > 1:
            p("/// the members of a type are told apart")
            p("proof fn apart_%s()" % n)
            p("    ensures")
            for i in range(len(ms)):
                for j in range(i):
                    p("        number_%s() != number_%s(), // [X01,X02]" % (ms[i], ms[j]))
            p("{")
            p("}")
    p("} // verus!")
