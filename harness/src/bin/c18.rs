//! C18: what a value is told about the format.
//! @bounds: human readable or not (symbolic); written: any tree of compounds of depth 2 (thorough: depth 3, width 1) whose leaves ask; external and adjacent tags, and the fields and entries (and anything in them) of a struct or map under an internal tag; read: the same kinds of trees, every call asks; tag first or adjacent as a sequence
//! @outside: see the known finding: values directly under an internal tag, other values nested in one, and values that are read from a buffer are always told yes
//! @shard q_.*|t_.* 8 4
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};
use serde::Serialize;

macro_rules! pair { ($m:ident $(, $($args:tt)*)?) => {
    mod $m {
        pub mod ser { use super::super::*; #[typetag::serialize$(($($args)*))?] pub trait T {} #[typetag::serialize(name = "V")] impl T for Node {} }
        pub mod de { use super::super::*; #[typetag::deserialize$(($($args)*))?] pub trait T {} #[typetag::deserialize(name = "V")] impl T for Probe {} }
    }
} }
pair!(ext);
pair!(int, tag = "t");
pair!(adj, tag = "t", content = "c");
fn via_ext(s: &mut Src) -> Result<(), E> { read::<Box<dyn ext::de::T>>(s).map(|_| ()) }
fn via_int(s: &mut Src) -> Result<(), E> { read::<Box<dyn int::de::T>>(s).map(|_| ()) }
fn via_adj(s: &mut Src) -> Result<(), E> { read::<Box<dyn adj::de::T>>(s).map(|_| ()) }

fn text() -> Node { let mut x = node(k::Str); x.p = S::new("x"); x }
/// a compound whose leaves ask
fn asks(kind: Kind, n: usize, kid: &mut dyn FnMut() -> Node) -> Node {
    compound(kind, n, &mut |i| if kind == k::Map && i % 2 == 0 { text() } else { kid() })
}
fn any(depth: usize, width: usize) -> Node {
    let c = choice(COMPOUNDS.len() + 1);
    if c == COMPOUNDS.len() || depth == 0 { return node(HUMAN) }
    asks(COMPOUNDS[c], width, &mut || if depth == 1 { node(HUMAN) } else { any(depth - 1, width) })
}
fn logs() -> (Box<Log>, Box<Log>) {
    let hr = boolv();
    let (mut a, mut b) = (Log::new(), Log::new());
    a.hr = hr;
    b.hr = hr;
    (a, b)
}
fn ser(x: Node) {
    let (mut d, mut g) = logs();
    check(x.serialize(Ser(&mut d)).is_ok(), "by itself");
    let (r, lead) = match choice(2) {
        0 => ((&x as &dyn ext::ser::T).serialize(Ser(&mut g)), 2),
        _ => ((&x as &dyn adj::ser::T).serialize(Ser(&mut g)), g.n + 4),
    };
    check(r.is_ok(), "serializes");
    let mut w = Log::new();
    let lead = if lead == 2 { 2 } else { g.n - d.n - 1 };
    w.append_slice(&g.t[..lead]).append(&d).push(Tok::end());
    check_logs(&g, &w, "readable: the value is told what the format says");
}
fn q_ser() { ser(any(2, 1)) }
fn t_ser() { ser(any(3, 1)) }
fn t_wide() { ser(any(2, 2)) }
/// the fields of a struct, the entries of a map, the payload of a struct variant
fn int_ser(depth: usize) {
    let (mut d, mut g) = logs();
    let kind = pick(&[k::Struct, k::Map]);
    let x = asks(kind, 1 + choice(2), &mut || any(depth, 1));
    for c in &x.kids { check(c.serialize(Ser(&mut d)).is_ok(), "by itself") }
    check((&x as &dyn int::ser::T).serialize(Ser(&mut g)).is_ok(), "serializes");
    // the answers, in order (every bool in there is one)
    let (mut a, mut b) = (Log::new(), Log::new());
    for t in d.toks() { if t.k == k::Bool { a.push(*t); } }
    for t in g.toks() { if t.k == k::Bool { b.push(*t); } }
    check(a.n > 0, "somebody asks");
    check_logs(&b, &a, "readable: fields under an internal tag are told what the format says");
}
fn q_int_ser() { int_ser(1) }
fn t_int_ser() { int_ser(2) }

fn seed(mut x: Node) -> (Node, Prog) {
    fn fill(x: &mut Node) { if x.k == HUMAN { x.k = k::Bool } for c in &mut x.kids { fill(c) } }
    fill(&mut x);
    let mut p = Prog { n: 1, key: k::HStr, len: x.kids.len(), var: x.k, hr: true, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    own_hints(&x, &mut p);
    (x, p)
}
fn de(x: Node) {
    let (x, p) = seed(x);
    let f = Fmt { hr: boolv(), ..formats() };
    let v = input(&x);
    let mut w = Log::new();
    let via: Reader = match choice(3) {
        0 => { w.push(Tok::map(1)).push(Tok::str("V")).append(&v).push(Tok::end()); via_ext }
        2 if f.sd => { w.push(Tok::len(k::Seq, 2)).push(Tok::str("V")).append(&v).push(Tok::end()); via_adj }
        _ => { w.push(Tok { s: S::new("T"), ..Tok::len(k::Struct, 2) }).push(Tok::s(k::Field, "t")).push(Tok::str("V")).push(Tok::s(k::Field, "c")).append(&v).push(Tok::end()); via_adj }
    };
    let y = run(&v, f, p, plain);
    let x = run(&w, f, p, via);
    check(x.r.is_ok() == y.r.is_ok(), "readable: read as by itself");
    check_logs(&x.v, &y.v, "readable: the reader is told what the format says");
    if y.r.is_ok() { reach("read") }
}
fn q_de() { de(any(2, 1)) }
fn t_de() { de(any(3, 1)) }
fn t_de_wide() { let kind = pick(&COMPOUNDS); de(asks(kind, 2, &mut || any(1, 1))) }
/// the values of the entries next to an internal tag
fn int_de(depth: usize, width: usize) {
    let kind = pick(&[k::Struct, k::Map]);
    let (x, mut p) = seed(asks(kind, width, &mut || any(depth, 1)));
    let f = Fmt { hr: boolv(), ..pick(&[Fmt::JSON, Fmt::RICH, Fmt::STRICT]) };
    let v = input(&x);
    let mut w = Log::new();
    w.push(Tok::map(1 + width as u64)).push(Tok::str("t")).push(Tok::str("V")).append_slice(&v.t[1..v.n]);
    p.hr = false;
    // (not the struct itself: see the known finding)
    let y = run(&v, f, p, plain);
    let mut i = 0;
    p.hr = true;
    let z = run(&v, f, p, plain);
    let got = run(&w, f, p, via_int);
    check(got.r.is_ok() && y.r.is_ok(), "readable: the object is read");
    // the answer to the struct itself comes first
    check(got.v.n == z.v.n, "readable: as many visits");
    let mut same = true;
    let mut key = false;
    i += 1;
    while i < got.v.n {
        // answers to keys are not the values' business
        if !key { same = and(same, got.v.t[i].eq(&z.v.t[i])) }
        key = z.v.t[i].k == k::VKey;
        i += 1;
    }
    check(same, "readable: values next to an internal tag are told what the format says");
}
fn q_int_de() { int_de(1, 1) }
fn t_int_de() { int_de(1, 2) }
fn t_int_de_deep() { int_de(2, 1) }

// KF2: under an internal tag, and behind a buffer, the answer is always yes
fn k_int_ser() {
    let mut g = Log::new();
    g.hr = false;
    check((&node(HUMAN) as &dyn int::ser::T).serialize(Ser(&mut g)).is_ok(), "serializes");
    check(g.t[g.n - 2].k == k::Bool, "it asks");
    check(g.t[g.n - 2].n == 0, "a value under an internal tag is told when the format is not human readable (written)");
}
fn k_int_ser_nested() {
    let mut g = Log::new();
    g.hr = false;
    let x = asks(k::Seq, 1, &mut || node(HUMAN));
    check((&x as &dyn int::ser::T).serialize(Ser(&mut g)).is_ok(), "serializes");
    check(g.t[g.n - 3].k == k::Bool, "it asks");
    check(g.t[g.n - 3].n == 0, "a value in a sequence under an internal tag is told when the format is not human readable");
}
fn first_answer(w: &Log, via: Reader) -> Option<u128> {
    let x = node(HUMAN);
    let (_, p) = seed(x);
    let r = run(w, Fmt { hr: false, ..Fmt::JSON }, p, via);
    if r.r.is_ok() && r.v.n > 0 && r.v.t[0].k == k::Bool { Some(r.v.t[0].n) } else { None }
}
fn k_int_de() {
    let mut w = Log::new();
    w.push(Tok::map(2)).push(Tok::str("t")).push(Tok::str("V")).push(Tok::str("value")).push(Tok::n(k::Bool, 1)).push(Tok::end());
    let a = first_answer(&w, via_int);
    check(a.is_some(), "it asks");
    check(a == Some(0), "a value under an internal tag is told when the format is not human readable (read)");
}
fn k_buffer_de() {
    let mut w = Log::new();
    w.push(Tok::map(2)).push(Tok::str("c")).push(Tok::n(k::Bool, 1)).push(Tok::str("t")).push(Tok::str("V")).push(Tok::end());
    let a = first_answer(&w, via_adj);
    check(a.is_some(), "it asks");
    check(a == Some(0), "a value read from a buffer is told when the format is not human readable");
}
entries! { q_ser q_int_ser q_de q_int_de t_ser t_wide t_int_ser t_de t_de_wide t_int_de t_int_de_deep k_int_ser k_int_ser_nested k_int_de k_buffer_de }
