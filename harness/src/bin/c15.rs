//! C15: failures during deserialization.
//! @bounds: the input ends at any token, or the format fails at any single call (every deserializer call, every look for another element or entry, every value, variant and payload); external, internal and adjacent tags, with the tag first, last, or (adjacent) as a sequence; default variants; adjacent documents with a field that is ignored at any place; JSON-like, RON-like, strict and bincode-like formats; every leaf kind, every compound kind (width up to 2), also read as anything or ignored, one compound in another (width 1; thorough: depth 2); sequences and maps (thorough: also tuples, structs and variants) of 17 (40)
//! @outside: several independent faults, other lengths; 128-bit integers behind a buffer
//! @shard q_compounds|q_nested|t_.* 8 4
//! @shard q_sized 8 4
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

macro_rules! pair { ($m:ident, $s:ident $(, $($args:tt)*)?) => {
    mod $m {
        pub mod ser { use super::super::*; #[typetag::serialize$(($($args)*))?] pub trait T {} #[typetag::serialize(name = "V")] impl T for Node {} }
        pub mod de { use super::super::*; #[typetag::deserialize$(($($args)*))?] pub trait T {} #[typetag::deserialize(name = "V")] impl T for Probe {} }
    }
} }
pair!(ext, T);
pair!(int, T, tag = "t", default_variant = "V");
pair!(adj, T, tag = "t", content = "c", default_variant = "V");
fn via_ext(s: &mut Src) -> Result<(), E> { read::<Box<dyn ext::de::T>>(s).map(|_| ()) }
fn via_int(s: &mut Src) -> Result<(), E> { read::<Box<dyn int::de::T>>(s).map(|_| ()) }
fn via_adj(s: &mut Src) -> Result<(), E> { read::<Box<dyn adj::de::T>>(s).map(|_| ()) }

/// the document and its format
fn document(x: &Node) -> (Box<Log>, Fmt, Reader, bool) {
    let which = choice(8);
    let (r, w) = match which { 0 => write(x as &dyn ext::ser::T), 1 | 2 | 3 => write(x as &dyn int::ser::T), _ => write(x as &dyn adj::ser::T) };
    check(r.is_ok(), "fault: it is serialized");
    let via: Reader = match which { 0 => via_ext, 1 | 2 | 3 => via_int, _ => via_adj };
    // tag first: any format; otherwise the format has to be self-describing
    let f = if matches!(which, 0 | 1 | 4 | 5) { formats() } else { pick(&[Fmt::JSON, Fmt::RICH]) };
    let mut d = Log::new();
    let n = w.n;
    match which {
        0 | 1 | 4 => { d.append(&w); }
        // [tag, content]; a compact format writes structs like that
        5 => { d.push(Tok::len(k::Seq, 2)).push(w.t[2]).append_slice(&w.t[4..n - 1]).push(Tok::end()); }
        // tag last
        2 => { d.push(w.t[0]).append_slice(&w.t[3..n - 1]).push(w.t[1]).push(w.t[2]).push(Tok::end()); }
        6 => { d.push(w.t[0]).append_slice(&w.t[3..n - 1]).push(w.t[1]).push(w.t[2]).push(Tok::end()); }
        // no tag
        _ => { d.push(w.t[0]).append_slice(&w.t[3..n - 1]).push(Tok::end()); }
    }
    let late = !matches!(which, 0 | 1 | 4 | 5);
    (d, f, via, late)
}
fn no128(x: &Node) -> bool { x.k != k::I128 && x.k != k::U128 && x.kids.iter().all(no128) }
fn unskip(x: &mut Node) { for n in &mut x.names { if *n == "!a" { *n = "a" } } for c in &mut x.kids { unskip(c) } }
fn body(mut x: Node) {
    unskip(&mut x);
    unsafe { MESSAGES = true }
    let (d, f, via, late) = document(&x);
    if late && !no128(&x) { return }
    strike(&x, &d, f, via, late)
}
fn strike(x: &Node, d: &Log, f: Fmt, via: Reader, late: bool) {
    let keyed = x.k == k::Map || x.k == k::Struct || own_hint(x.k) == k::HEnum || !x.kids.is_empty();
    let mut p = Prog { n: 1, key: if keyed { pick(&[k::HStr, k::HIdentifier]) } else { k::HStr }, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    own_hints(x, &mut p);
    // or anything, or by a call that is not the value's own
    if f.sd && flag() { p.hints = [k::HAny; HCAP] } else if f.sd && flag() { p.hints[0] = if x.kids.is_empty() { pick(&[k::HIgnoredAny, k::HOption, k::HNewtypeStruct, k::HUnit, k::HUnitStruct]) } else { k::HIgnoredAny } }
    // without a fault
    unsafe { PROG = p }
    start();
    let mut s = Src::new(d.toks(), f);
    let r = via(&mut s);
    let full = stop();
    if r.is_err() { reach("opt:not readable"); return }
    let ops = s.ops;
    let cut = flag();
    let mut s = Src::new(d.toks(), f);
    if cut { s.t = &d.toks()[..choice(d.n)] } else { s.fault = choice(ops) }
    unsafe { PROG = p }
    start();
    let r = via(&mut s);
    let got = stop();
    if !cut { check(s.faulted, "fault: it strikes") }
    check(r.is_err(), "fault: it is not reported as success");
    check(!s.after_fault, "fault: no call after it");
    if let Err(e) = r {
        let m = message(&e);
        let same = m.is(if cut { "E!eof" } else { "E!fault" });
        check(same, "fault: the format's own message comes back");
    }
    check(got.n <= full.n, "fault: the type sees no more than without it");
    let mut i = 0;
    let mut same = true;
    while i < got.n && i < full.n { same = and(same, got.t[i].eq(&full.t[i])); i += 1 }
    check(same, "fault: the type sees the same until then");
    reach(if cut { "cut" } else { "fault" });
    if late { reach("buffered") }
    if got.n > 0 { reach("in the value") } else { reach("before the value") }
}
fn q_leaves() { body(leaf(pick(&LEAVES), 1)) }
fn q_compounds() {
    let kind = pick(&COMPOUNDS);
    body(compound(kind, choice(3), &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(pick(&[k::U8, k::Unit])) }))
}
fn q_nested() {
    let (outer, inside) = (pick(&COMPOUNDS), pick(&COMPOUNDS));
    body(compound(outer, 1, &mut |i| if outer == k::Map && i == 0 { small_of(k::Str) } else {
        compound(inside, 1, &mut |i| if inside == k::Map && i == 0 { small_of(k::Str) } else { small_of(k::U8) })
    }))
}
/// adjacent documents with another field somewhere, which is ignored
fn q_ignored() {
    unsafe { MESSAGES = true }
    let x = small_of(pick(&[k::U8, k::Str]));
    let y = match choice(3) { 0 => small_of(k::U8), 1 => compound(k::Seq, 2, &mut |_| small_of(k::U8)), _ => compound(k::Struct, 1, &mut |_| small_of(k::U8)) };
    let (r, w) = write(&x as &dyn adj::ser::T);
    let (r2, other) = write(&y);
    check(r.is_ok() && r2.is_ok(), "fault: it is serialized");
    let (late, at) = (flag(), choice(3));
    let mut d = Log::new();
    d.push(w.t[0]);
    for i in 0..3 {
        if at == i { d.push(Tok::s(k::Field, "zz")).append(&other); }
        if i == 2 { break }
        if (i == 0) != late { d.append_slice(&w.t[1..3]); } else { d.append_slice(&w.t[3..w.n - 1]); }
    }
    d.push(Tok::end());
    strike(&x, &d, pick(&[Fmt::JSON, Fmt::RICH]), via_adj, late);
    reach("ignored fields");
}
fn t_wide() {
    let (outer, inside) = (pick(&COMPOUNDS), pick(&COMPOUNDS));
    body(compound(outer, 2, &mut |i| if outer == k::Map && i % 2 == 0 { small_of(k::Str) } else {
        compound(inside, choice(2), &mut |i| if inside == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(k::U8) })
    }))
}
fn q_sized() { body(sized_of(pick(&[k::Seq, k::Map]), 17)) }
fn t_sized() { body(sized_of(pick(&SIZED[2..]), pick(&[17, 40]))) }
entries! { q_sized t_sized q_leaves q_compounds q_nested q_ignored t_wide }
