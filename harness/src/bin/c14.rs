//! C14: what is serialized is read back.
//! @bounds: external, internal and adjacent tags x 4 formats (JSON-like, RON-like, strict, and bincode-like: no deserialize_any, structs as sequences, counted lengths) ; every leaf kind, every compound kind (width 2, leaves of 5 kinds), one compound in another with one leaf (thorough: any tree of depth 2 and width 1, two compounds with up to 2 leaves in another, three compounds in each other), symbolic payloads, strings and bytes up to 2; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257
//! @outside: other lengths; maps whose keys are not strings under an internal tag; values that differ for human readable formats (C18)
//! @assume: the value is read by the calls which derived impls make; an option holding null is not distinguished in a format without options
//! @shard q_compounds|q_nested|t_.* 8 5
//! @shard q_sized 8 2
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

macro_rules! pair { ($m:ident, $s:ident $(, $($args:tt)*)?) => {
    mod $m {
        pub mod ser { use super::super::*; #[typetag::serialize$(($($args)*))?] pub trait T {} #[typetag::serialize(name = "V")] impl T for Node {} }
        pub mod de { use super::super::*; #[typetag::deserialize$(($($args)*))?] pub trait T {} #[typetag::deserialize(name = "V")] impl T for Probe {} }
    }
} }
pair!(ext, T);
pair!(int, T, tag = "t");
pair!(adj, T, tag = "t", content = "c");
fn via_ext(s: &mut Src) -> Result<(), E> { read::<Box<dyn ext::de::T>>(s).map(|_| ()) }
fn via_int(s: &mut Src) -> Result<(), E> { read::<Box<dyn int::de::T>>(s).map(|_| ()) }
fn via_adj(s: &mut Src) -> Result<(), E> { read::<Box<dyn adj::de::T>>(s).map(|_| ()) }

fn keyed(x: &Node) -> bool { x.k == k::Map || x.k == k::Struct || own_hint(x.k) == k::HEnum || x.kids.iter().any(keyed) }
fn unskip(x: &mut Node) { for n in &mut x.names { if *n == "!a" { *n = "a" } } for c in &mut x.kids { unskip(c) } }
fn null(x: &Node) -> bool { x.k == k::None || x.k == k::Unit || x.k == k::UnitStruct || (x.k == k::Some || x.k == k::NewtypeStruct) && null(&x.kids[0]) }
fn some_null(x: &Node) -> bool { x.k == k::Some && null(&x.kids[0]) || x.k == k::NewtypeStruct && some_null(&x.kids[0]) }
/// a struct next to its tag is a map in every format
fn struct_as_map(x: &mut Node) -> bool {
    if x.k == k::NewtypeStruct { return struct_as_map(&mut x.kids[0]) }
    if x.k != k::Struct { return false }
    x.k = k::Map;
    let kids = core::mem::take(&mut x.kids);
    for (n, c) in x.names.iter().zip(kids) { let mut key = node(k::Str); key.p = S::new(n); x.kids.push(key); x.kids.push(c) }
    true
}
fn round(mut x: Node) {
    unskip(&mut x);
    let f = formats();
    let mut p = Prog { n: 1, key: if keyed(&x) { pick(&[k::HStr, k::HIdentifier]) } else { k::HStr }, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    own_hints(&x, &mut p);
    let rep = choice(3);
    let via = match rep { 0 => via_ext, 1 => via_int, _ => via_adj };
    let (r, written) = match rep {
        0 => write(&x as &dyn ext::ser::T),
        1 => write(&x as &dyn int::ser::T),
        _ => write(&x as &dyn adj::ser::T),
    };
    check(r.is_ok(), "round trip: it is serialized");
    check(!written.len_mismatch && !written.protocol, "round trip: with the announced lengths");
    // Some(null) next to its tag is None
    if rep == 1 && f.sd && !f.rich && some_null(&x) { return }
    let got = run(&written, f, p, via);
    // by itself
    let mut q = p;
    if rep == 1 && f.seqs && struct_as_map(&mut x) {
        let mut i = 0;
        while q.hints[i] == k::HNewtypeStruct { i += 1 }
        q.hints[i] = k::HMap;
    }
    let want = run(&write(&x).1, f, q, plain);
    if want.r.is_err() { reach("opt:not readable by itself"); return }
    #[cfg(feature = "native")]
    if let Err(e) = &got.r { e.show(); written.show("written"); got.v.show("seen") }
    check(got.r.is_ok() && got.done, "round trip: what was serialized is read back");
    check_logs(&loose(&got.v), &loose(&want.v), "round trip: the type sees what it would see by itself");
    if rep == 0 { reach("external") }
    if rep == 1 { reach("internal") }
    if rep == 2 { reach("adjacent") }
    if f.seqs { reach("compact format") } else if !f.sd { reach("strict format") } else { reach("self-describing format") }
}
fn q_leaves() { round(leaf(pick(&LEAVES), 2)) }
fn q_compounds() {
    let kind = pick(&COMPOUNDS);
    round(compound(kind, choice(3), &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small() }))
}
fn deep(d: usize, w: usize) {
    let kind = pick(&COMPOUNDS);
    fn keys(x: &mut Node) { let m = x.k == k::Map; for (i, c) in x.kids.iter_mut().enumerate() { if m && i % 2 == 0 { *c = small_of(k::Str) } else { keys(c) } } }
    let mut x = compound_of(kind, d, w);
    keys(&mut x);
    round(x)
}
/// a compound in a compound, with one leaf
fn q_nested() {
    let (outer, inside, leaf) = (pick(&COMPOUNDS), pick(&COMPOUNDS), pick(&[k::U8, k::None]));
    round(compound(outer, 1, &mut |i| if outer == k::Map && i == 0 { small_of(k::Str) } else {
        compound(inside, 1, &mut |i| if inside == k::Map && i == 0 { small_of(k::Str) } else { small_of(leaf) })
    }))
}
fn t_nested() { deep(2, 1) }
fn t_wide() {
    let (outer, inside, leaf) = (pick(&COMPOUNDS), pick(&COMPOUNDS), pick(&[k::U8, k::None]));
    round(compound(outer, 2, &mut |i| if outer == k::Map && i % 2 == 0 { small_of(k::Str) } else {
        compound(inside, choice(3), &mut |i| if inside == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(leaf) })
    }))
}
fn t_deep() {
    let (outer, inside, third, leaf) = (pick(&COMPOUNDS), pick(&COMPOUNDS), pick(&COMPOUNDS), pick(&[k::Str, k::None]));
    round(compound(outer, 1, &mut |i| if outer == k::Map && i == 0 { small_of(k::Str) } else {
        compound(inside, 1, &mut |i| if inside == k::Map && i == 0 { small_of(k::Str) } else {
            compound(third, 1, &mut |i| if third == k::Map && i == 0 { small_of(k::Str) } else { small_of(leaf) })
        })
    }))
}
fn q_sized() { round(sized()) }
entries! { q_sized q_leaves q_compounds q_nested t_nested t_wide t_deep }
