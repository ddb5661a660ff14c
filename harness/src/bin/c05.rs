//! C05: a struct that has a field with the tag's name.
//! @bounds: structs of 1..2 fields, tag field first or second, value: any leaf kind (strings up to 4 bytes), Some / newtype of a string, compounds; type names of 1, 2 and 4 bytes; structs of 1, 2, 17 and 33 fields with a name of 300 bytes, and values that differ from it in one byte (17 places) or in length
//! @outside: other lengths of names
use harness::{entries, name300, node::*, sym::*, tok::*};
use serde::Serialize;

#[typetag::serde(tag = "a")]
trait T {}
#[typetag::serde]
impl T for Node {}
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
struct One(Node);
#[typetag::serde(name = "x")]
impl T for One {}
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
struct Wide(Node);
#[typetag::serde(name = "é")]
impl T for Wide {}

const LONG: &str = name300!();
#[derive(serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
struct Long(Node);
#[typetag::serde(name = name300!())]
impl T for Long {}

/// a value for the tag field: (node, does it spell the name)
fn value(name: &str) -> (Node, bool) {
    let inner = |c: usize| -> (Node, bool) {
        match c {
            0 => { let n = choice(5); let mut x = node(k::Str); x.p = ascii(n); let m = x.p.as_str() == name; (x, m) }
            1 => { let mut x = node(k::Char); x.n = payload(k::Char); let mut it = name.chars(); let m = it.next() == char::from_u32(x.n as u32) && it.next().is_none(); (x, m) }
            _ => { let mut x = node(k::Str); x.p = string(2); let m = x.p.as_str() == name; (x, m) }
        }
    };
    match choice(5) {
        0 => inner(choice(3)),
        1 => { let (x, m) = inner(choice(2)); let mut y = node(k::Some); y.kids.push(x); (y, m) }
        2 => { let (x, m) = inner(choice(2)); let mut y = node(k::NewtypeStruct); y.kids.push(x); (y, m) }
        3 => { let kind = pick(&LEAVES); if kind == k::Str || kind == k::Char { (node(k::Unit), false) } else { let mut x = leaf(kind, 1); if kind == k::UnitVariant { x.v = "Node" } (x, false) } }
        _ => { let kind = pick(&COMPOUNDS[2..]); (compound(kind, 1, &mut |_| small_of(k::Str)), false) }
    }
}
fn run(n: Node, name: usize, g: &mut Log) -> (Result<(), E>, Node) {
    match name {
        0 => { let r = (&n as &dyn T).serialize(Ser(g)); (r, n) }
        1 => { let x = One(n); let r = (&x as &dyn T).serialize(Ser(g)); (r, x.0) }
        _ => { let x = Wide(n); let r = (&x as &dyn T).serialize(Ser(g)); (r, x.0) }
    }
}
fn q_collision() {
    let which = choice(3);
    let name = ["Node", "x", "é"][which];
    let (x, matches) = value(name);
    let mut n = node(k::Struct);
    // the tag field alone, before or after another field
    let other = choice(3);
    if other == 1 { n.names.push("b"); n.kids.push(small_of(k::U8)) }
    n.names.push("a");
    n.kids.push(x);
    if other == 2 { n.names.push("b"); n.kids.push(small_of(k::U8)) }
    let mut g = Log::new();
    let (r, n) = run(n, which, &mut g);
    if matches {
        reach("the field spells the name");
        check(r.is_ok(), "a field that repeats the tag is accepted");
        // the tag once, the other field, no second copy of the tag
        let mut w = Log::new();
        w.push(g.t[0]).push(Tok::str("a")).push(Tok::str(name));
        for (f, x) in n.names.iter().zip(&n.kids) { if *f != "a" { w.push(Tok::str(f)).push(Tok::n(k::U8, x.n)); } }
        w.push(Tok::end());
        w.len_mismatch = g.len_mismatch; // see k_length
        check(g.t[0].k == k::Map, "still one map");
        check_logs(&g, &w, "the tag is written once");
    } else {
        reach("the field says something else");
        check(r.is_err(), "a contradicting field is an error");
        check(g.n < 2 || g.t[g.n - 1].k != k::End, "the map is not completed");
    }
}
/// a field of another name never collides, whatever it says
fn q_other() {
    let mut n = node(k::Struct);
    n.names.push("b");
    let mut s = node(k::Str);
    s.p = if flag() { S::new("Node") } else { string(3) };
    n.kids.push(s);
    let (r, g) = write(&n as &dyn T);
    check(r.is_ok(), "serializes");
    let mut w = Log::new();
    w.push(Tok::map(2)).push(Tok::str("a")).push(Tok::str("Node")).push(Tok::str("b")).push(Tok::str(n.kids[0].p.as_str())).push(Tok::end());
    check_logs(&g, &w, "other fields are untouched");
}
/// known finding: the suppressed field is still counted in the announced length
fn k_length() {
    let mut n = node(k::Struct);
    n.names.push("a");
    let mut s = node(k::Str);
    s.p = S::new("Node");
    n.kids.push(s);
    let (r, g) = write(&n as &dyn T);
    check(r.is_ok(), "a field that repeats the tag is accepted");
    check(!g.len_mismatch, "announced length when the tag field is suppressed");
}
/// the same with a long name, and in a wide struct
fn q_long() {
    let mut x = node(k::Str);
    x.p = near(LONG);
    let matches = x.p.is(LONG);
    let (n, at) = (pick(&[1, 2, 17, 33]), pick(&[0, 1, 8, 16, 32]));
    if at >= n { return }
    let mut s = node(k::Struct);
    for i in 0..n { if i == at { s.names.push("a"); s.kids.push(core::mem::replace(&mut x, node(k::Unit))) } else { let name = [b'f', b'0' + (i / 10) as u8, b'0' + (i % 10) as u8]; s.names.push(leak(&S::bytes(&name))); s.kids.push(small_of(k::U8)) } }
    let mut g = Log::new();
    let s = Long(s);
    let r = (&s as &dyn T).serialize(Ser(&mut g));
    let mut w = Log::new();
    w.push(g.t[0]).push(Tok::str("a")).push(Tok::str(LONG));
    for (f, x) in s.0.names.iter().zip(&s.0.kids) { if *f != "a" { w.push(Tok::str(f)).push(Tok::n(k::U8, x.n)); } else if !matches { break } }
    if matches {
        check(r.is_ok(), "a field that repeats the tag is accepted");
        w.push(Tok::end());
        w.len_mismatch = g.len_mismatch; // see k_length
        check_logs(&g, &w, "the tag is written once");
        reach("a long name");
    } else {
        check(r.is_err(), "a contradicting field is an error");
        check_logs(&g, &w, "nothing else is written");
    }
}
entries! { q_long q_collision q_other k_length }
