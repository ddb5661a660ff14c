//! C01: externally tagged serialization.
//! @bounds: leaves of all 20 leaf kinds (strings/bytes up to 3 bytes), compounds of all 10 kinds with up to 2 children of 5 kinds; thorough: compounds nested two deep, width 1; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257; a name of 300 bytes
//! @outside: other lengths, deeper nesting, other traits' names
use harness::{entries, name300, node::*, sym::*, tok::*};
use serde::Serialize;

#[typetag::serde]
trait T {}
#[typetag::serde]
impl T for Node {}
#[derive(serde::Serialize, serde::Deserialize)]
struct Renamed(Node);
#[typetag::serde(name = "other name")]
impl T for Renamed {}
// serialize-only flavour of the attribute
#[typetag::serialize]
trait U {}
#[typetag::serialize]
impl U for Node {}

fn expect(tag: &str, direct: &Log) -> Box<Log> {
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok::str(tag)).append(direct).push(Tok::end());
    w
}
fn body(n: Node) {
    let hr = boolv();
    let mut d = Log::new();
    d.hr = hr;
    let dr = n.serialize(Ser(&mut d));
    check(dr.is_ok(), "direct serialization works");
    let mut g = Log::new();
    g.hr = hr;
    match choice(3) {
        0 => { let r = (&n as &dyn T).serialize(Ser(&mut g)); check(r.is_ok(), "serializes"); check_logs(&g, &expect("Node", &d), "external-ser: {tag: value}") }
        1 => { let r = (&n as &dyn U).serialize(Ser(&mut g)); check(r.is_ok(), "serializes"); check_logs(&g, &expect("Node", &d), "external-ser-only: {tag: value}") }
        _ => {
            let mut d2 = Log::new();
            d2.push(Tok::s(k::NewtypeStruct, "Renamed")).append(&d);
            let r = Renamed(n);
            let b: Box<dyn T> = Box::new(r);
            let r = b.serialize(Ser(&mut g));
            check(r.is_ok(), "serializes");
            check_logs(&g, &expect("other name", &d2), "external-ser-renamed: {tag: value}")
        }
    }
    reach("end");
}
fn q_leaves() { body(leaf(pick(&LEAVES), 3)) }
fn q_compounds() { let k = pick(&COMPOUNDS); body(compound_of(k, 1, 2)) }
fn t_deep() { let k = pick(&COMPOUNDS); body(compound_of(k, 2, 1)) }
fn q_sized() { body(sized()) }
#[derive(serde::Serialize, serde::Deserialize)]
struct Long(Node);
#[typetag::serde(name = name300!())]
impl T for Long {}
fn q_long() {
    let x = Long(small_of(k::U8));
    let v = Tok::n(k::U8, x.0.n);
    let mut g = Log::new();
    let r = (&x as &dyn T).serialize(Ser(&mut g));
    check(r.is_ok(), "serializes");
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok::str(name300!())).append_slice(&[Tok::s(k::NewtypeStruct, "Long"), v]).push(Tok::end());
    check_logs(&g, &w, "external-ser: a long name");
}
entries! { q_long q_sized q_leaves q_compounds t_deep }
