//! C02: adjacently tagged serialization.
//! @bounds: leaves of all 20 leaf kinds (strings/bytes up to 3 bytes), compounds of all 10 kinds with up to 2 children of 5 kinds; thorough: compounds nested two deep, width 1; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257; a name of 300 bytes
//! @outside: other lengths, deeper nesting, other traits' names
use harness::{entries, name300, node::*, sym::*, tok::*};
use serde::Serialize;

#[typetag::serde(tag = "kind", content = "body")]
trait Adj {}
#[typetag::serde]
impl Adj for Node {}
#[derive(serde::Serialize, serde::Deserialize)]
struct Renamed(Node);
#[typetag::serde(name = "other name")]
impl Adj for Renamed {}
#[typetag::serialize(tag = "t", content = "c", default_variant = "Node", deny_unknown_fields)]
trait AdjSer {}
#[typetag::serialize]
impl AdjSer for Node {}

fn expect(tr: &str, tag: &str, content: &str, name: &str, direct: &Log) -> Box<Log> {
    let mut w = Log::new();
    w.push(Tok { s: S::new(tr), ..Tok::len(k::Struct, 2) });
    w.push(Tok::s(k::Field, tag)).push(Tok::str(name)).push(Tok::s(k::Field, content)).append(direct).push(Tok::end());
    w
}
fn body(n: Node) {
    let mut d = Log::new();
    let dr = n.serialize(Ser(&mut d));
    check(dr.is_ok(), "direct serialization works");
    let mut g = Log::new();
    match choice(3) {
        0 => { let r = (&n as &dyn Adj).serialize(Ser(&mut g)); check(r.is_ok(), "serializes"); check_logs(&g, &expect("Adj", "kind", "body", "Node", &d), "adjacent-ser") }
        1 => { let r = (&n as &dyn AdjSer).serialize(Ser(&mut g)); check(r.is_ok(), "serializes"); check_logs(&g, &expect("AdjSer", "t", "c", "Node", &d), "adjacent-ser-only") }
        _ => {
            let mut d2 = Log::new();
            d2.push(Tok::s(k::NewtypeStruct, "Renamed")).append(&d);
            let b: Box<dyn Adj> = Box::new(Renamed(n));
            let r = b.serialize(Ser(&mut g));
            check(r.is_ok(), "serializes");
            check_logs(&g, &expect("Adj", "kind", "body", "other name", &d2), "adjacent-ser-renamed")
        }
    }
    reach("end");
}
fn q_leaves() { body(leaf(pick(&LEAVES), 3)) }
fn q_compounds() { let k = pick(&COMPOUNDS); body(compound_of(k, 1, 2)) }
fn t_deep() { let k = pick(&COMPOUNDS); body(compound_of(k, 2, 1)) }
fn q_sized() { body(sized()) }
#[derive(serde::Serialize, serde::Deserialize)]
struct Long(Node);
#[typetag::serde(name = name300!())]
impl Adj for Long {}
fn q_long() {
    let x = Long(small_of(k::U8));
    let v = Tok::n(k::U8, x.0.n);
    let mut g = Log::new();
    let r = (&x as &dyn Adj).serialize(Ser(&mut g));
    check(r.is_ok(), "serializes");
    let mut w = Log::new();
    w.push(Tok { s: S::new("Adj"), ..Tok::len(k::Struct, 2) }).push(Tok::s(k::Field, "kind")).push(Tok::str(name300!())).push(Tok::s(k::Field, "body")).append_slice(&[Tok::s(k::NewtypeStruct, "Long"), v]).push(Tok::end());
    check_logs(&g, &w, "adjacent-ser: a long name");
}
entries! { q_long q_sized q_leaves q_compounds t_deep }
