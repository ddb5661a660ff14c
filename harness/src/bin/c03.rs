//! C03: internally tagged serialization.
//! @bounds: leaves of all 20 leaf kinds (strings/bytes up to 3 bytes), compounds of all 10 kinds with up to 2 children of 5 kinds; thorough: compounds nested two deep, width 1; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257; a name of 300 bytes
//! @outside: other lengths, deeper nesting, other traits' names
use harness::{entries, name300, node::*, sym::*, tok::*};
use serde::Serialize;

#[typetag::serde(tag = "type")]
trait T {}
#[typetag::serde]
impl T for Node {}
#[derive(serde::Serialize, serde::Deserialize)]
struct Renamed(Node);
#[typetag::serde(name = "other name")]
impl T for Renamed {}
#[typetag::serialize(tag = "type", default_variant = "Node")]
trait U {}
#[typetag::serialize]
impl U for Node {}

/// reference model: how a value with a tag looks
fn expect(n: &Node, name: &str, w: &mut Log) {
    let head = |w: &mut Log, len: u64| { w.push(Tok::map(len)).push(Tok::str("type")).push(Tok::str(name)); };
    let kids = |w: &mut Log| { for x in &n.kids { direct(x, w) } };
    match n.k {
        // a newtype struct is transparent
        k::NewtypeStruct => expect(&n.kids[0], name, w),
        // nothing besides the tag
        k::Unit | k::UnitStruct | k::None => { head(w, 1); w.push(Tok::end()); }
        // the inner variant becomes an entry of its own
        k::UnitVariant => { head(w, 2); w.push(Tok::str(VN)).push(Tok::k(k::Unit)).push(Tok::end()); }
        k::NewtypeVariant => { head(w, 2); w.push(Tok::str(VN)); kids(w); w.push(Tok::end()); }
        k::TupleVariant => { head(w, 2); w.push(Tok::str(VN)).push(Tok { s: S::new(VN), ..Tok::len(k::TupleStruct, n.kids.len() as u64) }); kids(w); w.push(Tok::end()).push(Tok::end()); }
        k::StructVariant => {
            let live = n.names.iter().filter(|n| !n.starts_with('!')).count();
            head(w, 2);
            w.push(Tok::str(VN)).push(Tok { s: S::new(VN), ..Tok::len(k::Struct, live as u64) });
            for (f, x) in n.names.iter().zip(&n.kids) { if !f.starts_with('!') { w.push(Tok::s(k::Field, f)); direct(x, w) } }
            w.push(Tok::end()).push(Tok::end());
        }
        // entries next to the tag
        k::Map => { head(w, if n.known { n.kids.len() as u64 / 2 + 1 } else { NO_LEN }); kids(w); w.push(Tok::end()); }
        k::Struct => {
            let live = n.names.iter().filter(|n| !n.starts_with('!')).count();
            head(w, live as u64 + 1);
            for (f, x) in n.names.iter().zip(&n.kids) { if !f.starts_with('!') { w.push(Tok::str(f)); direct(x, w) } }
            w.push(Tok::end());
        }
        // everything else sits under the key "value"
        k::Some => { head(w, 2); w.push(Tok::str("value")); kids(w); w.push(Tok::end()); }
        _ => { head(w, 2); w.push(Tok::str("value")); let mut m = Vec::new(); m.push(n); direct(m[0], w); w.push(Tok::end()); }
    }
}
fn direct(n: &Node, w: &mut Log) {
    let (r, l) = write(n);
    check(r.is_ok(), "direct serialization works");
    w.append(&l);
    if l.len_mismatch | l.protocol { bound("harness: malformed value") }
}
/// what buffering is allowed to change in a nested position of n
fn normalise(n: &mut Node) {
    if n.k == k::NewtypeStruct { return normalise(&mut n.kids[0]) }
    match n.k { k::Seq | k::Tuple | k::TupleStruct | k::TupleVariant | k::StructVariant => { n.normalise(); } _ => {} }
}
fn body(mut n: Node) {
    let mut g = Log::new();
    let which = choice(3);
    let (r, name) = match which {
        0 => ((&n as &dyn T).serialize(Ser(&mut g)), "Node"),
        1 => ((&n as &dyn U).serialize(Ser(&mut g)), "Node"),
        _ => {
            let x = Renamed(n);
            let r = { let t: &dyn T = &x; t.serialize(Ser(&mut g)) };
            n = x.0;
            (r, "other name")
        }
    };
    check(r.is_ok(), "serializes");
    normalise(&mut n);
    let mut w = Log::new();
    expect(&n, name, &mut w);
    check_logs(&g, &w, "internal-ser: tag first, then the value");
    reach("end");
}
fn q_leaves() { body(leaf(pick(&LEAVES), 3)) }
fn q_compounds() { let k = pick(&COMPOUNDS); body(compound_of(k, 1, 2)) }
// newtype structs around everything are transparent
fn q_newtypes() { body(compound(k::NewtypeStruct, 1, &mut |_| compound(k::NewtypeStruct, 1, &mut |_| { let c = choice(LEAVES.len() + COMPOUNDS.len()); if c < LEAVES.len() { leaf(LEAVES[c], 1) } else { compound_of(COMPOUNDS[c - LEAVES.len()], 1, 1) } }))) }
fn t_deep() { let k = pick(&COMPOUNDS); body(compound_of(k, 2, 1)) }
fn q_sized() { body(sized()) }
#[derive(serde::Serialize, serde::Deserialize)]
struct Long(Node);
#[typetag::serde(name = name300!())]
impl T for Long {}
fn q_long() {
    let x = Long(small_of(k::U8));
    let v = Tok::n(k::U8, x.0.n);
    let mut g = Log::new();
    let r = (&x as &dyn T).serialize(Ser(&mut g));
    check(r.is_ok(), "serializes");
    let mut w = Log::new();
    w.push(Tok::map(2)).push(Tok::str("type")).push(Tok::str(name300!())).push(Tok::str("value")).push(v).push(Tok::end());
    check_logs(&g, &w, "internal-ser: a long name");
}
entries! { q_long q_sized q_leaves q_compounds q_newtypes t_deep }
