//! C06: failures during serialization.
//! @bounds: the fault strikes at any single call of any of the three representations around: every leaf kind; compounds with up to 2 children; one compound in another; a value that fails by itself at any child position; thorough: 2 deep; strings, byte strings, sequences, tuples, maps, structs and variants of 17 and 65
//! @outside: several independent faults, other lengths
//! @shard q_sized 8 2
use harness::{entries, node::*, sym::*, tok::*};
use serde::Serialize;

#[typetag::serde]
trait Ex {}
#[typetag::serde(tag = "type")]
trait In {}
#[typetag::serde(tag = "type", content = "c")]
trait Ad {}
#[typetag::serde]
impl Ex for Node {}
#[typetag::serde]
impl In for Node {}
#[typetag::serde]
impl Ad for Node {}

fn go(rep: usize, n: &Node, l: &mut Log) -> Result<(), E> {
    match rep { 0 => (n as &dyn Ex).serialize(Ser(l)), 1 => (n as &dyn In).serialize(Ser(l)), _ => (n as &dyn Ad).serialize(Ser(l)) }
}
fn body(n: Node) {
    let rep = choice(3);
    let mut full = Log::new();
    let r = go(rep, &n, &mut full);
    check(r.is_ok(), "works without a fault");
    let at = choice(full.ops);
    let mut g = Log::new();
    g.fault = at;
    let r = go(rep, &n, &mut g);
    check(g.faulted, "the fault strikes");
    check(r.is_err(), "a failing format is not reported as success");
    if let Err(e) = r { check(e.k == EK::Fault, "the format's own error comes back") }
    check(!g.after_fault, "no call after the failure");
    // what was written before is a prefix
    let mut i = 0;
    let mut same = true;
    while i < g.n { same = and(same, g.t[i].eq(&full.t[i])); i += 1 }
    check(g.n == at, "all calls before the fault happened");
    check(same, "the same calls as without the fault");
    reach("end");
}
fn q_leaves() { body(leaf(pick(&LEAVES), 1)) }
fn q_compounds() { let k = pick(&COMPOUNDS); body(compound_of(k, 1, 2)) }
fn t_deep() { let k = pick(&COMPOUNDS); body(compound_of(k, 2, 1)) }
/// a compound that is buffered, in another
fn q_nested() { let (k1, k2) = (pick(&COMPOUNDS), pick(&COMPOUNDS)); body(compound(k1, 1, &mut |i| if k1 == k::Map && i == 0 { small_of(k::Str) } else { compound(k2, if one(k2) { 1 } else { choice(3) }, &mut |_| small_of(k::U8)) })) }
fn one(kind: Kind) -> bool { kind == k::Some || kind == k::NewtypeStruct || kind == k::NewtypeVariant }
fn own(r: Result<(), E>) {
    check(r.is_err(), "a failing value is not reported as success");
    if let Err(e) = r {
        check(e.k == EK::Custom, "the value's error comes back");
        let same = e.s.is("own-error");
        check(same, "with its message");
    }
}
/// the value fails by itself somewhere inside
fn q_own() {
    unsafe { MESSAGES = true }
    let rep = choice(3);
    let kind = pick(&COMPOUNDS);
    let n = match kind { k::Some | k::NewtypeStruct | k::NewtypeVariant => 1, _ => 1 + choice(2) };
    let at = choice(if kind == k::Map { 2 * n } else { n });
    let nest = flag();
    let x = compound(kind, n, &mut |i| if i == at { if nest { let k2 = pick(&COMPOUNDS); compound(k2, 1, &mut |_| node(FAILS)) } else { node(FAILS) } } else { small_of(k::U8) });
    let mut g = Log::new();
    let r = go(rep, &x, &mut g);
    own(r);
    check(g.n == 0 || g.t[g.n - 1].k != k::End || g.n < 3, "the container is not completed");
    reach("end-own");
}
fn q_own_top() {
    unsafe { MESSAGES = true }
    let rep = choice(3);
    let mut g = Log::new();
    own(go(rep, &node(FAILS), &mut g));
}
fn q_sized() { body(sized_of(pick(&SIZED), pick(&[17, 65]))) }
entries! { q_sized q_leaves q_compounds q_nested q_own q_own_top t_deep }
