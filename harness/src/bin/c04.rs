//! C04: values nested inside an internally tagged value reach the format unchanged.
//! @bounds: seq/tuple/tuple struct/tuple variant/struct variant/newtype variant/some/map/struct around every leaf kind and every compound kind (2 deep, width 2); thorough: 3 deep, width 1; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257 next to the tag and in a field
//! @outside: other lengths, deeper nesting
//! @shard q_sized 8 2
use harness::{entries, node::*, sym::*, tok::*};
use serde::Serialize;

#[typetag::serde(tag = "type")]
trait T {}
#[typetag::serde]
impl T for Node {}

/// Compares what follows the n tokens of the head.
fn body(mut n: Node) {
    let hr = true;
    let mut g = Log::new();
    g.hr = hr;
    let r = (&n as &dyn T).serialize(Ser(&mut g));
    check(r.is_ok(), "serializes");
    check(!g.len_mismatch && !g.protocol, "the format's protocol is respected");
    // buffering forgets whether a length was announced, and skipped fields
    match n.k { k::Some | k::NewtypeVariant | k::Map | k::Struct => {} _ => { n.normalise(); } }
    // the children, as they are by themselves
    let mut w = Log::new();
    let r = n.serialize(Ser(&mut w));
    check(r.is_ok(), "direct serialization works");
    // head: map, tag, name, ["value" or the variant], [opening token]
    let head = match n.k { k::Map | k::Struct => 3, k::Seq | k::Tuple | k::TupleStruct | k::TupleVariant | k::StructVariant => 5, _ => 4 };
    let mut x = Log::new();
    let mut y = Log::new();
    check(g.n > head, "something follows the tag");
    x.append_slice(&g.t[head..g.n]);
    // direct: opening token, children..., (end)
    y.append_slice(&w.t[1..w.n]);
    match n.k { k::Map | k::Struct => {} _ => { y.push(Tok::end()); } }
    // field names of a struct turn into keys of the map
    if n.k == k::Struct {
        let mut depth = 0;
        let mut i = 0;
        while i < y.n {
            let t = &mut y.t[i];
            match t.k {
                k::Field => if depth == 0 { t.k = k::Str },
                k::Seq | k::Tuple | k::TupleStruct | k::TupleVariant | k::Map | k::Struct | k::StructVariant => depth += 1,
                k::End => if i + 1 < y.n { depth -= 1 },
                _ => {}
            }
            i += 1;
        }
    }
    check_logs(&x, &y, "nested values arrive unchanged");
    reach("end");
}
const OUTER: [Kind; 9] = [k::Some, k::NewtypeVariant, k::Seq, k::Tuple, k::TupleStruct, k::TupleVariant, k::Map, k::Struct, k::StructVariant];
fn around(kid: Node) -> Node {
    let k = pick(&OUTER);
    let mut kid = Some(kid);
    compound(k, 1, &mut |i| if k == k::Map && i == 0 { small_of(k::Str) } else { kid.take().unwrap() })
}
fn q_leaves() { body(around(leaf(pick(&LEAVES), 2))) }
fn q_two() { let k = pick(&OUTER[2..]); let n = choice(3); body(compound(k, n, &mut |_| small())) }
fn q_compounds() { let k = pick(&COMPOUNDS); body(around(compound_of(k, 1, 2))) }
// keys of maps that are not strings are buffered like any value
fn q_keys() { let mut kid = Some(leaf(pick(&LEAVES), 1)); body(around(compound(k::Map, 1, &mut |i| if i == 0 { kid.take().unwrap() } else { small_of(k::U8) }))) }
fn t_deep() { let k = pick(&COMPOUNDS); body(around(compound_of(k, 2, 1))) }
/// in a field
fn q_sized() { body(around(sized())) }
/// next to the tag or under "value"
fn q_wide() { body(sized_of(pick(&OUTER[2..]), pick(&LENGTHS))) }
entries! { q_sized q_wide q_leaves q_two q_compounds q_keys t_deep }
