//! C19: documents of the wrong shape.
//! @bounds: any document that is a leaf of any of the 20 kinds, a sequence of up to 3 elements, a map of up to 2 (thorough: 3) entries, or one of these in an option, newtype or enum variant; keys and tags of any leaf kind or a sequence or map; values any leaf kind, sequence or map; strings of up to 2 bytes and all payloads symbolic; four kinds of formats; the concrete type takes anything; external, internal and adjacent tags, with and without default variant, with and without deny_unknown_fields
//! @outside: larger documents; what happens to keys that are not strings after an internal tag (the concrete type's business)
//! @need: malformed: accepted|malformed: rejected
//! @shard q_.*|t_.* 8 4
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

macro_rules! traits { ($($m:ident $(($($args:tt)*))?;)*) => { $( mod $m {
    #[typetag::deserialize$(($($args)*))?]
    pub trait T {}
    #[typetag::deserialize(name = "V")]
    impl T for harness::probe::Probe {}
    pub fn via(s: &mut harness::tok::Src) -> Result<(), harness::tok::E> { harness::tok::read::<Box<dyn T>>(s).map(|_| ()) }
} )* } }
traits! { ext; int(tag = "t"); int_default(tag = "t", default_variant = "V"); adj(tag = "t", content = "c"); adj_default(tag = "t", content = "c", default_variant = "V"); adj_deny(tag = "t", content = "c", deny_unknown_fields); }
const VIA: [Reader; 6] = [ext::via, int::via, int_default::via, adj::via, adj_default::via, adj_deny::via];

static mut SMALLER: bool = false;
fn leaf_of(kind: Kind) -> Node {
    let mut x = if kind == k::Str || kind == k::Bytes { node(kind) } else { return if kind == k::I128 { let mut x = node(kind); x.n = 5; x } else { leaf(kind, 1) } };
    x.p = if kind == k::Str { ascii(1) } else { raw_bytes(1) };
    x
}
fn text(s: &str) -> Node { let mut x = node(k::Str); x.p = S::new(s); x }
/// (the messages of errors about 128-bit integers have their digits)
fn any_leaf(smax: usize) -> Node {
    let kind = pick(&LEAVES);
    if kind == k::I128 || kind == k::U128 { let mut x = node(kind); x.n = 5; return x }
    leaf(kind, smax)
}
/// what a key may be
fn key() -> Node {
    if unsafe { SMALLER } {
        return match choice(3) { 0 => leaf_of(k::Str), 1 => text("c"), _ => leaf_of(pick(&[k::U8, k::Unit, k::Bytes, k::Char, k::I128])) };
    }
    match choice(6) {
        0 => text("t"),
        1 => text("c"),
        2 => text("V"),
        3 => leaf(k::Str, 2),
        4 => any_leaf(1),
        _ => compound(pick(&[k::Seq, k::Map]), choice(2), &mut |_| text("V")),
    }
}
fn val() -> Node {
    if unsafe { SMALLER } {
        return match choice(3) { 0 => text("V"), 1 => leaf_of(pick(&[k::U8, k::None, k::Bytes, k::I128])), _ => compound(k::Seq, 1, &mut |_| text("V")) };
    }
    match choice(4) {
        0 => text("V"),
        1 => any_leaf(1),
        2 => compound(k::Seq, choice(3), &mut |_| text("V")),
        _ => compound(k::Map, choice(2), &mut |i| text(if i == 0 { "t" } else { "V" })),
    }
}
fn map(n: usize, last: fn() -> Node) -> Node {
    let mut i = 0;
    compound(k::Map, n, &mut |_| { i += 1; if i % 2 == 1 { key() } else if i == 2 { val() } else { last() } })
}
fn known(x: &Node) -> bool { x.k == k::Str && x.p.is("V") || x.k == k::Char && x.n == 'V' as u128 }
fn text_like(x: &Node) -> bool { x.k == k::Str || x.k == k::Char || x.k == k::UnitVariant }
fn is(x: &Node, s: &str) -> bool { x.k == k::Str && x.p.is(s) || x.k == k::Char && s.as_bytes()[0] as u128 == x.n }
/// is the document to be accepted?  None: not said
fn model(which: usize, x: &Node) -> Option<bool> {
    let m = x.k == k::Map;
    let n = x.kids.len() / 2;
    let at = |i: usize| (&x.kids[2 * i], &x.kids[2 * i + 1]);
    match which {
        0 => Some(m && n == 1 && known(&x.kids[0])),
        1 | 2 => {
            if !m { return Some(false) }
            for i in 0..n {
                let (key, value) = at(i);
                if is(key, "t") {
                    if !known(value) { return Some(false) }
                    // what follows
                    for j in i + 1..n {
                        let key = at(j).0;
                        if i == 0 && !text_like(key) { return None }
                        // bytes may be a string
                        if i > 0 && key.k == k::Bytes { return None }
                        if i > 0 && !text_like(key) { return Some(false) }
                        if !bufferable(at(j).1) && i > 0 { return Some(false) }
                    }
                    return Some(true);
                }
                if !text_like(key) { return Some(false) }
                if !bufferable(value) { return Some(false) }
            }
            Some(which == 2)
        }
        _ => {
            if x.k == k::Seq { return Some(x.kids.len() == 2 && known(&x.kids[0])) }
            if !m { return Some(false) }
            let (mut tag, mut content) = (false, false);
            for i in 0..n {
                let (key, value) = at(i);
                if !text_like(key) { return Some(false) }
                if is(key, "t") {
                    if tag || !known(value) { return Some(false) }
                    tag = true;
                } else if is(key, "c") {
                    if content || !tag && !bufferable(value) { return Some(false) }
                    content = true;
                } else if which == 5 { return Some(false) }
            }
            Some(tag || which == 4 && content)
        }
    }
}
/// 128-bit integers are not
fn bufferable(x: &Node) -> bool { x.k != k::I128 && x.k != k::U128 }
fn body(which: usize, x: Node) {
    let f = formats();
    unsafe { PROG = PROG0 }
    let d = input(&x);
    let mut s = Src::new(d.toks(), f);
    start();
    let r = VIA[which](&mut s);
    let seen = stop();
    if !f.sd {
        // (a string that is expected has to be one)
        if x.k != k::Map { check(r.is_err(), "malformed: rejected by a strict format") }
        return;
    }
    // what leaves no trace in the data
    let mut y = &x;
    while !f.rich && (y.k == k::Some || y.k == k::NewtypeStruct) { y = &y.kids[0] }
    let in_variant = own_hint(y.k) == k::HEnum;
    if in_variant { reach("an enum"); return }
    match model(which, y) {
        Some(true) => { check(r.is_ok(), "malformed: a correct document is read"); check(seen.n > 0, "malformed: by its type"); reach("malformed: accepted") }
        Some(false) => { check(r.is_err(), "malformed: an incorrect document is rejected"); reach("malformed: rejected") }
        None => {}
    }
}
fn q_leaf() { body(choice(6), any_leaf(2)) }
fn seq() { let n = choice(4); body(choice(6), compound(k::Seq, n, &mut |i| if i == 0 { key() } else { val() })) }
fn q_seq() { unsafe { SMALLER = true } seq() }
fn q_map1() { body(choice(6), map(1, val)) }
fn q_map2() { unsafe { SMALLER = true } body(choice(6), map(2, val)) }
fn q_wrapped() {
    unsafe { SMALLER = true }
    let kind = pick(&[k::Some, k::NewtypeStruct, k::NewtypeVariant, k::TupleVariant, k::StructVariant]);
    body(choice(6), compound(kind, 1, &mut |_| match choice(3) { 0 => text("V"), 1 => map(1, || text("V")), _ => compound(k::Seq, 2, &mut |_| text("V")) }))
}
fn t_seq() { seq() }
fn t_map2() { body(choice(6), map(2, || text("V"))) }
fn t_map3() { unsafe { SMALLER = true } body(choice(6), map(3, || leaf_of(pick(&[k::U8, k::Str])))) }
entries! { q_leaf q_seq q_map1 q_map2 q_wrapped t_seq t_map2 t_map3 }
