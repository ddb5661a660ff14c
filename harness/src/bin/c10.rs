//! C10: the position of an internal tag, and its absence.
//! @bounds: self-describing formats (JSON-like, RON-like) x 3 string ownerships; documents of up to 3 (thorough: 4) entries with any keys of 1..2 bytes, the tag at any position or nowhere, with and without a default variant, known and unknown names; values of every kind (leaves, sequences, maps, enums, options, newtypes, units) with the tag after the value against the tag before it; types that read their entries completely, partly or not at all, or refuse them; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257; a tag of 41 bytes, and keys that differ from it in any one byte or in length
//! @outside: longer documents, other lengths of keys and values; documents with two tags; formats that are not self-describing (a value before its tag cannot be read there)
//! @assume: read by the calls that fit the value; any calls are C11
//! @need: buffer: accepted|buffer: the type's visitor sees the same|buffer: the input is used up|buffer: accepted only if it is accepted directly
//! @shard q_keys|t_keys 8 5
//! @shard q_kinds|q_rest 8 4
//! @shard q_sized 8 2
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

#[typetag::deserialize(tag = "t")]
trait T {}
#[typetag::deserialize(tag = "t", default_variant = "Probe")]
trait D {}
#[typetag::deserialize]
impl T for Probe {}
#[typetag::deserialize]
impl D for Probe {}
const LONG: &str = "a.tag.that.is.longer.than.thirty-two.bytes";
#[typetag::deserialize(tag = "a.tag.that.is.longer.than.thirty-two.bytes")]
trait L {}
#[typetag::deserialize]
impl L for Probe {}
fn via_l(s: &mut Src) -> Result<(), E> { read::<Box<dyn L>>(s).map(|_| ()) }
fn via_t(s: &mut Src) -> Result<(), E> { read::<Box<dyn T>>(s).map(|_| ()) }
fn via_d(s: &mut Src) -> Result<(), E> { read::<Box<dyn D>>(s).map(|_| ()) }
fn fmt() -> Fmt { Fmt { strm: choice(3) as u8, ..pick(&[Fmt::JSON, Fmt::RICH]) } }

fn keys(n: usize) {
    let default = flag();
    let f = pick(&[Fmt::JSON, Fmt::RICH]);
    // the tag's place; n: none
    let at = choice(n + 1);
    let known = at == n || flag();
    let mut w = Log::new();
    let mut want = Log::new();
    let mut p = PROG0;
    p.hints[0] = pick(&[k::HMap, k::HStruct, k::HAny]);
    p.hints[1] = pick(&[k::HAny, k::HU8]);
    p.n = 2;
    p.key = pick(&[k::HStr, k::HIdentifier]);
    w.push(Tok::map(n as u64));
    want.push(Tok::k(k::Map));
    for i in 0..n {
        if i == at {
            w.push(Tok::str("t")).push(Tok::str(if known { "Probe" } else { "Prob" }));
            continue;
        }
        let key = ascii(1 + choice(2));
        assume(!key.is("t"));
        let v = Tok::n(k::U8, u8v() as u128);
        w.push(Tok { s: key, ..Tok::k(k::Str) }).push(v);
        want.push(Tok::k(k::VKey)).push(Tok { s: key, ..Tok::k(k::Str) }).push(v);
    }
    w.push(Tok::end());
    want.push(Tok::end());
    let x = run(&w, f, p, if default { via_d } else { via_t });
    if known && (at < n || default) {
        check(x.r.is_ok(), "internal-de: a document is read wherever its tag is");
        check_logs(&loose(&x.v), &want, "internal-de: the type sees the other entries in order");
        if at < n && at > 0 { reach("the tag is not the first key") }
        if at == n { reach("no tag") }
        return;
    }
    check(x.r.is_err(), "internal-de: no tag or an unknown tag is an error");
    if let Err(e) = x.r {
        check(e.k == if known { EK::MissingField } else { EK::UnknownVariant }, "internal-de: of the right kind");
        check(e.s.is(if known { "t" } else { "Prob" }), "internal-de: naming it");
    }
    check(x.v.n == 0, "internal-de: no type is asked");
    if at == n { reach("the tag is missing") } else { reach("the tag is unknown") }
}
fn q_keys() { keys(choice(4)) }
fn t_keys() { keys(4) }

/// any kind of value with the tag last or nowhere against the tag first
fn q_kinds() {
    unsafe { MESSAGES = true }
    let f = fmt();
    let shape = choice(7);
    let mut p = PROG0;
    p.n = 1;
    p.key = k::HStr;
    let mut e = Log::new();
    let mut n = 1;
    let value = match shape {
        0 => {
            // (a 128-bit integer cannot be buffered)
            let x = leaf(pick(&LEAVES), 2);
            assume(x.k != k::I128 && x.k != k::U128 && x.k != k::None && x.k != k::Unit && x.k != k::UnitStruct && x.k != k::UnitVariant);
            p.hints[0] = own_hint(x.k);
            Some(x)
        }
        1 => { let x = compound(pick(&[k::Seq, k::Tuple, k::TupleStruct]), choice(3), &mut |_| small_of(pick(&[k::U8, k::Str]))); p.hints[0] = own_hint(x.k); p.hints[1] = k::HAny; p.n = 2; p.len = x.kids.len(); Some(x) }
        2 => { let x = small_of(pick(&[k::U8, k::Str, k::Unit])); p.hints[0] = k::HOption; p.hints[1] = own_hint(x.k); p.n = 2; Some(x) }
        3 => { p.hints[0] = k::HOption; n = 0; None }
        4 => { p.hints[0] = pick(&[k::HUnit, k::HUnitStruct, k::HIgnoredAny]); n = 0; None }
        5 => {
            n = choice(3);
            p.hints[0] = pick(&[k::HMap, k::HStruct, k::HAny]);
            p.hints[1] = k::HAny;
            p.n = 2;
            for _ in 0..n { let key = ascii(2); e.push(Tok { s: key, ..Tok::k(k::Str) }).append(&input(&small_of(pick(&[k::U8, k::Str, k::Unit])))); }
            None
        }
        _ => {
            let var = pick(&[k::UnitVariant, k::NewtypeVariant, k::TupleVariant, k::StructVariant]);
            let x = match var { k::UnitVariant => small_of(k::Unit), k::NewtypeVariant => small_of(k::Str), k::TupleVariant => compound(k::Tuple, choice(3), &mut |_| small_of(k::U8)), _ => compound(k::Struct, choice(3), &mut |_| small_of(k::U8)) };
            p = Prog { var, len: x.kids.len(), key: k::HIdentifier, ..p };
            p.hints[0] = k::HEnum;
            p.hints[1] = k::HAny;
            p.n = 2;
            e.push(Tok::str("Nv")).append(&input(&x));
            None
        }
    };
    if let Some(x) = &value { e.push(Tok::str("value")).append(&input(x)); }
    if flag() { for i in (0..p.n).rev() { p.hints[i + 1] = p.hints[i] } p.hints[0] = k::HNewtypeStruct; p.n += 1; }
    let tag = [Tok::str("t"), Tok::str("Probe")];
    let d = |first: bool, last: bool| {
        let mut w = Log::new();
        w.push(Tok::map(n as u64 + (first || last) as u64));
        if first { w.append_slice(&tag); }
        w.append(&e);
        if last { w.append_slice(&tag); }
        w.push(Tok::end());
        w
    };
    let y = run(&d(true, false), f, p, via_t);
    check(y.r.is_ok(), "with the tag first it is read");
    let x = if flag() { run(&d(false, true), f, p, via_t) } else { run(&d(false, false), f, p, via_d) };
    buffered(&x, &y, true);
    if shape == 0 { reach("leaf") }
    if shape == 1 { reach("sequence") }
    if shape == 2 { reach("option") }
    if shape == 4 { reach("unit") }
    if shape == 6 { reach("enum") }
}
/// entries that the type leaves unread
fn q_rest() {
    let f = fmt();
    let n = choice(3);
    let mut p = PROG0;
    p.hints[0] = pick(&[k::HMap, k::HStruct, k::HAny, k::HU8, k::HStr, k::HOption, k::HUnit, k::HUnitStruct, k::HIgnoredAny, k::HTuple, k::HEnum]);
    let fits = p.hints[0] != k::HStr && p.hints[0] != k::HTuple;
    p.hints[1] = pick(&[k::HAny, k::HU8]);
    p.n = 2;
    p.key = k::HStr;
    p.var = k::NewtypeVariant;
    p.take = pick(&[0, 1, 2, usize::MAX]);
    if p.take > 2 && flag() { p.refuse = choice(4) }
    if flag() { for i in (0..p.n).rev() { p.hints[i + 1] = p.hints[i] } p.hints[0] = k::HNewtypeStruct; p.n += 1; }
    let first = pick(&["value", "Nv", "v"]);
    let mut e = Log::new();
    for i in 0..n {
        let key = if i == 0 { S::new(first) } else { let key = ascii(1); assume(!key.is("t")); key };
        e.push(Tok { s: key, ..Tok::k(k::Str) }).push(Tok::n(k::U8, u8v() as u128));
    }
    let tag = [Tok::str("t"), Tok::str("Probe")];
    // the tag after that many entries; usize::MAX: nowhere
    let d = |at: usize| {
        let mut w = Log::new();
        w.push(Tok::map(n as u64 + (at <= n) as u64));
        w.append_slice(&e.toks()[..2 * at.min(n)]);
        if at <= n { w.append_slice(&tag); }
        w.append_slice(&e.toks()[2 * at.min(n)..]);
        w.push(Tok::end());
        w
    };
    let y = run(&d(0), f, p, via_t);
    let x = if flag() { run(&d((1 + choice(n.max(1))).min(n)), f, p, via_t) } else { run(&d(usize::MAX), f, p, via_d) };
    buffered(&x, &y, fits);
    if y.r.is_err() && p.refuse == usize::MAX { reach("entries are left") }
    if y.r.is_ok() && n > 0 { reach("no entry is left") }
}
/// long strings, wide containers
fn q_sized() {
    let f = Fmt { hints: 1, ..pick(&[Fmt::JSON, Fmt::RICH]) };
    let x = sized();
    let p = sized_prog(&x);
    let mut v = input(&x);
    let mut e = Log::new();
    let mut n = 1;
    match x.k {
        k::Map | k::Struct => {
            n = v.t[0].len;
            let mut i = 0;
            while i < v.n { if v.t[i].k == k::Field { v.t[i].k = k::Str } i += 1 }
            e.append_slice(&v.toks()[1..v.n - 1]);
        }
        k::TupleVariant | k::StructVariant => { v.t[0].k = if x.k == k::TupleVariant { k::Tuple } else { k::Struct }; e.push(Tok::str(VN)).append(&v); }
        _ => { e.push(Tok::str("value")).append(&v); }
    }
    let tag = [Tok::str("t"), Tok::str("Probe")];
    let d = |first: bool, last: bool| {
        let mut w = Log::new();
        w.push(Tok::map(n + (first || last) as u64));
        if first { w.append_slice(&tag); }
        w.append(&e);
        if last { w.append_slice(&tag); }
        w.push(Tok::end());
        w
    };
    let y = run(&d(true, false), f, p, via_t);
    check(y.r.is_ok(), "with the tag first it is read");
    let x = if flag() { run(&d(false, true), f, p, via_t) } else { run(&d(false, false), f, p, via_d) };
    buffered(&x, &y, true);
}
/// a long tag, and keys that are nearly it
fn q_long() {
    let mut w = Log::new();
    let key = if flag() { S::new(LONG) } else { near(LONG) };
    let v = u8v();
    let first = flag();
    w.push(Tok::map(2));
    if !first { w.push(Tok::str("value")).push(Tok::n(k::U8, v as u128)); }
    w.push(Tok { s: key, ..Tok::k(k::Str) }).push(Tok::str("Probe"));
    if first { w.push(Tok::str("value")).push(Tok::n(k::U8, v as u128)); }
    w.push(Tok::end());
    let is = key.is(LONG);
    let mut p = PROG0;
    p.hints[0] = k::HU8;
    let x = run(&w, pick(&[Fmt::JSON, Fmt::RICH]), p, via_l);
    check(x.r.is_ok() == is, "internal-de: a long tag is found, and it alone");
    if let Err(e) = x.r { check(e.k == EK::MissingField && e.s.is(LONG), "internal-de: the missing tag is reported") } else { check(x.v.n == 1 && x.v.t[0].eq(&Tok::n(k::U8, v as u128)), "internal-de: behind a long tag") }
    if is { reach("a long tag") } else { reach("nearly a long tag") }
}
entries! { q_sized q_long q_keys q_kinds q_rest t_keys }
