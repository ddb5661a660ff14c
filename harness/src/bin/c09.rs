//! C09: internally tagged deserialization with the tag first.
//! @bounds: 4 formats (JSON-like, RON-like, strict, bincode-like) x 3 string ownerships; all calls that read the value from under the key "value", and all 31 calls inside an option, on every leaf kind; sequences and tuples (width 2); maps and structs of up to 2 entries with any key of 1 byte and every call for the values, read completely or partly or refused; enums with every kind of payload; newtypes around all of these; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257
//! @outside: other lengths; duplicate tags
//! @assume: messages of errors are compared only as far as they contain no symbolic text
//! @need: de: rejected|de: accepted|de: the type's visitor sees the same|de: the format gets the type's own calls|de: the error message is the type's own
//! @shard q_maps|q_enums|t_.* 8 4
//! @shard q_sized 8 2
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

#[typetag::deserialize(tag = "tag")]
trait T {}
#[typetag::deserialize]
impl T for Probe {}
fn via(s: &mut Src) -> Result<(), E> { read::<Box<dyn T>>(s).map(|_| ()) }

/// the tag, then n entries
fn doc(n: usize, entries: &[Tok]) -> Box<Log> {
    let mut w = Log::new();
    w.push(Tok::map(1 + n as u64)).push(Tok::str("tag")).push(Tok::str("Probe")).append_slice(entries).push(Tok::end());
    w
}
fn keyed(key: &str, v: &Log) -> Box<Log> {
    let mut w = Log::new();
    w.push(Tok::str(key)).append(v);
    w
}
fn fmt() -> Fmt { Fmt { strm: choice(3) as u8, ..formats() } }
/// the calls that a document starts with
fn leads(x: &Run, more: &[Kind]) {
    let all = [k::HMap, k::HStr, k::HStr];
    let mut ok = x.h.n >= 3 + more.len();
    for i in 0..3 { ok = ok && x.h.t[i].k == all[i] }
    for i in 0..more.len() { ok = ok && x.h.t[3 + i].k == more[i] }
    check(ok, "internal-de: one map, whose keys and tag are asked for as strings");
}
/// optionally a newtype struct around the type
fn wrapped(p: &Prog) -> (Prog, bool) {
    if flag() { return (*p, false) }
    let mut q = *p;
    q.n = p.n + 1;
    q.hints[0] = k::HNewtypeStruct;
    for i in 0..p.n { q.hints[i + 1] = p.hints[i] }
    reach("newtype struct");
    (q, true)
}
fn prepend(y: &mut Run, t: &[Tok]) {
    let mut w = Log::new();
    w.append_slice(t).append_slice(y.v.toks());
    y.v = w;
}
/// a value under the key "value"
fn under_value(v: &Log, f: Fmt, p: Prog) {
    let mut y = run(v, f, p, plain);
    let (q, nt) = wrapped(&p);
    let x = run(&doc(1, keyed("value", v).toks()), f, q, via);
    if nt { prepend(&mut y, &[Tok::k(k::NewtypeStruct)]) }
    leads(&x, &[k::HStr]);
    same(&x, &y, 4);
}
/// calls that are answered from the value under that key
const VALUED: [Kind; 22] = [k::HBool, k::HI8, k::HI16, k::HI32, k::HI64, k::HI128, k::HU8, k::HU16, k::HU32, k::HU64, k::HU128, k::HF32, k::HF64, k::HChar, k::HStr, k::HString, k::HBytes, k::HByteBuf, k::HSeq, k::HTuple, k::HTupleStruct, k::HIdentifier];
fn leaves(lo: usize, n: usize) {
    unsafe { MESSAGES = true }
    let f = fmt();
    let x = leaf(pick(&LEAVES), 2);
    let mut p = PROG0;
    p.hints[0] = VALUED[lo + choice(n)];
    under_value(&input(&x), f, p);
}
fn q_leaves1() { leaves(0, 11) }
fn q_leaves2() { leaves(11, 11) }
fn q_seqs() {
    unsafe { MESSAGES = true }
    let f = fmt();
    let kind = pick(&[k::Seq, k::Tuple, k::TupleStruct]);
    let x = compound(kind, choice(3), &mut |_| small_of(pick(&[k::U8, k::Str])));
    let mut p = prog_for(&x);
    if f.sd { p.hints[0] = pick(&[k::HSeq, k::HTuple, k::HTupleStruct]) }
    p.n = 1;
    for c in &x.kids { p.hints[p.n] = own_hint(c.k); p.n += 1 }
    match choice(3) { 0 => {} 1 => p.take = choice(2), _ => p.refuse = choice(3) }
    if p.refuse < usize::MAX {
        // (counted over the whole value, so without the newtype)
        let y = run(&input(&x), f, p, plain);
        same(&run(&doc(1, keyed("value", &input(&x)).toks()), f, p, via), &y, 4);
        return;
    }
    under_value(&input(&x), f, p);
}
/// an option: nothing, or whatever there is under "value"
fn options(lo: usize, n: usize) {
    unsafe { MESSAGES = true }
    let f = fmt();
    let mut p = PROG0;
    p.hints[0] = k::HOption;
    if lo == 0 && flag() {
        let (q, nt) = wrapped(&p);
        let x = run(&doc(0, &[]), f, q, via);
        check(x.r.is_ok(), "internal-de: an option may be absent");
        check(x.v.n == 1 + nt as usize && x.v.t[nt as usize].k == k::None, "internal-de: which is None");
        return;
    }
    let v = leaf(pick(&LEAVES), 1);
    p.n = 2;
    p.hints[1] = hint_no(lo + choice(n));
    let v = input(&v);
    let mut y = run(&v, f, Prog { at: 0, n: 1, hints: [p.hints[1]; HCAP], ..p }, plain);
    let (q, nt) = wrapped(&p);
    let x = run(&doc(1, keyed("value", &v).toks()), f, q, via);
    let lead = [Tok::k(k::NewtypeStruct), Tok::k(k::Some)];
    prepend(&mut y, &lead[1 - nt as usize..]);
    leads(&x, &[k::HStr]);
    same(&x, &y, 4);
}
fn q_options1() { options(0, 11) }
fn q_options2() { options(11, 10) }
fn q_options3() { options(21, 10) }
/// structs and maps: the entries next to the tag
fn maps(n: usize, values: &[Kind]) {
    unsafe { MESSAGES = true }
    let f = fmt();
    let mut e = Log::new();
    let mut p = PROG0;
    p.hints[0] = k::HMap;
    p.key = k::HStr;
    let same_call = flag();
    for _ in 0..n {
        let c = small_of(pick(values));
        e.push(Tok { s: ascii(1), ..Tok::k(k::Str) }).append(&input(&c));
        p.hints[p.n] = if same_call { k::HAny } else { own_hint(c.k) };
        p.n += 1;
    }
    let mut v = Log::new();
    v.push(Tok::map(n as u64)).append(&e).push(Tok::end());
    match choice(3) { 0 => {} 1 => p.take = choice(n + 1), _ => p.refuse = choice(2 * n + 1) }
    let mut y = run(&v, f, p, plain);
    // whatever the keys are read as, the format is asked for strings
    p.hints[0] = pick(&[k::HMap, k::HStruct, k::HAny]);
    p.key = pick(&[k::HStr, k::HIdentifier, k::HAny, k::HU64, k::HIgnoredAny]);
    let (q, nt) = if p.refuse == usize::MAX { wrapped(&p) } else { (p, false) };
    let mut x = run(&doc(n, e.toks()), f, q, via);
    // how many entries there are is not always known
    if x.v.n > nt as usize { x.v.t[nt as usize].len = 0 }
    if y.v.n > 0 { y.v.t[0].len = 0 }
    if nt { prepend(&mut y, &[Tok::k(k::NewtypeStruct)]) }
    leads(&x, &[]);
    check(y.h.n > 0 && y.h.t[0].k == k::HMap, "a map is read as such");
    let mut h = Log::new();
    h.append_slice(&y.h.t[1..y.h.n]);
    y.h = h;
    same(&x, &y, 3);
}
fn q_maps() { maps(choice(3), &[k::U8, k::Str]) }
fn t_maps() { maps(choice(4), &[k::U8, k::Str, k::None]) }
/// nothing but the tag
fn q_units() {
    let f = fmt();
    let mut p = PROG0;
    p.hints[0] = pick(&[k::HUnit, k::HUnitStruct, k::HIgnoredAny]);
    let (q, nt) = wrapped(&p);
    let x = run(&doc(0, &[]), f, q, via);
    check(x.r.is_ok() && x.done, "internal-de: a tag alone is a unit");
    check(x.v.n == 1 + nt as usize && x.v.t[nt as usize].k == k::Unit, "internal-de: the visitor sees a unit");
}
/// the variant's name is the key
fn enums(n: usize) {
    unsafe { MESSAGES = true }
    let f = fmt();
    let var = pick(&[k::UnitVariant, k::NewtypeVariant, k::TupleVariant, k::StructVariant]);
    let name = Tok { s: ascii(1), ..Tok::k(k::Str) };
    let payload = match var {
        k::UnitVariant => small_of(pick(&[k::Unit, k::U8, k::Str])),
        k::NewtypeVariant => leaf(pick(&LEAVES), 1),
        k::TupleVariant => compound(pick(&[k::Tuple, k::Map]), n, &mut |i| small_of(if i % 2 == 0 { k::Str } else { k::U8 })),
        _ => compound(pick(&[k::Struct, k::Seq]), n, &mut |_| small_of(k::U8)),
    };
    let v = input(&payload);
    let mut p = Prog { key: pick(&[k::HStr, k::HIdentifier]), var, len: n, ..PROG0 };
    p.hints[0] = match var { k::UnitVariant => k::HUnit, k::TupleVariant => k::HTuple, k::StructVariant => k::HStruct, _ => own_hint(payload.k) };
    // keys inside the payload, and elements
    p.n = 1;
    if var == k::TupleVariant || var == k::StructVariant { for c in &payload.kids { p.hints[p.n] = own_hint(c.k); p.n += 1 } }
    let mut y = run(&v, f, p, plain);
    if var != k::NewtypeVariant { p.hints[0] = k::HEnum; } else { p.hints[1] = p.hints[0]; p.hints[0] = k::HEnum; p.n = 2; }
    let (q, nt) = wrapped(&p);
    let mut e = Log::new();
    e.push(name).append(&v);
    let mut x = run(&doc(1, e.toks()), f, q, via);
    leads(&x, &[k::HStr]);
    let lead = [Tok::k(k::NewtypeStruct), Tok::k(k::VEnum), Tok::k(k::VKey), Tok { i: f.strm as u64, ..name }, Tok::k(var)];
    if var == k::UnitVariant {
        check(x.r.is_ok() == (payload.k == k::Unit), "internal-de: a unit variant has a unit payload");
        check(x.h.n == 5 && x.h.t[4].k == k::HUnit, "internal-de: the payload is asked for as a unit");
        let mut w = Log::new();
        w.append_slice(&lead[1 - nt as usize..if x.r.is_ok() { 5 } else { 4 }]);
        check_logs(&x.v, &w, "internal-de: the visitor sees the variant");
        reach("unit variant");
        return;
    }
    // (the struct's name)
    for h in [&mut x.h, &mut y.h] { let mut i = 0; while i < h.n { if h.t[i].k == k::HStruct { h.t[i].s = S::E } i += 1 } }
    prepend(&mut y, &lead[1 - nt as usize..]);
    same(&x, &y, 4);
    reach("other variants");
}
fn q_enums() { enums(choice(3)) }
/// without the key
fn q_missing() {
    unsafe { MESSAGES = true }
    let f = fmt();
    let mut p = PROG0;
    p.hints[0] = pick(&VALUED);
    if flag() {
        let x = run(&doc(0, &[]), f, p, via);
        check(x.r.is_err() && x.v.n == 0, "internal-de: no value, no object");
        if let Err(e) = x.r { check(e.s.is("E!missing value"), "internal-de: the missing value is reported") }
        return;
    }
    // under another key
    if flag() { p.hints[0] = pick(&[k::HOption, k::HIgnoredAny]) }
    let key = ascii(choice(7));
    assume(!key.is("value"));
    let mut e = Log::new();
    e.push(Tok { s: key, ..Tok::k(k::Str) }).push(Tok::n(k::U8, 1));
    unsafe { MESSAGES = false }
    let x = run(&doc(1, e.toks()), f, p, via);
    check(x.r.is_err() && x.v.n == 0, "internal-de: a value under another key is rejected");
}
/// an enum needs an entry
fn q_no_variant() {
    unsafe { MESSAGES = true }
    let mut p = PROG0;
    p.hints[0] = k::HEnum;
    let x = run(&doc(0, &[]), fmt(), p, via);
    check(x.r.is_err(), "internal-de: an enum without a variant is rejected");
    if let Err(e) = x.r { check(e.s.is("expected enum En"), "internal-de: naming the enum") }
}
/// ignored values
fn q_ignored() {
    let f = pick(&[Fmt::JSON, Fmt::RICH]);
    let mut p = PROG0;
    p.hints[0] = k::HIgnoredAny;
    let v = tree(1, 2);
    let x = run(&doc(1, keyed("value", &input(&v)).toks()), f, p, via);
    check(x.r.is_ok() && x.done && x.v.n == 1 && x.v.t[0].k == k::Unit, "internal-de: a value can be ignored");
}
/// long strings, wide containers
fn q_sized() {
    let f = Fmt { hints: 1, ..formats() };
    let x = sized_of(pick(&[k::Str, k::Bytes, k::Seq, k::Tuple, k::TupleStruct, k::Map]), pick(&LENGTHS));
    let p = sized_prog(&x);
    let v = input(&x);
    let mut y = run(&v, f, p, plain);
    if x.k != k::Map {
        let x = run(&doc(1, keyed("value", &v).toks()), f, p, via);
        check(x.r.is_ok(), "internal-de: any size is read");
        same(&x, &y, 4);
        return;
    }
    let mut x = run(&doc(x.kids.len() / 2, &v.toks()[1..v.n - 1]), f, p, via);
    check(x.r.is_ok(), "internal-de: any number of entries is read");
    x.v.t[0].len = 0;
    y.v.t[0].len = 0;
    let mut h = Log::new();
    h.append_slice(&y.h.t[1..y.h.n]);
    y.h = h;
    same(&x, &y, 3);
}
entries! { q_sized q_leaves1 q_leaves2 q_seqs q_options1 q_options2 q_options3 q_maps q_units q_enums q_missing q_no_variant q_ignored t_maps }
