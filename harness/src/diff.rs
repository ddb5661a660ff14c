//! Differential reading: a value by itself against the value behind a tag.
use crate::{node::*, probe::*, sym::*, tok::*};

pub fn input(n: &Node) -> Box<Log> { write(n).1 }
pub fn hint_no(i: usize) -> Kind { k::HAny + i as Kind }
pub fn formats() -> Fmt { pick(&[Fmt::JSON, Fmt::RICH, Fmt::STRICT, Fmt::BIN]) }
pub type Reader = fn(&mut Src) -> Result<(), E>;

/// one reading: result, visits, deserializer calls that the format got, input used up
pub struct Run { pub r: Result<(), E>, pub v: Box<Log>, pub h: Box<Log>, pub done: bool }
pub fn run(doc: &Log, f: Fmt, p: Prog, via: Reader) -> Run {
    let mut s = Src::new(doc.toks(), f);
    s.h = Some(Log::new());
    unsafe { PROG = p }
    start();
    let r = via(&mut s);
    Run { r, v: stop(), done: s.done(), h: s.h.take().unwrap() }
}
pub fn plain(s: &mut Src) -> Result<(), E> { read::<Probe>(s).map(|_| ()) }
pub fn message(e: &E) -> S {
    use core::fmt::Write;
    let mut t = S::E;
    let _ = write!(t, "{}", e);
    t
}
/// `x` has to go as `y` went; `lead`: calls that x makes before those of y
pub fn same(x: &Run, y: &Run, lead: usize) {
    #[cfg(feature = "native")]
    if x.r.is_ok() != y.r.is_ok() { for r in [&x.r, &y.r] { if let Err(e) = r { e.show() } } x.v.show("got"); y.v.show("expected") }
    check(x.r.is_ok() == y.r.is_ok(), "de: succeeds exactly when the type does by itself");
    check_logs(&x.v, &y.v, "de: the type's visitor sees the same");
    if let (Err(a), Err(b)) = (&y.r, &x.r) {
        // a value that is not used up is the format's business
        if a.k != EK::Trailing { check(b.s.eq(&message(a)), "de: the error message is the type's own") }
        reach("de: rejected");
    }
    let mut tail = Log::new();
    check(x.h.n >= lead, "de: at least the type's calls");
    tail.append_slice(&x.h.t[lead..x.h.n]);
    check_logs(&tail, &y.h, "de: the format gets the type's own calls");
    if y.r.is_ok() { check(x.done, "de: the input is used up"); reach("de: accepted") }
}
/// Reads `v` as a Probe, and `doc` (v with a tag around) as a trait object whose
/// concrete type is Probe.  Both have to go the same way.
pub fn differential(v: &Log, doc: &Log, f: Fmt, p: Prog, via: Reader) {
    let y = run(v, f, p, plain);
    let x = run(doc, f, p, via);
    let lead = if x.h.n >= y.h.n { x.h.n - y.h.n } else { usize::MAX };
    same(&x, &y, lead);
}

/// the call that fits a kind
pub fn own_hint(x: Kind) -> Kind {
    match x {
        k::Some | k::None => k::HOption, k::NewtypeStruct => k::HNewtypeStruct, k::NewtypeVariant | k::TupleVariant | k::StructVariant | k::UnitVariant => k::HEnum,
        k::Seq => k::HSeq, k::Tuple => k::HTuple, k::TupleStruct => k::HTupleStruct, k::Map => k::HMap, k::Struct => k::HStruct,
        k::Unit => k::HUnit, k::UnitStruct => k::HUnitStruct, k::Str => k::HStr, k::Bytes => k::HBytes, k::Char => k::HChar, x => x - k::Bool + k::HBool,
    }
}
pub fn prog_for(x: &Node) -> Prog {
    let keyed = x.k == k::Map || x.k == k::Struct || own_hint(x.k) == k::HEnum;
    let mut p = Prog { n: 2, key: if keyed { pick(&[k::HStr, k::HIdentifier, k::HAny]) } else { k::HStr }, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    p
}
/// the fitting calls in the order in which nested values are read
pub fn own_hints(x: &Node, p: &mut Prog) {
    for (i, c) in x.kids.iter().enumerate() {
        if x.k == k::Map && i % 2 == 0 { continue }
        if p.n < HCAP { p.hints[p.n] = own_hint(c.k); p.lens[p.n] = c.kids.len(); p.vars[p.n] = c.k; p.n += 1 }
        own_hints(c, p);
    }
}
/// long strings and wide containers, read by their own call
pub fn sized_calls(doc: Doc, via: Reader) {
    let f = Fmt { hints: 1, ..formats() };
    let x = sized();
    let p = sized_prog(&x);
    let v = input(&x);
    differential(&v, &doc(&v), f, p, via)
}
pub fn sized_prog(x: &Node) -> Prog {
    let mut p = Prog { n: 2, key: k::HStr, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    p.hints[1] = k::HU8;
    p
}
pub type Doc = fn(&Log) -> Box<Log>;
/// every deserializer call numbered lo..lo+n on every leaf
pub fn leaf_calls(lo: usize, n: usize, doc: Doc, via: Reader) {
    unsafe { MESSAGES = true }
    let f = Fmt { strm: choice(3) as u8, hr: flag(), ..formats() };
    let x = leaf(pick(&LEAVES), 2);
    let mut p = Prog { n: 1, hr: true, ..PROG0 };
    p.hints[0] = hint_no(lo + choice(n));
    let v = input(&x);
    differential(&v, &doc(&v), f, p, via);
}
pub fn compound_calls(f: Fmt, n: usize, kids: &[Kind], doc: Doc, via: Reader) {
    unsafe { MESSAGES = true }
    let kind = pick(&COMPOUNDS);
    let x = compound(kind, n, &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(pick(kids)) });
    let mut p = prog_for(&x);
    // children: the fitting calls in order, or the same call for all of them
    p.n = 1;
    if flag() { for c in &x.kids { p.hints[p.n] = own_hint(c.k); p.n += 1 } } else { p.hints[1] = pick(&[k::HAny, k::HIgnoredAny, k::HStr, k::HOption]); p.n = 2 }
    match choice(3) { 0 => {} 1 => p.take = choice(3), _ => p.refuse = choice(4) }
    let v = input(&x);
    differential(&v, &doc(&v), f, p, via)
}
/// foreign calls on compounds
pub fn foreign_calls(doc: Doc, via: Reader) {
    unsafe { MESSAGES = true }
    let f = formats();
    let kind = pick(&COMPOUNDS);
    let x = compound(kind, 1, &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(k::U8) });
    let mut p = Prog { n: 2, key: k::HStr, var: pick(&[k::UnitVariant, k::NewtypeVariant, k::TupleVariant, k::StructVariant]), ..PROG0 };
    p.hints[0] = hint_no(choice(NHINTS));
    let v = input(&x);
    differential(&v, &doc(&v), f, p, via)
}
pub fn deep_calls(doc: Doc, via: Reader) {
    unsafe { MESSAGES = true }
    let f = Fmt { hints: choice(2) as u8, ..formats() };
    let k = pick(&COMPOUNDS);
    let x = compound_of(k, 2, 1);
    let mut p = prog_for(&x);
    p.hints[1] = k::HAny;
    if !f.sd { p.n = 1; own_hints(&x, &mut p) }
    let v = input(&x);
    differential(&v, &doc(&v), f, p, via)
}

/// visits without what buffering may change: who owns a string, whether the size
/// of a container is known, null read as an option
pub fn loose(l: &Log) -> Box<Log> {
    let mut w = owned(l);
    for t in w.t.iter_mut() { if t.k == k::None { t.k = k::Unit } }
    w
}
/// whoever owns the strings, whatever the announced lengths
pub fn owned(l: &Log) -> Box<Log> {
    let mut w = Log::new();
    for t in l.toks() {
        let mut t = *t;
        if t.k == k::Str || t.k == k::Bytes { t.i = 0 }
        if t.k == k::Seq || t.k == k::Map { t.len = 0 }
        w.push(t);
    }
    w
}
/// `x` read a value from a buffer, `y` directly; `fits`: the calls fit the value
pub fn buffered(x: &Run, y: &Run, fits: bool) {
    #[cfg(feature = "native")]
    if x.r.is_ok() != y.r.is_ok() { for r in [&x.r, &y.r] { if let Err(e) = r { e.show() } } x.v.show("got"); y.v.show("expected") }
    if x.r.is_ok() {
        check(y.r.is_ok(), "buffer: accepted only if it is accepted directly");
        check(x.done, "buffer: the input is used up");
        check_logs(&loose(&x.v), &loose(&y.v), "buffer: the type's visitor sees the same");
        reach("buffer: accepted");
    } else if y.r.is_ok() {
        check(!fits, "buffer: fitting calls succeed");
        reach("opt:buffer: stricter");
    } else { reach("buffer: rejected") }
}
