//! C11: what is read before the tag is known reaches the type unchanged.
//! @bounds: self-describing formats (JSON-like, RON-like) x 3 string ownerships; adjacent content before the tag, and entries of an internally tagged value before its tag; all 31 deserializer calls on every leaf kind, on every compound (width 1), the fitting calls on compounds (width 2; thorough: 2 deep), read completely, partly or refused; empty maps for unit structs; options, units and newtypes in each other read as anything; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257
//! @outside: 128-bit integers (they cannot be buffered); other lengths
//! @assume: a null and an empty option are the same to the type, and so are borrowed and owned strings; calls that do not fit the value may be rejected from the buffer although the format accepts them
//! @need: buffer: accepted|buffer: rejected|buffer: the type's visitor sees the same|buffer: the input is used up|buffer: accepted only if it is accepted directly|buffer: fitting calls succeed
//! @shard q_leaves|q_foreign|q_compounds|t_.* 8 4
//! @shard q_sized 8 2
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

#[typetag::deserialize(tag = "t", content = "c")]
trait A {}
#[typetag::deserialize]
impl A for Probe {}
#[typetag::deserialize(tag = "t")]
trait I {}
#[typetag::deserialize]
impl I for Probe {}
fn via_a(s: &mut Src) -> Result<(), E> { read::<Box<dyn A>>(s).map(|_| ()) }
fn via_i(s: &mut Src) -> Result<(), E> { read::<Box<dyn I>>(s).map(|_| ()) }
fn fmt() -> Fmt { Fmt { strm: choice(3) as u8, ..pick(&[Fmt::JSON, Fmt::RICH]) } }

/// is `hint` a call that fits a value of this kind?
fn fits(kind: Kind, f: Fmt, hint: Kind) -> bool {
    let int = |x: Kind| x >= k::I8 && x <= k::U128 && x != k::I128 && x != k::U128;
    if kind == k::I128 || kind == k::U128 { return false }
    let float = kind == k::F32 || kind == k::F64;
    if hint == k::HAny || hint == k::HIgnoredAny || hint == k::HOption || hint == k::HNewtypeStruct { return true }
    if int(kind) { return (hint >= k::HI8 && hint <= k::HF64) && hint != k::HI128 && hint != k::HU128 }
    if float { return hint == k::HF32 || hint == k::HF64 }
    match kind {
        k::Bool => hint == k::HBool,
        k::Char => hint == k::HChar,
        k::Str => hint == k::HStr || hint == k::HString || hint == k::HBytes || hint == k::HByteBuf || hint == k::HIdentifier || hint == k::HChar || hint == k::HEnum,
        k::Bytes => hint == k::HStr || hint == k::HString || hint == k::HBytes || hint == k::HByteBuf || hint == k::HIdentifier,
        k::Unit | k::UnitStruct => hint == k::HUnit || hint == k::HUnitStruct,
        k::None => !f.rich && (hint == k::HUnit || hint == k::HUnitStruct),
        k::UnitVariant => hint == k::HEnum || hint == k::HStr || hint == k::HString || hint == k::HIdentifier,
        k::Seq | k::Tuple | k::TupleStruct => hint == k::HSeq || hint == k::HTuple || hint == k::HTupleStruct || hint == k::HBytes || hint == k::HByteBuf || hint == k::HStruct,
        k::Map | k::Struct => hint == k::HMap || hint == k::HStruct,
        _ => false,
    }
}
/// a map without entries stands for a unit struct
fn q_empty() {
    let f = fmt();
    let kind = pick(&[k::Map, k::Struct]);
    let mut v = input(&compound(kind, 0, &mut |_| small_of(k::U8)));
    if flag() { let mut w = Log::new(); w.push(Tok::k(k::NewtypeStruct)).append(&v); v = w }
    let mut p = PROG0;
    p.hints[0] = k::HUnitStruct;
    if v.t[0].k == k::NewtypeStruct { p.hints[1] = k::HUnitStruct; p.hints[0] = k::HNewtypeStruct; p.n = 2 }
    let mut w = Log::new();
    w.push(Tok::map(2)).push(Tok::str("c")).append(&v).push(Tok::str("t")).push(Tok::str("Probe")).push(Tok::end());
    let x = run(&w, f, p, via_a);
    if x.r.is_ok() {
        check(x.v.n == p.n && x.v.t[p.n - 1].k == k::Unit, "buffer: a unit struct from an empty map is a unit");
        check(x.done, "buffer: the input is used up");
        reach("opt:buffer: unit struct from an empty map");
    }
}
/// none is not a unit to a type that takes anything, nor some its content
fn q_options() {
    let f = fmt();
    let mut x = match choice(5) {
        0 => node(k::None),
        1 => small_of(k::Unit),
        2 => compound(k::Some, 1, &mut |_| small_of(k::U8)),
        3 => compound(k::Some, 1, &mut |_| node(k::None)),
        _ => compound(k::NewtypeStruct, 1, &mut |_| small_of(k::U8)),
    };
    match choice(4) {
        0 => {}
        1 => { let mut y = Some(x); x = compound(k::Seq, 2, &mut |i| if i == 0 { y.take().unwrap() } else { small_of(k::U8) }) }
        2 => { let mut y = Some(x); x = compound(k::Map, 2, &mut |i| if i == 0 { small_of(k::Str) } else if i == 1 { y.take().unwrap() } else if i == 2 { small_of(k::Str) } else { small_of(k::U8) }) }
        _ => { let mut y = Some(x); x = compound(k::Some, 1, &mut |_| y.take().unwrap()) }
    }
    let v = input(&x);
    let y = run(&v, f, PROG0, plain);
    check(y.r.is_ok(), "buffer: anything is read directly");
    let mut w = Log::new();
    let adjacent = flag();
    if adjacent { w.push(Tok::map(2)).push(Tok::str("c")).append(&v).push(Tok::str("t")).push(Tok::str("Probe")).push(Tok::end()); }
    else { w.push(Tok::map(2)).push(Tok::str("k")).append(&v).push(Tok::str("t")).push(Tok::str("Probe")).push(Tok::end()); }
    let z = run(&w, f, PROG0, if adjacent { via_a } else { via_i });
    check(z.r.is_ok(), "buffer: anything is read from a buffer");
    let want = if adjacent { owned(&y.v) } else {
        let mut e = Log::new();
        e.push(Tok::k(k::Map)).push(Tok::k(k::VKey)).push(Tok::str("k")).append(&owned(&y.v)).push(Tok::end());
        e
    };
    check_logs(&owned(&z.v), &want, "buffer: options and units are told apart");
    reach("options");
}
/// v read with the program, directly and from a buffer
fn both(v: &Log, f: Fmt, p: Prog, fit: bool) {
    if flag() {
        let y = run(v, f, p, plain);
        let mut w = Log::new();
        w.push(Tok::map(2)).push(Tok::str("c")).append(v).push(Tok::str("t")).push(Tok::str("Probe")).push(Tok::end());
        buffered(&run(&w, f, p, via_a), &y, fit);
        reach("adjacent content");
        return;
    }
    let mut q = p;
    q.hints[0] = k::HMap;
    q.n = p.n + 1;
    if q.n > HCAP { q.n = HCAP }
    for i in 1..q.n { q.hints[i] = p.hints[i - 1] }
    q.key = k::HStr;
    if p.take < usize::MAX || p.refuse < usize::MAX { return }
    let mut docs = [Log::new(), Log::new()];
    for first in 0..2 {
        let w = &mut docs[first];
        w.push(Tok::map(3));
        if first == 1 { w.push(Tok::str("t")).push(Tok::str("Probe")); }
        w.push(Tok::str("k")).append(v);
        if first == 0 { w.push(Tok::str("t")).push(Tok::str("Probe")); }
        w.push(Tok::end());
    }
    let y = run(&docs[1], f, q, via_i);
    buffered(&run(&docs[0], f, q, via_i), &y, fit);
    reach("internal entries");
}
fn q_leaves() {
    let f = fmt();
    let kind = pick(&LEAVES);
    let x = leaf(kind, 2);
    let mut p = PROG0;
    p.hints[0] = hint_no(choice(NHINTS));
    // 128-bit integers are never buffered
    if kind == k::I128 || kind == k::U128 { return }
    both(&input(&x), f, p, fits(kind, f, p.hints[0]));
}
/// all calls on compounds
fn q_foreign() {
    let f = fmt();
    let kind = pick(&COMPOUNDS);
    let x = compound(kind, choice(2), &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(pick(&[k::U8, k::Unit])) });
    let mut p = Prog { n: 2, key: k::HStr, var: pick(&[k::UnitVariant, k::NewtypeVariant, k::TupleVariant, k::StructVariant]), ..PROG0 };
    p.hints[0] = hint_no(choice(NHINTS));
    let v = input(&x);
    // an empty map stands for a unit struct
    if p.hints[0] == k::HUnitStruct && (kind == k::Map || kind == k::Struct || kind == k::Some || kind == k::NewtypeStruct) { return }
    // (the format itself knows the variant's kind)
    let enumlike = kind == k::NewtypeVariant || kind == k::TupleVariant || kind == k::StructVariant;
    if enumlike && p.hints[0] == k::HEnum && kind != p.var { return }
    both(&v, f, p, fits(kind, f, p.hints[0]) && p.hints[0] != k::HIgnoredAny || enumlike && p.hints[0] == k::HEnum && kind == p.var);
}
fn q_compounds() { compounds(choice(3), &[k::U8, k::Str]) }
fn compounds(n: usize, kids: &[Kind]) {
    let f = fmt();
    let kind = pick(&COMPOUNDS);
    let x = compound(kind, n, &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(pick(kids)) });
    let mut p = prog_for(&x);
    p.n = 1;
    if flag() { for c in &x.kids { p.hints[p.n] = own_hint(c.k); p.n += 1 } } else { p.hints[1] = pick(&[k::HAny, k::HIgnoredAny, k::HOption]); p.n = 2 }
    // keys are taken for values of any kind only by position
    match choice(3) { 0 => {} 1 => p.take = choice(3), _ => p.refuse = choice(4) }
    if p.take < usize::MAX && kind == k::StructVariant { return }
    if kind == k::Map { p.n = 1; if n > 0 { p.hints[1] = k::HAny; p.n = 2 } }
    both(&input(&x), f, p, true)
}
fn t_compounds() { compounds(choice(3), &[k::U8, k::Str, k::Unit, k::None]) }
fn t_deep() {
    let f = fmt();
    let kind = pick(&COMPOUNDS);
    let x = compound_of(kind, 2, 1);
    let mut p = prog_for(&x);
    p.hints[1] = k::HAny;
    if i128_in(&x) { return }
    both(&input(&x), f, p, !odd_key(&x))
}
fn i128_in(x: &Node) -> bool { x.k == k::I128 || x.kids.iter().any(i128_in) }
/// a map whose keys are no strings
fn odd_key(x: &Node) -> bool { x.k == k::Map && x.kids.iter().step_by(2).any(|c| c.k != k::Str) || x.kids.iter().any(odd_key) }
/// long strings, wide containers
fn q_sized() {
    let f = Fmt { hints: 1, ..pick(&[Fmt::JSON, Fmt::RICH]) };
    let x = sized();
    let p = sized_prog(&x);
    both(&input(&x), f, p, true)
}
entries! { q_empty q_options q_sized q_leaves q_foreign q_compounds t_compounds t_deep }
