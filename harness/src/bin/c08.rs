//! C08: adjacently tagged deserialization.
//! @bounds: documents {tag, content} read as in C07; documents of up to 3 (thorough: 4) entries with arbitrary keys of 1..2 bytes, known and unknown tags; with and without deny_unknown_fields and default_variant; sequences of 0..3 elements; contents (strings, byte strings, sequences, tuples, maps, structs and variants) of 24 lengths up to 257; tag and content of 43 bytes, and keys that differ from these in any one byte or in length
//! @outside: other lengths
//! @assume: messages of errors are compared only as far as they contain no symbolic text
//! @need: de: rejected|de: accepted|de: the type's visitor sees the same|de: the format gets the type's own calls|de: the error message is the type's own
//! @shard q_compounds|t_compounds|t_deep 8 4
//! @shard t_keys 8 3
//! @shard q_sized 8 3
//! @shard q_long 6 3
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

#[typetag::deserialize(tag = "t", content = "c")]
trait A {}
#[typetag::deserialize(tag = "t", content = "c", deny_unknown_fields)]
trait B {}
#[typetag::deserialize(tag = "t", content = "c", default_variant = "Probe")]
trait C {}
#[typetag::deserialize(tag = "t", content = "c", default_variant = "Probe", deny_unknown_fields)]
trait D {}
#[typetag::deserialize]
impl A for Probe {}
#[typetag::deserialize]
impl B for Probe {}
#[typetag::deserialize]
impl C for Probe {}
#[typetag::deserialize]
impl D for Probe {}
const LT: &str = "a.field.that.is.longer.than.thirty-two.bytes";
const LC: &str = "a.field.that.is.longer.than.thirty-two.bits.";
#[typetag::deserialize(tag = "a.field.that.is.longer.than.thirty-two.bytes", content = "a.field.that.is.longer.than.thirty-two.bits.")]
trait Long {}
#[typetag::deserialize(tag = "a.field.that.is.longer.than.thirty-two.bytes", content = "a.field.that.is.longer.than.thirty-two.bits.", deny_unknown_fields)]
trait LongDeny {}
#[typetag::deserialize]
impl Long for Probe {}
#[typetag::deserialize]
impl LongDeny for Probe {}
fn via(s: &mut Src) -> Result<(), E> { read::<Box<dyn A>>(s).map(|_| ()) }
fn via_deny(s: &mut Src) -> Result<(), E> { read::<Box<dyn D>>(s).map(|_| ()) }
fn doc(v: &Log) -> Box<Log> {
    let mut w = Log::new();
    w.push(Tok { s: S::new("A"), ..Tok::len(k::Struct, 2) }).push(Tok::s(k::Field, "t")).push(Tok::str("Probe")).push(Tok::s(k::Field, "c")).append(v).push(Tok::end());
    w
}
/// with fields that have to be skipped
fn doc_extra(v: &Log) -> Box<Log> {
    let mut w = Log::new();
    let junk = |w: &mut Log| { w.push(Tok::str("x")).push(Tok::len(k::Seq, 1)).push(Tok::map(1)).push(Tok::str("t")).push(Tok::str("c")).push(Tok::end()).push(Tok::end()); };
    w.push(Tok::map(3));
    junk(&mut w);
    w.push(Tok::str("t")).push(Tok::str("Probe"));
    junk(&mut w);
    w.push(Tok::str("c")).append(v).push(Tok::end());
    w
}
fn q_leaves1() { leaf_calls(0, 8, doc, via) }
fn q_leaves2() { leaf_calls(8, 8, doc, via) }
fn q_leaves3() { leaf_calls(16, 8, doc, via_deny) }
fn q_leaves4() { leaf_calls(24, 7, doc, via_deny) }
fn q_compounds() { compound_calls(formats(), choice(3), &[k::U8], doc, via) }
fn q_extra() { compound_calls(Fmt::JSON, 1, &[k::U8], doc_extra, via) }
fn q_foreign() { foreign_calls(doc, via) }
fn t_compounds() { compound_calls(Fmt { hints: choice(2) as u8, ..formats() }, choice(3), &[k::U8, k::Str, k::Unit], doc, via) }
fn t_deep() { deep_calls(doc, via) }

/// a document of n entries with arbitrary keys
fn keys(n: usize) {
    let which = choice(4);
    let (deny, default) = (which & 1 == 1, which & 2 == 2);
    let f = pick(&[Fmt::JSON, Fmt::RICH]);
    unsafe { PROG = Prog { ..PROG0 } }
    let mut w = Log::new();
    w.push(Tok::map(n as u64));
    // model
    let (mut tag, mut content) = (0u8, 0u8); // 0: not seen, 1: seen; tag 2: unknown name
    let mut err: Option<(EK, S)> = None;
    let mut value = Tok::NIL;
    let mut i = 0;
    while i < n {
        let key = ascii(1 + choice(2));
        w.push(Tok { s: key, ..Tok::k(k::Str) });
        if key.is("t") {
            let known = flag();
            w.push(Tok::str(if known { "Probe" } else { "Prob" }));
            if err.is_none() {
                if tag != 0 { err = Some((EK::DuplicateField, S::new("t"))) } else if !known { err = Some((EK::UnknownVariant, S::new("Prob"))) }
                tag = 1;
            }
        } else if key.is("c") {
            let t = Tok::n(k::U8, u8v() as u128);
            w.push(t);
            if err.is_none() {
                if content != 0 { err = Some((EK::DuplicateField, S::new("c"))) } else { value = t }
                content = 1;
            }
        } else {
            // an array, so that skipping one token is not enough
            w.push(Tok::len(k::Seq, 1)).push(Tok::n(k::U8, 7)).push(Tok::end());
            if err.is_none() && deny { err = Some((EK::UnknownField, key)) }
        }
        i += 1;
    }
    w.push(Tok::end());
    if err.is_none() {
        if tag == 0 && content == 0 { err = Some((EK::MissingField, S::new(if default { "c" } else { "t" }))) }
        else if tag == 0 && !default { err = Some((EK::MissingField, S::new("t"))) }
        else if content == 0 { value = Tok::k(k::Unit) }
    }
    start();
    let mut s = Src::new(w.toks(), f);
    let r = match which { 0 => read::<Box<dyn A>>(&mut s).map(|_| ()), 1 => read::<Box<dyn B>>(&mut s).map(|_| ()), 2 => read::<Box<dyn C>>(&mut s).map(|_| ()), _ => read::<Box<dyn D>>(&mut s).map(|_| ()) };
    let seen = stop();
    match err {
        None => {
            check(r.is_ok(), "adjacent-de: a complete document is read");
            check(seen.n == 1 && seen.t[0].eq(&value), "adjacent-de: the content reaches the type");
            if content == 0 { reach("tag alone") } else if tag == 0 { reach("default variant") } else { reach("complete") }
        }
        Some((kind, name)) => {
            check(r.is_err(), "adjacent-de: a bad document is rejected");
            if let Err(e) = r {
                check(e.k == kind, "adjacent-de: with the right kind of error");
                let same = e.s.eq(&name);
                check(same, "adjacent-de: naming the field");
            }
            if kind == EK::DuplicateField { reach("duplicate") }
            if kind == EK::UnknownField { reach("unknown field") }
            if kind == EK::MissingField { reach("missing field") }
            if kind == EK::UnknownVariant { reach("unknown variant") }
        }
    }
}
fn q_keys() { keys(choice(4)) }
fn t_keys() { keys(4) }
/// as a sequence, where formats write structs so
fn q_seq() {
    let n = choice(4);
    unsafe { PROG = Prog { ..PROG0 } }
    let bin = flag();
    if bin { unsafe { PROG.hints[0] = k::HU8 } }
    let mut w = Log::new();
    w.push(Tok { s: S::new("A"), ..Tok::len(if bin { k::Struct } else { k::Seq }, n as u64) });
    let v = Tok::n(k::U8, u8v() as u128);
    if n > 0 { w.push(Tok::str("Probe")); }
    if n > 1 { w.push(v); }
    if n > 2 { w.push(v); }
    w.push(Tok::end());
    start();
    let r = read::<Box<dyn A>>(&mut Src::new(w.toks(), if bin { Fmt::BIN } else { Fmt::JSON }));
    let seen = stop();
    if n == 2 {
        check(r.is_ok(), "adjacent-de: [tag, content] is read");
        check(seen.n == 1 && seen.t[0].eq(&v), "adjacent-de: the element reaches the type");
    } else {
        check(r.is_err(), "adjacent-de: a sequence of another length is rejected");
        if let Err(e) = r { if n < 2 { check(e.k == EK::InvalidLength && e.n == n, "adjacent-de: reporting its length") } }
    }
}
/// the first call
fn q_first_call() {
    let d = Log::new();
    let mut s = Src::new(d.toks(), Fmt::JSON);
    s.h = Some(Log::new());
    let r = read::<Box<dyn A>>(&mut s);
    check(r.is_err(), "nothing to read");
    let h = s.h.unwrap();
    check(h.n == 1 && h.t[0].eq(&hint_tok(k::HStruct, "A", &["t", "c"], 2)), "adjacent-de: asks for a struct with the two fields");
}
fn q_sized() { sized_calls(doc, via) }
/// long names of the fields, and keys that are nearly these
fn q_long() {
    let deny = flag();
    let n = 2 + choice(2);
    let mut w = Log::new();
    w.push(Tok::map(n as u64));
    let (mut tag, mut content, mut err) = (false, false, None);
    let odd = choice(n);
    let swap = flag() as usize;
    for i in 0..n {
        let name = [LT, LC][(i + swap) % 2];
        let key = if i == odd { near(name) } else { S::new(name) };
        w.push(Tok { s: key, ..Tok::k(k::Str) });
        let (t, c) = (key.is(LT), key.is(LC));
        if t { w.push(Tok::str("Probe")); } else { w.push(Tok::n(k::U8, 5)); }
        if err.is_some() { continue }
        if t && tag || c && content { err = Some((EK::DuplicateField, key)) } else if !t && !c && deny { err = Some((EK::UnknownField, key)) }
        tag |= t;
        content |= c;
    }
    w.push(Tok::end());
    if err.is_none() && !tag { err = Some((EK::MissingField, S::new(LT))) }
    unsafe { PROG = PROG0 }
    start();
    let mut s = Src::new(w.toks(), pick(&[Fmt::JSON, Fmt::RICH]));
    let r = if deny { read::<Box<dyn LongDeny>>(&mut s).map(|_| ()) } else { read::<Box<dyn Long>>(&mut s).map(|_| ()) };
    let got = stop();
    check(r.is_ok() == err.is_none(), "adjacent-de: long fields are found, and they alone");
    match (r, err) {
        (Ok(_), _) => { check(got.n == 1 && got.t[0].eq(&if content { Tok::n(k::U8, 5) } else { Tok::k(k::Unit) }), "adjacent-de: the content of a long field"); reach("long fields") }
        (Err(e), Some((kind, name))) => { check(e.k == kind, "adjacent-de: with the right kind of error"); let same = e.s.eq(&name); check(same, "adjacent-de: naming the field"); reach("nearly long fields") }
        _ => {}
    }
}
entries! { q_long q_sized q_leaves1 q_leaves2 q_leaves3 q_leaves4 q_compounds q_extra q_foreign q_keys q_seq q_first_call t_compounds t_deep t_keys }
