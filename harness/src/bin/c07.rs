//! C07: externally tagged deserialization hands the value to its type untouched.
//! @bounds: 4 formats (JSON-like, RON-like, strict, bincode-like) x 3 string ownerships x human readable or not; all 31 deserializer calls on every leaf kind; every compound kind (width 2; thorough: 2 deep, width 1) read by its own and by foreign calls, completely or partly, refused at any visit; strings, byte strings, sequences, tuples, maps, structs and variants of 24 lengths up to 257
//! @outside: other lengths; several registered names are C10
//! @assume: messages of errors are compared only as far as they contain no symbolic text
//! @need: de: rejected|de: accepted|de: the type's visitor sees the same|de: the format gets the type's own calls|de: the error message is the type's own
//! @shard q_compounds|t_compounds|t_deep 8 4
//! @shard q_sized 8 3
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

#[typetag::deserialize]
trait T {}
#[typetag::deserialize]
impl T for Probe {}
#[derive(serde::Deserialize)]
struct Other;
#[typetag::deserialize(name = "another")]
impl T for Other {}

fn via(s: &mut Src) -> Result<(), E> { read::<Box<dyn T>>(s).map(|_| ()) }
fn doc(v: &Log) -> Box<Log> {
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok::str("Probe")).append(v).push(Tok::end());
    w
}
fn q_leaves1() { leaf_calls(0, 8, doc, via) }
fn q_leaves2() { leaf_calls(8, 8, doc, via) }
fn q_leaves3() { leaf_calls(16, 8, doc, via) }
fn q_leaves4() { leaf_calls(24, 7, doc, via) }
fn q_compounds() { compound_calls(formats(), choice(3), &[k::U8], doc, via) }
fn q_foreign() { foreign_calls(doc, via) }
fn t_compounds() { compound_calls(Fmt { hints: choice(2) as u8, ..formats() }, choice(3), &[k::U8, k::Str, k::Unit], doc, via) }
fn t_deep() { deep_calls(doc, via) }

/// what is not a map with one entry
fn q_shapes() {
    unsafe { MESSAGES = true }
    let f = pick(&[Fmt::JSON, Fmt::RICH]);
    let mut w = Log::new();
    if flag() {
        // no entry at all
        w.push(Tok::map(0)).push(Tok::end());
        let r = read::<Box<dyn T>>(&mut Src::new(w.toks(), f));
        check(r.is_err(), "an empty map is an error");
        if let Err(e) = r { check(e.k == EK::Custom, "an empty map is reported as such"); let c = e.s.contains("dyn T"); check(c, "naming the trait") }
        return;
    }
    if flag() {
        // more than one entry: none of the rest is read, which a format does not accept
        let f = formats();
        w.push(Tok::map(2)).push(Tok::str("Probe")).push(Tok::n(k::U8, u8v() as u128));
        w.push(Tok { s: string(2), ..Tok::k(k::Str) });
        w.append(&input(&small())).push(Tok::end());
        let mut s = Src::new(w.toks(), f);
        unsafe { PROG = PROG0; PROG.hints[0] = k::HU8 }
        let r = read::<Box<dyn T>>(&mut s);
        check(r.is_err(), "a second entry is an error");
        check(s.pos <= 3, "and not read");
        reach("more than one entry");
        return;
    }
    // (serde's own error for 128-bit integers formats them, which is out of reach)
    let kind = pick(&LEAVES);
    if kind == k::I128 || kind == k::U128 { return }
    let x = leaf(kind, 1);
    let r = read::<Box<dyn T>>(&mut Src::new(input(&x).toks(), f));
    check(r.is_err(), "a leaf is an error");
}
fn q_sized() { sized_calls(doc, via) }
entries! { q_sized q_leaves1 q_leaves2 q_leaves3 q_leaves4 q_compounds q_foreign q_shapes t_compounds t_deep }
