//! C24: what was read or written before does not matter.
//! @bounds: every sequence of 2 (thorough: 3) uses of an external, an internal and an adjacent trait that share their concrete types: documents with the tag first, last or missing, cut off, or refused by the type; any name of 1 or 2 letters (registered, registered twice, unknown); values written completely or failing at any call; sequences of 3 (thorough: 4) uses of one trait; the same use (read or written, accepted, refused, cut off, failing) 300 (thorough: 1100) times over and then any other document; all names and payloads symbolic
//! @outside: longer sequences; threads (C16)
//! @assume: the first of the uses is the first use of the trait
//! @shard q_.*|t_.* 8 4
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};

/// Ty<N> is a u8; 255 is refused. It reports N when it is read.
struct Ty<const N: u8>(u8);
impl<'de, const N: u8> serde::Deserialize<'de> for Ty<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = u8;
            fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("u8") }
            fn visit_u8<X: serde::de::Error>(self, v: u8) -> Result<u8, X> { if v == 255 { Err(X::custom("refused")) } else { Ok(v) } }
        }
        let v = d.deserialize_u8(V)?;
        put(Tok { i: N as u64, ..Tok::n(k::U8, v as u128) });
        Ok(Ty(v))
    }
}
impl<const N: u8> serde::Serialize for Ty<N> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u8(self.0) } }
macro_rules! trait_of { ($m:ident, $(($($args:tt)*))?, $($n:literal $name:literal),*) => {
    mod $m {
        use super::Ty;
        #[typetag::serde$(($($args)*))?]
        pub trait T {}
        $( #[typetag::serde(name = $name)] impl T for Ty<$n> {} )*
    }
} }
trait_of! { ext, , 1 "a", 2 "ab", 3 "d", 4 "d" }
trait_of! { int, (tag = "t"), 1 "a", 2 "b", 3 "d", 4 "d" }
trait_of! { adj, (tag = "t", content = "c", default_variant = "ab"), 1 "ab", 2 "a", 3 "d", 4 "d" }
/// names and types; the name "d" is ambiguous
const NAMES: [[&str; 3]; 3] = [["a", "ab", "d"], ["a", "b", "d"], ["a", "ab", "d"]];
const TYPES: [[u64; 3]; 3] = [[1, 2, 0], [1, 2, 0], [2, 1, 0]];

fn read_rep(s: &mut Src, rep: usize) -> Result<(), E> {
    match rep { 0 => read::<Box<dyn ext::T>>(s).map(|_| ()), 1 => read::<Box<dyn int::T>>(s).map(|_| ()), _ => read::<Box<dyn adj::T>>(s).map(|_| ()) }
}
fn read_one(rep: usize, how: usize) {
    let name = ascii(1 + choice(2));
    let v = u8v();
    let value = Tok::n(k::U8, v as u128);
    let key = Tok { s: name, ..Tok::k(k::Str) };
    let mut w = Log::new();
    let tagless = how == 2;
    w.push(Tok::map(1));
    match rep {
        0 => { if !tagless { w.push(key).push(value); } }
        _ => {
            let at = Tok::str(if rep == 1 { "value" } else { "c" });
            if how == 1 { w.push(at).push(value); }
            if !tagless { w.push(Tok::str("t")).push(key); }
            if how != 1 { w.push(at).push(value); }
        }
    }
    w.push(Tok::end());
    let mut s = Src::new(w.toks(), Fmt::JSON);
    let cut = how == 3;
    if cut { s.t = &w.toks()[..w.n - 1] }
    start();
    let r = read_rep(&mut s, rep);
    let got = stop();
    let mut id = None;
    if tagless { if rep == 2 { id = Some(1) } } else { for i in 0..3 { if name.is(NAMES[rep][i]) { id = Some(TYPES[rep][i]) } } }
    let good = match id { Some(0) | None => false, Some(_) => v != 255 };
    let mut want = Log::new();
    if good { want.push(Tok { i: id.unwrap_or(0), ..value }); }
    check_logs(&got, &want, "history: the type that is named is asked, and no other");
    check(r.is_ok() == (good && !cut), "history: accepted and rejected as ever");
    if let Err(e) = r {
        let kind = if good { EK::Eof } else if tagless && rep == 1 { EK::MissingField } else if tagless && rep == 0 { e.k } else if id.is_none() { EK::UnknownVariant } else { EK::Custom };
        check(e.k == kind || (e.k == EK::Custom && kind == EK::Eof), "history: with the same error as ever");
        if e.k == EK::UnknownVariant {
            let mut all = e.s.eq(&name) && e.exp.len() >= 3;
            for n in NAMES[rep] { all = all && e.exp.iter().any(|x| *x == n) }
            check(all, "history: which has the name and the registered ones");
        }
        reach("rejected");
    } else { reach("accepted") }
}
fn write_one(rep: usize, fails: bool) {
    let v = u8v();
    let second = flag();
    let i = second as usize;
    let mut l = Log::new();
    if fails { l.fault = choice(5) }
    let (a, b) = (Ty::<1>(v), Ty::<2>(v));
    let r = {
        use serde::Serialize;
        let z = Ser(&mut l);
        match (rep, second) {
            (0, false) => (&a as &dyn ext::T).serialize(z), (0, true) => (&b as &dyn ext::T).serialize(z),
            (1, false) => (&a as &dyn int::T).serialize(z), (1, true) => (&b as &dyn int::T).serialize(z),
            (_, false) => (&a as &dyn adj::T).serialize(z), (_, true) => (&b as &dyn adj::T).serialize(z),
        }
    };
    let name = match rep { 0 | 1 => NAMES[rep][i], _ => ["ab", "a"][i] };
    let mut w = Log::new();
    let value = Tok::n(k::U8, v as u128);
    match rep {
        0 => { w.push(Tok::map(1)).push(Tok::str(name)).push(value); }
        1 => { w.push(Tok::map(2)).push(Tok::str("t")).push(Tok::str(name)).push(Tok::str("value")).push(value); }
        _ => { w.push(Tok { s: S::new("T"), ..Tok::len(k::Struct, 2) }).push(Tok::s(k::Field, "t")).push(Tok::str(name)).push(Tok::s(k::Field, "c")).push(value); }
    }
    w.push(Tok::end());
    if l.faulted { w.n = l.fault; check(r.is_err(), "history: the format's failure is returned") } else { check(r.is_ok(), "history: it is written") }
    check(!l.after_fault, "history: nothing is written after a failure");
    let mut same = l.n == w.n;
    if same { for i in 0..l.n { same = and(same, l.t[i].eq(&w.t[i])) } }
    check(same, "history: as ever");
    reach(if l.faulted { "failed" } else { "written" });
}
/// one of the ways to use a trait
fn one(rep: usize) {
    let how = choice(6);
    if how < 4 { read_one(rep, how) } else { write_one(rep, how == 5) }
}
/// then another trait
fn any_two() { one(choice(3)); one(choice(3)) }
fn q_two() { any_two() }
/// read, read, read
fn same(rep: usize, n: usize, write: bool) { for _ in 0..n { let how = choice(if write { 4 } else { 3 }); if how < 3 { read_one(rep, how) } else { write_one(rep, flag()) } } }
fn q_external() { same(0, 3, false) }
fn q_internal() { same(1, 3, false) }
fn q_adjacent() { same(2, 3, false) }
fn t_three() { any_two(); one(choice(3)) }
fn t_external() { same(0, 3, true) }
fn t_internal() { same(1, 3, true) }
fn t_adjacent() { same(2, 3, true) }
/// the same again and again, and then something
fn again(times: usize) {
    let (rep, how, name, v) = (choice(3), choice(6), choice(2), pick(&[7, 255]));
    if how == 5 && v == 255 { return }
    for i in 0..times {
        let r = if how < 4 {
            let value = Tok::n(k::U8, v as u128);
            let mut w = Log::new();
            w.push(Tok::map(1));
            let key = Tok::str(if name == 0 { NAMES[rep][1] } else { "x" });
            if rep == 0 { w.push(key).push(value); } else {
                let at = Tok::str(if rep == 1 { "value" } else { "c" });
                if how == 1 { w.push(at).push(value); }
                if how != 2 { w.push(Tok::str("t")).push(key); }
                if how != 1 { w.push(at).push(value); }
            }
            w.push(Tok::end());
            let mut s = Src::new(w.toks(), Fmt::JSON);
            if how == 3 { s.t = &w.toks()[..w.n - 1] }
            let ok = read_rep(&mut s, rep).is_ok();
            (ok, if how == 2 { rep != 1 && v != 255 && (rep == 2 || name == 0) } else { how != 3 && name == 0 && v != 255 })
        } else {
            use serde::Serialize;
            let mut l = Log::new();
            if how == 5 { l.fault = i % 2 }
            let x = Ty::<1>(v);
            let z = Ser(&mut l);
            (match rep { 0 => (&x as &dyn ext::T).serialize(z), 1 => (&x as &dyn int::T).serialize(z), _ => (&x as &dyn adj::T).serialize(z) }.is_ok(), how == 4)
        };
        check(r.0 == r.1, "history: the same each time");
    }
    read_one(rep, 0);
}
fn q_again() { again(300) }
fn t_again() { again(1100) }
entries! { q_again t_again q_two q_external q_internal q_adjacent t_three t_external t_internal t_adjacent }
