//! C12: a name finds the type registered under it for that trait, and nothing else.
//! @bounds: any name of up to 3 bytes (thorough: 4; ASCII, or with a 2-byte character) against 9 registered names that are prefixes, extensions and case variants of each other, registered in two orders; external, internal (tag first or last, streamed or buffered) and adjacent (tag first or last) tags, plain and Send + Sync traits; a trait of the same name in another module and a type registered under different names for different traits; names of 36 to 301 bytes and names that differ from these in any one byte (beyond 48 bytes: 17 places) or in length
//! @outside: other lengths of names; more types; names that are registered twice are C13
//! @shard q_.*|t_.* 6 5
use harness::{diff::*, entries, name300, name37, node::*, probe::*, sym::*, tok::*};

/// Ty<N> reads one u8 and reports N with it.
struct Ty<const N: u8>;
impl<'de, const N: u8> serde::Deserialize<'de> for Ty<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = u8;
            fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("u8") }
            fn visit_u8<X>(self, v: u8) -> Result<u8, X> { Ok(v) }
        }
        let v = d.deserialize_u8(V)?;
        put(Tok { i: N as u64, ..Tok::n(k::U8, v as u128) });
        Ok(Ty)
    }
}
/// names, sorted
const NAMES: [&str; 9] = ["", "A", "a", "aa", "ab", "aba", "b", "ba", "\u{e9}"];
macro_rules! trait_of { ($m:ident, $t:ident, $(($($args:tt)*))?, $($super:ident)*, $($n:literal $name:expr),*) => {
    mod $m {
        use super::*;
        #[typetag::deserialize$(($($args)*))?]
        pub trait $t: $($super +)* {}
        $( #[typetag::deserialize(name = $name)] impl $t for Ty<$n> {} )*
    }
} }
trait_of! { ext, T, , , 0 "", 1 "A", 2 "a", 3 "aa", 4 "ab", 5 "aba", 6 "b", 7 "ba", 8 "\u{e9}" }
trait_of! { ext_rev, T, , Send Sync, 8 "\u{e9}", 7 "ba", 6 "b", 5 "aba", 4 "ab", 3 "aa", 2 "a", 1 "A", 0 "" }
trait_of! { int, T, (tag = "t"), , 4 "ab", 8 "\u{e9}", 0 "", 7 "ba", 1 "A", 3 "aa", 6 "b", 5 "aba", 2 "a" }
trait_of! { adj, T, (tag = "t", content = "c"), Send, 8 "\u{e9}", 0 "", 7 "ba", 1 "A", 6 "b", 2 "a", 5 "aba", 3 "aa", 4 "ab" }
// other names for the same types
trait_of! { other, T, , , 0 "a", 1 "ab", 9 "c" }
const OTHER: [&str; 3] = ["a", "ab", "c"];
trait_of! { default, T, (tag = "t", default_variant = "ab"), , 0 "a", 1 "ab", 9 "c" }
trait_of! { no_default, T, (tag = "t", content = "c", default_variant = "abc"), , 0 "a", 1 "ab", 9 "c" }

const LONG: [&str; 6] = [name37!(), concat!(name37!(), "A"), concat!(name37!(), "B"), concat!(name37!(), "Ba"), name300!(), concat!(name300!(), "2")];
trait_of! { ext_long, T, , , 3 LONG[3], 1 LONG[1], 5 LONG[5], 0 LONG[0], 4 LONG[4], 2 LONG[2] }
trait_of! { int_long, T, (tag = "t"), , 3 LONG[3], 5 LONG[5], 4 LONG[4], 2 LONG[2], 1 LONG[1], 0 LONG[0] }
trait_of! { adj_long, T, (tag = "t", content = "c"), , 0 LONG[0], 1 LONG[1], 2 LONG[2], 3 LONG[3], 4 LONG[4], 5 LONG[5] }
fn name(max: usize) -> S {
    let mut s = string(max);
    // and a character after a 2-byte one
    if s.len == 2 && max > 2 && flag() { let x = u8v(); assume(x < 0x80); s.b[2] = x; s.len = 3; }
    s
}
fn expect(r: Result<(), E>, key: &S, v: u128, names: &[&'static str], ids: &[u64]) {
    let got = stop();
    let mut id = None;
    for (n, i) in names.iter().zip(ids) { if key.is(n) { id = Some(*i) } }
    match id {
        Some(i) => {
            check(r.is_ok(), "registry: a registered name is found");
            check(got.n == 1 && got.t[0].eq(&Tok { i, ..Tok::n(k::U8, v) }), "registry: and is that of the type");
            reach("found");
        }
        None => {
            check(got.n == 0, "registry: no other type is asked");
            check(r.is_err(), "registry: an unknown name is an error");
            if let Err(e) = r {
                check(e.k == EK::UnknownVariant, "registry: reported as unknown variant");
                let same = e.s.eq(key);
                check(same, "registry: with the name");
                let mut all = e.exp.len() == names.len();
                for (a, b) in e.exp.iter().zip(names) { all = all && a.len() == b.len() && bytes_eq(a.as_bytes(), b.as_bytes()) }
                check(all, "registry: and all the registered names in order");
            }
            reach("not found");
        }
    }
}
const IDS: [u64; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
fn external(max: usize) {
    let rev = flag();
    let key = name(max);
    let v = u8v() as u128;
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok { s: key, ..Tok::k(k::Str) }).push(Tok::n(k::U8, v)).push(Tok::end());
    let mut s = Src::new(w.toks(), Fmt { strm: choice(3) as u8, ..pick(&[Fmt::JSON, Fmt::BIN]) });
    start();
    let r = if rev { read::<Box<dyn ext_rev::T>>(&mut s).map(|_| ()) } else { read::<Box<dyn ext::T>>(&mut s).map(|_| ()) };
    expect(r, &key, v, &NAMES, &IDS);
}
fn q_external() { external(3) }
fn t_external() { external(4) }
fn tagged(max: usize) {
    let adjacent = flag();
    let last = flag();
    let key = name(max);
    let v = u8v() as u128;
    let mut w = Log::new();
    let value = if adjacent { "c" } else { "value" };
    w.push(Tok::map(2));
    if last { w.push(Tok::str(value)).push(Tok::n(k::U8, v)); }
    w.push(Tok::str("t")).push(Tok { s: key, ..Tok::k(k::Str) });
    if !last { w.push(Tok::str(value)).push(Tok::n(k::U8, v)); }
    w.push(Tok::end());
    let mut s = Src::new(w.toks(), Fmt { strm: choice(3) as u8, ..Fmt::JSON });
    start();
    let r = if adjacent { read::<Box<dyn adj::T>>(&mut s).map(|_| ()) } else { read::<Box<dyn int::T>>(&mut s).map(|_| ()) };
    expect(r, &key, v, &NAMES, &IDS);
}
fn q_tagged() { tagged(3) }
fn t_tagged() { tagged(4) }
/// the same types, other names
fn q_other() {
    let key = name(3);
    let v = u8v() as u128;
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok { s: key, ..Tok::k(k::Str) }).push(Tok::n(k::U8, v)).push(Tok::end());
    start();
    let r = read::<Box<dyn other::T>>(&mut Src::new(w.toks(), Fmt::JSON)).map(|_| ());
    expect(r, &key, v, &OTHER, &[0, 1, 9]);
}
/// default variants are looked up in the same way
fn q_default() {
    let v = u8v() as u128;
    let known = flag();
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok::str(if known { "value" } else { "c" })).push(Tok::n(k::U8, v)).push(Tok::end());
    let mut s = Src::new(w.toks(), Fmt::JSON);
    start();
    let r = if known { read::<Box<dyn default::T>>(&mut s).map(|_| ()) } else { read::<Box<dyn no_default::T>>(&mut s).map(|_| ()) };
    expect(r, &S::new(if known { "ab" } else { "abc" }), v, &OTHER, &[0, 1, 9]);
}
/// long names that differ in one byte or in length, and names that are nearly these
fn q_long() {
    let which = choice(5);
    let key = near(pick(&LONG));
    let v = u8v() as u128;
    let mut w = Log::new();
    let (key_, v_) = (Tok { s: key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    w.push(Tok::map(if which == 0 { 1 } else { 2 }));
    match which {
        0 => w.push(key_).push(v_),
        1 => w.push(Tok::str("t")).push(key_).push(Tok::str("value")).push(v_),
        2 => w.push(Tok::str("value")).push(v_).push(Tok::str("t")).push(key_),
        3 => w.push(Tok::str("t")).push(key_).push(Tok::str("c")).push(v_),
        _ => w.push(Tok::str("c")).push(v_).push(Tok::str("t")).push(key_),
    };
    w.push(Tok::end());
    let mut s = Src::new(w.toks(), Fmt { strm: choice(3) as u8, ..Fmt::JSON });
    start();
    let r = match which { 0 => read::<Box<dyn ext_long::T>>(&mut s).map(|_| ()), 1 | 2 => read::<Box<dyn int_long::T>>(&mut s).map(|_| ()), _ => read::<Box<dyn adj_long::T>>(&mut s).map(|_| ()) };
    expect(r, &key, v, &LONG, &[0, 1, 2, 3, 4, 5]);
}
entries! { q_long q_external q_tagged q_other q_default t_external t_tagged }
