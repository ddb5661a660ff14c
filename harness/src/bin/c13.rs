//! C13: names registered twice.
//! @bounds: any name of up to 3 bytes against registries in which one name is registered two, three and four times, at the front, in the middle and at the end of the registration order, or two names are; external, internal and adjacent tags; the name as the default variant; names of 36 to 301 bytes and names that differ from these in any one byte (beyond 48 bytes: 17 places) or in length; 20 types with the same name among 40
//! @outside: other lengths of names
//! @shard q_keys|t_keys 6 4
use harness::{entries, name300, name37, node::*, probe::*, sym::*, tok::*};

struct Ty<const N: u8>;
impl<'de, const N: u8> serde::Deserialize<'de> for Ty<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = <u8 as serde::Deserialize>::deserialize(d)?;
        put(Tok { i: N as u64, ..Tok::n(k::U8, v as u128) });
        Ok(Ty)
    }
}
macro_rules! trait_of { ($m:ident, $(($($args:tt)*))?, $($n:literal $name:expr),*) => {
    mod $m {
        use super::*;
        #[typetag::deserialize$(($($args)*))?]
        pub trait T {}
        $( #[typetag::deserialize(name = $name)] impl T for Ty<$n> {} )*
    }
} }
trait_of! { ext1, , 0 "x", 1 "x", 2 "y", 3 "xy" }
trait_of! { ext2, , 2 "y", 0 "x", 3 "xy", 1 "x", 4 "x" }
trait_of! { int1, (tag = "t", default_variant = "x"), 3 "xy", 2 "y", 0 "x", 1 "x", 4 "x", 5 "x" }
trait_of! { int2, (tag = "t"), 0 "x", 3 "xy", 2 "y", 1 "x" }
trait_of! { adj1, (tag = "t", content = "c", default_variant = "x"), 0 "x", 3 "xy", 1 "x", 2 "y", 4 "x" }
// two names
trait_of! { two, , 2 "y", 0 "x", 1 "x", 5 "y", 3 "xy" }

trait_of! { long1, , 0 concat!(name37!(), "A"), 1 concat!(name37!(), "A"), 2 concat!(name37!(), "B"), 3 name300!(), 4 name300!(), 5 concat!(name300!(), "2") }
trait_of! { long2, (tag = "t"), 5 concat!(name300!(), "2"), 4 name300!(), 0 concat!(name37!(), "A"), 2 concat!(name37!(), "B"), 3 name300!(), 1 concat!(name37!(), "A") }
trait_of! { long3, (tag = "t", content = "c"), 2 concat!(name37!(), "B"), 3 name300!(), 1 concat!(name37!(), "A"), 4 name300!(), 5 concat!(name300!(), "2"), 0 concat!(name37!(), "A") }
trait_of! { many, , 30 "z0", 0 "x", 1 "x", 2 "x", 3 "x", 20 "y", 21 "y", 4 "x", 5 "x", 6 "x", 31 "z1", 7 "x", 8 "x", 22 "y", 9 "x", 10 "x", 32 "z2", 11 "x", 12 "x", 33 "z3", 23 "y", 13 "x", 34 "z4", 14 "x", 24 "y", 35 "z5", 36 "z6",
    25 "y", 15 "x", 37 "z7", 26 "y", 38 "z8", 16 "x", 27 "y", 17 "x", 28 "y", 18 "x", 29 "y", 39 "z9", 19 "x" }
fn read_in(which: usize, s: &mut Src) -> Result<(), E> {
    match which {
        0 => read::<Box<dyn ext1::T>>(s).map(|_| ()),
        1 => read::<Box<dyn ext2::T>>(s).map(|_| ()),
        2 => read::<Box<dyn two::T>>(s).map(|_| ()),
        3 | 4 => read::<Box<dyn int1::T>>(s).map(|_| ()),
        5 | 6 => read::<Box<dyn int2::T>>(s).map(|_| ()),
        _ => read::<Box<dyn adj1::T>>(s).map(|_| ()),
    }
}
fn document(which: usize, key: &S, v: u128) -> Box<Log> {
    let mut w = Log::new();
    let (key, v) = (Tok { s: *key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    match which {
        0 | 1 | 2 => w.push(Tok::map(1)).push(key).push(v),
        3 | 5 => w.push(Tok::map(2)).push(Tok::str("t")).push(key).push(Tok::str("value")).push(v),
        4 | 6 => w.push(Tok::map(2)).push(Tok::str("value")).push(v).push(Tok::str("t")).push(key),
        7 => w.push(Tok::map(2)).push(Tok::str("t")).push(key).push(Tok::str("c")).push(v),
        _ => w.push(Tok::map(2)).push(Tok::str("c")).push(v).push(Tok::str("t")).push(key),
    };
    w.push(Tok::end());
    w
}
fn ambiguous(r: Result<(), E>) {
    check(r.is_err(), "duplicates: an ambiguous name is an error");
    if let Err(e) = r { check(e.k == EK::Custom, "duplicates: not an unknown name") }
}
fn keys(max: usize) {
    let which = choice(9);
    let key = string(max);
    let v = u8v() as u128;
    let w = document(which, &key, v);
    start();
    let r = read_in(which, &mut Src::new(w.toks(), Fmt::JSON));
    let got = stop();
    if key.is("x") || which == 2 && key.is("y") {
        check(got.n == 0, "duplicates: neither type is asked");
        ambiguous(r);
        reach("ambiguous");
    } else if key.is("y") || key.is("xy") {
        let i = if key.is("y") { 2 } else { 3 };
        check(r.is_ok(), "duplicates: other names are not affected");
        check(got.n == 1 && got.t[0].eq(&Tok { i, ..Tok::n(k::U8, v) }), "duplicates: they are those of their types");
        reach("unique");
    } else {
        check(got.n == 0 && r.is_err(), "duplicates: unknown names are errors");
        if let Err(e) = r { check(e.k == EK::UnknownVariant, "duplicates: unknown names are reported as such") }
        reach("unknown");
    }
}
fn q_keys() { keys(2) }
fn t_keys() { keys(4) }
/// the message names trait and name
fn q_message() {
    unsafe { MESSAGES = true }
    let which = choice(9);
    let w = document(which, &S::new("x"), 0);
    start();
    let r = read_in(which, &mut Src::new(w.toks(), Fmt::JSON));
    check(stop().n == 0, "duplicates: neither type is asked");
    if let Err(e) = r {
        let a = e.s.contains("non-unique");
        check(a, "duplicates: reported as such");
        let a = e.s.contains("dyn T");
        check(a, "duplicates: the message has the trait");
        let a = e.s.contains("\"x\"");
        check(a, "duplicates: the message has the name");
    } else { check(false, "duplicates: an ambiguous name is an error") }
}
/// as the default
fn q_default() {
    let int = flag();
    let mut w = Log::new();
    w.push(Tok::map(1)).push(Tok::str(if int { "value" } else { "c" })).push(Tok::n(k::U8, u8v() as u128)).push(Tok::end());
    start();
    let r = read_in(if int { 3 } else { 7 }, &mut Src::new(w.toks(), Fmt::JSON));
    check(stop().n == 0, "duplicates: neither type is asked");
    ambiguous(r);
}
/// long names, of which one is registered twice
fn q_long() {
    let name = pick(&[concat!(name37!(), "A"), concat!(name37!(), "B"), name300!(), concat!(name300!(), "2")]);
    let key = near(name);
    let v = u8v() as u128;
    let (which, int) = (choice(3), 3);
    let w = document([0, int, 7][which], &key, v);
    start();
    let mut s = Src::new(w.toks(), Fmt::JSON);
    let r = match which { 0 => read::<Box<dyn long1::T>>(&mut s).map(|_| ()), 1 => read::<Box<dyn long2::T>>(&mut s).map(|_| ()), _ => read::<Box<dyn long3::T>>(&mut s).map(|_| ()) };
    let got = stop();
    if key.is(concat!(name37!(), "A")) || key.is(name300!()) {
        check(got.n == 0, "duplicates: neither type is asked");
        ambiguous(r);
        reach("ambiguous long name");
    } else if key.is(concat!(name37!(), "B")) || key.is(concat!(name300!(), "2")) {
        let i = if key.is(concat!(name37!(), "B")) { 2 } else { 5 };
        check(r.is_ok(), "duplicates: other names are not affected");
        check(got.n == 1 && got.t[0].eq(&Tok { i, ..Tok::n(k::U8, v) }), "duplicates: they are those of their types");
    } else {
        check(got.n == 0 && r.is_err(), "duplicates: unknown names are errors");
        if let Err(e) = r { check(e.k == EK::UnknownVariant, "duplicates: unknown names are reported as such") }
    }
}
/// 40 types, of which 20 have the same name, and 10 have another
fn q_many() {
    let key = S::new(pick(&["x", "y", "z0", "z9", "z5", "z"]));
    let w = document(0, &key, 9);
    start();
    let r = read::<Box<dyn many::T>>(&mut Src::new(w.toks(), Fmt::JSON)).map(|_| ());
    let got = stop();
    if key.is("x") || key.is("y") { check(got.n == 0, "duplicates: neither type is asked"); ambiguous(r); return }
    check(r.is_ok() != key.is("z") && got.n == r.is_ok() as usize, "duplicates: other names are not affected");
    if r.is_ok() { check(got.t[0].i == 30 + (key.b[1] - b'0') as u64, "duplicates: they are those of their types"); }
}
entries! { q_long q_many q_keys q_message q_default t_keys }
