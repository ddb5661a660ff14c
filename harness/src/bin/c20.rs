//! C20: what the attributes say.
//! @bounds: default names of types by their last path segment (with a path, with generic arguments, const arguments or lifetimes, through macro fragments), names from literals, constants, concat!, associated constants and raw strings (empty, non-ASCII, with quotes); every form of the trait's attribute (options in either order, trailing commas), serialize only, deserialize only and both, also for types that can only be written or only be read, generic traits and impls (serialize only), one type in several traits, several impls by one macro, traits that are private, pub(crate), unsafe, have methods, supertraits, where clauses and Self: Sized types, type parameters, traits, methods and types in scope with the names that the generated code uses; any name of up to 4 bytes
//! @compiles: these declarations
//! @outside: the programs themselves are a fixed list; what does not compile
//! @shard q_read 8 4
use harness::{diff::*, entries, node::*, probe::put, sym::*, tok::*};
use serde::Serialize;

macro_rules! ty { ($(#[$m:meta])* $v:vis $t:ident $id:literal) => {
    $(#[$m])* $v struct $t;
    impl serde::Serialize for $t { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u8($id) } }
    impl<'de> serde::Deserialize<'de> for $t { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = <u8 as serde::Deserialize>::deserialize(d)?;
        harness::probe::put(harness::tok::Tok { i: $id, ..harness::tok::Tok::n(harness::tok::k::U8, v as u128) });
        Ok($t)
    } }
} }
ty!(A 1);
ty!(Ab 2);
mod m { pub mod n { ty!(pub Mn 3); ty!(pub A 4); } }
ty!(C 5);
ty!(D 6);
ty!(E5 7);
ty!(F 8);
ty!(G 9);
pub struct Gen<T, const N: usize>(core::marker::PhantomData<[T; N]>);
impl<T, const N: usize> serde::Serialize for Gen<T, N> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u8(N as u8) } }
impl<'de, T, const N: usize> serde::Deserialize<'de> for Gen<T, N> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let v = <u8 as serde::Deserialize>::deserialize(d)?;
    put(Tok { i: N as u64, ..Tok::n(k::U8, v as u128) });
    Ok(Gen(core::marker::PhantomData))
} }
const CONST: &str = "c-n";
struct Assoc;
impl Assoc { const NAME: &'static str = "as"; }
macro_rules! by_macro { ($tr:path, $t:ty) => { #[typetag::serde] impl $tr for $t {} } }
macro_rules! by_macros { ($tr:path, $($t:ident = $n:expr),*) => { $( #[typetag::serde(name = $n)] impl $tr for $t {} )* } }

/// the same impls for every form of the trait
macro_rules! form { ($m:ident, $(#[$a:meta])* { $($tr:tt)* } $(, $inside:item)*) => {
    pub mod $m {
        use super::{m::n, A, Ab, Assoc, Gen, C, CONST, D, E5, F, G};
        $(#[$a])* $($tr)* { $($inside)* }
        #[typetag::serde]
        impl T for A {}
        #[typetag::serde()]
        impl T for self::Ab {}
        #[typetag::serde]
        impl T for n::Mn {}
        #[typetag::serde(name = "n::A")]
        impl T for n::A {}
        #[typetag::serde(name = CONST)]
        impl T for C {}
        #[typetag::serde(name = concat!("d", 1),)]
        impl T for D {}
        by_macro!(T, Gen<u8, 10>);
        by_macros!(T, F = Assoc::NAME, G = r#""q"#);
        #[typetag::serde(name = "\u{e9}")]
        impl T for E5 {}
        #[typetag::serde(name = "")]
        impl T for Gen<Vec<u8>, 11> {}
        #[typetag::serde(name = "ge")]
        impl T for Gen<(), 12> {}
        pub fn read(s: &mut super::Src) -> Result<(), super::E> { super::read::<Box<dyn T>>(s).map(|_| ()) }
        pub fn write(i: usize, l: &mut super::Log) -> Result<(), super::E> {
            use serde::Serialize;
            let x: Box<dyn T> = match i {
                0 => Box::new(A), 1 => Box::new(Ab), 2 => Box::new(n::Mn), 3 => Box::new(n::A), 4 => Box::new(C), 5 => Box::new(D), 6 => Box::new(Gen::<u8, 10>(core::marker::PhantomData)),
                7 => Box::new(F), 8 => Box::new(G), 9 => Box::new(E5), 10 => Box::new(Gen::<Vec<u8>, 11>(core::marker::PhantomData)), _ => Box::new(Gen::<(), 12>(core::marker::PhantomData)),
            };
            x.serialize(super::Ser(l))
        }
    }
} }
const NAMES: [(&str, u64); 12] = [("A", 1), ("Ab", 2), ("Mn", 3), ("n::A", 4), ("c-n", 5), ("d1", 6), ("Gen", 10), ("as", 8), ("\"q", 9), ("\u{e9}", 7), ("", 11), ("ge", 12)];

form! { ext, #[typetag::serde] { pub trait T } }
form! { ext2, #[typetag::serde()] #[allow(dead_code)] { pub(crate) trait T: Send + Sync } }
form! { int, #[typetag::serde(tag = "t")] { trait T: 'static } }
form! { int2, #[typetag::serde(tag = "t",)] #[doc = "x"] { pub(super) trait T }, fn method(&self) -> u8 { 1 } }
form! { int3, #[typetag::serde(tag = "t", default_variant = "d1")] { pub trait T } }
form! { int4, #[typetag::serde(tag = "t", default_variant = "",)] { pub trait T where Self: 'static }, #[allow(dead_code)] fn other(self: Box<Self>) {} }
form! { adj, #[typetag::serde(tag = "t", content = "c")] { pub trait T } }
form! { adj2, #[typetag::serde(tag = "t", content = "c",)] { pub trait T }, fn with<X>(&self, _: X) where Self: Sized {} }
form! { adj3, #[typetag::serde(tag = "t", content = "c", default_variant = "d1")] { pub trait T } }
form! { adj4, #[typetag::serde(tag = "t", content = "c", deny_unknown_fields)] { pub trait T } }
form! { adj5, #[typetag::serde(tag = "t", content = "c", default_variant = "d1", deny_unknown_fields)] { pub trait T } }
form! { adj6, #[typetag::serde(tag = "t", content = "c", deny_unknown_fields, default_variant = "d1",)] { pub trait T } }

/// types that can only be written, or only be read
struct Wr;
impl serde::Serialize for Wr { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u8(11) } }
struct Rd;
impl<'de> serde::Deserialize<'de> for Rd { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let v = <u8 as serde::Deserialize>::deserialize(d)?;
    put(Tok { i: 12, ..Tok::n(k::U8, v as u128) });
    Ok(Rd)
} }
/// written by one trait, read by another
mod split {
    use super::*;
    pub mod w { use super::*; #[typetag::serialize(tag = "t", content = "c")] pub trait T {} #[typetag::serialize] impl T for A {} #[typetag::serialize(name = CONST)] impl T for C {} #[typetag::serialize(name = "x")] impl T for D {} #[typetag::serialize] impl T for Wr {} }
    pub mod r { use super::*; #[typetag::deserialize(tag = "t", content = "c", default_variant = "x")] pub trait T {} #[typetag::deserialize] impl T for A {} #[typetag::deserialize(name = CONST)] impl T for C {} #[typetag::deserialize(name = "x")] impl T for E5 {} #[typetag::deserialize] impl T for Rd {} }
}
/// what is generic can be serialized
mod generic {
    use super::*;
    #[typetag::serialize(tag = "t")]
    pub trait T<X, const N: usize> where X: 'static { fn x(&self) -> Option<X> { None } }
    #[typetag::serialize]
    impl<X: 'static, const N: usize> T<X, N> for A {}
    #[typetag::serialize]
    impl<X: 'static, Y, const N: usize> T<X, N> for Gen<Y, N> {}
    #[typetag::serialize(name = "b2")]
    impl<const N: usize> T<Vec<u8>, N> for Ab {}
    #[typetag::serialize]
    pub trait L<'a>: 'a { fn l(&self) -> &'a str { "" } }
    #[typetag::serialize]
    impl<'a> L<'a> for Borrowed<'a> {}
    pub struct Borrowed<'a>(pub &'a u8);
    impl<'a> serde::Serialize for Borrowed<'a> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u8(*self.0) } }
}
/// a type with an associated type, an impl with its own items, an unsafe trait
mod items {
    use super::*;
    #[typetag::serde]
    pub trait T { type X where Self: Sized; fn f(&self) -> u8; }
    #[typetag::serde(name = "i")]
    impl T for A { type X = u16; #[inline] fn f(&self) -> u8 { 3 } }
    /// # Safety
    /// none
    #[typetag::serde(tag = "t")]
    pub unsafe trait U {}
    #[typetag::serde]
    unsafe impl U for Ab {}
}
/// other things of the same names as what the generated code uses
mod names {
    use super::{A, Ab};
    type Result<T> = core::result::Result<T, ()>;
    #[derive(Debug)]
    struct Box;
    #[derive(Debug)]
    struct Vec;
    #[derive(Debug)]
    struct Option;
    #[derive(Debug)]
    struct Serialize;
    #[derive(Debug)]
    struct Deserialize;
    pub fn used() -> Result<()> { let _ = (Box, Vec, Option, Serialize, Deserialize); Ok(()) }
    /// type parameters
    #[typetag::serialize(tag = "t")]
    pub trait P<S: 'static, D: 'static, T: 'static = u8, E: 'static = u8> { fn x(&self) -> core::option::Option<(S, D, T, E)> { None } }
    #[typetag::serialize]
    impl<S: 'static, D: 'static, T: 'static, E: 'static> P<S, D, T, E> for A {}
    /// a trait
    #[typetag::serde]
    pub trait S { fn serialize(&self) -> u8 { 1 } fn deserialize(&self) -> u8 { 2 } fn name(&self) -> u8 { 3 } fn get(&self) -> u8 { 4 } }
    #[typetag::serde]
    impl S for A {}
    #[typetag::serde]
    impl S for Ab {}
    #[typetag::serde(tag = "t", content = "c", deny_unknown_fields)]
    pub trait D: S { fn serializer(&self) -> u8 { 5 } fn deserializer(&self) -> u8 { 6 } }
    #[typetag::serde]
    impl D for A {}
    #[typetag::serde]
    impl D for Ab {}
    pub fn read_s(s: &mut super::Src) -> core::result::Result<(), super::E> { let x = super::read::<std::boxed::Box<dyn S>>(s)?; super::check(x.serialize() == 1 && x.deserialize() == 2 && x.name() == 3 && x.get() == 4, "attributes: methods of the same names"); Ok(()) }
    pub fn read_d(s: &mut super::Src) -> core::result::Result<(), super::E> { let x = super::read::<std::boxed::Box<dyn D>>(s)?; super::check(x.serializer() == 5 && x.deserializer() == 6, "attributes: methods of the same names"); Ok(()) }
}
const READ: [(Reader, u8, Option<u64>); 12] = [(ext::read, 0, None), (ext2::read, 0, None), (int::read, 1, None), (int2::read, 1, None), (int3::read, 1, Some(6)), (int4::read, 1, Some(11)), (adj::read, 2, None), (adj2::read, 2, None), (adj3::read, 2, Some(6)), (adj4::read, 3, None), (adj5::read, 3, Some(6)), (adj6::read, 3, Some(6))];
const WRITE: [fn(usize, &mut Log) -> Result<(), E>; 12] = [ext::write, ext2::write, int::write, int2::write, int3::write, int4::write, adj::write, adj2::write, adj3::write, adj4::write, adj5::write, adj6::write];
/// the documents {name: v}, {t: name, value: v}, {t: name, c: v}
fn put_doc(w: &mut Log, rep: u8, name: Tok, v: Tok) {
    match rep {
        0 => { w.push(Tok::map(1)).push(name).push(v).push(Tok::end()); }
        1 => { w.push(Tok::map(2)).push(Tok::str("t")).push(name).push(Tok::str("value")).push(v).push(Tok::end()); }
        _ => { w.push(Tok { s: S::new("T"), ..Tok::len(k::Struct, 2) }).push(Tok::s(k::Field, "t")).push(name).push(Tok::s(k::Field, "c")).push(v).push(Tok::end()); }
    }
}
fn q_write() {
    let form = choice(12);
    let i = choice(12);
    let rep = READ[form].1;
    let mut l = Log::new();
    check(WRITE[form](i, &mut l).is_ok(), "attributes: written");
    let mut w = Log::new();
    put_doc(&mut w, rep, Tok::str(NAMES[i].0), Tok::n(k::U8, NAMES[i].1 as u128));
    check_logs(&l, &w, "attributes: written under the declared name");
}
fn seen(d: &Log, via: Reader) -> (Result<(), E>, Box<Log>) {
    let mut s = Src::new(d.toks(), Fmt::JSON);
    start();
    let r = via(&mut s);
    (r, stop())
}
fn start() { harness::probe::start() }
fn stop() -> Box<Log> { harness::probe::stop() }
fn declared(names: &[(&str, u64)], key: &S) -> Option<u64> {
    let mut id = None;
    for (n, i) in names { if key.is(n) { id = Some(*i) } }
    id
}
fn expect(x: (Result<(), E>, Box<Log>), id: Option<u64>, v: u128) {
    match id {
        Some(i) => {
            check(x.0.is_ok(), "attributes: read under the declared name");
            check(x.1.n == 1 && x.1.t[0].eq(&Tok { i, ..Tok::n(k::U8, v) }), "attributes: by the declared type");
            reach("declared");
        }
        None => { check(x.0.is_err() && x.1.n == 0, "attributes: rejected under any other name"); reach("another name") }
    }
}
fn q_read() {
    let (via, rep, _) = READ[choice(12)];
    let key = string(4);
    let v = u8v() as u128;
    let mut d = Log::new();
    put_doc(&mut d, rep, Tok { s: key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    expect(seen(&d, via), declared(&NAMES, &key), v);
}
/// longer than any string of q_read
fn q_long() {
    let (via, rep, _) = READ[choice(12)];
    let mut key = S::new("n::A");
    key.b[choice(4)] = { let x = u8v(); assume(x < 0x80); x };
    let v = u8v() as u128;
    let mut d = Log::new();
    put_doc(&mut d, rep, Tok { s: key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    expect(seen(&d, via), declared(&NAMES, &key), v);
}
/// default variants and fields that are not known
fn q_options() {
    let form = 2 + choice(10);
    let (via, rep, default) = READ[form];
    let v = u8v() as u128;
    let mut d = Log::new();
    if rep == 1 {
        d.push(Tok::map(1)).push(Tok::str("value")).push(Tok::n(k::U8, v)).push(Tok::end());
        expect(seen(&d, via), default, v);
        reach("internal default");
        return;
    }
    let unknown = flag();
    let tag = flag();
    d.push(Tok::map(if unknown { 2 } else { 1 } + tag as u64));
    if tag { d.push(Tok::str("t")).push(Tok::str("A")); }
    if unknown { d.push(Tok { s: ascii(2), ..Tok::k(k::Str) }).push(Tok::n(k::U8, 1)); }
    d.push(Tok::str("c")).push(Tok::n(k::U8, v)).push(Tok::end());
    let id = if tag { Some(1) } else { default };
    expect(seen(&d, via), if unknown && rep == 3 { None } else { id }, v);
    if rep == 3 { reach("deny_unknown_fields") } else { reach("unknown fields are ignored") }
}
fn via_r(s: &mut Src) -> Result<(), E> { read::<Box<dyn split::r::T>>(s).map(|_| ()) }
fn q_split() {
    let mut l = Log::new();
    let (name, id) = match choice(4) {
        3 => { check((&Wr as &dyn split::w::T).serialize(Ser(&mut l)).is_ok(), "written"); ("Wr", 11) }
        0 => { check((&A as &dyn split::w::T).serialize(Ser(&mut l)).is_ok(), "written"); ("A", 1) }
        1 => { check((&C as &dyn split::w::T).serialize(Ser(&mut l)).is_ok(), "written"); ("c-n", 5) }
        _ => { check((&D as &dyn split::w::T).serialize(Ser(&mut l)).is_ok(), "written"); ("x", 6) }
    };
    let mut w = Log::new();
    put_doc(&mut w, 2, Tok::str(name), Tok::n(k::U8, id as u128));
    check_logs(&l, &w, "attributes: serialize only");
    let key = string(3);
    let v = u8v() as u128;
    let mut d = Log::new();
    put_doc(&mut d, 2, Tok { s: key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    expect(seen(&d, via_r), declared(&[("A", 1), ("Rd", 12), ("c-n", 5), ("x", 7)], &key), v);
}
fn q_generic() {
    let mut l = Log::new();
    let x = u8v();
    let (r, rep, name, v) = match choice(6) {
        0 => ((&A as &dyn generic::T<u8, 1>).serialize(Ser(&mut l)), 1, "A", 1),
        1 => ((&A as &dyn generic::T<String, 2>).serialize(Ser(&mut l)), 1, "A", 1),
        2 => ((&Gen::<u8, 10>(core::marker::PhantomData) as &(dyn generic::T<bool, 10> + Send)).serialize(Ser(&mut l)), 1, "Gen", 10),
        3 => ((&Ab as &(dyn generic::T<Vec<u8>, 5> + Sync)).serialize(Ser(&mut l)), 1, "b2", 2),
        4 => ((&generic::Borrowed(&x) as &dyn generic::L).serialize(Ser(&mut l)), 0, "Borrowed", x),
        _ => ((&generic::Borrowed(&x) as &(dyn generic::L + Send + Sync)).serialize(Ser(&mut l)), 0, "Borrowed", x),
    };
    check(r.is_ok(), "written");
    let mut w = Log::new();
    put_doc(&mut w, rep, Tok::str(name), Tok::n(k::U8, v as u128));
    check_logs(&l, &w, "attributes: generic traits and types");
}
fn via_t(s: &mut Src) -> Result<(), E> { let t = read::<Box<dyn items::T>>(s)?; check(t.f() == 3, "attributes: the trait's methods are the type's"); Ok(()) }
fn via_u(s: &mut Src) -> Result<(), E> { read::<Box<dyn items::U>>(s).map(|_| ()) }
fn q_items() {
    let (rep, via, names) = if flag() { (0, via_t as Reader, [("i", 1)]) } else { (1, via_u as Reader, [("Ab", 2)]) };
    let mut l = Log::new();
    let r = if rep == 0 { (&A as &dyn items::T).serialize(Ser(&mut l)) } else { (&Ab as &dyn items::U).serialize(Ser(&mut l)) };
    check(r.is_ok(), "written");
    let mut w = Log::new();
    put_doc(&mut w, rep, Tok::str(names[0].0), Tok::n(k::U8, names[0].1 as u128));
    check_logs(&l, &w, "attributes: traits and impls with items");
    let key = string(2);
    let v = u8v() as u128;
    let mut d = Log::new();
    put_doc(&mut d, rep, Tok { s: key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    expect(seen(&d, via), declared(&names, &key), v);
}
fn q_names() {
    check(names::used().is_ok(), "unrelated");
    let (r, rep, l) = {
        let mut l = Log::new();
        let i = choice(3);
        let z = Ser(&mut l);
        let r = match i { 0 => serde::Serialize::serialize(&A as &dyn names::S, z), 1 => serde::Serialize::serialize(&A as &dyn names::D, z), _ => serde::Serialize::serialize(&A as &dyn names::P<u8, bool, String>, z) };
        (r, [0, 2, 1][i], l)
    };
    check(r.is_ok(), "written");
    let mut w = Log::new();
    let object = |w: &mut Log| if rep == 2 { w.t[0].s = S::new("D") };
    put_doc(&mut w, rep, Tok::str("A"), Tok::n(k::U8, 1));
    object(&mut w);
    check_logs(&l, &w, "attributes: whatever else has the names that the generated code uses");
    if rep == 1 { return }
    let key = string(2);
    let v = u8v() as u128;
    let mut d = Log::new();
    put_doc(&mut d, rep, Tok { s: key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    object(&mut d);
    expect(seen(&d, if rep == 0 { names::read_s } else { names::read_d }), declared(&[("A", 1), ("Ab", 2)], &key), v);
}
entries! { q_names q_write q_read q_long q_options q_split q_generic q_items }
