//! C21: how long, how many, how deep does not matter.
//! @bounds: sequences, tuples, maps, strings and byte strings of the lengths 0..=9 and 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 4097 (thorough: also 511, 512, 513 ... 4095, 4096, 65535, 65536, 65537), a struct of 40 fields, 200 (thorough: 2000) values in each other, a trait with 60 types, names and tags of 60 bytes, 20 entries before the tag; four (strings: all) of the payloads' bytes symbolic; external, internal (tag first and last) and adjacent (tag first and last) tags; written and read back
//! @outside: other lengths; other formats than a self-describing one
//! @shard q_seq|q_map|q_text|q_raw|q_tuple|q_deep|t_.* 8 3
//! @opt t_deep --max-depth 30000
//! @opt t_huge.* --max-steps 400000000
use harness::{entries, sym::*};
use serde::{de, ser, Deserialize, Serialize};
use std::fmt;

// ---------------------------------------------------------------- a compact token stream
#[repr(C)]
#[derive(Clone, Copy)]
pub struct C { k: u64, n: u64 }
pub mod c { pub const U8: u64 = 1; pub const STR: u64 = 2; pub const BYTES: u64 = 3; pub const BYTE: u64 = 4; pub const SEQ: u64 = 5; pub const TUPLE: u64 = 6; pub const MAP: u64 = 7; pub const STRUCT: u64 = 8; pub const END: u64 = 9; pub const UNIT: u64 = 10; pub const SOME: u64 = 11; pub const NONE: u64 = 12; pub const NEWTYPE: u64 = 13; pub const VARIANT: u64 = 14; }
#[derive(Debug)]
pub struct E(&'static str);
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E("custom") } }
impl de::Error for E { fn custom<T: fmt::Display>(_: T) -> E { E("custom") } fn unknown_variant(_: &str, _: &'static [&'static str]) -> E { E("unknown variant") } fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> E { E("invalid type") } }
pub struct W(Vec<C>);
impl W {
    fn p(&mut self, k: u64, n: u64) -> Result<(), E> { self.0.push(C { k, n }); Ok(()) }
    fn text(&mut self, k: u64, s: &[u8]) -> Result<(), E> { self.p(k, s.len() as u64)?; for b in s { self.0.push(C { k: c::BYTE, n: *b as u64 }) } Ok(()) }
    fn str(&mut self, s: &str) -> &mut W { let _ = self.text(c::STR, s.as_bytes()); self }
    fn put(&mut self, k: u64, n: u64) -> &mut W { let _ = self.p(k, n); self }
    fn all(&mut self, v: &[C]) -> &mut W { self.0.extend_from_slice(v); self }
}
macro_rules! no { ($($m:ident $t:ty;)*) => { $( fn $m(self, _: $t) -> Result<(), E> { Err(E("not in this stream")) } )* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = (); type Error = E;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = ser::Impossible<(), E>; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = ser::Impossible<(), E>;
    no! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; }
    fn serialize_u8(self, v: u8) -> Result<(), E> { self.p(c::U8, v as u64) }
    fn serialize_str(self, v: &str) -> Result<(), E> { self.text(c::STR, v.as_bytes()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> { self.text(c::BYTES, v) }
    fn serialize_none(self) -> Result<(), E> { self.p(c::NONE, 0) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> { self.p(c::SOME, 0)?; v.serialize(self) }
    fn serialize_unit(self) -> Result<(), E> { self.p(c::UNIT, 0) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> { self.p(c::UNIT, 0) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> { Err(E("not in this stream")) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<(), E> { self.p(c::MAP, 1)?; self.serialize_str(n)?; v.serialize(&mut *self)?; self.p(c::END, 0) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> { self.p(c::SEQ, n.map_or(u64::MAX, |n| n as u64))?; Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Self, E> { self.p(c::TUPLE, n as u64)?; Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, E> { self.serialize_tuple(n) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E("not in this stream")) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> { self.p(c::MAP, n.map_or(u64::MAX, |n| n as u64))?; Ok(self) }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, E> { self.p(c::MAP, n as u64)?; Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E("not in this stream")) }
}
macro_rules! comp { ($($t:ident $m:ident)*) => { $( impl<'a> ser::$t for &'a mut W { type Ok = (); type Error = E; fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) } fn end(self) -> Result<(), E> { self.p(c::END, 0) } } )* } }
comp! { SerializeSeq serialize_element SerializeTuple serialize_element SerializeTupleStruct serialize_field }
impl<'a> ser::SerializeMap for &'a mut W { type Ok = (); type Error = E; fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) } fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) } fn end(self) -> Result<(), E> { self.p(c::END, 0) } }
impl<'a> ser::SerializeStruct for &'a mut W { type Ok = (); type Error = E; fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), E> { self.str(n); v.serialize(&mut **self) } fn end(self) -> Result<(), E> { self.p(c::END, 0) } }

pub struct R<'a> { t: &'a [C], at: usize }
impl<'a> R<'a> {
    fn next(&mut self) -> Result<C, E> { if self.at >= self.t.len() { return Err(E("eof")) } self.at += 1; Ok(self.t[self.at - 1]) }
    fn ended(&mut self) -> bool { self.at < self.t.len() && self.t[self.at].k == c::END }
    fn text(&mut self, n: u64) -> Result<Vec<u8>, E> { let mut v = Vec::with_capacity(n as usize); for _ in 0..n { v.push(self.next()?.n as u8) } Ok(v) }
    fn end(&mut self) -> Result<(), E> { if self.next()?.k == c::END { Ok(()) } else { Err(E("trailing")) } }
}
impl<'de, 'a, 'b> de::Deserializer<'de> for &'b mut R<'a> {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let t = self.next()?;
        match t.k {
            c::U8 => v.visit_u8(t.n as u8),
            c::STR => { let s = self.text(t.n)?; v.visit_str(unsafe { core::str::from_utf8_unchecked(&s) }) }
            c::BYTES => { let s = self.text(t.n)?; v.visit_bytes(&s) }
            c::SEQ | c::TUPLE => { let r = v.visit_seq(Acc(&mut *self, t.n))?; self.end()?; Ok(r) }
            c::MAP => { let r = v.visit_map(Acc(&mut *self, t.n))?; self.end()?; Ok(r) }
            c::UNIT => v.visit_unit(),
            c::NONE => v.visit_none(),
            c::SOME => v.visit_some(self),
            _ => Err(E("not a value")),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { self.deserialize_any(v) }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Acc<'a, 'b>(&'b mut R<'a>, u64);
impl<'de, 'a, 'b> de::SeqAccess<'de> for Acc<'a, 'b> { type Error = E; fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> { if self.0.ended() { Ok(None) } else { s.deserialize(&mut *self.0).map(Some) } } fn size_hint(&self) -> Option<usize> { if self.1 == u64::MAX { None } else { Some(self.1 as usize) } } }
impl<'de, 'a, 'b> de::MapAccess<'de> for Acc<'a, 'b> { type Error = E; fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> { if self.0.ended() { Ok(None) } else { s.deserialize(&mut *self.0).map(Some) } } fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { s.deserialize(&mut *self.0) } }

// ---------------------------------------------------------------- values
#[derive(Serialize, Deserialize)] pub struct Seq(Vec<u8>);
#[derive(Serialize, Deserialize)] pub struct Text(String);
pub struct Raw(Vec<u8>);
impl Serialize for Raw { fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_bytes(&self.0) } }
impl<'de> Deserialize<'de> for Raw { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Raw, D::Error> {
    struct V;
    impl<'de> de::Visitor<'de> for V { type Value = Raw; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("bytes") } fn visit_bytes<X>(self, v: &[u8]) -> Result<Raw, X> { Ok(Raw(v.to_vec())) } fn visit_byte_buf<X>(self, v: Vec<u8>) -> Result<Raw, X> { Ok(Raw(v)) } }
    d.deserialize_bytes(V)
} }
/// entries with the keys k0, k1, ...
pub struct Map(Vec<(String, u8)>);
impl Serialize for Map { fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { use ser::SerializeMap; let mut m = z.serialize_map(Some(self.0.len()))?; for (k, v) in &self.0 { m.serialize_entry(k, v)? } m.end() } }
impl<'de> Deserialize<'de> for Map { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Map, D::Error> {
    struct V;
    impl<'de> de::Visitor<'de> for V { type Value = Map; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") } fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Map, A::Error> { let mut v = Vec::new(); while let Some(e) = a.next_entry()? { v.push(e) } Ok(Map(v)) } }
    d.deserialize_map(V)
} }
pub struct Tuple(Vec<u8>);
impl Serialize for Tuple { fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { use ser::SerializeTuple; let mut m = z.serialize_tuple(self.0.len())?; for v in &self.0 { m.serialize_element(v)? } m.end() } }
impl<'de> Deserialize<'de> for Tuple { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Tuple, D::Error> {
    struct V;
    impl<'de> de::Visitor<'de> for V { type Value = Tuple; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("tuple") } fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Tuple, A::Error> { let mut v = Vec::new(); while let Some(e) = a.next_element()? { v.push(e) } Ok(Tuple(v)) } }
    d.deserialize_tuple(unsafe { LEN }, V)
} }
static mut LEN: usize = 0;
/// values in each other
pub enum Deep { Leaf(u8), Seq(Box<Deep>), Map(Box<Deep>), Some(Box<Deep>) }
impl Serialize for Deep { fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { use ser::{SerializeMap, SerializeSeq}; match self {
    Deep::Leaf(x) => z.serialize_u8(*x),
    Deep::Seq(x) => { let mut s = z.serialize_seq(Some(1))?; s.serialize_element(x)?; s.end() }
    Deep::Map(x) => { let mut s = z.serialize_map(Some(1))?; s.serialize_entry("k", x)?; s.end() }
    Deep::Some(x) => z.serialize_some(x),
} } }
impl<'de> Deserialize<'de> for Deep { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Deep, D::Error> {
    struct V;
    impl<'de> de::Visitor<'de> for V { type Value = Deep; fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("deep") }
        fn visit_u8<X>(self, v: u8) -> Result<Deep, X> { Ok(Deep::Leaf(v)) }
        fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<Deep, D::Error> { Ok(Deep::Some(Box::new(Deep::deserialize(d)?))) }
        fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Deep, A::Error> { let x = a.next_element::<Deep>()?; Ok(Deep::Seq(Box::new(x.ok_or_else(|| de::Error::custom("empty"))?))) }
        fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Deep, A::Error> { let x = a.next_entry::<String, Deep>()?; Ok(Deep::Map(Box::new(x.ok_or_else(|| de::Error::custom("empty"))?.1))) }
    }
    d.deserialize_any(V)
} }
/// Deep as a field, so that it is not next to the tag
#[derive(Serialize, Deserialize)] pub struct Holder { deep: Vec<Deep> }
#[derive(Serialize, Deserialize)]
pub struct Wide { a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: u8, a9: u8, b0: u8, b1: u8, b2: u8, b3: u8, b4: u8, b5: u8, b6: u8, b7: u8, b8: u8, b9: u8,
    c0: u8, c1: u8, c2: u8, c3: u8, c4: u8, c5: u8, c6: u8, c7: u8, c8: u8, c9: u8, d0: u8, d1: u8, d2: u8, d3: u8, d4: u8, d5: u8, d6: u8, d7: u8, d8: u8, d9: u8 }

macro_rules! rep { ($m:ident $(($($args:tt)*))?) => {
    pub mod $m {
        use super::*;
        #[typetag::serde$(($($args)*))?] pub trait T {}
        #[typetag::serde] impl T for Seq {} #[typetag::serde] impl T for Text {} #[typetag::serde] impl T for Raw {} #[typetag::serde] impl T for Map {} #[typetag::serde] impl T for Tuple {} #[typetag::serde] impl T for Holder {} #[typetag::serde] impl T for Wide {}
        pub fn write<X: T>(x: &X, w: &mut W) -> Result<(), E> { (x as &dyn T).serialize(w) }
        /// reads an object and writes what it got
        pub fn read(r: &mut R) -> Result<Vec<C>, E> { let b = Box::<dyn T>::deserialize(&mut *r)?; let mut w = W(Vec::new()); b.serialize(&mut w)?; Ok(w.0) }
    }
} }
rep!(ext);
rep!(int(tag = "t"));
rep!(adj(tag = "t", content = "c"));

fn same(a: &[C], b: &[C], label: &str) {
    let mut r = a.len() == b.len();
    let mut i = 0;
    while r && i < a.len() { if a[i].k != b[i].k { r = false } i += 1 }
    if r { let mut i = 0; while i < a.len() { r = and(r, a[i].n == b[i].n); i += 1 } }
    check(r, label);
}
trait Any: ext::T + int::T + adj::T + Serialize {}
impl<X: ext::T + int::T + adj::T + Serialize> Any for X {}
/// written as it should be, read as it was written, also when the tag comes last
fn body<X: Any>(name: &str, x: X, next_to_tag: bool) {
    let mut d = W(Vec::new());
    check(x.serialize(&mut d).is_ok(), "by itself");
    let d = d.0;
    let mut got = W(Vec::new());
    let mut want = W(Vec::new());
    let mut late = W(Vec::new());
    let rep = choice(3);
    let (r, read): (_, fn(&mut R) -> Result<Vec<C>, E>) = match rep {
        0 => (ext::write(&x, &mut got), ext::read),
        1 => (int::write(&x, &mut got), int::read),
        _ => (adj::write(&x, &mut got), adj::read),
    };
    check(r.is_ok(), "long: written");
    match rep {
        0 => { want.put(c::MAP, 1).str(name).all(&d).put(c::END, 0); }
        1 if next_to_tag => {
            want.put(c::MAP, d[0].n + 1).str("t").str(name).all(&d[1..]);
            late.put(c::MAP, d[0].n + 1).all(&d[1..d.len() - 1]).str("t").str(name).put(c::END, 0);
        }
        1 => {
            want.put(c::MAP, 2).str("t").str(name).str("value").all(&d).put(c::END, 0);
            late.put(c::MAP, 2).str("value").all(&d).str("t").str(name).put(c::END, 0);
        }
        _ => {
            want.put(c::MAP, 2).str("t").str(name).str("c").all(&d).put(c::END, 0);
            late.put(c::MAP, 2).str("c").all(&d).str("t").str(name).put(c::END, 0);
        }
    }
    same(&got.0, &want.0, "long: written like a short one");
    let doc = if rep > 0 && flag() { &late.0 } else { &want.0 };
    let mut r = R { t: doc, at: 0 };
    let x = read(&mut r);
    check(x.is_ok() && r.at == doc.len(), "long: read back");
    if let Ok(v) = x { same(&v, &want.0, "long: as what it was") }
    reach("long");
}
const LENS: [usize; 27] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025, 4097];
const MORE: [usize; 13] = [511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
/// around 16 bits
const HUGE: [usize; 3] = [65535, 65536, 65537];
/// n bytes made of four arbitrary ones
fn bytes(n: usize) -> Vec<u8> {
    let x = [u8v(), u8v(), u8v(), u8v()];
    (0..n).map(|i| x[i % 4] ^ (i / 4) as u8).collect()
}
fn text(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| { let x = u8v(); assume(x < 0x80); x }).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
fn entries(n: usize) -> Vec<(String, u8)> {
    let v = bytes(n);
    v.into_iter().enumerate().map(|(i, x)| { let mut s = String::from("k"); for c in [i / 1000, i / 100 % 10, i / 10 % 10, i % 10] { s.push((b'0' + c as u8) as char) } (s, x) }).collect()
}
fn q_seq() { body("Seq", Seq(bytes(pick(&LENS))), false) }
fn q_map() { body("Map", Map(entries(pick(&LENS))), true) }
fn q_text() { body("Text", Text(text(pick(&LENS))), false) }
fn q_raw() { body("Raw", Raw(bytes(pick(&LENS))), false) }
fn q_tuple() { let n = pick(&LENS); unsafe { LEN = n } body("Tuple", Tuple(bytes(n)), false) }
fn t_seq() { body("Seq", Seq(bytes(pick(&MORE))), false) }
fn t_map() { body("Map", Map(entries(pick(&MORE))), true) }
fn t_text() { body("Text", Text(text(pick(&MORE))), false) }
fn t_raw() { body("Raw", Raw(bytes(pick(&MORE))), false) }
fn t_tuple() { let n = pick(&MORE); unsafe { LEN = n } body("Tuple", Tuple(bytes(n)), false) }
fn t_huge() { let n = pick(&HUGE); match choice(3) { 0 => body("Seq", Seq(bytes(n)), false), 1 => body("Raw", Raw(bytes(n)), false), _ => body("Map", Map(entries(n)), true) } }
fn t_huge_text() { let x = u8v(); assume(x < 0x80); body("Text", Text(unsafe { String::from_utf8_unchecked(vec![x; pick(&HUGE)]) }), false) }
fn q_wide() {
    let v = bytes(40);
    body("Wide", Wide { a0: v[0], a1: v[1], a2: v[2], a3: v[3], a4: v[4], a5: v[5], a6: v[6], a7: v[7], a8: v[8], a9: v[9], b0: v[10], b1: v[11], b2: v[12], b3: v[13], b4: v[14], b5: v[15], b6: v[16], b7: v[17], b8: v[18], b9: v[19],
        c0: v[20], c1: v[21], c2: v[22], c3: v[23], c4: v[24], c5: v[25], c6: v[26], c7: v[27], c8: v[28], c9: v[29], d0: v[30], d1: v[31], d2: v[32], d3: v[33], d4: v[34], d5: v[35], d6: v[36], d7: v[37], d8: v[38], d9: v[39] }, true)
}
fn q_deep() { deep(200) }
fn t_deep() { deep(2000) }
fn deep(n: usize) {
    let mut x = Deep::Leaf(u8v());
    let mode = choice(5);
    for i in 0..n { x = match if mode < 3 { mode } else if mode == 3 { i % 3 } else { i / (n / 3 + 1) } { 0 => Deep::Seq(Box::new(x)), 1 => Deep::Map(Box::new(x)), _ => Deep::Some(Box::new(x)) } }
    body("Holder", Holder { deep: vec![x] }, true)
}
// ---------------------------------------------------------------- many types, long names
pub struct Ty<const N: u8>;
impl<const N: u8> Serialize for Ty<N> { fn serialize<Z: ser::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_u8(N) } }
impl<'de, const N: u8> Deserialize<'de> for Ty<N> { fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { u8::deserialize(d)?; Ok(Ty) } }
macro_rules! types { ($tr:path, $($n:literal)*) => { $( #[typetag::serde(name = concat!("n", $n))] impl $tr for Ty<$n> {} )* } }
macro_rules! sixty { ($tr:path) => { types! { $tr, 37 12 58 3 21 46 9 30 55 17 42 0 26 51 34 8 19 44 59 2 28 53 11 36 48 5 23 57 14 39 1 33 47 20 7 52 29 16 41 56 4 25 38 13 50 31 10 45 22 6 35 54 18 43 27 15 49 40 32 24 } } }
mod many_ext { #[typetag::serde] pub trait T {} }
mod many_int { #[typetag::serde(tag = "t")] pub trait T {} }
sixty!(many_ext::T);
sixty!(many_int::T);
const LONG: &str = "a_name_that_is_sixty_bytes_long_and_does_not_fit_into_a_buffer";
mod long { #[typetag::serde(tag = "a_tag_that_is_sixty_bytes_long_and_does_not_fit_into_a_buffer_", content = "a_content_key_that_is_sixty_bytes_long_and_too_long_for_buffers")] pub trait T {} }
mod long_int { #[typetag::serde(tag = "a_tag_that_is_sixty_bytes_long_and_does_not_fit_into_a_buffer_")] pub trait T {} }
#[typetag::serde(name = "a_name_that_is_sixty_bytes_long_and_does_not_fit_into_a_buffer")] impl long::T for Ty<1> {}
#[typetag::serde(name = "a_name_that_is_sixty_bytes_long_and_does_not_fit_into_a_bufferr")] impl long::T for Ty<2> {}
#[typetag::serde(name = "a_name_that_is_sixty_bytes_long_and_does_not_fit_into_a_buffer")] impl long_int::T for Ty<1> {}
#[typetag::serde(name = "a_name_that_is_sixty_bytes_long_and_does_not_fit_into_a_bufferr")] impl long_int::T for Ty<2> {}
const TAG: &str = "a_tag_that_is_sixty_bytes_long_and_does_not_fit_into_a_buffer_";
const CONTENT: &str = "a_content_key_that_is_sixty_bytes_long_and_too_long_for_buffers";
/// any name of up to three characters that starts with an n, against sixty
fn q_many() {
    let n = 1 + choice(3);
    let mut name = [b'n', u8v(), u8v(), u8v()];
    for x in &name[1..] { assume(*x < 0x80) }
    if n == 1 { name[1] = b'7' }
    let name = unsafe { core::str::from_utf8_unchecked(&name[..n]) };
    let mut want = None;
    for i in 0..60u8 {
        let s = [b'n', b'0' + i / 10, b'0' + i % 10];
        let mut t = vec![b'n'];
        t.extend_from_slice(if i < 10 { &s[2..] } else { &s[1..] });
        if bytes_eq(&t, name.as_bytes()) { want = Some(i) }
    }
    let mut d = W(Vec::new());
    let r = if flag() {
        d.put(c::MAP, 1).str(name).put(c::U8, 1).put(c::END, 0);
        let mut r = R { t: &d.0, at: 0 };
        Box::<dyn many_ext::T>::deserialize(&mut r).map(|x| { let mut w = W(Vec::new()); let _ = x.serialize(&mut w); w.0[w.0.len() - 2].n })
    } else {
        d.put(c::MAP, 2).str("t").str(name).str("value").put(c::U8, 1).put(c::END, 0);
        let mut r = R { t: &d.0, at: 0 };
        Box::<dyn many_int::T>::deserialize(&mut r).map(|x| { let mut w = W(Vec::new()); let _ = x.serialize(&mut w); w.0[w.0.len() - 2].n })
    };
    match (want, r) {
        (Some(i), Ok(n)) => { check(n == i as u64, "many: the type of that name"); reach("many: found") }
        (Some(_), Err(_)) => check(false, "opt:many: every name is found"),
        (None, r) => { check(r.is_err(), "many: an unknown name is an error"); reach("many: unknown") }
    }
}
/// long names and tags that differ in one byte
fn q_names() {
    let mut name = LONG.as_bytes().to_vec();
    match choice(4) { 0 => {} 1 => { let i = pick(&[0, 7, 8, 15, 31, 32, 59, 60]); name[i] = u8v(); assume(name[i] < 0x80) } 2 => { let x = u8v(); assume(x < 0x80); name.push(x) } _ => { name.pop(); } }
    let mut tag = TAG.as_bytes().to_vec();
    if flag() { let i = pick(&[0, 8, 16, 32, 60, 61]); tag[i] = u8v(); assume(tag[i] < 0x80) }
    let name_ok = bytes_eq(&name, LONG.as_bytes());
    let mut two = LONG.as_bytes().to_vec();
    two.push(b'r');
    let name_two = bytes_eq(&name, &two);
    let tag_ok = bytes_eq(&tag, TAG.as_bytes());
    let (name, tag) = unsafe { (core::str::from_utf8_unchecked(&name), core::str::from_utf8_unchecked(&tag)) };
    let mut d = W(Vec::new());
    let internal = flag();
    let value = if internal { "value" } else { CONTENT };
    if flag() { d.put(c::MAP, 2).str(tag).str(name).str(value).put(c::U8, 1).put(c::END, 0); } else { d.put(c::MAP, 2).str(value).put(c::U8, 1).str(tag).str(name).put(c::END, 0); }
    let mut r = R { t: &d.0, at: 0 };
    let mut w = W(Vec::new());
    let x = if internal { Box::<dyn long_int::T>::deserialize(&mut r).map(|x| { let _ = x.serialize(&mut w); }) } else { Box::<dyn long::T>::deserialize(&mut r).map(|x| { let _ = x.serialize(&mut w); }) };
    if tag_ok && (name_ok || name_two) {
        check(x.is_ok(), "names: read");
        let mut want = W(Vec::new());
        want.put(c::MAP, 2).str(TAG).str(name).str(value).put(c::U8, if name_two { 2 } else { 1 }).put(c::END, 0);
        same(&w.0, &want.0, "names: written as read");
        reach("names: found");
    } else { check(x.is_err(), "names: one other byte is another name"); reach("names: not found") }
}
/// the tag after up to 20 entries, before up to 20
fn q_late() {
    let n = pick(&[1, 2, 5, 11, 12, 19, 20]);
    let e = entries(n);
    let at = pick(&[0, 1, n / 2, n]);
    let mut d = W(Vec::new());
    d.put(c::MAP, n as u64 + 1);
    for (i, (k, v)) in e.iter().enumerate() { if i == at { d.str("t").str("Map"); } d.str(k).put(c::U8, *v as u64); }
    if at == n { d.str("t").str("Map"); }
    d.put(c::END, 0);
    let mut want = W(Vec::new());
    want.put(c::MAP, n as u64 + 1).str("t").str("Map");
    for (k, v) in &e { want.str(k).put(c::U8, *v as u64); }
    want.put(c::END, 0);
    let x = int::read(&mut R { t: &d.0, at: 0 });
    check(x.is_ok(), "late: read");
    if let Ok(v) = x { same(&v, &want.0, "late: all entries, in order") }
}
entries! { q_seq q_map q_text q_raw q_tuple q_wide q_deep q_many q_names q_late t_seq t_map t_text t_raw t_tuple t_huge t_huge_text t_deep }
