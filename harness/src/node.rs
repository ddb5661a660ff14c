//! A value whose `Serialize` impl makes any serializer call tree we ask for.
use crate::sym::*;
use crate::tok::*;
use serde::ser::{self, *};

pub struct Node {
    pub k: Kind,
    pub n: u128,
    /// string / bytes payload
    pub p: S,
    /// type name, variant name, variant index
    pub s: &'static str,
    pub v: &'static str,
    pub i: u32,
    /// containers: announce a length?
    pub known: bool,
    pub kids: Vec<Node>,
    /// field names of struct-like nodes; "!x" = field x is skipped (skip_field)
    pub names: Vec<&'static str>,
}
/// k::HAny marks a node that serializes `is_human_readable()` as a bool;
/// k::VError marks a node whose Serialize impl fails on its own.
pub const HUMAN: Kind = k::HAny;
pub const FAILS: Kind = k::VError;

fn known_field(n: &str) -> &'static str { if n == "a" { "a" } else { "b" } }
impl Node {
    fn skipped(&self) -> usize { if self.k == k::Struct || self.k == k::StructVariant { self.names.iter().filter(|n| n.starts_with('!')).count() } else { 0 } }
    /// what buffering preserves: lengths become known, skipped fields vanish
    pub fn normalise(&mut self) -> &mut Node {
        self.known = true;
        if self.k == k::Struct || self.k == k::StructVariant {
            let mut i = 0;
            while i < self.names.len() {
                if self.names[i].starts_with('!') { self.names.remove(i); self.kids.remove(i); } else { i += 1 }
            }
        }
        for x in &mut self.kids { x.normalise(); }
        self
    }
}
impl Serialize for Node {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let len = self.kids.len() - self.skipped();
        match self.k {
            HUMAN => { let h = z.is_human_readable(); z.serialize_bool(h) }
            FAILS => Err(ser::Error::custom("own-error")),
            k::Bool => z.serialize_bool(self.n != 0),
            k::I8 => z.serialize_i8(self.n as i8), k::I16 => z.serialize_i16(self.n as i16), k::I32 => z.serialize_i32(self.n as i32),
            k::I64 => z.serialize_i64(self.n as i64), k::I128 => z.serialize_i128(self.n as i128),
            k::U8 => z.serialize_u8(self.n as u8), k::U16 => z.serialize_u16(self.n as u16), k::U32 => z.serialize_u32(self.n as u32),
            k::U64 => z.serialize_u64(self.n as u64), k::U128 => z.serialize_u128(self.n),
            k::F32 => z.serialize_f32(f32::from_bits(self.n as u32)), k::F64 => z.serialize_f64(f64::from_bits(self.n as u64)),
            k::Char => z.serialize_char(unsafe { char::from_u32_unchecked(self.n as u32) }),
            k::Str => z.serialize_str(self.p.as_str()),
            k::Bytes => z.serialize_bytes(self.p.as_bytes()),
            k::None => z.serialize_none(),
            k::Some => z.serialize_some(&self.kids[0]),
            k::Unit => z.serialize_unit(),
            k::UnitStruct => z.serialize_unit_struct(self.s),
            k::UnitVariant => z.serialize_unit_variant(self.s, self.i, self.v),
            k::NewtypeStruct => z.serialize_newtype_struct(self.s, &self.kids[0]),
            k::NewtypeVariant => z.serialize_newtype_variant(self.s, self.i, self.v, &self.kids[0]),
            k::Seq => { let mut c = z.serialize_seq(if self.known { Some(len) } else { None })?; for x in &self.kids { c.serialize_element(x)? } c.end() }
            k::Tuple => { let mut c = z.serialize_tuple(len)?; for x in &self.kids { c.serialize_element(x)? } c.end() }
            k::TupleStruct => { let mut c = z.serialize_tuple_struct(self.s, len)?; for x in &self.kids { c.serialize_field(x)? } c.end() }
            k::TupleVariant => { let mut c = z.serialize_tuple_variant(self.s, self.i, self.v, len)?; for x in &self.kids { c.serialize_field(x)? } c.end() }
            k::Map => {
                let mut c = z.serialize_map(if self.known { Some(len / 2) } else { None })?;
                let mut i = 0;
                while i + 1 < len {
                    // both ways in which impls write entries
                    if self.i == 0 { c.serialize_entry(&self.kids[i], &self.kids[i + 1])? } else { c.serialize_key(&self.kids[i])?; c.serialize_value(&self.kids[i + 1])? }
                    i += 2;
                }
                c.end()
            }
            k::Struct => {
                let mut c = z.serialize_struct(self.s, len)?;
                for (n, x) in self.names.iter().zip(&self.kids) { if let Some(n) = n.strip_prefix('!') { c.skip_field(known_field(n))? } else { c.serialize_field(n, x)? } }
                c.end()
            }
            k::StructVariant => {
                let mut c = z.serialize_struct_variant(self.s, self.i, self.v, len)?;
                for (n, x) in self.names.iter().zip(&self.kids) { if let Some(n) = n.strip_prefix('!') { c.skip_field(known_field(n))? } else { c.serialize_field(n, x)? } }
                c.end()
            }
            _ => { bound("node kind"); z.serialize_unit() }
        }
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Node, D::Error> { Err(serde::de::Error::custom("not deserializable")) }
}

pub const PRIMS: [Kind; 14] = [k::Bool, k::I8, k::I16, k::I32, k::I64, k::I128, k::U8, k::U16, k::U32, k::U64, k::U128, k::F32, k::F64, k::Char];
/// leaf kinds: the primitives and ...
pub const LEAVES: [Kind; 20] = [k::Bool, k::I8, k::I16, k::I32, k::I64, k::I128, k::U8, k::U16, k::U32, k::U64, k::U128, k::F32, k::F64, k::Char, k::Str, k::Bytes, k::None, k::Unit, k::UnitStruct, k::UnitVariant];
pub const COMPOUNDS: [Kind; 10] = [k::Some, k::NewtypeStruct, k::NewtypeVariant, k::Seq, k::Tuple, k::TupleStruct, k::TupleVariant, k::Map, k::Struct, k::StructVariant];
pub const SN: &str = "Ty";
pub const VN: &str = "Var";

/// an arbitrary primitive payload of kind k
pub fn payload(kind: Kind) -> u128 {
    match kind {
        k::Bool => boolv() as u128,
        k::I8 | k::U8 => u8v() as u128,
        k::I16 | k::U16 => u16v() as u128,
        k::I32 | k::U32 | k::F32 => u32v() as u128,
        k::I64 | k::U64 | k::F64 => u64v() as u128,
        k::I128 | k::U128 => u128v(),
        k::Char => charv() as u32 as u128,
        _ => 0,
    }
}
/// an arbitrary string of at most `max` bytes: ASCII, or one 2-byte character
pub fn string(max: usize) -> S {
    let c = choice(max + 2);
    let mut s = S::E;
    if c == max + 1 {
        let a = u8v();
        let b = u8v();
        assume((a >= 0xC2) & (a <= 0xDF) & (b >= 0x80) & (b <= 0xBF));
        s.b[0] = a;
        s.b[1] = b;
        s.len = 2;
        return s;
    }
    ascii(c)
}
/// an arbitrary ASCII string of exactly n bytes
pub fn ascii(n: usize) -> S {
    let mut s = S::E;
    let mut i = 0;
    while i < n {
        let x = u8v();
        assume(x < 0x80);
        s.b[i] = x;
        i += 1;
    }
    s.len = n as u64;
    s
}
pub fn raw_bytes(n: usize) -> S {
    let mut s = S::E;
    let mut i = 0;
    while i < n {
        s.b[i] = u8v();
        i += 1;
    }
    s.len = n as u64;
    s
}
pub fn node(k: Kind) -> Node { Node { k, n: 0, p: S::E, s: SN, v: VN, i: 0, known: true, kids: Vec::new(), names: Vec::new() } }
pub fn leak(s: &S) -> &'static str { Box::leak(s.as_str().to_owned().into_boxed_str()) }
/// an arbitrary leaf of the given kind
pub fn leaf(kind: Kind, smax: usize) -> Node {
    let mut x = node(kind);
    x.n = payload(kind);
    match kind {
        k::Str => x.p = string(smax),
        k::Bytes => x.p = raw_bytes(choice(smax + 1)),
        k::UnitVariant => x.i = u32v(),
        _ => {}
    }
    x
}
pub const FIELDS: [&str; 3] = ["a", "b", "value"];
/// a compound of the given kind with `n` children made by `kid`
pub fn compound(kind: Kind, n: usize, kid: &mut dyn FnMut(usize) -> Node) -> Node {
    let mut x = node(kind);
    let n = match kind { k::Some | k::NewtypeStruct | k::NewtypeVariant => 1, k::Map => 2 * n, _ => n };
    let mut i = 0;
    while i < n {
        x.kids.push(kid(i));
        x.names.push(FIELDS[i % 3]);
        i += 1;
    }
    match kind {
        k::NewtypeVariant | k::TupleVariant | k::StructVariant => x.i = u32v(),
        k::Seq => x.known = flag(),
        k::Map => { x.known = flag(); x.i = flag() as u32 }
        _ => {}
    }
    x
}

/// lengths around powers of two, and others
pub const LENGTHS: [usize; 24] = [3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257];
pub const SIZED: [Kind; 9] = [k::Str, k::Bytes, k::Seq, k::Tuple, k::TupleStruct, k::TupleVariant, k::Map, k::Struct, k::StructVariant];
/// a string, or a container of bytes, of that length; the first, the middle and the last byte are symbolic
pub fn sized_of(kind: Kind, n: usize) -> Node {
    let mut x = node(kind);
    let byte = |i: usize| if i == 0 || i == n / 2 || i + 1 == n { let b = u8v(); if kind == k::Str { assume(b < 0x80) } b } else { (i % 95) as u8 + 32 };
    if kind == k::Str || kind == k::Bytes {
        let mut s = Vec::new();
        for i in 0..n { s.push(byte(i)) }
        x.p = S::bytes(&s);
        return x;
    }
    for i in 0..n {
        let mut name = S::E;
        let _ = core::fmt::Write::write_fmt(&mut name, format_args!("f{}", i));
        if kind == k::Map { let mut key = node(k::Str); key.p = name; x.kids.push(key) } else { x.names.push(leak(&name)) }
        let mut c = node(k::U8);
        c.n = byte(i) as u128;
        x.kids.push(c);
    }
    x.i = 7 * (kind != k::Map) as u32;
    x
}
pub fn sized() -> Node { sized_of(pick(&SIZED), pick(&LENGTHS)) }

/// long names
#[macro_export]
macro_rules! name37 { () => { "abcdefghijklmnopqrstuvwxyz0123456789" } }
#[macro_export]
macro_rules! name300 { () => { concat!("long.long.long.long.long.long.long.long.long.long.long.long.", "long.long.long.long.long.long.long.long.long.long.long.long.",
    "long.long.long.long.long.long.long.long.long.long.long.long.", "long.long.long.long.long.long.long.long.long.long.long.long.", "long.long.long.long.long.long.long.long.long.long.long.long") } }
/// `s` (ASCII) with one byte replaced by any byte, some removed from its end, or one added
pub fn near(s: &str) -> S {
    let n = s.len();
    let mut v = s.as_bytes().to_vec();
    match choice(3) {
        0 => {
            let at = if n <= 48 { choice(n) } else { pick(&[0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, n - 2, n - 1]) };
            let b = u8v();
            assume(b < 0x80);
            v[at] = b;
        }
        1 => v.truncate(n - 1 - choice(2)),
        _ => { let b = u8v(); assume(b < 0x80); v.push(b) }
    }
    S::bytes(&v)
}

/// a leaf for nested positions: few kinds, all of them with distinct tokens
pub const SMALL: [Kind; 5] = [k::U8, k::Str, k::Unit, k::I128, k::None];
pub fn small() -> Node { small_of(pick(&SMALL)) }
pub fn small_of(kind: Kind) -> Node { let mut x = node(kind); if kind == k::Str { x.p = ascii(1) } else { x.n = payload(kind) } x }
/// any tree: a leaf, or a compound of up to `width` children which are trees of
/// depth-1 (depth 0: one of SMALL)
pub fn tree(depth: usize, width: usize) -> Node {
    if depth == 0 { return small() }
    let c = choice(SMALL.len() + COMPOUNDS.len());
    if c < SMALL.len() { return small_of(SMALL[c]) }
    compound_of(COMPOUNDS[c - SMALL.len()], depth, width)
}
pub fn compound_of(kind: Kind, depth: usize, width: usize) -> Node {
    let one = kind == k::Some || kind == k::NewtypeStruct || kind == k::NewtypeVariant;
    let n = if one { 1 } else { choice(width + 1) };
    let mut x = compound(kind, n, &mut |i| {
        if i >= 2 { small_of(k::U8) } else if depth > 1 && kind == k::Map && i == 0 { small() } else { tree(depth - 1, width) }
    });
    if (kind == k::Struct || kind == k::StructVariant) && n > 0 && flag() { x.names[0] = "!a" }
    x
}
