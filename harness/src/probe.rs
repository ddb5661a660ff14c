//! A value whose `Deserialize` impl makes any deserializer call we ask for and
//! records everything that its visitor is given.
use crate::tok::*;
use serde::de::*;

pub const NHINTS: usize = 31;
pub const SNAME: &str = "Ty";
pub const SFIELDS: &[&str] = &["a", "b"];
pub const ENAME: &str = "En";
pub const EVARS: &[&str] = &["Uv", "Nv", "Tv", "Sv"];

#[derive(Clone, Copy)]
pub struct Prog {
    /// hints, consumed front to back by nested values; the last one is reused
    pub hints: [Kind; HCAP],
    /// their own tuple lengths and variant kinds, if they differ from the below
    pub lens: [usize; HCAP],
    pub vars: [Kind; HCAP],
    pub n: usize,
    pub at: usize,
    /// hint used for map keys
    pub key: Kind,
    /// how an enum's payload is read: k::UnitVariant, k::NewtypeVariant, k::TupleVariant, k::StructVariant
    pub var: Kind,
    /// visit at most that many entries of a container
    pub take: usize,
    /// tuple length
    pub len: usize,
    /// the visit (counted over the whole value) that is refused
    pub refuse: usize,
    pub visits: usize,
    /// record is_human_readable()
    pub hr: bool,
}
pub const HCAP: usize = 16;
pub const PROG0: Prog = Prog { hints: [k::HAny; HCAP], lens: [usize::MAX; HCAP], vars: [k::Nil; HCAP], n: 1, at: 0, key: k::HAny, var: k::UnitVariant, take: usize::MAX, len: 1, refuse: usize::MAX, visits: 0, hr: false };
pub static mut PROG: Prog = PROG0;
pub static mut VLOG: Option<Box<Log>> = None;
/// record the size hints of sequences and maps?
pub static mut SIZES: bool = true;
fn prog() -> &'static mut Prog { unsafe { &mut PROG } }
pub fn put(t: Tok) { unsafe { if let Some(l) = &mut VLOG { l.push(t); } } }
fn next_hint() -> usize {
    let p = prog();
    let h = if p.at < p.n { p.at } else { p.n - 1 };
    p.at += 1;
    h
}
/// starts a recording
pub fn start() {
    prog().at = 0;
    prog().visits = 0;
    unsafe { VLOG = Some(Log::new()) }
}
pub fn stop() -> Box<Log> { unsafe { VLOG.take().unwrap_or_else(Log::new) } }

#[derive(Debug)]
pub struct Probe;
pub struct KeyProbe;
impl<'de> Deserialize<'de> for Probe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Probe, D::Error> { let i = next_hint(); dispatch(prog().hints[i], d, i) }
}
impl<'de> Deserialize<'de> for KeyProbe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<KeyProbe, D::Error> { put(Tok::k(k::VKey)); dispatch(prog().key, d, HCAP).map(|_| KeyProbe) }
}
fn dispatch<'de, D: Deserializer<'de>>(h: Kind, d: D, i: usize) -> Result<Probe, D::Error> {
    if prog().hr { put(Tok::n(k::Bool, d.is_human_readable() as u128)) }
    let v = Rec(i);
    match h {
        k::HAny => d.deserialize_any(v), k::HBool => d.deserialize_bool(v), k::HI8 => d.deserialize_i8(v), k::HI16 => d.deserialize_i16(v), k::HI32 => d.deserialize_i32(v),
        k::HI64 => d.deserialize_i64(v), k::HI128 => d.deserialize_i128(v), k::HU8 => d.deserialize_u8(v), k::HU16 => d.deserialize_u16(v), k::HU32 => d.deserialize_u32(v),
        k::HU64 => d.deserialize_u64(v), k::HU128 => d.deserialize_u128(v), k::HF32 => d.deserialize_f32(v), k::HF64 => d.deserialize_f64(v), k::HChar => d.deserialize_char(v),
        k::HStr => d.deserialize_str(v), k::HString => d.deserialize_string(v), k::HBytes => d.deserialize_bytes(v), k::HByteBuf => d.deserialize_byte_buf(v),
        k::HOption => d.deserialize_option(v), k::HUnit => d.deserialize_unit(v), k::HUnitStruct => d.deserialize_unit_struct(SNAME, v),
        k::HNewtypeStruct => d.deserialize_newtype_struct(SNAME, v), k::HSeq => d.deserialize_seq(v), k::HTuple => { let n = v.len(); d.deserialize_tuple(n, v) },
        k::HTupleStruct => { let n = v.len(); d.deserialize_tuple_struct(SNAME, n, v) }, k::HMap => d.deserialize_map(v), k::HStruct => d.deserialize_struct(SNAME, SFIELDS, v),
        k::HEnum => d.deserialize_enum(ENAME, EVARS, v), k::HIdentifier => d.deserialize_identifier(v), _ => d.deserialize_ignored_any(v),
    }
}
fn hint(h: Option<usize>) -> u64 { if unsafe { SIZES } { h.map_or(NO_LEN, |h| h as u64) } else { 0 } }
/// what is inside an option or newtype: past the end of the program, anything
fn inner<'de, D: Deserializer<'de>>(d: D) -> Result<Probe, D::Error> { if prog().at < prog().n { Probe::deserialize(d) } else { dispatch(k::HAny, d, HCAP) } }
struct Rec(usize);
impl Rec {
    fn len(&self) -> usize { if self.0 < HCAP && prog().lens[self.0] != usize::MAX { prog().lens[self.0] } else { prog().len } }
    fn var(&self) -> Kind { if self.0 < HCAP && prog().vars[self.0] != k::Nil { prog().vars[self.0] } else { prog().var } }
    fn ok<X: Error>(self, t: Tok) -> Result<Probe, X> {
        prog().visits += 1;
        if prog().visits > prog().refuse { return Err(X::custom("refused")) }
        put(t);
        Ok(Probe)
    }
}
macro_rules! vp { ($($m:ident $t:ty, $k:ident, $x:ident => $e:expr;)*) => { $( fn $m<X: Error>(self, $x: $t) -> Result<Probe, X> { self.ok(Tok::n(k::$k, $e)) } )* } }
impl<'de> Visitor<'de> for Rec {
    type Value = Probe;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("probe") }
    vp! { visit_bool bool, Bool, v => v as u128; visit_i8 i8, I8, v => v as u8 as u128; visit_i16 i16, I16, v => v as u16 as u128; visit_i32 i32, I32, v => v as u32 as u128;
      visit_i64 i64, I64, v => v as u64 as u128; visit_i128 i128, I128, v => v as u128; visit_u8 u8, U8, v => v as u128; visit_u16 u16, U16, v => v as u128;
      visit_u32 u32, U32, v => v as u128; visit_u64 u64, U64, v => v as u128; visit_u128 u128, U128, v => v; visit_f32 f32, F32, v => v.to_bits() as u128;
      visit_f64 f64, F64, v => v.to_bits() as u128; visit_char char, Char, v => v as u32 as u128; }
    fn visit_str<X: Error>(self, v: &str) -> Result<Probe, X> { self.ok(Tok::str(v)) }
    fn visit_borrowed_str<X: Error>(self, v: &'de str) -> Result<Probe, X> { self.ok(Tok { i: 1, ..Tok::str(v) }) }
    fn visit_string<X: Error>(self, v: String) -> Result<Probe, X> { self.ok(Tok { i: 2, ..Tok::str(&v) }) }
    fn visit_bytes<X: Error>(self, v: &[u8]) -> Result<Probe, X> { self.ok(Tok { s: S::bytes(v), ..Tok::k(k::Bytes) }) }
    fn visit_borrowed_bytes<X: Error>(self, v: &'de [u8]) -> Result<Probe, X> { self.ok(Tok { i: 1, s: S::bytes(v), ..Tok::k(k::Bytes) }) }
    fn visit_byte_buf<X: Error>(self, v: Vec<u8>) -> Result<Probe, X> { self.ok(Tok { i: 2, s: S::bytes(&v), ..Tok::k(k::Bytes) }) }
    fn visit_unit<X: Error>(self) -> Result<Probe, X> { self.ok(Tok::k(k::Unit)) }
    fn visit_none<X: Error>(self) -> Result<Probe, X> { self.ok(Tok::k(k::None)) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> { self.ok::<D::Error>(Tok::k(k::Some))?; inner(d) }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Probe, D::Error> { self.ok::<D::Error>(Tok::k(k::NewtypeStruct))?; inner(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Probe, A::Error> {
        self.ok::<A::Error>(Tok::len(k::Seq, hint(a.size_hint())))?;
        let mut n = 0;
        while n < prog().take {
            if a.next_element::<Probe>()?.is_none() { break }
            n += 1;
        }
        put(Tok::end());
        Ok(Probe)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Probe, A::Error> {
        self.ok::<A::Error>(Tok::len(k::Map, hint(a.size_hint())))?;
        let mut n = 0;
        while n < prog().take {
            if a.next_key::<KeyProbe>()?.is_none() { break }
            a.next_value::<Probe>()?;
            n += 1;
        }
        put(Tok::end());
        Ok(Probe)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Probe, A::Error> {
        let (len, var) = (self.len(), self.var());
        self.ok::<A::Error>(Tok::k(k::VEnum))?;
        let (_, v) = a.variant::<KeyProbe>()?;
        match var {
            k::UnitVariant => { v.unit_variant()?; put(Tok::k(k::UnitVariant)); Ok(Probe) }
            k::NewtypeVariant => { put(Tok::k(k::NewtypeVariant)); v.newtype_variant::<Probe>() }
            k::TupleVariant => { put(Tok::k(k::TupleVariant)); v.tuple_variant(len, Rec(HCAP)) }
            _ => { put(Tok::k(k::StructVariant)); v.struct_variant(SFIELDS, Rec(HCAP)) }
        }
    }
}
/// A probe has nothing to say when serialized.
impl serde::Serialize for Probe {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_unit() }
}
