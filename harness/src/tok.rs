//! A token data format.  `Ser` writes a `Log` of tokens, `De` reads tokens.
//! Everything a typetag user could observe of a data format goes through it.
use crate::sym;
use core::fmt::{self, Write};
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};

pub const SCAP: usize = 40;
#[repr(C)]
#[derive(Clone, Copy)]
pub struct S {
    pub b: [u8; SCAP],
    pub len: u64,
}
impl S {
    pub const E: S = S { b: [0; SCAP], len: 0 };
    pub fn new(s: &str) -> S { S::bytes(s.as_bytes()) }
    pub fn bytes(s: &[u8]) -> S {
        let n = s.len();
        let mut r = S::E;
        if n > SCAP {
            // the same number for the same string
            r.b[..8].copy_from_slice(&intern(s).to_le_bytes());
            r.len = n as u64;
            return r;
        }
        r.b[..n].copy_from_slice(s);
        r.len = n as u64;
        r
    }
    pub fn as_bytes(&self) -> &[u8] {
        if self.len as usize > SCAP {
            let mut i = [0; 8];
            i.copy_from_slice(&self.b[..8]);
            return &long()[usize::from_le_bytes(i)];
        }
        &self.b[..self.len as usize]
    }
    pub fn as_str(&self) -> &str { unsafe { core::str::from_utf8_unchecked(self.as_bytes()) } }
    pub fn eq(&self, o: &S) -> bool { self.len == o.len && sym::raw_eq(&self.b, &o.b) }
    pub fn is(&self, s: &str) -> bool { self.eq(&S::new(s)) }
    pub fn contains(&self, needle: &str) -> bool {
        let n = needle.as_bytes();
        let h = self.as_bytes();
        let mut i = 0;
        while i + n.len() <= h.len() {
            if &h[i..i + n.len()] == n {
                return true;
            }
            i += 1;
        }
        false
    }
}
/// strings longer than SCAP
static mut LONG: Vec<Box<[u8]>> = Vec::new();
fn long() -> &'static mut Vec<Box<[u8]>> { unsafe { &mut *core::ptr::addr_of_mut!(LONG) } }
fn intern(s: &[u8]) -> usize {
    for (i, x) in long().iter().enumerate() {
        if sym::bytes_eq(x, s) { return i }
    }
    long().push(s.into());
    long().len() - 1
}
/// keeps the first SCAP bytes
impl Write for S {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(SCAP - self.len as usize);
        let at = self.len as usize;
        self.b[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n as u64;
        Ok(())
    }
}

pub type Kind = u64;
macro_rules! kinds { ($($n:ident)*) => {
    #[allow(non_camel_case_types)] #[repr(u64)] #[derive(Clone, Copy)] enum KE { $($n),* }
    #[allow(non_upper_case_globals)] pub mod k { use super::Kind; $( pub const $n: Kind = super::KE::$n as Kind; )* }
    pub fn kind_name(k: Kind) -> &'static str { [$(stringify!($n)),*][k as usize] }
} }
kinds! { Nil Bool I8 I16 I32 I64 I128 U8 U16 U32 U64 U128 F32 F64 Char Str Bytes None Some Unit UnitStruct UnitVariant
  NewtypeStruct NewtypeVariant Seq Tuple TupleStruct TupleVariant Map Struct StructVariant Field Skip End
  // hints received by a deserializer
  HAny HBool HI8 HI16 HI32 HI64 HI128 HU8 HU16 HU32 HU64 HU128 HF32 HF64 HChar HStr HString HBytes HByteBuf HOption HUnit HUnitStruct
  HNewtypeStruct HSeq HTuple HTupleStruct HMap HStruct HEnum HIdentifier HIgnoredAny
  // visits received by a probe, where they differ from the above
  VEnum VKey VError }
pub const NO_LEN: u64 = u64::MAX;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Tok {
    pub n: u128,
    pub k: Kind,
    pub i: u64,
    pub len: u64,
    pub pad: u64,
    pub s: S,
    pub v: S,
}
impl Tok {
    pub const NIL: Tok = Tok { n: 0, k: k::Nil, i: 0, len: 0, pad: 0, s: S::E, v: S::E };
    pub fn k(k: Kind) -> Tok { Tok { k, ..Tok::NIL } }
    pub fn n(k: Kind, n: u128) -> Tok { Tok { k, n, ..Tok::NIL } }
    pub fn s(k: Kind, s: &str) -> Tok { Tok { k, s: S::new(s), ..Tok::NIL } }
    pub fn str(s: &str) -> Tok { Tok::s(k::Str, s) }
    pub fn len(k: Kind, len: u64) -> Tok { Tok { k, len, ..Tok::NIL } }
    pub fn map(len: u64) -> Tok { Tok::len(k::Map, len) }
    pub fn end() -> Tok { Tok::k(k::End) }
    pub fn eq(&self, o: &Tok) -> bool { sym::raw_eq(self, o) }
}

/// tokens that a log has room for at first
pub const CAP: usize = 40;
#[derive(Clone)]
pub struct Log {
    pub t: Vec<Tok>,
    pub n: usize,
    /// is_human_readable() of the serializer
    pub hr: bool,
    /// index of the operation that fails, and how many operations happened
    pub fault: usize,
    pub ops: usize,
    pub faulted: bool,
    /// an operation was attempted after an operation had failed
    pub after_fault: bool,
    /// a container got more or fewer entries than it was announced with
    pub len_mismatch: bool,
    /// misuse of the serializer protocol (value before key, ...)
    pub protocol: bool,
}
impl Log {
    pub fn new() -> Box<Log> {
        Box::new(Log { t: Vec::with_capacity(CAP), n: 0, hr: true, fault: usize::MAX, ops: 0, faulted: false, after_fault: false, len_mismatch: false, protocol: false })
    }
    pub fn push(&mut self, t: Tok) -> &mut Log {
        if self.n < self.t.len() { self.t[self.n] = t } else { self.t.push(t) }
        self.n += 1;
        self
    }
    pub fn append(&mut self, o: &Log) -> &mut Log {
        let mut i = 0;
        while i < o.n {
            self.push(o.t[i]);
            i += 1;
        }
        self
    }
    pub fn append_slice(&mut self, o: &[Tok]) -> &mut Log {
        for t in o {
            self.push(*t);
        }
        self
    }
    pub fn toks(&self) -> &[Tok] { &self.t[..self.n] }
    fn op(&mut self, t: Tok) -> Result<(), E> {
        if self.faulted {
            self.after_fault = true;
            return Err(E::FAULT);
        }
        if self.ops == self.fault {
            self.faulted = true;
            return Err(E::FAULT);
        }
        self.ops += 1;
        self.push(t);
        Ok(())
    }
    /// one expression over all tokens (no path split)
    pub fn eq(&self, o: &Log) -> bool {
        if self.n != o.n || self.len_mismatch != o.len_mismatch || self.protocol != o.protocol {
            return false;
        }
        let mut r = true;
        let mut i = 0;
        while i < self.n {
            r = sym::and(r, self.t[i].eq(&o.t[i]));
            i += 1;
        }
        r
    }
    pub fn show(&self, what: &str) {
        #[cfg(feature = "native")]
        {
            println!("  {}:{}{}{}", what, if self.len_mismatch { " LEN-MISMATCH" } else { "" }, if self.protocol { " PROTOCOL" } else { "" }, if self.after_fault { " AFTER-FAULT" } else { "" });
            for t in self.toks() {
                let len = if t.len == NO_LEN { "?".into() } else { t.len.to_string() };
                println!("    {} n={} i={} len={} {:?} {:?}", kind_name(t.k), t.n, t.i, len, String::from_utf8_lossy(t.s.as_bytes()), String::from_utf8_lossy(t.v.as_bytes()));
            }
        }
        let _ = what;
    }
}
pub fn check_logs(got: &Log, want: &Log, label: &str) {
    #[cfg(feature = "native")]
    if !got.eq(want) {
        got.show("got");
        want.show("expected");
    }
    sym::check(got.eq(want), label)
}

// ---------------------------------------------------------------- errors
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u64)]
pub enum EK { Fault, Custom, InvalidType, InvalidValue, InvalidLength, UnknownVariant, UnknownField, MissingField, DuplicateField, Hint, Eof, Trailing }
#[derive(Clone, Copy)]
pub struct E {
    pub k: EK,
    pub s: S,
    pub exp: &'static [&'static str],
    pub n: usize,
}
/// When on, error messages and expectations are rendered into `E::s`.
pub static mut MESSAGES: bool = false;
fn render(d: &dyn fmt::Display) -> S {
    if unsafe { MESSAGES } {
        let mut s = S::E;
        let _ = write!(s, "{}", d);
        s
    } else {
        S::E
    }
}
struct Exp<'a>(&'a dyn de::Expected);
impl fmt::Display for Exp<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
impl E {
    pub const FAULT: E = E { k: EK::Fault, s: S::E, exp: &[], n: 0 };
    pub fn new(k: EK) -> E { E { k, ..E::FAULT } }
    fn named(k: EK, s: &str) -> E { E { k, s: S::new(s), ..E::FAULT } }
    pub fn show(&self) {
        #[cfg(feature = "native")]
        println!("  error {:?} {:?} n={} {:?}", self.k, String::from_utf8_lossy(self.s.as_bytes()), self.n, self.exp);
    }
}
impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.k {
            EK::Fault => f.write_str("E!fault"),
            EK::Hint => f.write_str("E!hint"),
            EK::Eof => f.write_str("E!eof"),
            EK::Trailing => f.write_str("E!trailing"),
            EK::Custom if self.s.len > 0 => f.write_str(self.s.as_str()),
            EK::Custom => f.write_str("E!custom"),
            EK::MissingField => { f.write_str("E!missing ")?; f.write_str(self.s.as_str()) }
            EK::UnknownField => { f.write_str("E!unknown ")?; f.write_str(self.s.as_str()) }
            EK::DuplicateField => { f.write_str("E!duplicate ")?; f.write_str(self.s.as_str()) }
            EK::UnknownVariant => { f.write_str("E!variant ")?; f.write_str(self.s.as_str()) }
            _ => f.write_str("E!other"),
        }
    }
}
impl std::error::Error for E {}
impl ser::Error for E { fn custom<T: fmt::Display>(t: T) -> E { E { s: render(&t), ..E::new(EK::Custom) } } }
impl de::Error for E {
    fn custom<T: fmt::Display>(t: T) -> E { E { s: render(&t), ..E::new(EK::Custom) } }
    fn invalid_type(_: de::Unexpected, e: &dyn de::Expected) -> E { E { s: render(&Exp(e)), ..E::new(EK::InvalidType) } }
    fn invalid_value(_: de::Unexpected, e: &dyn de::Expected) -> E { E { s: render(&Exp(e)), ..E::new(EK::InvalidValue) } }
    fn invalid_length(n: usize, e: &dyn de::Expected) -> E { E { s: render(&Exp(e)), n, ..E::new(EK::InvalidLength) } }
    fn unknown_variant(v: &str, e: &'static [&'static str]) -> E { E { exp: e, ..E::named(EK::UnknownVariant, v) } }
    fn unknown_field(v: &str, e: &'static [&'static str]) -> E { E { exp: e, ..E::named(EK::UnknownField, v) } }
    fn missing_field(v: &'static str) -> E { E::named(EK::MissingField, v) }
    fn duplicate_field(v: &'static str) -> E { E::named(EK::DuplicateField, v) }
}

// ---------------------------------------------------------------- serializer
pub struct Ser<'a>(pub &'a mut Log);
pub struct Comp<'a> { l: &'a mut Log, want: u64, got: u64, key: bool }
impl<'a> Ser<'a> {
    fn comp(self, t: Tok, want: u64) -> Result<Comp<'a>, E> {
        self.0.op(t)?;
        Ok(Comp { l: self.0, want, got: 0, key: false })
    }
}
macro_rules! prim { ($($m:ident $t:ty, $k:ident, $x:ident => $e:expr;)*) => { $(
    fn $m(self, $x: $t) -> Result<(), E> { self.0.op(Tok::n(k::$k, $e)) } )* } }
impl<'a> ser::Serializer for Ser<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Comp<'a>;
    type SerializeTupleVariant = Comp<'a>;
    type SerializeMap = Comp<'a>;
    type SerializeStruct = Comp<'a>;
    type SerializeStructVariant = Comp<'a>;
    fn is_human_readable(&self) -> bool { self.0.hr }
    prim! { serialize_bool bool, Bool, v => v as u128; serialize_i8 i8, I8, v => v as u8 as u128; serialize_i16 i16, I16, v => v as u16 as u128;
      serialize_i32 i32, I32, v => v as u32 as u128; serialize_i64 i64, I64, v => v as u64 as u128; serialize_i128 i128, I128, v => v as u128;
      serialize_u8 u8, U8, v => v as u128; serialize_u16 u16, U16, v => v as u128; serialize_u32 u32, U32, v => v as u128;
      serialize_u64 u64, U64, v => v as u128; serialize_u128 u128, U128, v => v; serialize_f32 f32, F32, v => v.to_bits() as u128;
      serialize_f64 f64, F64, v => v.to_bits() as u128; serialize_char char, Char, v => v as u32 as u128; }
    fn serialize_str(self, v: &str) -> Result<(), E> { self.0.op(Tok::s(k::Str, v)) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> { self.0.op(Tok { s: S::bytes(v), ..Tok::k(k::Bytes) }) }
    fn serialize_none(self) -> Result<(), E> { self.0.op(Tok::k(k::None)) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> { self.0.op(Tok::k(k::Some))?; v.serialize(self) }
    fn serialize_unit(self) -> Result<(), E> { self.0.op(Tok::k(k::Unit)) }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), E> { self.0.op(Tok::s(k::UnitStruct, n)) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), E> { self.0.op(Tok { s: S::new(n), v: S::new(v), i: i as u64, ..Tok::k(k::UnitVariant) }) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), E> { self.0.op(Tok::s(k::NewtypeStruct, n))?; v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, v: &'static str, x: &T) -> Result<(), E> { self.0.op(Tok { s: S::new(n), v: S::new(v), i: i as u64, ..Tok::k(k::NewtypeVariant) })?; x.serialize(self) }
    fn serialize_seq(self, l: Option<usize>) -> Result<Comp<'a>, E> { let n = l.map_or(NO_LEN, |l| l as u64); self.comp(Tok::len(k::Seq, n), n) }
    fn serialize_tuple(self, l: usize) -> Result<Comp<'a>, E> { self.comp(Tok::len(k::Tuple, l as u64), l as u64) }
    fn serialize_tuple_struct(self, n: &'static str, l: usize) -> Result<Comp<'a>, E> { self.comp(Tok { s: S::new(n), ..Tok::len(k::TupleStruct, l as u64) }, l as u64) }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<Comp<'a>, E> { self.comp(Tok { s: S::new(n), v: S::new(v), i: i as u64, ..Tok::len(k::TupleVariant, l as u64) }, l as u64) }
    fn serialize_map(self, l: Option<usize>) -> Result<Comp<'a>, E> { let n = l.map_or(NO_LEN, |l| l as u64); self.comp(Tok::len(k::Map, n), n) }
    fn serialize_struct(self, n: &'static str, l: usize) -> Result<Comp<'a>, E> { self.comp(Tok { s: S::new(n), ..Tok::len(k::Struct, l as u64) }, l as u64) }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, l: usize) -> Result<Comp<'a>, E> { self.comp(Tok { s: S::new(n), v: S::new(v), i: i as u64, ..Tok::len(k::StructVariant, l as u64) }, l as u64) }
}
impl<'a> Comp<'a> {
    fn finish(self) -> Result<(), E> {
        if self.want != NO_LEN && self.want != self.got { self.l.len_mismatch = true }
        if self.key { self.l.protocol = true }
        self.l.op(Tok::end())
    }
}
macro_rules! comp { ($($tr:ident $m:ident;)*) => { $( impl<'a> ser::$tr for Comp<'a> { type Ok = (); type Error = E;
  fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.got += 1; v.serialize(Ser(&mut *self.l)) }
  fn end(self) -> Result<(), E> { self.finish() } } )* } }
comp! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl<'a> ser::SerializeMap for Comp<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        if self.key { self.l.protocol = true }
        self.key = true;
        v.serialize(Ser(&mut *self.l))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        if !self.key { self.l.protocol = true }
        self.key = false;
        self.got += 1;
        v.serialize(Ser(&mut *self.l))
    }
    fn end(self) -> Result<(), E> { self.finish() }
}
macro_rules! comps { ($($tr:ident)*) => { $( impl<'a> ser::$tr for Comp<'a> { type Ok = (); type Error = E;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> Result<(), E> { self.got += 1; self.l.op(Tok::s(k::Field, key))?; v.serialize(Ser(&mut *self.l)) }
  fn skip_field(&mut self, key: &'static str) -> Result<(), E> { self.l.op(Tok::s(k::Skip, key)) }
  fn end(self) -> Result<(), E> { self.finish() } } )* } }
comps! { SerializeStruct SerializeStructVariant }

// ---------------------------------------------------------------- deserializer
/// How the format behaves.
#[derive(Clone, Copy)]
pub struct Fmt {
    /// self-describing: deserialize_any works and every hint defers to it (JSON);
    /// otherwise the hint has to match the token and deserialize_any fails (bincode)
    pub sd: bool,
    /// self-describing, but Option / newtype structure is visible (RON); otherwise like JSON
    pub rich: bool,
    /// strings and bytes are delivered: 0 transient, 1 borrowed from the input, 2 owned
    pub strm: u8,
    /// structs are delivered as sequences (bincode), keys are not in the data
    pub seqs: bool,
    /// containers are delimited by their announced length
    pub counted: bool,
    pub hr: bool,
    /// size hints given by SeqAccess / MapAccess: 0 none, 1 exact where known, 2 absurd
    pub hints: u8,
}
impl Fmt {
    pub const JSON: Fmt = Fmt { sd: true, rich: false, strm: 0, seqs: false, counted: false, hr: true, hints: 0 };
    pub const RICH: Fmt = Fmt { rich: true, ..Fmt::JSON };
    pub const STRICT: Fmt = Fmt { sd: false, hr: false, ..Fmt::JSON };
    pub const BIN: Fmt = Fmt { seqs: true, counted: true, hints: 1, ..Fmt::STRICT };
}
pub struct Src<'de> {
    pub t: &'de [Tok],
    pub pos: usize,
    pub f: Fmt,
    pub fault: usize,
    pub ops: usize,
    pub faulted: bool,
    pub after_fault: bool,
    /// hints as the format received them
    pub h: Option<Box<Log>>,
    pub used_any: bool,
}
impl<'de> Src<'de> {
    pub fn new(t: &'de [Tok], f: Fmt) -> Src<'de> { Src { t, pos: 0, f, fault: usize::MAX, ops: 0, faulted: false, after_fault: false, h: None, used_any: false } }
    pub fn done(&self) -> bool { self.pos == self.t.len() }
    fn peek(&self) -> Result<&'de Tok, E> { if self.pos < self.t.len() { Ok(&self.t[self.pos]) } else { Err(E::new(EK::Eof)) } }
    fn next(&mut self) -> Result<&'de Tok, E> { let t = self.peek()?; self.pos += 1; Ok(t) }
    fn op(&mut self) -> Result<(), E> {
        if self.faulted { self.after_fault = true; return Err(E::FAULT) }
        if self.ops == self.fault { self.faulted = true; return Err(E::FAULT) }
        self.ops += 1;
        Ok(())
    }
    fn hint(&mut self, t: Tok) -> Result<(), E> {
        self.op()?;
        if let Some(h) = &mut self.h { h.push(t); }
        Ok(())
    }
    /// skips one value
    fn skip(&mut self) -> Result<(), E> {
        let mut depth = 0u32;
        loop {
            let t = self.next()?;
            match t.k {
                k::Some | k::NewtypeStruct | k::NewtypeVariant | k::Field => continue,
                k::Seq | k::Tuple | k::TupleStruct | k::TupleVariant | k::Map | k::Struct | k::StructVariant => depth += 1,
                k::End => { if depth == 0 { return Err(E::new(EK::Hint)) } depth -= 1 }
                _ => {}
            }
            if depth == 0 { return Ok(()) }
        }
    }
}
pub fn hint_tok(h: Kind, name: &str, list: &[&str], len: u64) -> Tok {
    let mut v = S::E;
    for x in list { let _ = v.write_str(x); let _ = v.write_str(","); }
    Tok { k: h, s: S::new(name), v, len, ..Tok::NIL }
}

pub struct De<'a, 'de>(pub &'a mut Src<'de>);
impl<'a, 'de> De<'a, 'de> {
    fn str<V: Visitor<'de>>(self, t: &'de Tok, v: V) -> Result<V::Value, E> {
        match self.0.f.strm { 0 => { let s = t.s; v.visit_str(s.as_str()) } 1 => v.visit_borrowed_str(t.s.as_str()), _ => v.visit_string(t.s.as_str().to_owned()) }
    }
    fn bytes<V: Visitor<'de>>(self, t: &'de Tok, v: V) -> Result<V::Value, E> {
        match self.0.f.strm { 0 => { let s = t.s; v.visit_bytes(s.as_bytes()) } 1 => v.visit_borrowed_bytes(t.s.as_bytes()), _ => v.visit_byte_buf(t.s.as_bytes().to_vec()) }
    }
    fn acc(self, len: u64) -> Acc<'a, 'de> { Acc { left: if self.0.f.counted && len != NO_LEN { len } else { NO_LEN }, len, src: self.0, skip_fields: false } }
    fn seq<V: Visitor<'de>>(self, len: u64, v: V) -> Result<V::Value, E> {
        let src = self.0;
        let start = src.pos;
        let r = v.visit_seq(De(&mut *src).acc(len))?;
        src.close(start)?;
        Ok(r)
    }
    fn map<V: Visitor<'de>>(self, len: u64, v: V) -> Result<V::Value, E> {
        let src = self.0;
        let start = src.pos;
        let r = v.visit_map(De(&mut *src).acc(len))?;
        src.close(start)?;
        Ok(r)
    }
    fn strukt<V: Visitor<'de>>(self, len: u64, v: V) -> Result<V::Value, E> {
        if !self.0.f.seqs { return self.map(len, v) }
        let src = self.0;
        let start = src.pos;
        let r = v.visit_seq(Acc { skip_fields: true, ..De(&mut *src).acc(len) })?;
        src.close(start)?;
        Ok(r)
    }
    fn any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let rich = self.0.f.rich;
        let t = self.0.next()?;
        match t.k {
            k::Bool => v.visit_bool(t.n != 0),
            k::I8 => v.visit_i8(t.n as i8), k::I16 => v.visit_i16(t.n as i16), k::I32 => v.visit_i32(t.n as i32), k::I64 => v.visit_i64(t.n as i64), k::I128 => v.visit_i128(t.n as i128),
            k::U8 => v.visit_u8(t.n as u8), k::U16 => v.visit_u16(t.n as u16), k::U32 => v.visit_u32(t.n as u32), k::U64 => v.visit_u64(t.n as u64), k::U128 => v.visit_u128(t.n),
            k::F32 => v.visit_f32(f32::from_bits(t.n as u32)), k::F64 => v.visit_f64(f64::from_bits(t.n as u64)),
            k::Char => v.visit_char(unsafe { char::from_u32_unchecked(t.n as u32) }),
            k::Str | k::Field => self.str(t, v),
            k::Bytes => self.bytes(t, v),
            k::None => if rich { v.visit_none() } else { v.visit_unit() },
            k::Some => if rich { v.visit_some(self) } else { self.any(v) },
            k::Unit | k::UnitStruct => v.visit_unit(),
            k::NewtypeStruct => if rich { v.visit_newtype_struct(self) } else { self.any(v) },
            k::Seq | k::Tuple | k::TupleStruct => self.seq(t.len, v),
            k::Map | k::Struct => self.map(t.len, v),
            // as externally tagged data
            k::UnitVariant => { let s = t.v; v.visit_str(s.as_str()) }
            k::NewtypeVariant | k::TupleVariant | k::StructVariant => v.visit_map(One { src: self.0, t, state: 0 }),
            _ => Err(E::new(EK::Hint)),
        }
    }
    fn variant<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let sd = self.0.f.sd;
        let t = self.0.next()?;
        match t.k {
            k::UnitVariant | k::NewtypeVariant | k::TupleVariant | k::StructVariant => v.visit_enum(Var { src: self.0, t, mapped: false }),
            k::Str | k::Field if sd => v.visit_enum(Var { src: self.0, t, mapped: false }),
            k::Map | k::Struct if sd => {
                let kt = self.0.next()?;
                if kt.k != k::Str && kt.k != k::Field { return Err(E::new(EK::Hint)) }
                let src = self.0;
                let start = src.pos;
                let r = v.visit_enum(Var { src: &mut *src, t: kt, mapped: true })?;
                src.close(start)?;
                Ok(r)
            }
            _ => Err(E::new(EK::Hint)),
        }
    }
}
impl<'de> Src<'de> {
    /// the visitor of a container returned: the container has to be exhausted
    fn close(&mut self, _start: usize) -> Result<(), E> {
        if self.peek()?.k == k::End { self.pos += 1; return Ok(()) }
        Err(E::new(EK::Trailing))
    }
}
macro_rules! dprim { ($($m:ident $h:ident $v:ident $k:ident $x:ident => $e:expr;)*) => { $( fn $m<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, E> {
   self.0.hint(Tok::k(k::$h))?;
   if self.0.f.sd { return self.any(visitor) }
   let $x = self.0.next()?; if $x.k != k::$k { return Err(E::new(EK::Hint)) } visitor.$v($e) } )* } }
macro_rules! dstr { ($($m:ident $h:ident $f:ident $k:ident;)*) => { $( fn $m<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, E> {
   self.0.hint(Tok::k(k::$h))?;
   if self.0.f.sd { return self.any(visitor) }
   let t = self.0.next()?; if t.k != k::$k && !(t.k == k::Field && k::$k == k::Str) { return Err(E::new(EK::Hint)) } self.$f(t, visitor) } )* } }
impl<'a, 'de> de::Deserializer<'de> for De<'a, 'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { self.0.f.hr }
    dprim! { deserialize_bool HBool visit_bool Bool t => t.n != 0; deserialize_i8 HI8 visit_i8 I8 t => t.n as i8; deserialize_i16 HI16 visit_i16 I16 t => t.n as i16;
      deserialize_i32 HI32 visit_i32 I32 t => t.n as i32; deserialize_i64 HI64 visit_i64 I64 t => t.n as i64; deserialize_i128 HI128 visit_i128 I128 t => t.n as i128;
      deserialize_u8 HU8 visit_u8 U8 t => t.n as u8; deserialize_u16 HU16 visit_u16 U16 t => t.n as u16; deserialize_u32 HU32 visit_u32 U32 t => t.n as u32;
      deserialize_u64 HU64 visit_u64 U64 t => t.n as u64; deserialize_u128 HU128 visit_u128 U128 t => t.n;
      deserialize_f32 HF32 visit_f32 F32 t => f32::from_bits(t.n as u32); deserialize_f64 HF64 visit_f64 F64 t => f64::from_bits(t.n as u64);
      deserialize_char HChar visit_char Char t => unsafe { char::from_u32_unchecked(t.n as u32) }; }
    dstr! { deserialize_str HStr str Str; deserialize_string HString str Str; deserialize_bytes HBytes bytes Bytes; deserialize_byte_buf HByteBuf bytes Bytes; }
    /// a compact format has no identifiers
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HIdentifier))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if self.0.f.seqs || t.k != k::Str && t.k != k::Field { return Err(E::new(EK::Hint)) }
        self.str(t, v)
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HAny))?;
        self.0.used_any = true;
        if !self.0.f.sd { return Err(E::new(EK::Hint)) }
        self.any(v)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HIgnoredAny))?;
        if !self.0.f.sd { self.0.used_any = true; return Err(E::new(EK::Hint)) }
        self.0.skip()?;
        v.visit_unit()
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HOption))?;
        if self.0.f.sd && !self.0.f.rich {
            // options and newtypes leave no trace in the data
            while self.0.peek()?.k == k::Some || self.0.peek()?.k == k::NewtypeStruct { self.0.pos += 1 }
            let t = self.0.peek()?;
            if t.k == k::None || t.k == k::Unit || t.k == k::UnitStruct { self.0.pos += 1; return v.visit_none() }
            return v.visit_some(self);
        }
        let t = self.0.peek()?;
        match t.k {
            k::None => { self.0.pos += 1; v.visit_none() }
            k::Some => { self.0.pos += 1; v.visit_some(self) }
            k::Unit | k::UnitStruct if self.0.f.sd => { self.0.pos += 1; if self.0.f.rich { v.visit_unit() } else { v.visit_none() } }
            _ if self.0.f.sd => v.visit_some(self),
            _ => Err(E::new(EK::Hint)),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HUnit))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if t.k == k::Unit { v.visit_unit() } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, E> {
        self.0.hint(hint_tok(k::HUnitStruct, n, &[], 0))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if t.k == k::UnitStruct { v.visit_unit() } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, E> {
        self.0.hint(hint_tok(k::HNewtypeStruct, n, &[], 0))?;
        let t = self.0.peek()?;
        if t.k == k::NewtypeStruct { self.0.pos += 1 } else if !self.0.f.sd { return Err(E::new(EK::Hint)) }
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HSeq))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if t.k == k::Seq { self.seq(t.len, v) } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, E> {
        self.0.hint(hint_tok(k::HTuple, "", &[], len as u64))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if (t.k == k::Tuple || t.k == k::TupleStruct) && t.len == len as u64 { self.seq(t.len, v) } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, len: usize, v: V) -> Result<V::Value, E> {
        self.0.hint(hint_tok(k::HTupleStruct, n, &[], len as u64))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if t.k == k::TupleStruct && t.len == len as u64 { self.seq(t.len, v) } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.0.hint(Tok::k(k::HMap))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if t.k == k::Map { self.map(t.len, v) } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.0.hint(hint_tok(k::HStruct, n, f, f.len() as u64))?;
        if self.0.f.sd { return self.any(v) }
        let t = self.0.next()?;
        if t.k == k::Struct { self.strukt(t.len, v) } else { Err(E::new(EK::Hint)) }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.0.hint(hint_tok(k::HEnum, n, f, f.len() as u64))?;
        self.variant(v)
    }
}
pub struct Acc<'a, 'de> { src: &'a mut Src<'de>, left: u64, len: u64, skip_fields: bool }
impl<'a, 'de> Acc<'a, 'de> {
    /// is there another entry?
    fn more(&mut self) -> Result<bool, E> {
        self.src.op()?;
        if self.left == NO_LEN { return Ok(self.src.peek()?.k != k::End) }
        if self.left == 0 { return Ok(false) }
        self.left -= 1;
        Ok(true)
    }
    fn hint(&self) -> Option<usize> { match self.src.f.hints { 0 => None, 1 => if self.len == NO_LEN { None } else { Some(self.len as usize) }, _ => Some(usize::MAX) } }
}
impl<'a, 'de> de::SeqAccess<'de> for Acc<'a, 'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if !self.more()? { return Ok(None) }
        if self.skip_fields && self.src.peek()?.k == k::Field { self.src.pos += 1 }
        s.deserialize(De(&mut *self.src)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { self.hint() }
}
impl<'a, 'de> de::MapAccess<'de> for Acc<'a, 'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if !self.more()? { return Ok(None) }
        s.deserialize(De(&mut *self.src)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { self.src.op()?; s.deserialize(De(&mut *self.src)) }
    fn size_hint(&self) -> Option<usize> { self.hint() }
}
/// a variant token seen through deserialize_any: a map with one entry
struct One<'a, 'de> { src: &'a mut Src<'de>, t: &'de Tok, state: u8 }
impl<'a, 'de> de::MapAccess<'de> for One<'a, 'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.src.op()?;
        if self.state != 0 { return Ok(None) }
        self.state = 1;
        let n = self.t.v;
        s.deserialize(de::value::StrDeserializer::<E>::new(n.as_str())).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> { self.src.op()?; s.deserialize(Payload { src: &mut *self.src, t: self.t }) }
}
/// the payload of a variant token as a value of its own
struct Payload<'a, 'de> { src: &'a mut Src<'de>, t: &'de Tok }
impl<'a, 'de> de::Deserializer<'de> for Payload<'a, 'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool { self.src.f.hr }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.src.op()?;
        match self.t.k { k::NewtypeVariant => De(self.src).any(v), k::TupleVariant => De(self.src).seq(self.t.len, v), k::StructVariant => De(self.src).map(self.t.len, v), _ => Err(E::new(EK::Hint)) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
struct Var<'a, 'de> { src: &'a mut Src<'de>, t: &'de Tok, mapped: bool }
impl<'a, 'de> de::EnumAccess<'de> for Var<'a, 'de> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> {
        self.src.op()?;
        let n = if self.t.k == k::Str || self.t.k == k::Field { self.t.s } else { self.t.v };
        Ok((s.deserialize(de::value::StrDeserializer::<E>::new(n.as_str()))?, self))
    }
}
impl<'a, 'de> de::VariantAccess<'de> for Var<'a, 'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        self.src.op()?;
        if self.mapped { return <() as serde::Deserialize>::deserialize(De(self.src)) }
        if self.t.k == k::UnitVariant || self.t.k == k::Str || self.t.k == k::Field { Ok(()) } else { Err(E::new(EK::Hint)) }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        self.src.op()?;
        if self.mapped || self.t.k == k::NewtypeVariant { s.deserialize(De(self.src)) } else { Err(E::new(EK::Hint)) }
    }
    fn tuple_variant<V: Visitor<'de>>(self, len: usize, v: V) -> Result<V::Value, E> {
        if self.mapped { return de::Deserializer::deserialize_tuple(De(self.src), len, v) }
        self.src.hint(hint_tok(k::HTuple, "", &[], len as u64))?;
        if self.t.k == k::TupleVariant { De(self.src).seq(self.t.len, v) } else { Err(E::new(EK::Hint)) }
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        if self.mapped { return de::Deserializer::deserialize_struct(De(self.src), "", f, v) }
        self.src.hint(hint_tok(k::HStruct, "", f, f.len() as u64))?;
        if self.t.k == k::StructVariant { De(self.src).strukt(self.t.len, v) } else { Err(E::new(EK::Hint)) }
    }
}

/// Deserialize a whole document: everything has to be consumed.
pub fn read<'de, T: serde::Deserialize<'de>>(src: &mut Src<'de>) -> Result<T, E> {
    let r = T::deserialize(De(&mut *src))?;
    if !src.done() { return Err(E::new(EK::Trailing)) }
    Ok(r)
}
/// Serialize into a fresh log.
pub fn write<T: ?Sized + Serialize>(v: &T) -> (Result<(), E>, Box<Log>) {
    let mut l = Log::new();
    let r = v.serialize(Ser(&mut l));
    (r, l)
}
