//! C25: the Rust type behind a trait object does not matter, and is dropped once.
//! @bounds: concrete types that are zero-sized, a byte, 3 bytes, 24 bytes, 600 bytes, aligned to 64, generic, own heap memory, or hold two further trait objects; external, internal and adjacent tags, the tag first or last; 4 kinds of formats; the document complete, cut off at any token, the format failing at any call, the value refused, a field repeated, or an element too many; read, called through the trait, written, dropped; symbolic payloads
//! @outside: other sizes; panics in the concrete type
//! @shard q_.*|t_.* 8 3
use harness::{diff::formats, entries, sym::*, tok::*};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};

static mut MADE: usize = 0;
static mut DROPPED: usize = 0;
static mut REFUSE: bool = false;
/// counts, and knows its serial number as long as it is alive
struct Life(u64);
const ALIVE: u64 = 0xA11CE;
impl Life {
    fn new() -> Life { unsafe { MADE += 1 } Life(ALIVE) }
}
impl Drop for Life {
    fn drop(&mut self) {
        check(self.0 == ALIVE, "drop: a value is dropped once");
        self.0 = 0;
        unsafe { DROPPED += 1 }
    }
}
/// zero-sized, counts as well
struct Tick;
impl Tick { fn new() -> Tick { unsafe { MADE += 1 } Tick } }
impl Drop for Tick { fn drop(&mut self) { unsafe { DROPPED += 1 } } }

fn payload<'de, D: Deserializer<'de>>(d: D) -> Result<u8, D::Error> {
    let v = u8::deserialize(d)?;
    if unsafe { REFUSE } { Err(de::Error::custom("refused")) } else { Ok(v) }
}
struct Zero(Tick);
struct Byte(u8, Tick);
struct Three(u8, [u8; 2], Tick);
struct Words(u8, [u64; 2], Life);
struct Large(u8, [u64; 70], Life);
#[repr(align(64))]
struct Aligned(u8, Life);
struct Generic<T>(T, Life);
struct Heap(Box<u8>, String, Life);
macro_rules! life { ($($t:ty, $v:ident => $e:expr, $s:ident => $n:expr;)*) => { $(
    impl<'de> Deserialize<'de> for $t { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let $v = payload(d)?; Ok($e) } }
    impl Serialize for $t { fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { let $s = self; z.serialize_u8($n) } }
)* } }
life! {
    Zero, _v => Zero(Tick::new()), _s => 0; Byte, v => Byte(v, Tick::new()), s => s.0; Three, v => Three(v, [v ^ 1, v ^ 2], Tick::new()), s => s.0;
    Words, v => Words(v, [v as u64 ^ 3; 2], Life::new()), s => s.0; Large, v => Large(v, [v as u64 ^ 4; 70], Life::new()), s => s.0;
    Aligned, v => Aligned(v, Life::new()), s => s.0; Generic<u16>, v => Generic(v as u16, Life::new()), s => s.0 as u8; Generic<u64>, v => Generic(v as u64, Life::new()), s => s.0 as u8;
    Heap, v => Heap(Box::new(v), "heap".to_owned(), Life::new()), s => *s.0;
}
macro_rules! rep { ($m:ident $(, $($args:tt)*)?) => {
    mod $m {
        use super::*;
        #[typetag::serde$(($($args)*))?]
        pub trait T { fn holds(&self, v: u8) -> bool; fn id(&self) -> usize; }
        #[typetag::serde] impl T for Zero { fn holds(&self, _: u8) -> bool { true } fn id(&self) -> usize { 0 } }
        #[typetag::serde] impl T for Byte { fn holds(&self, v: u8) -> bool { self.0 == v } fn id(&self) -> usize { 1 } }
        #[typetag::serde] impl T for Three { fn holds(&self, v: u8) -> bool { and(self.0 == v, and(self.1[0] == v ^ 1, self.1[1] == v ^ 2)) } fn id(&self) -> usize { 2 } }
        #[typetag::serde] impl T for Words { fn holds(&self, v: u8) -> bool { and(self.0 == v, and(self.1[0] == v as u64 ^ 3, self.1[1] == v as u64 ^ 3)) } fn id(&self) -> usize { 3 } }
        #[typetag::serde] impl T for Large { fn holds(&self, v: u8) -> bool { and(self.0 == v, and(self.1[0] == v as u64 ^ 4, self.1[69] == v as u64 ^ 4)) } fn id(&self) -> usize { 4 } }
        #[typetag::serde] impl T for Aligned { fn holds(&self, v: u8) -> bool { and(self.0 == v, self as *const Self as usize % 64 == 0) } fn id(&self) -> usize { 5 } }
        #[typetag::serde(name = "Generic16")] impl T for Generic<u16> { fn holds(&self, v: u8) -> bool { self.0 == v as u16 } fn id(&self) -> usize { 6 } }
        #[typetag::serde(name = "Generic64")] impl T for Generic<u64> { fn holds(&self, v: u8) -> bool { self.0 == v as u64 } fn id(&self) -> usize { 7 } }
        #[typetag::serde] impl T for Heap { fn holds(&self, v: u8) -> bool { and(*self.0 == v, self.1 == "heap") } fn id(&self) -> usize { 8 } }
        #[typetag::serde] impl T for Pair { fn holds(&self, v: u8) -> bool { and(self.0[0].holds(v), self.0[1].holds(v)) } fn id(&self) -> usize { 9 } }
        /// holds two trait objects
        #[derive(Serialize, Deserialize)] #[serde(transparent)]
        pub struct Pair([Box<dyn T>; 2]);
        pub fn trip(s: &mut Src, l: &mut Log, v: u8, id: usize) -> Result<(), E> {
            let x = read::<Box<dyn T>>(s)?;
            check(unsafe { DROPPED } == 0 && unsafe { MADE } == if id == 9 { 2 } else { 1 }, "drop: a value that is read is alive");
            check(x.id() == id, "type: it is the type that is named");
            check(x.holds(v), "type: with its payload");
            x.serialize(Ser(l))
        }
    }
} }
rep!(ext);
rep!(int, tag = "t");
rep!(adj, tag = "t", content = "c");
const NAMES: [&str; 10] = ["Zero", "Byte", "Three", "Words", "Large", "Aligned", "Generic16", "Generic64", "Heap", "Pair"];

fn object(w: &mut Log, rep: usize, id: usize, late: bool, value: &Log) {
    let name = Tok::str(NAMES[id]);
    if rep == 0 { w.push(Tok::map(1)).push(name).append(value).push(Tok::end()); return }
    w.push(if rep == 1 { Tok::map(2) } else { Tok { s: S::new("T"), ..Tok::len(k::Struct, 2) } });
    let field = |s: &str| if rep == 1 { Tok::str(s) } else { Tok::s(k::Field, s) };
    if late { w.push(field(if rep == 1 { "value" } else { "c" })).append(value); }
    w.push(field("t")).push(name);
    if !late { w.push(field(if rep == 1 { "value" } else { "c" })).append(value); }
    w.push(Tok::end());
}
fn document(rep: usize, id: usize, parts: [usize; 2], late: bool, v: u8) -> Box<Log> {
    let mut value = Log::new();
    if id == 9 {
        value.push(Tok::len(k::Tuple, 2));
        for p in parts { let mut x = Log::new(); x.push(Tok::n(k::U8, if p == 0 { 0 } else { v } as u128)); object(&mut value, rep, p, late, &x); }
        value.push(Tok::end());
    } else { value.push(Tok::n(k::U8, if id == 0 { 0 } else { v } as u128)); }
    let mut w = Log::new();
    object(&mut w, rep, id, late, &value);
    w
}
fn life(id: usize, parts: [usize; 2]) {
    let (rep, late, v) = (choice(3), flag(), u8v());
    if rep == 0 && late { return }
    let doc = document(rep, id, parts, late, v);
    let canonical = document(rep, id, parts, false, v);
    let broken = choice(6);
    let f = if late || broken >= 4 { pick(&[Fmt::JSON, Fmt::RICH]) } else { formats() };
    let mut s = Src::new(doc.toks(), f);
    let mut longer = Log::new();
    match broken {
        0 => {}
        1 => s.t = &doc.toks()[..choice(doc.n)],
        2 => s.fault = choice(if id == 9 { 40 } else { 14 }),
        3 => unsafe { REFUSE = true },
        // something is left over: the tag (or any other name) again, or the content
        5 => {
            if rep == 0 { return }
            longer.append_slice(&doc.toks()[..doc.n - 1]).push(Tok::str(if rep == 1 { "value" } else { "c" })).push(Tok::n(k::U8, 1)).push(Tok::end());
            s.t = longer.toks();
        }
        _ => {
            longer.append_slice(&doc.toks()[..doc.n - 1]).push(Tok::str(if rep == 0 { "Byte" } else { "t" })).push(if rep == 0 { Tok::n(k::U8, 1) } else { Tok::str("Byte") }).push(Tok::end());
            s.t = longer.toks();
        }
    }
    let mut out = Log::new();
    let call = |s: &mut Src, l: &mut Log| match rep { 0 => ext::trip(s, l, v, id), 1 => int::trip(s, l, v, id), _ => adj::trip(s, l, v, id) };
    // (under an internal tag a second tag after the first is the type's business)
    let r = call(&mut s, &mut out);
    if broken == 0 || broken == 2 && !s.faulted {
        check(r.is_ok(), "type: read and written");
        check_logs(&out, &canonical, "type: it is written as it was read");
        reach("complete");
    } else {
        check(r.is_err(), "drop: a broken document is rejected");
        if unsafe { MADE } > 0 { reach("rejected after a value was made") } else { reach("rejected") }
    }
    check(unsafe { MADE == DROPPED }, "drop: every value that is made is dropped, once");
}
fn q_types() { life(choice(9), [0, 0]) }
fn q_pairs() { life(9, pick(&[[0, 4], [8, 0], [4, 8]])) }
fn t_pairs() { life(9, [choice(9), choice(9)]) }
entries! { q_types q_pairs t_pairs }
