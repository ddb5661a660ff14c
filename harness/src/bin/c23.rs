//! C23: trait objects in trait objects.
//! @bounds: an object of an externally, internally or adjacently tagged trait in an object of another one of any of the three (and of the same trait), as a field, element, entry, option, newtype or payload of a variant (9 places), with another value beside it; inner values of 9 shapes (a map with 3 entries among them) with symbolic payloads; written: compared call by call; read back: 4 formats with the tags first, self-describing formats also with the outer, the inner or both tags last; sequences of three objects of different types; objects in structs with flattened fields, in untagged and in internally tagged enums of serde's derive
//! @outside: more than three levels; other adaptors
//! @shard q_write|q_back|q_several|._same 6 4
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};
use serde::de::{self, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleVariant};
use serde::{Deserialize, Deserializer, Serialize, Serializer};

macro_rules! pair { ($m:ident $(, $($args:tt)*)?) => {
    pub mod $m {
        pub mod ser { use super::super::*; #[typetag::serialize$(($($args)*))?] pub trait T {} #[typetag::serialize(name = "V")] impl T for Node {} #[typetag::serialize(name = "Has")] impl T for HasSer {} }
        pub mod de { use super::super::*; #[typetag::deserialize$(($($args)*))?] pub trait T {} #[typetag::deserialize(name = "V")] impl T for Probe {} #[typetag::deserialize(name = "Has")] impl T for HasDe {} }
    }
} }
// outer and inner traits
pair!(ext);
pair!(int, tag = "t");
pair!(adj, tag = "t", content = "c");
pair!(ext2);
pair!(int2, tag = "u");
pair!(adj2, tag = "u", content = "d");

/// where the child is
const PLACES: usize = 9;
pub enum Child { Ext(Box<dyn ext2::ser::T>), Int(Box<dyn int2::ser::T>), Adj(Box<dyn adj2::ser::T>), Same(u8, Box<HasSer>), Plain(Node) }
pub struct HasSer { place: usize, child: Child, n: u8 }
impl Serialize for Child {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            Child::Ext(x) => x.serialize(z), Child::Int(x) => x.serialize(z), Child::Adj(x) => x.serialize(z), Child::Plain(x) => x.serialize(z),
            Child::Same(0, x) => (&**x as &dyn ext::ser::T).serialize(z), Child::Same(1, x) => (&**x as &dyn int::ser::T).serialize(z), Child::Same(_, x) => (&**x as &dyn adj::ser::T).serialize(z),
        }
    }
}
impl Serialize for HasSer {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let c = &self.child;
        match self.place {
            0 => { let mut s = z.serialize_struct("Has", 2)?; s.serialize_field("x", c)?; s.serialize_field("n", &self.n)?; s.end() }
            1 => z.serialize_newtype_struct("Has", c),
            2 => z.serialize_some(c),
            3 => { let mut s = z.serialize_seq(Some(1))?; s.serialize_element(c)?; s.end() }
            4 => { let mut s = z.serialize_tuple(2)?; s.serialize_element(c)?; s.serialize_element(&self.n)?; s.end() }
            5 => { let mut s = z.serialize_map(Some(1))?; s.serialize_entry("x", c)?; s.end() }
            6 => z.serialize_newtype_variant("Has", 0, "Nv", c),
            7 => { let mut s = z.serialize_tuple_variant("Has", 1, "Tv", 2)?; s.serialize_field(c)?; s.serialize_field(&self.n)?; s.end() }
            _ => { let mut s = z.serialize_struct_variant("Has", 2, "Sv", 2)?; s.serialize_field("x", c)?; s.serialize_field("n", &self.n)?; s.end() }
        }
    }
}
/// what the reader expects: places from the outside in, and the innermost trait
static mut PLACE: [usize; 4] = [0; 4];
static mut LEVEL: usize = 0;
static mut KIND: [u8; 4] = [0; 4];
fn level() -> usize { unsafe { LEVEL } }
pub struct HasDe;
struct ChildDe;
impl<'de> Deserialize<'de> for ChildDe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<ChildDe, D::Error> {
        match unsafe { KIND[level() - 1] } {
            0 => Box::<dyn ext2::de::T>::deserialize(d).map(|_| ChildDe), 1 => Box::<dyn int2::de::T>::deserialize(d).map(|_| ChildDe), 2 => Box::<dyn adj2::de::T>::deserialize(d).map(|_| ChildDe),
            3 => Box::<dyn ext::de::T>::deserialize(d).map(|_| ChildDe), 4 => Box::<dyn int::de::T>::deserialize(d).map(|_| ChildDe), _ => Box::<dyn adj::de::T>::deserialize(d).map(|_| ChildDe),
        }
    }
}
/// puts the sibling
struct Num;
impl<'de> Deserialize<'de> for Num { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Num, D::Error> { let n = u8::deserialize(d)?; put(Tok::n(k::Bool, n as u128)); Ok(Num) } }
struct HasV(usize);
impl HasV {
    fn seq<'de, A: SeqAccess<'de>>(self, mut a: A, num: bool) -> Result<HasDe, A::Error> {
        if a.next_element::<ChildDe>()?.is_none() { return Err(de::Error::custom("no child")) }
        if num && a.next_element::<Num>()?.is_none() { return Err(de::Error::custom("no sibling")) }
        Ok(HasDe)
    }
}
impl<'de> Visitor<'de> for HasV {
    type Value = HasDe;
    fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("Has") }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<HasDe, D::Error> { ChildDe::deserialize(d).map(|_| HasDe) }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<HasDe, D::Error> { ChildDe::deserialize(d).map(|_| HasDe) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<HasDe, A::Error> {
        if self.0 == 3 { if a.next_element::<ChildDe>()?.is_none() { return Err(de::Error::custom("no child")) } return if a.next_element::<ChildDe>()?.is_some() { Err(de::Error::custom("two")) } else { Ok(HasDe) } }
        self.seq(a, true)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<HasDe, A::Error> {
        let (mut x, mut n) = (false, false);
        while let Some(key) = a.next_key::<String>()? {
            if key == "x" && !x { a.next_value::<ChildDe>()?; x = true }
            else if key == "n" && !n && self.0 != 5 { a.next_value::<Num>()?; n = true }
            else { return Err(de::Error::custom("foreign entry")) }
        }
        if x && (n || self.0 == 5) { Ok(HasDe) } else { Err(de::Error::custom("an entry is missing")) }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<HasDe, A::Error> {
        struct Id;
        impl<'de> Deserialize<'de> for Id { fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Id, D::Error> { d.deserialize_identifier(IdV).map(|_| Id) } }
        struct IdV;
        impl<'de> Visitor<'de> for IdV {
            type Value = ();
            fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("Id") }
            fn visit_str<X>(self, _: &str) -> Result<(), X> { Ok(()) }
            fn visit_u64<X>(self, _: u64) -> Result<(), X> { Ok(()) }
        }
        let (_, v) = a.variant::<Id>()?;
        match self.0 { 6 => v.newtype_variant::<ChildDe>().map(|_| HasDe), 7 => v.tuple_variant(2, self), _ => v.struct_variant(&["x", "n"], self) }
    }
}
impl<'de> Deserialize<'de> for HasDe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<HasDe, D::Error> {
        let p = unsafe { LEVEL += 1; PLACE[LEVEL - 1] };
        let v = HasV(p);
        match p {
            0 => d.deserialize_struct("Has", &["x", "n"], v), 1 => d.deserialize_newtype_struct("Has", v), 2 => d.deserialize_option(v), 3 => d.deserialize_seq(v), 4 => d.deserialize_tuple(2, v),
            5 => d.deserialize_map(v), _ => d.deserialize_enum("Has", &["Nv", "Tv", "Sv"], v),
        }
    }
}

// ------------------------------------------------------------ written
/// a value that makes the calls in the log
fn replay(t: &[Tok], at: &mut usize) -> Node {
    let c = t[*at];
    *at += 1;
    let mut x = node(c.k);
    (x.n, x.p, x.i) = (c.n, c.s, c.i as u32);
    if c.k != k::Str && c.k != k::Bytes { x.s = leak(&c.s); x.v = leak(&c.v) }
    match c.k {
        k::Some | k::NewtypeStruct | k::NewtypeVariant => x.kids.push(replay(t, at)),
        k::Seq | k::Tuple | k::TupleStruct | k::TupleVariant | k::Map | k::Struct | k::StructVariant => {
            x.known = c.len != NO_LEN;
            x.i = c.i as u32;
            while t[*at].k != k::End {
                if t[*at].k == k::Field { x.names.push(leak(&t[*at].s)); *at += 1; }
                x.kids.push(replay(t, at));
            }
            *at += 1;
            if x.known { check((x.kids.len() / if c.k == k::Map { 2 } else { 1 }) as u64 == c.len, "nested: the announced length of the inner object is right") }
        }
        _ => {}
    }
    x
}
/// (k::TupleVariant stands for a longer map)
const SHAPES: [Kind; 9] = [k::U8, k::Str, k::Unit, k::Seq, k::Struct, k::Map, k::NewtypeVariant, k::StructVariant, k::TupleVariant];
fn value() -> Node {
    let kind = pick(&SHAPES);
    if kind == k::TupleVariant {
        let mut x = node(k::Map);
        x.known = true;
        for name in ["k", "l", "m"] {
            let mut key = node(k::Str);
            key.p = S::new(name);
            x.kids.push(key);
            x.kids.push(small_of(if name == "m" { k::Str } else { k::U8 }));
        }
        return x
    }
    if kind == k::U8 || kind == k::Unit { return small_of(kind) }
    if kind == k::Str { return small_of(kind) }
    let mut x = compound(kind, 1, &mut |i| if kind == k::Map && i == 0 { let mut key = node(k::Str); key.p = S::new("k"); key } else { small_of(k::U8) });
    x.known = true;
    x
}
fn child(x: Node, inner: usize) -> Child {
    match inner { 0 => Child::Ext(Box::new(x)), 1 => Child::Int(Box::new(x)), _ => Child::Adj(Box::new(x)) }
}
fn write_outer(x: &HasSer, outer: usize) -> (Result<(), E>, Box<Log>) {
    match outer { 0 => write(x as &dyn ext::ser::T), 1 => write(x as &dyn int::ser::T), _ => write(x as &dyn adj::ser::T) }
}
/// an object in an object is written like any other value that makes its calls
fn q_write() {
    let (outer, inner, place, n) = (choice(3), choice(3), choice(PLACES), u8v());
    let x = value();
    let (r, alone) = write(&child_ref(&x, inner));
    check(r.is_ok() && !alone.len_mismatch && !alone.protocol, "nested: the inner object is written by itself");
    let calls = replay(alone.toks(), &mut 0);
    let (r1, got) = write_outer(&HasSer { place, child: child(x, inner), n }, outer);
    let (r2, want) = write_outer(&HasSer { place, child: Child::Plain(calls), n }, outer);
    check(r1.is_ok() && r2.is_ok(), "nested: both are written");
    check(!got.len_mismatch && !got.protocol, "nested: announced lengths are right");
    check_logs(&got, &want, "nested: an object in an object makes the calls that it makes by itself");
    reach("written");
}
struct ChildRef<'a>(&'a Node, usize);
fn child_ref(x: &Node, inner: usize) -> ChildRef<'_> { ChildRef(x, inner) }
impl Serialize for ChildRef<'_> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.1 { 0 => (self.0 as &dyn ext2::ser::T).serialize(z), 1 => (self.0 as &dyn int2::ser::T).serialize(z), _ => (self.0 as &dyn adj2::ser::T).serialize(z) }
    }
}

// ------------------------------------------------------------ and read back
fn via(s: &mut Src, outer: u8) -> Result<(), E> {
    match outer { 0 => read::<Box<dyn ext::de::T>>(s).map(|_| ()), 1 => read::<Box<dyn int::de::T>>(s).map(|_| ()), _ => read::<Box<dyn adj::de::T>>(s).map(|_| ()) }
}
fn via0(s: &mut Src) -> Result<(), E> { via(s, 0) }
fn via1(s: &mut Src) -> Result<(), E> { via(s, 1) }
fn via2(s: &mut Src) -> Result<(), E> { via(s, 2) }
/// end of the value that starts at i
fn after(t: &[Tok], mut i: usize) -> usize {
    let mut depth = 0;
    loop {
        match t[i].k {
            k::Some | k::NewtypeStruct | k::NewtypeVariant | k::Field => { i += 1; continue }
            k::Seq | k::Tuple | k::TupleStruct | k::TupleVariant | k::Map | k::Struct | k::StructVariant => depth += 1,
            k::End => depth -= 1,
            _ => {}
        }
        i += 1;
        if depth == 0 { return i }
    }
}
/// the entry `key` of every map and struct that starts with it is moved to its end
fn last(l: &Log, key: &str) -> Box<Log> {
    let mut w = Log::new();
    fn go(t: &[Tok], key: &str, w: &mut Log) {
        let mut i = 0;
        while i < t.len() {
            w.push(t[i]);
            i += 1;
            if (t[i - 1].k == k::Map || t[i - 1].k == k::Struct) && i < t.len() && (t[i].k == k::Str || t[i].k == k::Field) && t[i].s.is(key) {
                let end = after(t, i - 1) - 1;
                go(&t[i + 2..end], key, w);
                w.append_slice(&t[i..i + 2]);
                i = end;
            }
        }
    }
    go(l.toks(), key, &mut w);
    w
}
fn struct_as_map(x: &mut Node) {
    if x.k != k::Struct { return }
    x.k = k::Map;
    let kids = core::mem::take(&mut x.kids);
    for (n, c) in x.names.iter().zip(kids) { let mut key = node(k::Str); key.p = S::new(n); x.kids.push(key); x.kids.push(c) }
}
fn copy(x: &Node) -> Node {
    let mut y = node(x.k);
    (y.n, y.p, y.s, y.v, y.i, y.known, y.names) = (x.n, x.p, x.s, x.v, x.i, x.known, x.names.clone());
    for c in &x.kids { y.kids.push(copy(c)) }
    y
}
fn back(outer: usize, chain: &[(usize, u8)], inner_rep: usize, x: Node, doc: &Log, f: Fmt, n: u8, nums: usize) {
    let mut p = Prog { n: 1, key: k::HStr, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    own_hints(&x, &mut p);
    let mut y = copy(&x);
    let mut q = p;
    if inner_rep == 1 && f.seqs && y.k == k::Struct { struct_as_map(&mut y); q.hints[0] = k::HMap }
    let want = run(&write(&y).1, f, q, plain);
    check(want.r.is_ok(), "nested: the value is read by itself");
    let mut expected = Log::new();
    expected.append(&want.v);
    for _ in 0..nums { expected.push(Tok::n(k::Bool, n as u128)); }
    unsafe { LEVEL = 0; for (i, (place, kind)) in chain.iter().enumerate() { PLACE[i] = *place; KIND[i] = *kind } }
    let got = run(doc, f, p, [via0, via1, via2][outer]);
    #[cfg(feature = "native")]
    if let Err(e) = &got.r { e.show(); doc.show("document"); got.v.show("seen") }
    check(got.r.is_ok() && got.done, "nested: an object in an object is read back");
    let (mut a, mut b) = (loose(&got.v), loose(&expected));
    // the sibling may come first
    if nums == 1 && a.n > 0 && a.t[0].k == k::Bool && b.t[0].k != k::Bool { let t = b.t[b.n - 1]; let mut c = Log::new(); c.push(t).append_slice(&b.t[..b.n - 1]); b = c }
    a.hr = b.hr;
    check_logs(&a, &b, "nested: the inner type sees what it would see by itself");
}
fn sibling(place: usize) -> usize { (place == 0 || place == 4 || place >= 7) as usize }
fn q_back() {
    let (outer, inner, place, n) = (choice(3), choice(3), choice(PLACES), u8v());
    let x = value();
    let order = choice(4);
    let f = if order == 0 { formats() } else { pick(&[Fmt::JSON, Fmt::RICH]) };
    // without an option Some(..) next to its tag cannot be told; null neither
    let has = HasSer { place, child: child(copy(&x), inner), n };
    let (r, mut doc) = write_outer(&has, outer);
    check(r.is_ok(), "nested: it is written");
    if order & 1 != 0 { doc = last(&doc, "t") }
    if order & 2 != 0 { doc = last(&doc, "u") }
    back(outer, &[(place, inner as u8)], inner, x, &doc, f, n, sibling(place));
    if order == 0 { reach("tags first") }
    if order == 1 { reach("outer tag last") }
    if order == 2 { reach("inner tag last") }
    if order == 3 { reach("both tags last") }
}
/// the same trait again, three levels
fn same(places: &[usize]) {
    let (outer, n) = (choice(3), u8v());
    let (p1, p2) = (choice(PLACES), pick(places));
    // an internal tag may not repeat in the same map
    if outer == 1 && p1 == 1 { return }
    let inner = choice(3);
    let x = value();
    let has = HasSer { place: p1, child: Child::Same(outer as u8, Box::new(HasSer { place: p2, child: child(copy(&x), inner), n })), n };
    let (r, mut doc) = write_outer(&has, outer);
    check(r.is_ok() && !doc.len_mismatch, "nested: it is written");
    let reorder = flag();
    if reorder { doc = last(&doc, "t") }
    let f = if reorder { pick(&[Fmt::JSON, Fmt::RICH]) } else { formats() };
    back(outer, &[(p1, 3 + outer as u8), (p2, inner as u8)], inner, x, &doc, f, n, sibling(p1) + sibling(p2));
    reach("the same trait again");
}
fn q_same() { same(&[0, 3, 5]) }
fn t_same() { same(&[1, 2, 4, 6, 7, 8]) }
// ------------------------------------------------------------ serde's own adaptors
#[derive(Serialize)]
struct FlatSer<'a> { p: u8, #[serde(flatten)] x: ChildRef<'a>, q: u8 }
#[derive(Deserialize)]
struct FlatDe { p: u8, #[serde(flatten)] _x: ChildDe, q: u8 }
#[derive(Serialize)]
#[serde(untagged)]
enum UntaggedSer<'a> { Object(ChildRef<'a>) }
#[derive(Deserialize)]
#[serde(untagged)]
enum UntaggedDe { _Bool(bool), _Object(ChildDe) }
#[derive(Serialize)]
#[serde(tag = "kind")]
enum TaggedSer<'a> { Object(ChildRef<'a>) }
#[derive(Deserialize)]
#[serde(tag = "kind")]
enum TaggedDe { Object(#[allow(dead_code)] ChildDe) }
fn via_flat(s: &mut Src) -> Result<(), E> { read::<FlatDe>(s).map(|x| { put(Tok::n(k::Bool, x.p as u128)); put(Tok::n(k::Bool, x.q as u128)) }) }
fn via_untagged(s: &mut Src) -> Result<(), E> { read::<UntaggedDe>(s).map(|_| ()) }
fn via_tagged(s: &mut Src) -> Result<(), E> { read::<TaggedDe>(s).map(|_| ()) }
fn q_derived() {
    let (which, inner, reorder) = (choice(3), choice(3), choice(3));
    let (a, b) = (u8v(), u8v());
    let x = value();
    let (r, mut doc) = { let x = child_ref(&x, inner); match which { 0 => write(&FlatSer { p: a, x, q: b }), 1 => write(&UntaggedSer::Object(x)), _ => write(&TaggedSer::Object(x)) } };
    check(r.is_ok() && !doc.protocol && !doc.len_mismatch, "nested: written through an adaptor of serde's derive");
    if reorder == 1 { doc = last(&doc, "u") }
    if reorder == 2 { doc = last(&doc, "kind"); doc = last(&doc, "p") }
    let f = pick(&[Fmt::JSON, Fmt::RICH]);
    let mut p = Prog { n: 1, key: k::HStr, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    own_hints(&x, &mut p);
    let want = run(&write(&x).1, f, p, plain);
    check(want.r.is_ok(), "nested: the value is read by itself");
    let mut expected = Log::new();
    expected.append(&want.v);
    if which == 0 { expected.push(Tok::n(k::Bool, a as u128)).push(Tok::n(k::Bool, b as u128)); }
    unsafe { LEVEL = 1; KIND[0] = inner as u8 }
    let got = run(&doc, f, p, [via_flat, via_untagged, via_tagged][which]);
    #[cfg(feature = "native")]
    if let Err(e) = &got.r { e.show(); doc.show("document"); got.v.show("seen") }
    check(got.r.is_ok() && got.done, "nested: read through an adaptor of serde's derive");
    check_logs(&loose(&got.v), &loose(&expected), "nested: the type sees what it would see by itself (derive)");
    if which == 0 { reach("flattened") }
    if which == 1 { reach("untagged") }
    if which == 2 { reach("tagged by serde") }
}

// ------------------------------------------------------------ several objects in one document
#[derive(Serialize)]
struct Three<'a>(ChildRef<'a>, ChildRef<'a>, ChildRef<'a>);
struct ThreeDe;
impl<'de> Deserialize<'de> for ThreeDe {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<ThreeDe, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = ThreeDe;
            fn expecting(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str("three") }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<ThreeDe, A::Error> {
                for i in 0..3 { unsafe { LEVEL = i + 1 } if a.next_element::<ChildDe>()?.is_none() { return Err(de::Error::custom("too few")) } }
                Ok(ThreeDe)
            }
        }
        d.deserialize_tuple_struct("Three", 3, V)
    }
}
fn via_three(s: &mut Src) -> Result<(), E> { read::<ThreeDe>(s).map(|_| ()) }
/// each is what it is by itself, and if one is refused then the whole document is
fn q_several() {
    let reps = [choice(3), choice(3), choice(3)];
    let kinds = [pick(&[k::U8, k::Str, k::Struct]), pick(&[k::U8, k::Struct]), pick(&[k::U8, k::Struct])];
    let one = |kind: Kind| if kind == k::Struct { compound(kind, 1, &mut |_| small_of(k::U8)) } else { small_of(kind) };
    // (the name's letter is not the payload's)
    let (x, y, z) = (one(kinds[0]), one(kinds[1]), one(kinds[2]));
    let (r, mut doc) = write(&Three(child_ref(&x, reps[0]), child_ref(&y, reps[1]), child_ref(&z, reps[2])));
    check(r.is_ok() && !doc.protocol && !doc.len_mismatch, "nested: several objects are written");
    if flag() { doc = last(&doc, "u") }
    // an unknown name in one of them
    let bad = choice(4);
    for x in [&x, &y, &z] { assume(!x.p.is("V")) }
    let mut seen = 0;
    let mut i = 0;
    while i < doc.n { if doc.t[i].k == k::Str && doc.t[i].s.is("V") { seen += 1; if seen == bad { doc.t[i].s = S::new("W") } } i += 1 }
    check(seen == 3, "nested: each with its name");
    let mut p = Prog { n: 0, key: k::HStr, ..PROG0 };
    let mut expected = Log::new();
    for (i, x) in [&x, &y, &z].iter().enumerate() {
        p.hints[p.n] = own_hint(x.k); p.n += 1;
        own_hints(x, &mut p);
        if bad > 0 && i + 1 >= bad { continue }
        let mut q = Prog { n: 1, ..p };
        q.hints[0] = own_hint(x.k);
        own_hints(x, &mut q);
        expected.append(&run(&write(*x).1, Fmt::JSON, q, plain).v);
    }
    unsafe { for (i, r) in reps.iter().enumerate() { KIND[i] = *r as u8 } }
    let got = run(&doc, pick(&[Fmt::JSON, Fmt::RICH]), p, via_three);
    check(got.r.is_ok() == (bad == 0), "nested: accepted exactly if all names are known");
    if let Err(e) = &got.r { check(e.k == EK::UnknownVariant && e.s.is("W"), "nested: the unknown name is reported") }
    check_logs(&loose(&got.v), &loose(&expected), "nested: each of several objects is what it is by itself");
    if bad == 0 { reach("several") } else { reach("one of several is unknown") }
}
entries! { q_write q_back q_same t_same q_derived q_several }
