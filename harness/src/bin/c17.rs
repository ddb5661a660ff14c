//! C17: trait objects with Send and Sync.
//! @bounds: traits that are Send, Sync, both or neither, trait objects with every marker combination that they allow; external, internal and adjacent tags; 4 formats; every leaf kind and every compound kind (width up to 2), names known and unknown, any single refusal; written through a reference, Box, Vec or Option
//! @compiles: these declarations
//! @outside: other traits
//! @shard q_de|t_.* 8 4
use harness::{diff::*, entries, node::*, probe::*, sym::*, tok::*};
use serde::Serialize;

macro_rules! flavours { ($m:ident, $(($($args:tt)*))?) => {
    pub mod $m {
        pub use harness::{node::Node, probe::Probe};
        // one name for the trait in all of them: messages and struct names have it
        pub mod plain { use super::*; #[typetag::serde$(($($args)*))?] pub trait T {} #[typetag::serde(name = "V")] impl T for Node {} #[typetag::deserialize(name = "P")] impl R for Probe {} #[typetag::deserialize$(($($args)*))?] pub trait R {} }
        pub mod send { use super::*; #[typetag::serde$(($($args)*))?] pub trait T: Send {} #[typetag::serde(name = "V")] impl T for Node {} #[typetag::deserialize(name = "P")] impl R for Probe {} #[typetag::deserialize$(($($args)*))?] pub trait R: Send {} }
        pub mod sync { use super::*; #[typetag::serde$(($($args)*))?] pub trait T: Sync {} #[typetag::serde(name = "V")] impl T for Node {} #[typetag::deserialize(name = "P")] impl R for Probe {} #[typetag::deserialize$(($($args)*))?] pub trait R: core::fmt::Debug + Sync {} }
        pub mod both { use super::*; #[typetag::serde$(($($args)*))?] pub trait T: Send + Sync {} #[typetag::serde(name = "V")] impl T for Node {} #[typetag::deserialize(name = "P")] impl R for Probe {} #[typetag::deserialize$(($($args)*))?] pub trait R: Sync + Send {} }
        use super::{read, Src, E, Log, Ser, Serialize};
        pub fn read_as(i: usize, s: &mut Src) -> Result<(), E> {
            match i {
                0 => read::<Box<dyn plain::R>>(s).map(|_| ()),
                1 => read::<Box<dyn send::R>>(s).map(|_| ()),
                2 => read::<Box<dyn send::R + Send>>(s).map(|_| ()),
                3 => read::<Box<dyn sync::R>>(s).map(|_| ()),
                4 => read::<Box<dyn sync::R + Sync>>(s).map(|_| ()),
                5 => read::<Box<dyn both::R>>(s).map(|_| ()),
                6 => read::<Box<dyn both::R + Send>>(s).map(|_| ()),
                7 => read::<Box<dyn both::R + Sync>>(s).map(|_| ()),
                _ => read::<Box<dyn both::R + Send + Sync>>(s).map(|_| ()),
            }
        }
        pub fn write_as(i: usize, n: &Node, l: &mut Log) -> Result<(), E> {
            let z = Ser(l);
            match i {
                0 => (n as &dyn plain::T).serialize(z),
                1 => (n as &(dyn plain::T + Send)).serialize(z),
                2 => (n as &(dyn plain::T + Sync)).serialize(z),
                3 => (n as &(dyn plain::T + Send + Sync)).serialize(z),
                4 => (n as &dyn send::T).serialize(z),
                5 => (n as &(dyn send::T + Send)).serialize(z),
                6 => (n as &(dyn send::T + Sync)).serialize(z),
                7 => (n as &(dyn send::T + Send + Sync)).serialize(z),
                8 => (n as &dyn sync::T).serialize(z),
                9 => (n as &(dyn sync::T + Send)).serialize(z),
                10 => (n as &(dyn sync::T + Sync)).serialize(z),
                11 => (n as &(dyn sync::T + Send + Sync)).serialize(z),
                12 => (n as &dyn both::T).serialize(z),
                13 => (n as &(dyn both::T + Send)).serialize(z),
                14 => (n as &(dyn both::T + Sync)).serialize(z),
                _ => (n as &(dyn both::T + Send + Sync)).serialize(z),
            }
        }
        /// inside other values
        pub fn wrapped(i: usize, n: Node, l: &mut Log) -> Result<(), E> {
            match i {
                0 => (Box::new(n) as Box<dyn plain::T>).serialize(Ser(l)),
                1 => (Box::new(n) as Box<dyn plain::T + Send>).serialize(Ser(l)),
                2 => (Box::new(n) as Box<dyn both::T + Sync>).serialize(Ser(l)),
                3 => vec![Box::new(n) as Box<dyn send::T>].serialize(Ser(l)),
                4 => (&[Box::new(n) as Box<dyn sync::T + Send + Sync>][..]).serialize(Ser(l)),
                _ => Some(Box::new(n) as Box<dyn both::T + Send>).serialize(Ser(l)),
            }
        }
    }
} }
flavours!(ext, );
flavours!(int, (tag = "t"));
flavours!(adj, (tag = "t", content = "c"));

fn read_as(rep: usize, i: usize, s: &mut Src) -> Result<(), E> { match rep { 0 => ext::read_as(i, s), 1 => int::read_as(i, s), _ => adj::read_as(i, s) } }
fn write_as(rep: usize, i: usize, n: &Node, l: &mut Log) -> Result<(), E> { match rep { 0 => ext::write_as(i, n, l), 1 => int::write_as(i, n, l), _ => adj::write_as(i, n, l) } }

static mut REP: usize = 0;
static mut WHICH: usize = 0;
fn via(s: &mut Src) -> Result<(), E> { unsafe { read_as(REP, WHICH, s) } }
fn document(rep: usize, name: &str, x: &Node) -> Box<Log> {
    let mut l = Log::new();
    let _ = write_as(rep, 0, x, &mut l);
    for t in &mut l.t { if t.k == k::Str && t.s.is("V") { t.s = S::new(name) } }
    l
}
fn de(x: Node) {
    unsafe { MESSAGES = true }
    let rep = choice(3);
    let which = 1 + choice(8);
    let f = formats();
    let name = pick(&["P", "Q"]);
    let d = document(rep, name, &x);
    let mut p = Prog { n: 1, key: k::HStr, len: x.kids.len(), var: x.k, ..PROG0 };
    p.hints[0] = own_hint(x.k);
    own_hints(&x, &mut p);
    if flag() { p.refuse = choice(3) }
    unsafe { REP = rep; WHICH = 0 }
    let y = run(&d, f, p, via);
    unsafe { WHICH = which }
    let x = run(&d, f, p, via);
    check(x.r.is_ok() == y.r.is_ok(), "markers: accepted alike");
    check_logs(&x.v, &y.v, "markers: the type's visitor sees the same");
    check_logs(&x.h, &y.h, "markers: the format gets the same calls");
    check(x.done == y.done, "markers: the same input is used up");
    if let (Err(a), Err(b)) = (&x.r, &y.r) { check(message(a).eq(&message(b)), "markers: the same error"); reach("markers: rejected") } else { reach("markers: accepted") }
}
fn unskip(x: &mut Node) { for n in &mut x.names { if *n == "!a" { *n = "a" } } }
fn q_de() {
    let kind = pick(&[k::U8, k::Str, k::None, k::Unit, k::UnitVariant, k::Some, k::NewtypeStruct, k::NewtypeVariant, k::Seq, k::Tuple, k::TupleVariant, k::Map, k::Struct, k::StructVariant]);
    de(some(kind, 1))
}
fn t_de() { let mut x = if flag() { leaf(pick(&LEAVES), 1) } else { some(pick(&COMPOUNDS), 2) }; unskip(&mut x); de(x) }
fn some(kind: Kind, n: usize) -> Node {
    if LEAVES.contains(&kind) { return leaf(kind, 1) }
    compound(kind, n, &mut |i| if kind == k::Map && i % 2 == 0 { small_of(k::Str) } else { small_of(k::U8) })
}
fn q_ser() {
    let x = if flag() { leaf(pick(&LEAVES), 1) } else { let kind = pick(&COMPOUNDS); some(kind, choice(3)) };
    let rep = choice(3);
    let (mut a, mut b) = (Log::new(), Log::new());
    let ra = write_as(rep, 0, &x, &mut a);
    let rb = write_as(rep, 1 + choice(15), &x, &mut b);
    check(ra.is_ok() && rb.is_ok(), "markers: written");
    check_logs(&b, &a, "markers: the same is written");
}
fn q_wrapped() {
    let kind = pick(&[k::U8, k::Str, k::Seq, k::Map, k::Struct, k::StructVariant]);
    let x = some(kind, 1);
    let rep = choice(3);
    let i = choice(6);
    let (mut a, mut b, mut w) = (Log::new(), Log::new(), Log::new());
    let ra = write_as(rep, 0, &x, &mut a);
    let rb = match rep { 0 => ext::wrapped(i, x, &mut b), 1 => int::wrapped(i, x, &mut b), _ => adj::wrapped(i, x, &mut b) };
    check(ra.is_ok() && rb.is_ok(), "markers: written");
    match i {
        0 | 1 | 2 => { w.append(&a); }
        3 | 4 => { w.push(Tok::len(k::Seq, 1)).append(&a).push(Tok::end()); }
        _ => { w.push(Tok::k(k::Some)).append(&a); }
    }
    check_logs(&b, &w, "markers: the same is written inside");
}
entries! { q_de q_ser q_wrapped t_de }
