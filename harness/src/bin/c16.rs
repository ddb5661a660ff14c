//! C16: threads that use a trait at the same time.
//! @bounds: two threads (thorough: also three, up to 3 preemptions), every interleaving of their atomic operations and of accesses to shared globals, sequentially consistent; both make their first use of a registry; any registered, ambiguous or unknown name (of up to 2 bytes) per thread; the same or different traits; external, internal and adjacent tags; one reads while the other writes
//! @outside: more threads, reorderings of a weak memory model (the synchronisation itself is once_cell's and inventory's)
//! @opt t_ext3 --preempt 3
//! @shard t_keys 8 4
use harness::{entries, node::*, sym::*, tok::*};
use serde::Serialize;

#[derive(Serialize)]
pub struct Ty<const N: u8>(u8);
impl<'de, const N: u8> serde::Deserialize<'de> for Ty<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { Ok(Ty(<u8 as serde::Deserialize>::deserialize(d)?)) }
}
macro_rules! trait_of { ($m:ident, $(($($args:tt)*))?, $($n:literal $name:expr),*) => {
    mod $m {
        use super::Ty;
        #[typetag::serde$(($($args)*))?]
        pub trait T { fn id(&self) -> (u8, u8); }
        $( #[typetag::serde(name = $name)] impl T for Ty<$n> { fn id(&self) -> (u8, u8) { ($n, self.0) } } )*
    }
} }
trait_of! { ext, , 0 "x", 1 "y", 2 "x", 3 "xy" }
trait_of! { int, (tag = "t"), 0 "x", 1 "y", 2 "x", 3 "xy" }
trait_of! { adj, (tag = "t", content = "c"), 0 "x", 1 "y", 2 "x", 3 "xy" }

struct Job { rep: usize, doc: Box<Log>, r: Result<(u8, u8), E>, ran: bool }
fn read_one(rep: usize, doc: &Log) -> Result<(u8, u8), E> {
    let mut s = Src::new(doc.toks(), Fmt::JSON);
    match rep {
        0 => read::<Box<dyn ext::T>>(&mut s).map(|b| b.id()),
        1 => read::<Box<dyn int::T>>(&mut s).map(|b| b.id()),
        _ => read::<Box<dyn adj::T>>(&mut s).map(|b| b.id()),
    }
}
extern "C" fn reader(a: usize) {
    let j = unsafe { &mut *(a as *mut Job) };
    j.r = read_one(j.rep, &j.doc);
    j.ran = true;
}
fn document(rep: usize, key: &S, v: u128) -> Box<Log> {
    let mut w = Log::new();
    let (key, v) = (Tok { s: *key, ..Tok::k(k::Str) }, Tok::n(k::U8, v));
    match rep {
        0 => w.push(Tok::map(1)).push(key).push(v),
        1 => w.push(Tok::map(2)).push(Tok::str("t")).push(key).push(Tok::str("value")).push(v),
        _ => w.push(Tok::map(2)).push(Tok::str("t")).push(key).push(Tok::str("c")).push(v),
    };
    w.push(Tok::end());
    w
}
/// what a thread that is alone gets
fn expect(r: &Result<(u8, u8), E>, key: &S, v: u8) {
    if key.is("x") {
        check(r.is_err(), "threads: an ambiguous name is ambiguous to each");
        if let Err(e) = r { check(e.k == EK::Custom, "threads: and reported as such") }
        reach("ambiguous");
    } else if key.is("y") || key.is("xy") {
        let n = if key.is("y") { 1 } else { 3 };
        check(r.is_ok(), "threads: a registered name is known to each");
        if let Ok((i, x)) = r { check(and(*i == n, *x == v), "threads: each gets its own value") }
        reach("registered");
    } else {
        check(r.is_err(), "threads: an unknown name is unknown to each");
        if let Err(e) = r { check(e.k == EK::UnknownVariant && ["x", "xy", "y"].iter().all(|n| e.exp.contains(n)), "threads: with all names") }
        reach("unknown");
    }
}
fn key(i: usize) -> S { match i { 0 => S::new("x"), 1 => S::new("y"), 2 => S::new("xy"), 3 => string(1), _ => string(2) } }
fn threads(n: usize, reps: fn(usize) -> usize, kinds: usize) {
    let mut jobs = vec![];
    for i in 0..n {
        let rep = reps(i);
        let key = key(choice(kinds));
        let v = u8v();
        jobs.push((Box::into_raw(Box::new(Job { rep, doc: document(rep, &key, v as u128), r: Err(E::FAULT), ran: false })), key, v));
    }
    let mut ids = vec![];
    for j in &jobs { ids.push(spawn(reader, j.0 as usize)) }
    for t in ids { join(t) }
    for (j, key, v) in &jobs {
        let j = unsafe { &**j };
        check(j.ran, "threads: each finishes");
        expect(&j.r, key, *v);
    }
    // and afterwards
    let v = u8v();
    let j = unsafe { &*jobs[0].0 };
    let y = S::new("y");
    expect(&read_one(j.rep, &document(j.rep, &y, v as u128)), &y, v);
}
fn q_ext() { threads(2, |_| 0, 4) }
fn q_int() { threads(2, |_| 1, 3) }
fn q_adj() { threads(2, |_| 2, 3) }
fn q_mixed() { threads(2, |i| [0, 1, 2][(choice(3) + i) % 3], 2) }
fn t_ext3() { threads(3, |_| 0, 2) }
fn t_keys() { threads(2, |_| choice(3), 5) }

struct W { rep: usize, v: u8, r: Result<(), E>, l: Box<Log> }
extern "C" fn writer(a: usize) {
    let w = unsafe { &mut *(a as *mut W) };
    let x = Ty::<1>(w.v);
    w.r = match w.rep { 0 => (&x as &dyn ext::T).serialize(Ser(&mut w.l)), 1 => (&x as &dyn int::T).serialize(Ser(&mut w.l)), _ => (&x as &dyn adj::T).serialize(Ser(&mut w.l)) };
}
fn q_write() {
    let rep = choice(3);
    let (v, u) = (u8v(), u8v());
    let key = S::new("xy");
    let j = Box::into_raw(Box::new(Job { rep, doc: document(rep, &key, v as u128), r: Err(E::FAULT), ran: false }));
    let w = Box::into_raw(Box::new(W { rep, v: u, r: Err(E::FAULT), l: Log::new() }));
    let a = spawn(reader, j as usize);
    let b = spawn(writer, w as usize);
    join(a);
    join(b);
    let (j, w) = unsafe { (&*j, &*w) };
    expect(&j.r, &key, v);
    check(w.r.is_ok(), "threads: writing is not disturbed");
    let (r, alone) = match rep { 0 => write(&Ty::<1>(u) as &dyn ext::T), 1 => write(&Ty::<1>(u) as &dyn int::T), _ => write(&Ty::<1>(u) as &dyn adj::T) };
    check(r.is_ok(), "threads: nor afterwards");
    check_logs(&w.l, &alone, "threads: the same is written");
}
entries! { q_ext q_int q_adj q_mixed q_write t_ext3 t_keys }
