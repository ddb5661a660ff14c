//! Symbolic inputs and assertions.  In the IR build these are undefined
//! externals which the symbolic executor interprets; with `--features native`
//! they are real functions that replay one model (inputs from $SYM_INPUTS).
mod raw {
    #[cfg(not(feature = "native"))]
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_choice(n: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_reach(p: *const u8, n: usize);
        pub fn sym_note(p: *const u8, n: usize, v: u64);
        pub fn sym_bound(p: *const u8, n: usize);
        pub fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn sym_and(a: bool, b: bool) -> bool;
        pub fn sym_spawn(f: extern "C" fn(usize), a: usize) -> usize;
        pub fn sym_join(t: usize);
    }
    #[cfg(feature = "native")]
    pub use super::native::*;
}

#[cfg(feature = "native")]
mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    use std::sync::Mutex;
    static INPUTS: Mutex<Option<(Vec<u64>, usize)>> = Mutex::new(None);
    fn next() -> u64 {
        let mut g = INPUTS.lock().unwrap();
        let (v, i) = g.get_or_insert_with(|| {
            let s = std::env::var("SYM_INPUTS").unwrap_or_default();
            (s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), 0)
        });
        if *i >= v.len() {
            println!("DIVERGED more inputs requested than the model has");
            std::process::exit(78)
        }
        *i += 1;
        v[*i - 1]
    }
    fn lab(p: *const u8, n: usize) -> String {
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
    }
    pub unsafe fn sym_u8() -> u8 { next() as u8 }
    pub unsafe fn sym_u16() -> u16 { next() as u16 }
    pub unsafe fn sym_u32() -> u32 { next() as u32 }
    pub unsafe fn sym_u64() -> u64 { next() }
    pub unsafe fn sym_choice(n: u64) -> u64 {
        let v = next();
        if v >= n {
            println!("DIVERGED choice out of range");
            std::process::exit(78)
        }
        v
    }
    pub unsafe fn sym_assume(c: bool) {
        if !c {
            println!("ASSUMPTION-FALSE");
            std::process::exit(77)
        }
    }
    pub unsafe fn sym_check(c: bool, p: *const u8, n: usize) {
        if !c {
            println!("CHECK-FAILED {}", lab(p, n));
            std::process::exit(101)
        }
    }
    pub unsafe fn sym_reach(p: *const u8, n: usize) { println!("REACH {}", lab(p, n)) }
    pub unsafe fn sym_note(p: *const u8, n: usize, v: u64) { println!("NOTE {}={}", lab(p, n), v) }
    pub unsafe fn sym_bound(p: *const u8, n: usize) {
        println!("BOUND {}", lab(p, n));
        std::process::exit(79)
    }
    pub unsafe fn sym_bytes_eq(a: *const u8, b: *const u8, n: usize) -> bool {
        std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
    }
    pub unsafe fn sym_and(a: bool, b: bool) -> bool { a & b }
    /// Allocations of spawned threads are where a schedule is perturbed.
    struct Perturb;
    static RND: AtomicU64 = AtomicU64::new(0);
    thread_local! { static SPAWNED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) } }
    fn perturb() {
        if !SPAWNED.with(|s| s.get()) { return }
        let x = RND.fetch_add(0x9E3779B97F4A7C15, Relaxed);
        let x = (x ^ x >> 29).wrapping_mul(0xBF58476D1CE4E5B9);
        match (x ^ x >> 32) % 16 { 0 => std::thread::sleep(std::time::Duration::from_micros(x >> 40 & 0xff)), 1..=3 => std::thread::yield_now(), _ => {} }
    }
    unsafe impl GlobalAlloc for Perturb {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { perturb(); let p = System.alloc(l); perturb(); p }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { perturb(); System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { perturb(); System.realloc(p, l, n) }
    }
    #[global_allocator]
    static ALLOC: Perturb = Perturb;
    static TH: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());
    static GO: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    pub unsafe fn sym_spawn(f: extern "C" fn(usize), a: usize) -> usize {
        let mut t = TH.lock().unwrap();
        if t.is_empty() { RND.store(std::env::var("SYM_RND").ok().and_then(|x| x.parse().ok()).unwrap_or(1), Relaxed) }
        let h = std::thread::spawn(move || {
            SPAWNED.with(|s| s.set(true));
            while GO.load(std::sync::atomic::Ordering::Acquire) == 0 { std::hint::spin_loop() }
            f(a)
        });
        t.push(Some(h));
        t.len()
    }
    pub unsafe fn sym_join(t: usize) {
        GO.store(1, std::sync::atomic::Ordering::Release);
        let h = TH.lock().unwrap()[t - 1].take().unwrap();
        if h.join().is_err() { std::process::exit(134) }
    }
}

pub fn u8v() -> u8 { unsafe { raw::sym_u8() } }
pub fn u16v() -> u16 { unsafe { raw::sym_u16() } }
pub fn u32v() -> u32 { unsafe { raw::sym_u32() } }
pub fn u64v() -> u64 { unsafe { raw::sym_u64() } }
pub fn u128v() -> u128 { ((u64v() as u128) << 64) | u64v() as u128 }
pub fn boolv() -> bool { u8v() & 1 != 0 }
pub fn charv() -> char {
    let x = u32v();
    assume((x < 0xD800) | ((x > 0xDFFF) & (x < 0x110000)));
    unsafe { char::from_u32_unchecked(x) }
}
pub fn choice(n: usize) -> usize { unsafe { raw::sym_choice(n as u64) as usize } }
pub fn flag() -> bool { choice(2) == 1 }
pub fn pick<T: Copy>(v: &[T]) -> T { v[choice(v.len())] }
pub fn assume(c: bool) { unsafe { raw::sym_assume(c) } }
pub fn check(c: bool, l: &str) { unsafe { raw::sym_check(c, l.as_ptr(), l.len()) } }
pub fn reach(l: &str) { unsafe { raw::sym_reach(l.as_ptr(), l.len()) } }
pub fn note(l: &str, v: u64) { unsafe { raw::sym_note(l.as_ptr(), l.len(), v) } }
pub fn bound(l: &str) { unsafe { raw::sym_bound(l.as_ptr(), l.len()) } }
pub fn and(a: bool, b: bool) -> bool { unsafe { raw::sym_and(a, b) } }
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { raw::sym_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn raw_eq<T>(a: &T, b: &T) -> bool {
    unsafe { raw::sym_bytes_eq(a as *const T as *const u8, b as *const T as *const u8, core::mem::size_of::<T>()) }
}
pub fn spawn(f: extern "C" fn(usize), a: usize) -> usize { unsafe { raw::sym_spawn(f, a) } }
pub fn join(t: usize) { unsafe { raw::sym_join(t) } }

/// Declares the entry points of a harness binary.  Names starting with `q_`
/// run in the quick and the thorough tier, `t_` only in the thorough tier.
#[macro_export]
macro_rules! entries {
    ($($name:ident)*) => {
        pub mod entry_points {
            $( #[no_mangle] pub extern "C" fn $name() { super::$name() } )*
        }
        fn main() {
            // Opaque to the optimiser: every entry stays in the program.
            match std::env::args().nth(1).as_deref() {
                $( Some(stringify!($name)) => entry_points::$name(), )*
                _ => std::process::exit(64),
            }
            println!("END");
        }
    };
}
