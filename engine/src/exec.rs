//! Path-exploring symbolic interpreter for the IR.
use crate::expr::*;
use crate::ir::{self, *};
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { C(u128), S(E), A(Rc<Vec<V>>) }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Const, Global, Stack, Heap }
#[derive(Clone)]
pub struct Obj { pub b: Vec<u8>, pub s: Vec<E>, pub kind: Kind }
#[derive(Clone)]
pub struct Frame { f: Rc<Func>, blk: u32, ip: u32, regs: Vec<V>, allocas: Vec<u32> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev { Reach(String), Note(String, u128) }
#[derive(Clone, Debug)]
pub enum EvS { Reach(u32), Note(u32, V, u32) }
#[derive(Clone)]
pub struct Thread { frames: Vec<Frame>, done: bool, joining: Option<usize>, /* waits for a futex */ futex: Option<u64> }
const CH: usize = 64;
#[derive(Clone)]
pub struct State {
    mem: Vec<Rc<Vec<Option<Rc<Obj>>>>>, nobj: u32,
    th: Vec<Thread>, cur: usize, sched_ok: bool, /* the last instruction was a shared or atomic write */ wrote: bool, preempt: u32, sched: Vec<u8>,
    pc: Vec<E>, model: Rc<Model>, pub inputs: Vec<V>, pub events: Vec<EvS>, tls: HashMap<(usize, u32), u32>, steps: u64, heap_live: i64, nch: u32, chash: u64,
}
#[derive(Debug, Clone)]
pub struct Violation { pub kind: String, pub label: String, pub inputs: Vec<u128>, pub trace: Vec<String>, pub events: Vec<Ev>, pub sched: Vec<u8> }
#[derive(Debug)]
pub enum Stop { Foreign, Done, Pruned, Viol(String, String, Option<Rc<Model>>), Incon(String) }
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats { pub paths: u64, pub pruned: u64, pub forks: u64, pub insts: u64, pub checks_simpl: u64, pub checks_solver: u64, pub checks_unsat_new: u64, pub branches_sym: u64, pub max_pc: usize, pub max_steps: u64, pub sched_points: u64, pub eqs: u64 }

pub struct Cfg { pub max_paths: u64, pub max_steps: u64, pub ctor_rev: bool, pub max_preempt: u32, pub max_depth: usize, pub deadline: Option<Instant>, pub keep_paths: usize, pub seed: u64, pub leak_check: bool, pub shard: (u64, u64, u32) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Bi { None, Nop, MemCpy, MemSet, Trap, Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs, UMin, UMax, SMin, SMax, USubSat, UAddSat, UAddO, USubO, UMulO, SAddO, SSubO, SMulO, Scmp, Ucmp, Fshl, Fshr, Tls, IsConst, Expect, Memcmp, Bcmp, Strlen, Malloc, Calloc, Realloc, Free, Memalign, Abort, Write, RetNull, Panic, SymU(u32), SymChoice, SymAssume, SymCheck, SymReach, SymNote, SymSpawn, SymJoin, SymBytesEq, SymBound, SymWidth, SymAnd, SymIs, Ext, PtrMask, FAbs, Fl(F), CxaAtexit, StrDebug, Syscall, GetRandom, KeyCreate }

pub const FN_BASE: u64 = 0x00F0_0000_0000_0000;
pub const OFF0: u64 = 0x10000;

pub struct Eng {
    pub m: Module, pub ar: Arena, pub sol: Solver, pub cfg: Cfg, pub st: Stats,
    gobj: Vec<Option<Rc<Obj>>>, bi: Vec<Bi>, vc: Vec<(E, E)>, discharged: HashSet<(E, E)>,
    pub cov: HashSet<u32>, pub fns_seen: BTreeMap<u32, u64>, pub reached: BTreeMap<String, u64>, pub checked: BTreeMap<String, (u64, u64)>,
    strs: Vec<String>, strix: HashMap<String, u32>,
    pub work: Vec<State>, pub viols: Vec<Violation>, pub kept: Vec<(Vec<u128>, Vec<Ev>)>, rng: u64, pub shared: HashSet<u32>, pub shared_grew: bool, frozen: HashMap<(u32, u32), V>, frozen_sz: HashMap<u32, bool>,
}

fn bi_of(name: &str, pretty: &str) -> Bi {
    if let Some(n) = name.strip_prefix("llvm.") {
        let p = |s: &str| n.starts_with(s);
        return if p("lifetime") || p("assume") || p("experimental.noalias") || p("dbg.") || p("donothing") || p("prefetch") || p("x86.sse2.pause") || p("va_") || p("stacksave") || p("stackrestore") { Bi::Nop }
        else if p("memcpy") || p("memmove") { Bi::MemCpy } else if p("memset") { Bi::MemSet } else if p("trap") || p("ubsantrap") || p("debugtrap") { Bi::Trap }
        else if p("ctlz") { Bi::Ctlz } else if p("cttz") { Bi::Cttz } else if p("ctpop") { Bi::Ctpop } else if p("bswap") { Bi::Bswap } else if p("bitreverse") { Bi::Bitrev } else if p("abs.") { Bi::Abs }
        else if p("umin") { Bi::UMin } else if p("umax") { Bi::UMax } else if p("smin") { Bi::SMin } else if p("smax") { Bi::SMax } else if p("usub.sat") { Bi::USubSat } else if p("uadd.sat") { Bi::UAddSat }
        else if p("uadd.with") { Bi::UAddO } else if p("usub.with") { Bi::USubO } else if p("umul.with") { Bi::UMulO } else if p("sadd.with") { Bi::SAddO } else if p("ssub.with") { Bi::SSubO } else if p("smul.with") { Bi::SMulO }
        else if p("scmp") { Bi::Scmp } else if p("ucmp") { Bi::Ucmp } else if p("fshl") { Bi::Fshl } else if p("fshr") { Bi::Fshr } else if p("threadlocal.address") { Bi::Tls } else if p("is.constant") { Bi::IsConst } else if p("expect") { Bi::Expect } else if p("ptrmask") { Bi::PtrMask } else if p("fabs") { Bi::FAbs }
        else if p("fptoui.sat") { Bi::Fl(F::ToU) } else if p("fptosi.sat") { Bi::Fl(F::ToS) } else if p("floor") { Bi::Fl(F::Floor) } else if p("ceil") { Bi::Fl(F::Ceil) } else if p("trunc.f") { Bi::Fl(F::RTrunc) } else if p("roundeven") || p("rint") || p("nearbyint") { Bi::Fl(F::Even) } else if p("round.") { Bi::Fl(F::Away) } else if p("sqrt") { Bi::Fl(F::Sqrt) }
        else { Bi::Ext };
    }
    match name {
        "floor" | "floorf" => Bi::Fl(F::Floor), "ceil" | "ceilf" => Bi::Fl(F::Ceil), "trunc" | "truncf" => Bi::Fl(F::RTrunc), "round" | "roundf" => Bi::Fl(F::Away), "rint" | "rintf" | "roundeven" | "roundevenf" => Bi::Fl(F::Even), "sqrt" | "sqrtf" => Bi::Fl(F::Sqrt),
        "memcmp" => Bi::Memcmp, "bcmp" => Bi::Bcmp, "strlen" => Bi::Strlen, "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "realloc" => Bi::Realloc, "free" => Bi::Free, "posix_memalign" => Bi::Memalign, "memcpy" | "memmove" => Bi::MemCpy, "memset" => Bi::MemSet,
        "abort" | "exit" | "_exit" => Bi::Abort, "write" | "writev" => Bi::Write, "getenv" | "pthread_setspecific" | "pthread_key_delete" => Bi::RetNull, "pthread_key_create" => Bi::KeyCreate, "syscall" => Bi::Syscall, "getrandom" => Bi::GetRandom, "sched_yield" => Bi::Nop, "__cxa_thread_atexit_impl" => Bi::CxaAtexit,
        "sym_u8" => Bi::SymU(8), "sym_u16" => Bi::SymU(16), "sym_u32" => Bi::SymU(32), "sym_u64" => Bi::SymU(64),
        "sym_choice" => Bi::SymChoice, "sym_assume" => Bi::SymAssume, "sym_check" => Bi::SymCheck, "sym_reach" => Bi::SymReach, "sym_note" => Bi::SymNote, "sym_spawn" => Bi::SymSpawn, "sym_join" => Bi::SymJoin, "sym_bytes_eq" => Bi::SymBytesEq, "sym_bound" => Bi::SymBound, "sym_width" => Bi::SymWidth, "sym_and" => Bi::SymAnd, "sym_is_symbolic" => Bi::SymIs,
        _ => if pretty == "<str as core::fmt::Debug>::fmt" { Bi::StrDebug } else if name.contains("rust_begin_unwind") || pretty.starts_with("core::panicking::") || pretty.starts_with("std::panicking::") || pretty.starts_with("alloc::alloc::handle_alloc_error") || pretty.starts_with("std::process::abort") { Bi::Panic } else { Bi::None },
    }
}

impl Eng {
    pub fn new(m: Module, sol: Solver, cfg: Cfg) -> Eng {
        let bi = m.fns.iter().map(|f| { let b = bi_of(&f.name, &f.pretty); if b == Bi::None && f.lines.is_none() { Bi::Ext } else { b } }).collect();
        let n = m.globals.len() + 1; let seed = cfg.seed;
        Eng { m, ar: Arena::new(), sol, cfg, st: Stats::default(), gobj: vec![None; n], bi, vc: vec![], discharged: HashSet::new(), cov: HashSet::new(), fns_seen: BTreeMap::new(), reached: BTreeMap::new(), checked: BTreeMap::new(), strs: vec![], strix: HashMap::new(), work: vec![], viols: vec![], kept: vec![], rng: seed | 1, shared: HashSet::new(), shared_grew: false, frozen: HashMap::new(), frozen_sz: HashMap::new() }
    }
    fn intern(&mut self, s: String) -> u32 { if let Some(&i) = self.strix.get(&s) { return i } let i = self.strs.len() as u32; self.strs.push(s.clone()); self.strix.insert(s, i); i }
    fn gaddr(&self, s: &str) -> u64 {
        if let Some(&f) = self.m.findex.get(s) { return FN_BASE + f as u64 * 16 }
        if let Some(&g) = self.m.gindex.get(s) { if self.m.globals[g as usize].init.is_none() { return 0 } return ((g as u64 + 1) << 32) + OFF0 }
        panic!("unknown symbol {}", s)
    }
    fn kbytes(&self, t: &Ty, k: &K, out: &mut Vec<u8>) {
        let start = out.len(); let sz = t.size() as usize;
        match k {
            K::Int(v) => { let b = v.to_le_bytes(); out.extend_from_slice(&b[..sz.min(16)]) }
            K::Zero | K::Undef => {}
            K::Sym(s, o) => { let a = self.gaddr(s).wrapping_add(*o as u64); out.extend_from_slice(&a.to_le_bytes()) }
            K::Bytes(b) => out.extend_from_slice(b),
            K::Agg(v) => for (i, (et, ek)) in v.iter().enumerate() { let off = start + t.field_off(i as u64) as usize; out.resize(off, 0); self.kbytes(et, ek, out) },
        }
        out.resize(start + sz, 0);
    }
    fn kval(&self, t: &Ty, k: &K) -> V {
        match (t, k) {
            (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), K::Zero | K::Undef) => V::A(Rc::new((0..t.len()).map(|i| self.kval(&t.elem(i), k)).collect())),
            (Ty::Arr(_, e) | Ty::Vec(_, e), K::Bytes(b)) if **e == Ty::Int(8) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
            (_, K::Agg(v)) => V::A(Rc::new(v.iter().map(|(t, k)| self.kval(t, k)).collect())),
            (_, K::Int(v)) => V::C(*v), (_, K::Zero | K::Undef) => V::C(0), (_, K::Sym(s, o)) => V::C(self.gaddr(s).wrapping_add(*o as u64) as u128),
            _ => panic!("kval {:?} {:?}", t, k),
        }
    }
    fn build_global(&self, i: usize) -> Obj { let g = &self.m.globals[i]; let mut b = vec![]; if let Some(k) = &g.init { self.kbytes(&g.ty, k, &mut b) } Obj { b, s: vec![], kind: if g.constant { Kind::Const } else { Kind::Global } } }

    // ------------------------------------------------------------ state set-up
    pub fn initial(&mut self) -> State {
        let mut st = State { mem: vec![], nobj: self.m.globals.len() as u32 + 1, th: vec![], cur: 0, sched_ok: false, wrote: false, preempt: 0, sched: vec![], pc: vec![], model: Rc::new(Model::new()), inputs: vec![], events: vec![], tls: HashMap::new(), steps: 0, heap_live: 0, nch: 0, chash: 0 };
        for i in 0..self.m.globals.len() { if !self.m.globals[i].constant && !self.m.globals[i].tls && self.m.globals[i].init.is_some() { let o = self.build_global(i); st.put(i as u32 + 1, Some(Rc::new(o))) } }
        st
    }
    pub fn ctors(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.m.globals.iter().filter(|g| g.section.as_deref() == Some(".init_array")).map(|g| match &g.init { Some(K::Sym(s, 0)) => *self.m.findex.get(s).expect("ctor fn"), x => panic!("init_array entry {:?}", x) }).collect();
        if self.cfg.ctor_rev { v.reverse() } v
    }
    pub fn start(&mut self, st: &mut State, f: u32, args: Vec<V>) { st.th = vec![Thread { frames: vec![], done: false, joining: None, futex: None }]; st.cur = 0; let fr = self.frame(f, args); st.th[0].frames.push(fr); }
    fn frame(&mut self, f: u32, args: Vec<V>) -> Frame {
        *self.fns_seen.entry(f).or_insert(0) += 1;
        let fu = self.m.func(f); let mut regs = vec![V::C(0); fu.nregs as usize];
        for (p, a) in fu.params.iter().zip(args) { regs[*p as usize] = a }
        Frame { f: fu, blk: 0, ip: 0, regs, allocas: vec![] }
    }
    /// Run the ctors concretely, then the entry on all paths.
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = *self.m.findex.get(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let mut st = self.initial();
        for c in self.ctors() { self.start(&mut st, c, vec![]); let s = self.path(&mut st); if !matches!(s, Stop::Done) || !self.work.is_empty() { return Err(format!("constructor {} did not run concretely: {:?}", self.m.fns[c as usize].name, s)) } }
        self.st = Stats::default(); st.steps = 0;
        let init = st;
        loop {
            self.shared_grew = false;
            let mut st = init.clone(); self.start(&mut st, f, vec![]); self.work.push(st);
            while let Some(mut s) = self.work.pop() {
                let r = self.path(&mut s);
                self.st.max_pc = self.st.max_pc.max(s.pc.len()); self.st.max_steps = self.st.max_steps.max(s.steps);
                match r {
                    Stop::Foreign => {}
                    Stop::Done if s.nch <= self.cfg.shard.2 && self.cfg.shard.0 != 0 => {}
                    Stop::Done => { self.st.paths += 1; if self.st.paths > self.cfg.max_paths { return Err(format!("path limit {} exceeded", self.cfg.max_paths)) }
                        if self.cfg.leak_check && s.heap_live != 0 { let v = self.viol(&s, "leak".into(), format!("{} heap objects leaked", s.heap_live), None); self.viols.push(v); return Ok(()) }
                        self.keep(&s) }
                    Stop::Pruned => self.st.pruned += 1,
                    Stop::Incon(e) => { let t = self.trace(&s); return Err(format!("{}\n{}", e, t.join("\n"))) }
                    Stop::Viol(k, l, m) => { let v = self.viol(&s, k, l, m); self.viols.push(v); return Ok(()) }
                }
                if let Some(d) = self.cfg.deadline { if Instant::now() > d { return Err("time limit".into()) } }
            }
            if !self.shared_grew { return Ok(()) }
        }
    }
    fn keep(&mut self, s: &State) {
        let n = self.st.paths; let k = self.cfg.keep_paths; if k == 0 { return }
        let slot = if self.kept.len() < k { self.kept.push((vec![], vec![])); self.kept.len() - 1 } else { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; let r = self.rng % n; if r >= k as u64 { return } r as usize };
        let m = s.model.clone(); self.kept[slot] = (self.inputs(s, &m), self.events(s, &m));
    }
    fn inputs(&self, s: &State, m: &Model) -> Vec<u128> { s.inputs.iter().map(|v| match v { V::C(c) => *c, V::S(e) => self.ar.eval(*e, m), _ => 0 }).collect() }
    fn events(&self, s: &State, m: &Model) -> Vec<Ev> { s.events.iter().map(|e| match e { EvS::Reach(l) => Ev::Reach(self.strs[*l as usize].clone()), EvS::Note(l, v, _) => Ev::Note(self.strs[*l as usize].clone(), match v { V::C(c) => *c, V::S(e) => self.ar.eval(*e, m), _ => 0 }) }).collect() }
    fn viol(&mut self, s: &State, kind: String, label: String, m: Option<Rc<Model>>) -> Violation { let m = m.unwrap_or(s.model.clone()); Violation { kind, label, inputs: self.inputs(s, &m), trace: self.trace(s), events: self.events(s, &m), sched: s.sched.clone() } }
    pub fn trace(&self, s: &State) -> Vec<String> {
        if s.th.is_empty() { return vec![] }
        s.th[s.cur].frames.iter().rev().take(25).map(|f| { let fi = &self.m.fns[f.f.id as usize]; let i = f.f.blocks[f.blk as usize].insts.get(f.ip as usize); let loc = i.map(|i| self.loc(i.dbg)).unwrap_or_default(); format!("{} {}", if fi.pretty.is_empty() { &fi.name } else { &fi.pretty }, loc) }).collect()
    }
    fn mline(&self, id: u32) -> &'static str { match self.m.meta.get(&id) { Some(&(a, b)) => &self.m.text[a..b], None => "" } }
    fn mref(l: &str, key: &str) -> u32 { l.find(key).map(|p| l[p + key.len()..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0)).unwrap_or(0) }
    pub fn loc_of(&self, dbg: u32) -> Option<(String, u32)> {
        if dbg == 0 { return None } let l = self.mline(dbg); if !l.contains("DILocation(") { return None }
        let line = Self::mref(l, "line: "); let mut sc = Self::mref(l, "scope: !");
        for _ in 0..20 { let t = self.mline(sc); let f = Self::mref(t, "file: !"); if f != 0 { let fl = self.mline(f); let q = |k: &str| fl.find(k).map(|p| fl[p + k.len()..].split('"').next().unwrap().to_string()).unwrap_or_default(); let name = q("filename: \""); let dir = q("directory: \""); return Some((if name.starts_with('/') { name } else { format!("{}/{}", dir, name) }, line)) } sc = Self::mref(t, "scope: !"); if sc == 0 { return None } }
        None
    }
    fn loc(&self, dbg: u32) -> String { self.loc_of(dbg).map(|(f, l)| format!("({}:{})", f, l)).unwrap_or_default() }

    // ------------------------------------------------------------ solver interface
    fn slice(&mut self, st: &State, c: E) -> Vec<E> {
        let mut vs: HashSet<u32> = self.ar.vars(c).iter().copied().collect(); let mut used = vec![false; st.pc.len()]; let mut out = vec![];
        loop { let mut ch = false; for (i, &p) in st.pc.iter().enumerate() { if used[i] { continue } let pv = self.ar.vars(p); if pv.iter().any(|v| vs.contains(v)) { used[i] = true; ch = true; out.push(p); vs.extend(pv.iter().copied()) } } if !ch { break } }
        out
    }
    fn query(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        let mut q = self.slice(st, c); q.push(c);
        match self.sol.check(&mut self.ar, &q) { Ok(Ans::Unsat) => Ok(None), Ok(Ans::Sat(m)) => { let mut f: Model = (*st.model).clone(); let mut vs: HashSet<u32> = HashSet::new(); for &e in &q { vs.extend(self.ar.vars(e).iter().copied()) } for v in vs { f.insert(v, m.get(&v).copied().unwrap_or(0)); } Ok(Some(Rc::new(f))) } Err(e) => Err(Stop::Incon(format!("solver: {}", e))) }
    }
    /// Truth of a width-1 value on this path; forks the other way if possible.
    fn decide(&mut self, st: &mut State, v: &V) -> R<bool> {
        let c = match v { V::C(k) => return Ok(*k & 1 == 1), V::S(e) => *e, _ => return Err(Stop::Incon("aggregate condition".into())) };
        if let Some(k) = self.ar.as_c(c) { return Ok(k == 1) }
        let nc = self.ar.not(c);
        for &p in st.pc.iter().rev() { if p == c { return Ok(true) } if p == nc { return Ok(false) } }
        self.st.branches_sym += 1;
        let mv = self.ar.eval(c, &st.model) == 1;
        let (side, other) = if mv { (c, nc) } else { (nc, c) };
        if let Some(m) = self.query(st, other)? {
            let mut o = st.clone(); o.pc.push(other); o.model = m; self.st.forks += 1; self.work.push(o); st.pc.push(side);
        }
        Ok(mv)
    }
    fn concretize(&mut self, st: &mut State, v: &V) -> R<u128> {
        match v { V::C(k) => Ok(*k), V::S(e) => { let e = *e; if let Some(k) = self.ar.as_c(e) { return Ok(k) }
            let k = self.ar.eval(e, &st.model); let w = self.ar.w(e); let kc = self.ar.c(k, w); let c = self.ar.bin(B::Eq, e, kc); let r = self.decide(st, &V::S(c))?; debug_assert!(r); Ok(k) } _ => Err(Stop::Incon("aggregate used as scalar".into())) }
    }
    fn e(&mut self, v: &V, w: u32) -> E { match v { V::C(k) => self.ar.c(*k, w), V::S(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, e: E) -> V { match self.ar.as_c(e) { Some(k) => V::C(k), None => V::S(e) } }

    // ------------------------------------------------------------ memory
    fn new_obj(&mut self, st: &mut State, n: u64, kind: Kind) -> u64 { let id = st.nobj; st.nobj += 1; st.put(id, Some(Rc::new(Obj { b: vec![0; n as usize], s: vec![], kind }))); ((id as u64) << 32) + OFF0 }
    fn obj(&mut self, st: &State, id: u32) -> Option<Rc<Obj>> {
        if (id as usize) <= self.m.globals.len() && id > 0 && self.m.globals[id as usize - 1].constant { if let Some(o) = &self.gobj[id as usize] { return Some(o.clone()) } let o = Rc::new(self.build_global(id as usize - 1)); self.gobj[id as usize] = Some(o.clone()); return Some(o) }
        st.get(id).cloned()
    }
    fn where_(&mut self, st: &State, a: u64, n: u64, wr: bool) -> R<(u32, usize, Rc<Obj>)> {
        let id = (a >> 32) as u32; let off = (a & 0xffff_ffff).wrapping_sub(OFF0);
        let bad = |m: String| Err(Stop::Viol("memory".into(), m, None));
        if a >= FN_BASE { return bad(format!("data access to a function address {:#x}", a)) }
        match self.obj(st, id) {
            None => bad(format!("access to {} at {:#x}", if id > 0 && id < st.nobj { "freed memory" } else { "invalid pointer" }, a)),
            Some(o) => { if off > o.b.len() as u64 || n > o.b.len() as u64 - off { return bad(format!("out of bounds access: offset {} size {} in object of {} bytes", off as i64, n, o.b.len())) }
                if wr && o.kind == Kind::Const { return bad("write to constant memory".into()) } Ok((id, off as usize, o)) }
        }
    }
    fn load_n(&mut self, st: &State, a: u64, n: u64) -> R<V> {
        if n == 0 { return Ok(V::C(0)) }
        let (_, off, o) = self.where_(st, a, n, false)?; Ok(self.load_obj(&o, off, n as usize))
    }
    fn load_obj(&mut self, o: &Obj, off: usize, n: usize) -> V {
        if o.s.is_empty() || o.s[off..off + n].iter().all(|x| *x == 0) { let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.b[off..off + n]); return V::C(u128::from_le_bytes(b)) }
        let mut r = self.byte(o, off + n - 1); for i in (off..off + n - 1).rev() { let x = self.byte(o, i); r = self.ar.cat(r, x) } self.v(r)
    }
    fn byte(&mut self, o: &Obj, i: usize) -> E { if !o.s.is_empty() && o.s[i] != 0 { o.s[i] } else { self.ar.c(o.b[i] as u128, 8) } }
    fn store_n(&mut self, st: &mut State, a: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (id, off, o) = self.where_(st, a, n, true)?; drop(o); self.note_write(st, id);
        let n = n as usize;
        match v {
            V::C(k) => { let o = st.get_mut(id); o.b[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]); if !o.s.is_empty() { for x in &mut o.s[off..off + n] { *x = 0 } } }
            V::S(e) => { let w = n as u32 * 8; let e = if self.ar.w(*e) < w { self.ar.zext(*e, w) } else { *e };
                let parts: Vec<E> = (0..n).map(|i| self.ar.ext(e, i as u32 * 8, 8)).collect();
                let cs: Vec<Option<u128>> = parts.iter().map(|p| self.ar.as_c(*p)).collect();
                let o = st.get_mut(id); if o.s.is_empty() { o.s = vec![0; o.b.len()] }
                for i in 0..n { match cs[i] { Some(k) => { o.b[off + i] = k as u8; o.s[off + i] = 0 } None => o.s[off + i] = parts[i] } } }
            V::A(_) => return Err(Stop::Incon("aggregate store".into())),
        }
        Ok(())
    }
    fn note_write(&mut self, st: &State, id: u32) { if st.th.len() > 1 && id as usize <= self.m.globals.len() && self.shared.insert(id) { self.shared_grew = true } }
    fn load_t(&mut self, st: &State, t: &Ty, a: u64) -> R<V> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => { let mut v = vec![]; for i in 0..t.len() { v.push(self.load_t(st, &t.elem(i), a + t.field_off(i))?) } Ok(V::A(Rc::new(v))) }
            Ty::Vec(_, e) => { let mut v = vec![]; if e.bits() < 8 { return Err(Stop::Incon("sub-byte vector load".into())) } for i in 0..t.len() { v.push(self.load_t(st, e, a + t.field_off(i))?) } Ok(V::A(Rc::new(v))) }
            _ => { let n = (t.bits() as u64 + 7) / 8; let v = self.load_n(st, a, n)?; let w = t.bits(); if w % 8 != 0 { return Ok(match v { V::C(k) => V::C(k & mask(w)), V::S(e) => { let x = self.ar.ext(e, 0, w); self.v(x) } v => v }) } Ok(v) }
        }
    }
    fn store_t(&mut self, st: &mut State, t: &Ty, v: &V, a: u64) -> R<()> {
        match t { Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => { if let V::A(x) = v { for i in 0..t.len() { self.store_t(st, &t.elem(i), &x[i as usize], a + t.field_off(i))? } Ok(()) } else { Err(Stop::Incon("aggregate store of scalar".into())) } } _ => self.store_n(st, a, v, (t.bits() as u64 + 7) / 8) }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()) }
        let (_, so, src) = self.where_(st, s, n, false)?; let (id, off, t) = self.where_(st, d, n, true)?; drop(t); self.note_write(st, id);
        let n = n as usize; let o = st.get_mut(id);
        o.b[off..off + n].copy_from_slice(&src.b[so..so + n]);
        let has = !src.s.is_empty() && src.s[so..so + n].iter().any(|x| *x != 0);
        if has { if o.s.is_empty() { o.s = vec![0; o.b.len()] } o.s[off..off + n].copy_from_slice(&src.s[so..so + n]) } else if !o.s.is_empty() { for x in &mut o.s[off..off + n] { *x = 0 } }
        Ok(())
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> R<String> { let mut v = vec![]; for i in 0..n { match self.load_n(st, a + i, 1)? { V::C(k) => v.push(k as u8), _ => return Err(Stop::Incon("symbolic label".into())) } } Ok(String::from_utf8_lossy(&v).into_owned()) }
    /// A check that the term simplifier folded to true: the byte equations it was
    /// folded from go to the solver as one query (negated), unless it has had them.
    fn discharge(&mut self) -> R<()> {
        let mut new: Vec<(E, E)> = vec![];
        for p in std::mem::take(&mut self.vc) { if (self.ar.as_c(p.0).is_none() || self.ar.as_c(p.1).is_none()) && self.discharged.insert(p) { new.push(p) } }
        if new.is_empty() { return Ok(()) }
        match self.sol.valid_eqs(&mut self.ar, &new) { Ok(true) => { self.st.eqs += new.len() as u64; Ok(()) } Ok(false) => Err(Stop::Incon("the solver refutes an equation of the simplifier".into())), Err(m) => Err(Stop::Incon(m)) }
    }
    /// is any byte of the string (pointer, length) symbolic?
    fn sym_bytes(&mut self, st: &State, av: &[V]) -> bool { match (&av[0], &av[1]) { (V::C(_), V::C(0)) => false, (V::C(p), V::C(n)) => match self.where_(st, *p as u64, *n as u64, false) { Ok((_, o, ob)) => !ob.s.is_empty() && ob.s[o..o + *n as usize].iter().any(|x| *x != 0), Err(_) => false }, _ => true } }
    /// expression (width 1) for equality of two byte ranges
    fn bytes_eq(&mut self, st: &State, a: u64, b: u64, n: u64) -> R<E> { let k = self.vc.len(); let r = self.bytes_eq0(st, a, b, n); if !matches!(&r, Ok(e) if self.ar.as_c(*e) == Some(1)) { self.vc.truncate(k) } r }
    fn bytes_eq0(&mut self, st: &State, a: u64, b: u64, n: u64) -> R<E> {
        let mut r = self.ar.c(1, 1); if n == 0 { return Ok(r) }
        let (_, ao, oa) = self.where_(st, a, n, false)?; let (_, bo, ob) = self.where_(st, b, n, false)?;
        for i in 0..n as usize {
            let sa = !oa.s.is_empty() && oa.s[ao + i] != 0; let sb = !ob.s.is_empty() && ob.s[bo + i] != 0;
            if !sa && !sb { if oa.b[ao + i] != ob.b[bo + i] { return Ok(self.ar.c(0, 1)) } continue }
            let x = self.byte(&oa, ao + i); let y = self.byte(&ob, bo + i); self.vc.push((x, y)); let q = self.ar.bin(B::Eq, x, y); if self.ar.as_c(q) == Some(0) { return Ok(q) } r = self.ar.bin(B::And, r, q);
        }
        Ok(r)
    }

    // ------------------------------------------------------------ the interpreter
    fn op(&mut self, fr: &Frame, o: &Op, t: &Ty) -> V { match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::Lit(v) => V::C(*v), Op::Agg(v) => (**v).clone(), Op::K(k) => self.kval(t, k) } }
    fn opw(&mut self, fr: &Frame, o: &Op) -> V { match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::Lit(v) => V::C(*v), Op::Agg(v) => (**v).clone(), Op::K(K::Sym(s, off)) => V::C(self.gaddr(s).wrapping_add(*off as u64) as u128), Op::K(k) => panic!("untyped constant {:?}", k) } }

    pub fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            return V::C(match op { Bin::Add => x.wrapping_add(y) & mask(w), Bin::Sub => x.wrapping_sub(y) & mask(w), Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y, Bin::Mul => bin_c(B::Mul, x, y, w), Bin::UDiv => bin_c(B::UDiv, x, y, w), Bin::SDiv => bin_c(B::SDiv, x, y, w), Bin::URem => bin_c(B::URem, x, y, w), Bin::SRem => bin_c(B::SRem, x, y, w), Bin::Shl => bin_c(B::Shl, x, y, w), Bin::LShr => bin_c(B::LShr, x, y, w), Bin::AShr => bin_c(B::AShr, x, y, w) })
        }
        let x = self.e(a, w); let y = self.e(b, w);
        let r = match op {
            Bin::Sub => { let z = if let Some(k) = self.ar.as_c(y) { self.ar.c(k.wrapping_neg(), w) } else { let n = self.ar.not(y); let one = self.ar.c(1, w); self.ar.bin(B::Add, n, one) }; self.ar.bin(B::Add, x, z) }
            o => self.ar.bin(match o { Bin::Add => B::Add, Bin::Mul => B::Mul, Bin::UDiv => B::UDiv, Bin::SDiv => B::SDiv, Bin::URem => B::URem, Bin::SRem => B::SRem, Bin::Shl => B::Shl, Bin::LShr => B::LShr, Bin::AShr => B::AShr, Bin::And => B::And, Bin::Or => B::Or, _ => B::Xor }, x, y),
        };
        self.v(r)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        let (neg, sw, op) = match p { Pred::Eq => (false, false, B::Eq), Pred::Ne => (true, false, B::Eq), Pred::Ult => (false, false, B::Ult), Pred::Uge => (true, false, B::Ult), Pred::Ugt => (false, true, B::Ult), Pred::Ule => (true, true, B::Ult), Pred::Slt => (false, false, B::Slt), Pred::Sge => (true, false, B::Slt), Pred::Sgt => (false, true, B::Slt), Pred::Sle => (true, true, B::Slt) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) { return V::C(bin_c(op, *x, *y, w) ^ neg as u128) }
        let x = self.e(a, w); let y = self.e(b, w); let mut r = self.ar.bin(op, x, y); if neg { r = self.ar.not(r) } self.v(r)
    }
    fn select(&mut self, c: &V, w: u32, a: &V, b: &V) -> V { match c { V::C(k) => if k & 1 == 1 { a.clone() } else { b.clone() }, V::S(ce) => { if let Some(k) = self.ar.as_c(*ce) { return if k == 1 { a.clone() } else { b.clone() } } let x = self.e(a, w); let y = self.e(b, w); let r = self.ar.ite(*ce, x, y); self.v(r) } _ => panic!() } }

    fn set(&mut self, st: &mut State, d: u32, v: V) { let fr = st.fr(); if d != NODST { fr.regs[d as usize] = v } fr.ip += 1; }
    fn jump(&mut self, st: &mut State, to: u32) {
        let th = &mut st.th[st.cur]; let mut fr = th.frames.pop().unwrap(); let from = fr.blk; let f = fr.f.clone();
        let phis = &f.blocks[to as usize].phis;
        if !phis.is_empty() {
            let mut vals = Vec::with_capacity(phis.len());
            for (d, inc) in phis { let (o, _) = inc.iter().find(|(_, b)| *b == from).expect("phi edge"); let v = match o { Op::Reg(r) => fr.regs[*r as usize].clone(), Op::Lit(k) => V::C(*k), o => self.opk(o) }; vals.push((*d, v)) }
            for (d, v) in vals { fr.regs[d as usize] = v }
        }
        fr.blk = to; fr.ip = 0; st.th[st.cur].frames.push(fr);
    }
    fn opk(&mut self, o: &Op) -> V { match o { Op::K(K::Sym(s, off)) => V::C(self.gaddr(s).wrapping_add(*off as u64) as u128), Op::K(K::Agg(v)) => V::A(Rc::new(v.iter().map(|(t, k)| self.kval(t, k)).collect())), Op::K(K::Undef | K::Zero) => V::C(0), Op::Agg(v) => (**v).clone(), o => panic!("opk {:?}", o) } }

    /// Returns true if the scheduler moved to another thread.
    fn sched_point(&mut self, st: &mut State) -> bool {
        if st.th.len() < 2 { return false }
        if st.sched_ok { st.sched_ok = false; return false }
        if st.preempt >= self.cfg.max_preempt { return false }
        self.st.sched_points += 1;
        for t in 0..st.th.len() { if t != st.cur && st.runnable(t) { let mut o = st.clone(); o.cur = t; o.sched_ok = true; o.wrote = false; o.preempt += 1; o.sched.push(t as u8); self.st.forks += 1; self.work.push(o) } }
        false
    }
    fn is_shared(&self, a: &V) -> bool { match a { V::C(a) => { let id = (*a as u64 >> 32) as u32; self.shared.contains(&id) } _ => false } }

    pub fn path(&mut self, st: &mut State) -> Stop { match self.path_(st) { Ok(()) => Stop::Done, Err(s) => s } }
    fn path_(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.th[st.cur].frames.is_empty() {
                st.th[st.cur].done = true;
                if st.cur == 0 { return Ok(()) }
                // pick another runnable thread; fork over alternatives
                let rs: Vec<usize> = (0..st.th.len()).filter(|&t| st.runnable(t)).collect();
                if rs.is_empty() { return Err(Stop::Viol("deadlock".into(), "no runnable thread".into(), None)) }
                for &t in &rs[1..] { let mut o = st.clone(); o.cur = t; o.sched_ok = true; o.sched.push(t as u8); self.st.forks += 1; self.work.push(o) }
                st.cur = rs[0]; st.sched.push(rs[0] as u8); st.sched_ok = true; st.wrote = false; continue;
            }
            // what follows a shared write may be late
            if st.wrote { st.wrote = false; if st.th.len() > 1 { st.sched_ok = false; self.sched_point(st); } }
            st.steps += 1; self.st.insts += 1;
            if st.steps > self.cfg.max_steps { return Err(Stop::Incon(format!("step limit {} on one path", self.cfg.max_steps))) }
            if st.steps & 0xffff == 0 { if let Some(d) = self.cfg.deadline { if Instant::now() > d { return Err(Stop::Incon("time limit".into())) } } }
            self.step(st)?;
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.th[st.cur].frames.last().unwrap(); let f = fr.f.clone();
        let inst = &f.blocks[fr.blk as usize].insts[fr.ip as usize];
        if inst.dbg != 0 { self.cov.insert(inst.dbg); }
        let d = inst.dst;
        macro_rules! fr { () => { st.th[st.cur].frames.last().unwrap() } }
        macro_rules! w { ($o:expr) => { match $o { Op::Reg(r) => fr!().regs[*r as usize].clone(), Op::Lit(v) => V::C(*v), o => self.opk(o) } } }
        macro_rules! tv { ($o:expr, $t:expr) => { match $o { Op::Reg(r) => fr!().regs[*r as usize].clone(), Op::Lit(v) => V::C(*v), Op::K(k) => self.kval($t, k), o => self.opk(o) } } }
        match &inst.i {
            I::Bin(op, wd, a, b) => { let a = w!(a); let b = w!(b);
                if matches!(op, Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem) { let z = self.icmp(Pred::Eq, *wd, &b, &V::C(0)); if self.decide(st, &z)? { return Err(Stop::Viol("arith".into(), "division by zero".into(), None)) } }
                let v = self.bin(*op, *wd, &a, &b); self.set(st, d, v) }
            I::ICmp(p, wd, a, b) => { let a = w!(a); let b = w!(b); let v = self.icmp(*p, *wd, &a, &b); self.set(st, d, v) }
            I::VICmp(p, t, a, b) => { let a = tv!(a, t); let b = tv!(b, t); let ew = t.elem(0).bits(); let v = match (a, b) { (V::A(x), V::A(y)) => V::A(Rc::new(x.iter().zip(y.iter()).map(|(x, y)| self.icmp(*p, ew, x, y)).collect())), _ => return Err(Stop::Incon("vector icmp".into())) }; self.set(st, d, v) }
            I::Cast(c, t, v, to) => { let v = tv!(v, t); let r = self.cast(st, *c, t, v, to)?; self.set(st, d, r) }
            I::Select(t, c, a, b) => { let c = w!(c); let a = tv!(a, t); let b = tv!(b, t);
                let v = if matches!(t, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) { if self.decide(st, &c)? { a } else { b } } else { self.select(&c, t.bits(), &a, &b) }; self.set(st, d, v) }
            I::Alloca(sz, n) => { let n = w!(n); let n = self.concretize(st, &n)? as u64; let a = self.new_obj(st, sz * n, Kind::Stack); st.fr().allocas.push((a >> 32) as u32); self.set(st, d, V::C(a as u128)) }
            I::Load(t, p, at) => { let pv = w!(p); if st.th.len() > 1 && (*at || self.is_shared(&pv)) && self.sched_point(st) { return Ok(()) }
                let a = self.concretize(st, &pv)? as u64; let v = self.load_t(st, t, a)?; self.set(st, d, v) }
            I::Store(t, v, p, at) => { let v = tv!(v, t); let pv = w!(p); if st.th.len() > 1 && (*at || self.is_shared(&pv)) && self.sched_point(st) { return Ok(()) }
                if st.th.len() > 1 && (*at || self.is_shared(&pv)) { st.wrote = true }
                let a = self.concretize(st, &pv)? as u64; self.store_t(st, t, &v, a)?; st.fr().ip += 1 }
            I::Gep(b, off, idx) => { let b = w!(b);
                let mut acc = self.bin(Bin::Add, 64, &b, &V::C(*off as u128));
                for (o, sc, iw) in idx { let i = w!(o); let i = if *iw < 64 { match i { V::C(k) => V::C(ext_s(k, *iw) & mask(64)), V::S(e) => { let x = self.ar.sext(e, 64); self.v(x) } v => v } } else { i };
                    let s = self.bin(Bin::Mul, 64, &i, &V::C(*sc as u128)); acc = self.bin(Bin::Add, 64, &acc, &s) }
                self.set(st, d, acc) }
            I::Call(c, args, rt, inv) => {
                let fid = match c { Callee::Named(f) => *f, Callee::Asm => { if d != NODST { return Err(Stop::Incon("inline asm with result".into())) } st.fr().ip += 1; return Ok(()) }
                    Callee::Op(o) => { let v = w!(o); let a = self.concretize(st, &v)? as u64; if a < FN_BASE || (a - FN_BASE) % 16 != 0 || (a - FN_BASE) / 16 >= self.m.fns.len() as u64 { return Err(Stop::Viol("memory".into(), format!("call through invalid pointer {:#x}", a), None)) } ((a - FN_BASE) / 16) as u32 } };
                let mut av = Vec::with_capacity(args.len());
                for (t, o) in args { let v = tv!(o, t); av.push(v) }
                let b = self.bi[fid as usize];
                if b == Bi::None || (b == Bi::StrDebug && !self.sym_bytes(st, &av)) { let n = self.frame(fid, av); if st.th[st.cur].frames.len() > self.cfg.max_depth { return Err(Stop::Viol("recursion".into(), "unbounded recursion".into(), None)) } st.th[st.cur].frames.push(n); return Ok(()) }
                let r = self.builtin(st, b, fid, args, av, rt)?;
                match r { Some(v) => { if d != NODST { st.fr().regs[d as usize] = v } if let Some((n, _)) = inv { self.jump(st, *n) } else { st.fr().ip += 1 } } None => {} }
            }
            I::ExtractV(v, ix) => { let mut x = w!(v); for i in ix { x = match &x { V::A(a) => a[*i as usize].clone(), v => return Err(Stop::Incon(format!("extractvalue of {:?}", v))) } } self.set(st, d, x) }
            I::InsertV(t, v, x, ix) => { let a = tv!(v, t); let mut et = t.clone(); for i in ix { et = et.elem(*i as u64) } let x = tv!(x, &et); let r = insert(a, x, ix); self.set(st, d, r) }
            I::Br(l) => { let l = *l; self.jump(st, l) }
            I::CondBr(c, a, b) => { let c = w!(c); let t = self.decide(st, &c)?; let to = if t { *a } else { *b }; self.jump(st, to) }
            I::Switch(wd, v, cs, def) => { let v = w!(v);
                match v { V::C(k) => { let to = cs.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*def); self.jump(st, to) }
                    v => { let mut to = *def; for (k, l) in cs { let c = self.icmp(Pred::Eq, *wd, &v, &V::C(*k)); if self.decide(st, &c)? { to = *l; break } } self.jump(st, to) } } }
            I::Ret(v) => {
                let rv = v.as_ref().map(|o| w!(o));
                let th = &mut st.th[st.cur]; let fr = th.frames.pop().unwrap(); let cur = st.cur; for a in fr.allocas { st.put(a, None) }
                if let Some(c) = st.th[cur].frames.last_mut() {
                    let ci = &c.f.blocks[c.blk as usize].insts[c.ip as usize]; let (dst, inv) = match &ci.i { I::Call(_, _, _, inv) => (ci.dst, *inv), _ => unreachable!() };
                    if dst != NODST { c.regs[dst as usize] = rv.unwrap_or(V::C(0)) }
                    if let Some((n, _)) = inv { self.jump(st, n) } else { c.ip += 1 }
                }
            }
            I::Unreachable => return Err(Stop::Viol("unreachable".into(), "unreachable code reached".into(), None)),
            I::Resume | I::LandingPad => return Err(Stop::Incon("unwinding reached".into())),
            I::Rmw(op, t, p, v) => { let pv = w!(p); let v = w!(v); if self.sched_point(st) { return Ok(()) } let a = self.concretize(st, &pv)? as u64; let old = self.load_t(st, t, a)?; let wd = t.bits();
                let n = match op { Rmw::Xchg => v, Rmw::Add => self.bin(Bin::Add, wd, &old, &v), Rmw::Sub => self.bin(Bin::Sub, wd, &old, &v), Rmw::And => self.bin(Bin::And, wd, &old, &v), Rmw::Or => self.bin(Bin::Or, wd, &old, &v), Rmw::Xor => self.bin(Bin::Xor, wd, &old, &v), o => return Err(Stop::Incon(format!("atomicrmw {:?}", o))) };
                st.wrote = st.th.len() > 1; self.store_t(st, t, &n, a)?; self.set(st, d, old) }
            I::CmpXchg(t, p, c, n) => { let pv = w!(p); let c = tv!(c, t); let n = tv!(n, t); if self.sched_point(st) { return Ok(()) } let a = self.concretize(st, &pv)? as u64; let old = self.load_t(st, t, a)?; let q = self.icmp(Pred::Eq, t.bits(), &old, &c); let ok = self.decide(st, &q)?; if ok { st.wrote = st.th.len() > 1; self.store_t(st, t, &n, a)? } self.set(st, d, V::A(Rc::new(vec![old, V::C(ok as u128)]))) }
            I::Fence => st.fr().ip += 1,
            I::Freeze(v) => { let v = w!(v); self.set(st, d, v) }
            I::InsertE(t, v, x, ix) => { let v = tv!(v, t); let x = tv!(x, &t.elem(0)); let i = w!(ix); let i = self.concretize(st, &i)?; let r = insert(v, x, &[i as u32]); self.set(st, d, r) }
            I::ExtractE(t, v, ix) => { let v = tv!(v, t); let i = w!(ix); let i = self.concretize(st, &i)?; let r = match v { V::A(a) => a[i as usize].clone(), _ => return Err(Stop::Incon("extractelement".into())) }; self.set(st, d, r) }
            I::Shuffle(t, a, b, m) => { let a = tv!(a, t); let b = tv!(b, t); let n = t.len() as usize; let (a, b) = match (a, b) { (V::A(a), V::A(b)) => (a, b), _ => return Err(Stop::Incon("shuffle".into())) };
                let mv = match m { Op::K(K::Zero | K::Undef) => V::A(Rc::new(vec![V::C(0); n])), o => self.opk(o) }; let r = match mv { V::A(ix) => V::A(Rc::new(ix.iter().map(|i| if let V::C(i) = i { let i = *i as usize; if i < n { a[i].clone() } else { b[(i - n).min(n - 1)].clone() } } else { V::C(0) }).collect())), _ => return Err(Stop::Incon("shuffle mask".into())) }; self.set(st, d, r) }
            I::FCmp(p, t, a, b) => { let a = tv!(a, t); let b = tv!(b, t); let w = t.bits(); if w != 32 && w != 64 { return Err(Stop::Incon("float width".into())) }
                let (x, y) = (self.e(&a, w), self.e(&b, w)); let (nx, ny) = (self.ar.float(F::Eq, x, x, 1), self.ar.float(F::Eq, y, y, 1)); let ord = self.ar.bin(B::And, nx, ny);
                let core = |e: &mut Eng, q: &str| match q { "eq" => e.ar.float(F::Eq, x, y, 1), "gt" => e.ar.float(F::Lt, y, x, 1), "ge" => e.ar.float(F::Le, y, x, 1), "lt" => e.ar.float(F::Lt, x, y, 1), "le" => e.ar.float(F::Le, x, y, 1), _ => { let q = e.ar.float(F::Eq, x, y, 1); let n = e.ar.not(q); e.ar.bin(B::And, n, ord) } };
                let r = match p.as_str() { "ord" => ord, "uno" => self.ar.not(ord), "true" => self.ar.c(1, 1), "false" => self.ar.c(0, 1), q => if let Some(q) = q.strip_prefix('o') { core(self, q) } else { let k = core(self, &q[1..]); let u = self.ar.not(ord); self.ar.bin(B::Or, k, u) } };
                let v = self.v(r); self.set(st, d, v) }
            I::FBin(op, t, a, b) => { let a = tv!(a, t); let b = tv!(b, t); let w = t.bits(); let f = match op.as_str() { "fadd" => F::Add, "fsub" => F::Sub, "fmul" => F::Mul, "fdiv" => F::Div, _ => return Err(Stop::Incon("frem".into())) };
                if w != 32 && w != 64 { return Err(Stop::Incon("float width".into())) }
                let (x, y) = (self.e(&a, w), self.e(&b, w)); let r = self.ar.float(f, x, y, w); let v = self.v(r); self.set(st, d, v) }
            I::FNeg(t, a) => { let a = tv!(a, t); let w = t.bits(); let v = self.bin(Bin::Xor, w, &a, &V::C(1 << (w - 1))); self.set(st, d, v) }
            I::Unsupported(s) => return Err(Stop::Incon(format!("unsupported instruction: {}", s))),
        }
        Ok(())
    }
    fn cast(&mut self, st: &mut State, c: Cast, t: &Ty, v: V, to: &Ty) -> R<V> {
        let (w, tw) = (t.bits(), to.bits());
        if let (Ty::Vec(n, e), Cast::Bit, V::A(a)) = (t, c, &v) { // <n x iK> -> i(nK)
            if matches!(to, Ty::Vec(..)) { return Err(Stop::Incon("vector bitcast".into())) }
            let ew = e.bits(); let mut r: Option<E> = None; for i in (0..*n as usize).rev() { let x = self.e(&a[i], ew); r = Some(match r { None => x, Some(p) => self.ar.cat(p, x) }) } let r = r.unwrap(); return Ok(self.v(r)) }
        if matches!(t, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) { return Err(Stop::Incon("vector cast".into())) }
        Ok(match c {
            Cast::Bit => v,
            Cast::Trunc | Cast::ZExt | Cast::PtrInt => match v { V::C(k) => V::C(k & mask(tw.min(w))), V::S(e) => { let r = if tw < w { self.ar.ext(e, 0, tw) } else { self.ar.zext(e, tw) }; self.v(r) } v => v },
            Cast::SExt => match v { V::C(k) => V::C(ext_s(k, w) & mask(tw)), V::S(e) => { let r = self.ar.sext(e, tw); self.v(r) } v => v },
            Cast::FPExt => match v { V::C(k) => V::C((f32::from_bits(k as u32) as f64).to_bits() as u128), V::S(e) => { let r = self.fpext(e); self.v(r) } v => v },
            c => { let _ = st; let e = self.e(&v, w); let op = match c { Cast::FPTrunc => F::Trunc, Cast::UIToFP => F::FromU, Cast::SIToFP => F::FromS, Cast::FPToUI => F::ToU, _ => F::ToS };
                if matches!(op, F::Trunc | F::ToU | F::ToS) && w != 32 && w != 64 || matches!(op, F::FromU | F::FromS) && tw != 32 && tw != 64 { return Err(Stop::Incon("float width".into())) }
                let r = self.ar.float(op, e, e, tw); self.v(r) }
        })
    }
    /// IEEE single -> double on bits (NaN payload shifted; quiet bit set).
    fn fpext(&mut self, e: E) -> E {
        let s = self.ar.ext(e, 31, 1); let ex = self.ar.ext(e, 23, 8); let ma = self.ar.ext(e, 0, 23);
        let z29 = self.ar.c(0, 29); let m52 = self.ar.cat(ma, z29);
        let ex11 = self.ar.zext(ex, 11); let bias = self.ar.c(896, 11); let nexp = self.ar.bin(B::Add, ex11, bias);
        let z8 = self.ar.c(0, 8); let f8 = self.ar.c(255, 8); let z23 = self.ar.c(0, 23); let is0 = self.ar.bin(B::Eq, ex, z8); let isf = self.ar.bin(B::Eq, ex, f8); let m0 = self.ar.bin(B::Eq, ma, z23);
        // subnormal: normalise
        let mut sub = self.ar.c(0, 63); // zero
        for hb in 0..23u32 { // highest set bit hb: value = 2^(hb-149), exp = hb-149+1023 = hb+874
            let bit = self.ar.ext(ma, hb, 1); let ee = self.ar.c((hb + 874) as u128, 11);
            let frac = if hb == 0 { self.ar.c(0, 52) } else { let lo = self.ar.ext(ma, 0, hb); let z = self.ar.c(0, 52 - hb); self.ar.cat(lo, z) };
            let v = self.ar.cat(ee, frac); sub = self.ar.ite(bit, v, sub) }
        let norm = self.ar.cat(nexp, m52);
        let fff = self.ar.c(0x7ff, 11); let q = self.ar.c(1 << 51, 52); let mq = self.ar.bin(B::Or, m52, q); let mm = self.ar.ite(m0, m52, mq); let inf = self.ar.cat(fff, mm);
        let a = self.ar.ite(isf, inf, norm); let b = self.ar.ite(is0, sub, a); self.ar.cat(s, b)
    }

    fn builtin(&mut self, st: &mut State, b: Bi, fid: u32, args: &[(Ty, Op)], av: Vec<V>, rt: &Ty) -> R<Option<V>> {
        let w = rt.bits(); let c = |x: u128| Ok(Some(V::C(x)));
        macro_rules! conc { ($i:expr) => { self.concretize(st, &av[$i])? } }
        Ok(match b {
            Bi::Nop => Some(V::C(0)),
            // escaping an unknown string branches on every character: its text is left out
            Bi::StrDebug => Some(V::C(0)),
            Bi::MemCpy => { let n = conc!(2) as u64; let d = conc!(0) as u64; let s = conc!(1) as u64; self.memcpy(st, d, s, n)?; Some(V::C(d as u128)) }
            Bi::MemSet => { let n = conc!(2) as u64; let d = conc!(0) as u64; if n > 0 { self.where_(st, d, n, true)?; let bv = av[1].clone().low8(self); for i in 0..n { self.store_n(st, d + i, &bv, 1)? } } Some(V::C(d as u128)) }
            Bi::Trap | Bi::Abort => return Err(Stop::Viol("abort".into(), "trap or abort".into(), None)),
            Bi::Panic => { let p = &self.m.fns[fid as usize]; return Err(Stop::Viol("panic".into(), if p.pretty.is_empty() { p.name.clone() } else { p.pretty.clone() }, None)) }
            Bi::Ext => { let n = self.m.fns[fid as usize].name.clone(); return Err(Stop::Incon(format!("call to external function {}", n))) }
            Bi::Ctlz => { let k = conc!(0); return c((k.leading_zeros() - (128 - w)) as u128) }
            Bi::Cttz => { let k = conc!(0); return c(if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }) }
            Bi::Ctpop => { let k = conc!(0); return c(k.count_ones() as u128) }
            Bi::Bitrev => { let k = conc!(0); return c(k.reverse_bits() >> (128 - w)) }
            Bi::Bswap => Some(match &av[0] { V::C(k) => V::C(k.swap_bytes() >> (128 - w)), V::S(e) => { let e = *e; let mut r = self.ar.ext(e, 0, 8); for i in 1..w / 8 { let x = self.ar.ext(e, i * 8, 8); r = self.ar.cat(r, x) } self.v(r) } _ => panic!() }),
            Bi::Abs => { let neg = self.icmp(Pred::Slt, w, &av[0], &V::C(0)); let n = self.bin(Bin::Sub, w, &V::C(0), &av[0]); Some(self.select(&neg, w, &n, &av[0])) }
            Bi::Fl(op) => { let aw = args[0].0.bits(); if aw != 32 && aw != 64 { return Err(Stop::Incon("float width".into())) } let e = self.e(&av[0], aw); let r = self.ar.float(op, e, e, w); Some(self.v(r)) }
            Bi::FAbs => { Some(self.bin(Bin::And, w, &av[0], &V::C(mask(w - 1)))) }
            Bi::UMin | Bi::UMax | Bi::SMin | Bi::SMax => { let p = match b { Bi::UMin => Pred::Ult, Bi::UMax => Pred::Ugt, Bi::SMin => Pred::Slt, _ => Pred::Sgt }; let q = self.icmp(p, w, &av[0], &av[1]); Some(self.select(&q, w, &av[0], &av[1])) }
            Bi::USubSat => { let q = self.icmp(Pred::Ult, w, &av[0], &av[1]); let s = self.bin(Bin::Sub, w, &av[0], &av[1]); Some(self.select(&q, w, &V::C(0), &s)) }
            Bi::UAddSat => { let s = self.bin(Bin::Add, w, &av[0], &av[1]); let q = self.icmp(Pred::Ult, w, &s, &av[0]); Some(self.select(&q, w, &V::C(mask(w)), &s)) }
            Bi::UAddO => { let w = args[0].0.bits(); let s = self.bin(Bin::Add, w, &av[0], &av[1]); let q = self.icmp(Pred::Ult, w, &s, &av[0]); Some(V::A(Rc::new(vec![s, q]))) }
            Bi::USubO => { let w = args[0].0.bits(); let s = self.bin(Bin::Sub, w, &av[0], &av[1]); let q = self.icmp(Pred::Ult, w, &av[0], &av[1]); Some(V::A(Rc::new(vec![s, q]))) }
            Bi::UMulO => { let w = args[0].0.bits(); if w > 64 { let x = conc!(0); let y = conc!(1); let (r, o) = x.overflowing_mul(y); Some(V::A(Rc::new(vec![V::C(r & mask(w)), V::C((o || r > mask(w)) as u128)]))) } else { let x = self.e(&av[0], w); let y = self.e(&av[1], w); let x = self.ar.zext(x, 2 * w); let y = self.ar.zext(y, 2 * w); let p = self.ar.bin(B::Mul, x, y); let lo = self.ar.ext(p, 0, w); let hi = self.ar.ext(p, w, w); let z = self.ar.c(0, w); let q = self.ar.bin(B::Eq, hi, z); let o = self.ar.not(q); Some(V::A(Rc::new(vec![self.v(lo), self.v(o)]))) } }
            Bi::SAddO | Bi::SSubO | Bi::SMulO => { let w = args[0].0.bits(); let x = ext_s(conc!(0), w) as i128; let y = ext_s(conc!(1), w) as i128; let (r, o) = match b { Bi::SAddO => x.overflowing_add(y), Bi::SSubO => x.overflowing_sub(y), _ => x.overflowing_mul(y) }; let t = r as u128 & mask(w); Some(V::A(Rc::new(vec![V::C(t), V::C((o || ext_s(t, w) as i128 != r) as u128)]))) }
            Bi::Scmp | Bi::Ucmp => { let aw = args[0].0.bits(); let lt = self.icmp(if b == Bi::Scmp { Pred::Slt } else { Pred::Ult }, aw, &av[0], &av[1]); let eq = self.icmp(Pred::Eq, aw, &av[0], &av[1]); let r = self.select(&eq, w, &V::C(0), &V::C(1)); Some(self.select(&lt, w, &V::C(mask(w)), &r)) }
            Bi::Fshl | Bi::Fshr => { let k = conc!(2) as u32 % w; let (a, bb) = (&av[0], &av[1]); if k == 0 { Some(if b == Bi::Fshl { a.clone() } else { bb.clone() }) } else { let k = if b == Bi::Fshl { k } else { w - k }; let h = self.bin(Bin::Shl, w, a, &V::C(k as u128)); let l = self.bin(Bin::LShr, w, bb, &V::C((w - k) as u128)); Some(self.bin(Bin::Or, w, &h, &l)) } }
            Bi::Tls => { let a = conc!(0) as u64; let g = (a >> 32) as u32; let key = (st.cur, g); let id = match st.tls.get(&key) { Some(&i) => i, None => { let o = { let mut o = self.build_global(g as usize - 1); o.kind = Kind::Stack; o }; let id = st.nobj; st.nobj += 1; st.put(id, Some(Rc::new(o))); st.tls.insert(key, id); id } }; Some(V::C(((id as u128) << 32) + (a & 0xffff_ffff) as u128)) }
            Bi::IsConst => Some(V::C(0)), Bi::Expect => Some(av[0].clone()), Bi::PtrMask => Some(self.bin(Bin::And, 64, &av[0], &av[1])),
            Bi::Bcmp => { let n = conc!(2) as u64; let (a, bb) = (conc!(0) as u64, conc!(1) as u64); let e = self.bytes_eq(st, a, bb, n)?; let ev = self.v(e); Some(self.select(&ev, 32, &V::C(0), &V::C(1))) }
            Bi::Memcmp => { let n = conc!(2) as u64; let (a, bb) = (conc!(0) as u64, conc!(1) as u64); if n == 0 { return c(0) }
                let (_, ao, oa) = self.where_(st, a, n, false)?; let (_, bo, ob) = self.where_(st, bb, n, false)?; let mut r = self.ar.c(0, 32);
                for i in (0..n as usize).rev() { let x = self.byte(&oa, ao + i); let y = self.byte(&ob, bo + i); let lt = self.ar.bin(B::Ult, x, y); let eq = self.ar.bin(B::Eq, x, y); let m1 = self.ar.c(u32::MAX as u128, 32); let p1 = self.ar.c(1, 32); let o = self.ar.ite(lt, m1, p1); r = self.ar.ite(eq, r, o) }
                Some(self.v(r)) }
            Bi::Strlen => { let a = conc!(0) as u64; let mut n = 0; loop { let v = self.load_n(st, a + n, 1)?; if self.concretize(st, &v)? == 0 { break } n += 1 } Some(V::C(n as u128)) }
            Bi::Malloc => { let n = conc!(0) as u64; let a = self.heap(st, n)?; Some(V::C(a as u128)) }
            Bi::Calloc => { let n = conc!(0) as u64 * conc!(1) as u64; let a = self.heap(st, n)?; Some(V::C(a as u128)) }
            Bi::Memalign => { let n = conc!(2) as u64; let p = conc!(0) as u64; let a = self.heap(st, n)?; self.store_n(st, p, &V::C(a as u128), 8)?; Some(V::C(0)) }
            Bi::Realloc => { let p = conc!(0) as u64; let n = conc!(1) as u64; let a = self.heap(st, n)?; if p != 0 { let id = (p >> 32) as u32; let o = match st.get(id) { Some(o) if o.kind == Kind::Heap && p & 0xffff_ffff == OFF0 => o.clone(), _ => return Err(Stop::Viol("memory".into(), "realloc of invalid pointer".into(), None)) }; self.memcpy(st, a, p, n.min(o.b.len() as u64))?; st.put(id, None); st.heap_live -= 1 } Some(V::C(a as u128)) }
            Bi::Free => { let p = conc!(0) as u64; if p != 0 { let id = (p >> 32) as u32; match st.get(id) { Some(o) if o.kind == Kind::Heap && p & 0xffff_ffff == OFF0 => {} _ => return Err(Stop::Viol("memory".into(), "free of invalid pointer".into(), None)) } st.put(id, None); st.heap_live -= 1 } Some(V::C(0)) }
            Bi::Write => Some(av[2].clone()), Bi::RetNull => Some(V::C(0)), Bi::CxaAtexit => Some(V::C(0)),
            Bi::SymU(sw) => { let (_, e) = self.sym_var(st, sw); st.inputs.push(V::S(e)); Some(V::S(e)) }
            Bi::SymChoice => { let n = conc!(0); if n == 0 || n > 4096 { return Err(Stop::Incon("sym_choice range".into())) }
                // one of several processes: those whose first choices hash elsewhere are not ours
                if st.nch == self.cfg.shard.2 && st.chash % self.cfg.shard.1 != self.cfg.shard.0 { return Err(Stop::Foreign) }
                // all alternatives are explored by direct forking
                let dst_alts: Vec<State> = (1..n).map(|k| { let mut o = st.clone(); self.finish_choice(&mut o, k); o }).collect();
                self.st.forks += n as u64 - 1; for o in dst_alts.into_iter().rev() { self.work.push(o) }
                st.choose(0); st.inputs.push(V::C(0)); Some(V::C(0)) }
            Bi::SymAssume => { let cnd = self.tobool(&av[0], args[0].0.bits()); match cnd { V::C(k) => if k == 0 { return Err(Stop::Pruned) }, V::S(e) => {
                    if self.ar.eval(e, &st.model) != 1 { match self.query(st, e)? { None => return Err(Stop::Pruned), Some(m) => st.model = m } } st.pc.push(e) } _ => {} } Some(V::C(0)) }
            Bi::SymCheck => { let l = self.cstr_arg(st, &av, 1)?; let cnd = self.tobool(&av[0], args[0].0.bits());
                match cnd { V::C(1) => { self.discharge()?; self.st.checks_simpl += 1; self.checked.entry(l).or_default().0 += 1 } V::C(_) => return Err(Stop::Viol("check".into(), l, None)),
                    V::S(e) => { let ne = self.ar.not(e); if let Some(m) = self.query(st, ne)? { return Err(Stop::Viol("check".into(), l, Some(m))) } self.st.checks_solver += 1; self.checked.entry(l).or_default().1 += 1 } _ => {} } Some(V::C(0)) }
            Bi::SymReach => { let l = self.cstr_arg(st, &av, 0)?; *self.reached.entry(l.clone()).or_insert(0) += 1; let i = self.intern(l); st.events.push(EvS::Reach(i)); Some(V::C(0)) }
            Bi::SymNote => { let l = self.cstr_arg(st, &av, 0)?; let i = self.intern(l); st.events.push(EvS::Note(i, av[2].clone(), args[2].0.bits())); Some(V::C(0)) }
            Bi::SymBound => { let l = self.cstr_arg(st, &av, 0)?; return Err(Stop::Incon(format!("harness bound exceeded: {}", l))) }
            Bi::SymBytesEq => { let n = conc!(2) as u64; let (a, bb) = (conc!(0) as u64, conc!(1) as u64); let e = self.bytes_eq(st, a, bb, n)?; let x = self.ar.zext(e, w.max(1)); Some(self.v(x)) }
            Bi::SymWidth | Bi::SymIs => Some(V::C(1)),
            Bi::SymAnd => Some(self.bin(Bin::And, w, &av[0], &av[1])),
            Bi::SymSpawn => { let f = conc!(0) as u64; let fid = ((f - FN_BASE) / 16) as u32; let fr = self.frame(fid, vec![av[1].clone()]); st.th.push(Thread { frames: vec![fr], done: false, joining: None, futex: None }); Some(V::C(st.th.len() as u128 - 1)) }
            Bi::SymJoin => { let t = conc!(0) as usize; if st.th[t].done { return c(0) }
                // block: retry the call once the target finished
                st.th[st.cur].joining = Some(t); let rs: Vec<usize> = (0..st.th.len()).filter(|&t| st.runnable(t)).collect(); if rs.is_empty() { return Err(Stop::Viol("deadlock".into(), "join".into(), None)) }
                for &t in &rs[1..] { let mut o = st.clone(); o.cur = t; o.sched_ok = true; o.sched.push(t as u8); self.st.forks += 1; self.work.push(o) }
                st.cur = rs[0]; st.sched.push(rs[0] as u8); st.sched_ok = true; None }
            // only hash seeds use it: any fixed value stands for all of them
            Bi::KeyCreate => { let p = conc!(0) as u64; self.store_n(st, p, &V::C(1), 4)?; Some(V::C(0)) }
            Bi::GetRandom => { let (p, n) = (conc!(0) as u64, conc!(1) as u64); for i in 0..n { self.store_n(st, p + i, &V::C(0x5a), 1)? } Some(V::C(n as u128)) }
            Bi::Syscall => { if conc!(0) != 202 { return Err(Stop::Incon(format!("system call {}", conc!(0)))) }
                let (p, op, val) = (conc!(1) as u64, conc!(2) as u64 & 0x7f, conc!(3) as u64 & 0xffff_ffff);
                match op {
                    0 | 9 => { let v = self.load_n(st, p, 4)?; if self.concretize(st, &v)? as u64 != val { return c(mask(w)) }
                        // sleeps until woken
                        let cur = st.cur; st.th[cur].futex = Some(p); let rs: Vec<usize> = (0..st.th.len()).filter(|&t| st.runnable(t)).collect(); if rs.is_empty() { return Err(Stop::Viol("deadlock".into(), "futex".into(), None)) }
                        let fr = st.fr(); let ci = &fr.f.blocks[fr.blk as usize].insts[fr.ip as usize]; let (dst, inv) = match &ci.i { I::Call(_, _, _, inv) => (ci.dst, *inv), _ => unreachable!() }; if dst != NODST { fr.regs[dst as usize] = V::C(0) } if let Some((n, _)) = inv { self.jump(st, n) } else { st.fr().ip += 1 }
                        for &t in &rs[1..] { let mut o = st.clone(); o.cur = t; o.sched_ok = true; o.sched.push(t as u8); self.st.forks += 1; self.work.push(o) }
                        st.cur = rs[0]; st.sched.push(rs[0] as u8); st.sched_ok = true; None }
                    1 | 10 => { let mut n = 0; for t in &mut st.th { if n < val && t.futex == Some(p) { t.futex = None; n += 1 } } st.wrote = true; Some(V::C(n as u128)) }
                    _ => return Err(Stop::Incon("futex operation".into())) } }
            Bi::None => unreachable!(),
        })
    }
    fn finish_choice(&mut self, o: &mut State, k: u128) { o.choose(k as u64); o.inputs.push(V::C(k)); let fr = o.fr(); let ci = &fr.f.blocks[fr.blk as usize].insts[fr.ip as usize]; let (dst, inv) = match &ci.i { I::Call(_, _, _, inv) => (ci.dst, *inv), _ => unreachable!() }; if dst != NODST { fr.regs[dst as usize] = V::C(k) } if let Some((n, _)) = inv { self.jump(o, n) } else { fr.ip += 1 } }
    fn cstr_arg(&mut self, st: &mut State, av: &[V], i: usize) -> R<String> { let p = self.concretize(st, &av[i])? as u64; let n = self.concretize(st, &av[i + 1])? as u64; self.cstr(st, p, n) }
    fn tobool(&mut self, v: &V, w: u32) -> V { if w == 1 { return match v { V::S(e) => self.v(*e), v => v.clone() } } self.icmp(Pred::Ne, w, v, &V::C(0)) }
    /// The i-th symbolic input of width w is the same variable on every path.
    fn sym_var(&mut self, st: &State, w: u32) -> (u32, E) { let i = st.inputs.len() as u32; if let Some(V::S(e)) = self.frozen.get(&(i, w)) { return (0, *e) } let (id, e) = self.ar.new_var(w); self.frozen.insert((i, w), V::S(e)); (id, e) }
    fn heap(&mut self, st: &mut State, n: u64) -> R<u64> { if n > 1 << 26 { return Err(Stop::Incon(format!("allocation of {} bytes", n))) } st.heap_live += 1; Ok(self.new_obj(st, n, Kind::Heap)) }
}
fn insert(a: V, x: V, ix: &[u32]) -> V { match a { V::A(mut v) => { let vv = Rc::make_mut(&mut v); let i = ix[0] as usize; if ix.len() == 1 { vv[i] = x } else { let o = vv[i].clone(); vv[i] = insert(o, x, &ix[1..]) } V::A(v) } _ => panic!("insert into scalar") } }
fn ext_s(v: u128, w: u32) -> u128 { let s = 128 - w; (((v << s) as i128) >> s) as u128 }
impl V { fn low8(self, e: &mut Eng) -> V { match self { V::C(k) => V::C(k & 255), V::S(x) => { let y = e.ar.ext(x, 0, 8); e.v(y) } v => v } } }
impl State {
    fn choose(&mut self, k: u64) { if self.nch < 64 { self.chash = (self.chash ^ (k + 1)).wrapping_mul(0x9E3779B97F4A7C15); self.chash ^= self.chash >> 29 } self.nch += 1 }
    fn fr(&mut self) -> &mut Frame { let c = self.cur; self.th[c].frames.last_mut().unwrap() }
    fn get(&self, id: u32) -> Option<&Rc<Obj>> { self.mem.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref()) }
    fn get_mut(&mut self, id: u32) -> &mut Obj { Rc::make_mut(Rc::make_mut(&mut self.mem[id as usize / CH])[id as usize % CH].as_mut().unwrap()) }
    fn put(&mut self, id: u32, o: Option<Rc<Obj>>) { let c = id as usize / CH; while self.mem.len() <= c { self.mem.push(Rc::new(vec![None; CH])) } Rc::make_mut(&mut self.mem[c])[id as usize % CH] = o }
    fn runnable(&self, t: usize) -> bool { let x = &self.th[t]; !x.done && x.futex.is_none() && x.joining.map_or(true, |j| self.th[j].done) }
}
#[allow(unused)] fn _u(_: &BTreeSet<u32>, _: ir::Rmw) {}
