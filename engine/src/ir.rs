//! Textual LLVM IR reader.  Function bodies are parsed on first use.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Struct(Rc<[Ty]>, bool), Vec(u64, Rc<Ty>), Meta, Opaque }

impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u32 * t.bits(), _ => 0 } }
    pub fn align(&self) -> u64 { match self {
        Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(_, t) => t.align(),
        Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        Ty::Vec(n, t) => (n * t.bits() as u64 / 8).max(1).next_power_of_two(), _ => 1 } }
    pub fn size(&self) -> u64 { match self {
        Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
        Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Arr(n, t) => n * t.size(),
        Ty::Struct(f, p) => { let mut o = 0; for t in f.iter() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); } let a = self.align(); (o + a - 1) / a * a }
        Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8, _ => 0 } }
    pub fn field_off(&self, i: u64) -> u64 { match self {
        Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { if !*p { let a = t.align(); o = (o + a - 1) / a * a; } if k as u64 == i { return o; } o += t.size(); } panic!("field index") }
        Ty::Arr(_, t) | Ty::Vec(_, t) => i * t.size(), _ => panic!("field_off") } }
    pub fn elem(&self, i: u64) -> Ty { match self { Ty::Struct(f, _) => f[i as usize].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("elem of {:?}", self) } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) }
    pub fn len(&self) -> u64 { match self { Ty::Struct(f, _) => f.len() as u64, Ty::Arr(n, _) | Ty::Vec(n, _) => *n, _ => panic!("len") } }
}

/// Constants, before addresses are assigned.
#[derive(Clone, Debug)]
pub enum K { Int(u128), Zero, Undef, Sym(String, i64), Bytes(Vec<u8>), Agg(Vec<(Ty, K)>), }

/// An undefined or zero aggregate, member by member.
fn spread(t: &Ty, k: &K) -> K { if t.is_agg() { K::Agg((0..t.len()).map(|i| { let e = t.elem(i); let v = spread(&e, k); (e, v) }).collect()) } else { k.clone() } }

#[derive(Clone, Debug)]
pub enum Op { Reg(u32), K(K), Lit(u128), /* resolved agg constant */ Agg(Rc<crate::exec::V>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, PtrInt, FPExt, FPTrunc, UIToFP, SIToFP, FPToUI, FPToSI }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand }

#[derive(Clone, Debug)]
pub enum Callee { Named(u32), Op(Op), Asm }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, u32, Op, Op), ICmp(Pred, u32, Op, Op), VICmp(Pred, Ty, Op, Op), Cast(Cast, Ty, Op, Ty), Select(Ty, Op, Op, Op),
    Alloca(u64, Op), Load(Ty, Op, bool), Store(Ty, Op, Op, bool),
    Gep(Op, u64, Vec<(Op, u64, u32)>), // base, const offset, (index, scale, index width)
    Call(Callee, Vec<(Ty, Op)>, Ty, Option<(u32, u32)>), // invoke: normal, unwind
    ExtractV(Op, Vec<u32>), InsertV(Ty, Op, Op, Vec<u32>),
    Br(u32), CondBr(Op, u32, u32), Switch(u32, Op, Vec<(u128, u32)>, u32), Ret(Option<Op>), Unreachable, Resume,
    Rmw(Rmw, Ty, Op, Op), CmpXchg(Ty, Op, Op, Op), Fence, Freeze(Op), LandingPad,
    InsertE(Ty, Op, Op, Op), ExtractE(Ty, Op, Op), Shuffle(Ty, Op, Op, Op), FCmp(String, Ty, Op, Op), FBin(String, Ty, Op, Op), FNeg(Ty, Op), Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub dbg: u32, pub i: I }
pub const NODST: u32 = u32::MAX;
#[derive(Clone, Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(Op, u32)>)>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block> }

pub struct Global { pub name: String, pub ty: Ty, pub init: Option<K>, pub constant: bool, pub tls: bool, pub section: Option<String>, pub align: u64 }
pub struct FnInfo { pub name: String, pub pretty: String, pub lines: Option<(usize, usize)>, pub parsed: Option<Rc<Func>>, pub dbg: u32 }

pub struct Module {
    pub text: &'static str,
    pub line_start: Vec<usize>,
    pub globals: Vec<Global>,
    pub gindex: HashMap<String, u32>,
    pub fns: Vec<FnInfo>,
    pub findex: HashMap<String, u32>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub aliases: Vec<(String, String)>,
}

// ---------------------------------------------------------------- lexer
pub struct Lx<'a> { s: &'a [u8], p: usize }
#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> { Word(&'a str), Local(String), Global(String), Num(&'a str), Str(Vec<u8>), CStr(Vec<u8>), Meta(&'a str), P(u8), Ell, End }
fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }
impl<'a> Lx<'a> {
    pub fn new(s: &'a str) -> Self { Lx { s: s.as_bytes(), p: 0 } }
    fn ws(&mut self) { while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\t' | b'\n' | b'\r') { self.p += 1 } if self.p < self.s.len() && self.s[self.p] == b';' { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1 } self.ws() } }
    fn quoted(&mut self) -> Vec<u8> { // at opening quote
        self.p += 1; let mut v = vec![];
        while self.s[self.p] != b'"' { if self.s[self.p] == b'\\' { if self.s[self.p + 1] == b'\\' { v.push(b'\\'); self.p += 2 } else { v.push(u8::from_str_radix(std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap(), 16).unwrap()); self.p += 3 } } else { v.push(self.s[self.p]); self.p += 1 } }
        self.p += 1; v
    }
    fn ident(&mut self) -> &'a str { let b = self.p; while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1 } unsafe { std::str::from_utf8_unchecked(&self.s[b..self.p]) } }
    pub fn next(&mut self) -> T<'a> {
        self.ws(); if self.p >= self.s.len() { return T::End }
        let c = self.s[self.p];
        match c {
            b'%' | b'@' => { self.p += 1; let n = if self.s[self.p] == b'"' { String::from_utf8(self.quoted()).unwrap() } else { self.ident().to_string() }; if c == b'%' { T::Local(n) } else { T::Global(n) } }
            b'!' => { self.p += 1; if self.p < self.s.len() && self.s[self.p] == b'"' { T::Str(self.quoted()) } else { T::Meta(self.ident()) } }
            b'#' => { self.p += 1; T::Meta(self.ident()) }
            b'"' => T::Str(self.quoted()),
            b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; T::Ell }
            b'-' | b'0'..=b'9' => { let b = self.p; self.p += 1; while self.p < self.s.len() && (is_id(self.s[self.p]) || self.s[self.p] == b'+') { self.p += 1 } T::Num(unsafe { std::str::from_utf8_unchecked(&self.s[b..self.p]) }) }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => { self.p += 1; T::CStr(self.quoted()) }
            _ if is_id(c) => T::Word(self.ident()),
            _ => { self.p += 1; T::P(c) }
        }
    }
    pub fn peek(&mut self) -> T<'a> { let p = self.p; let t = self.next(); self.p = p; t }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.p < self.s.len() && self.s[self.p] == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.fail(&format!("expected '{}'", c as char)) } }
    fn eatw(&mut self, w: &str) -> bool { let p = self.p; if let T::Word(x) = self.next() { if x == w { return true } } self.p = p; false }
    fn word(&mut self) -> &'a str { match self.next() { T::Word(w) => w, t => { self.fail(&format!("expected word, got {:?}", t)) } } }
    fn fail(&self, m: &str) -> ! { let a = self.p.saturating_sub(120); let b = (self.p + 80).min(self.s.len()); panic!("IR parse: {} near `{}` >>> `{}`", m, String::from_utf8_lossy(&self.s[a..self.p]), String::from_utf8_lossy(&self.s[self.p..b])) }
    fn skip_parens(&mut self) { self.expect(b'('); let mut d = 1; while d > 0 { match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::End => self.fail("eof in parens"), _ => {} } } }
    fn rest_empty(&mut self) -> bool { self.ws(); self.p >= self.s.len() }
}

fn parse_int(s: &str) -> u128 { if let Some(h) = s.strip_prefix('-') { (h.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse::<u128>().unwrap() } }
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }

pub fn try_ty(l: &mut Lx) -> Option<Ty> {
    let p = l.p;
    let r = match l.next() {
        T::Word("void") => Ty::Void, T::Word("ptr") => { if l.eatw("addrspace") { l.skip_parens() } Ty::Ptr } T::Word("float") => Ty::F32, T::Word("double") => Ty::F64,
        T::Word("metadata") => Ty::Meta, T::Word("x86_fp80" | "token" | "label" | "half" | "fp128" | "bfloat") => Ty::Opaque,
        T::Word(w) if w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
        T::P(b'[') => { let n = match l.next() { T::Num(n) => n.parse().unwrap(), _ => { l.p = p; return None } }; if !l.eatw("x") { l.p = p; return None } let t = ty(l); l.expect(b']'); Ty::Arr(n, Rc::new(t)) }
        T::P(b'{') => { let f = fields(l, b'}'); Ty::Struct(f.into(), false) }
        T::P(b'<') => { if l.eat(b'{') { let f = fields(l, b'}'); l.expect(b'>'); Ty::Struct(f.into(), true) } else { let n = match l.next() { T::Num(n) => n.parse().unwrap(), _ => { l.p = p; return None } }; if !l.eatw("x") { l.p = p; return None } let t = ty(l); l.expect(b'>'); Ty::Vec(n, Rc::new(t)) } }
        _ => { l.p = p; return None }
    };
    Some(r)
}
fn fields(l: &mut Lx, end: u8) -> Vec<Ty> { let mut v = vec![]; if l.eat(end) { return v } loop { v.push(ty(l)); if l.eat(b',') { continue } l.expect(end); return v } }
pub fn ty(l: &mut Lx) -> Ty { match try_ty(l) { Some(t) => t, None => l.fail("type") } }

/// Skip parameter/return attributes preceding a value.
fn attrs(l: &mut Lx) {
    loop {
        let p = l.p;
        match l.next() {
            T::Word(w) => match w {
                "noundef" | "nonnull" | "noalias" | "nofree" | "nocapture" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg" | "returned" | "immarg" | "nest" | "swiftself" | "swifterror" | "allocptr" | "allocalign" | "dead_on_unwind" | "writable" | "dead_on_return" | "noext" | "noreturn" | "nounwind" => {}
                "align" => { if l.peek() == T::P(b'(') { l.skip_parens() } else { l.next(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "captures" | "range" | "initializes" | "elementtype" | "nofpclass" | "inalloca" | "preallocated" | "byref" | "dead_on_return_bytes" | "memory" => { if l.peek() == T::P(b'(') { l.skip_parens() } }
                _ => { l.p = p; return }
            },
            T::Str(_) => { if l.eat(b'=') { l.next(); } }
            _ => { l.p = p; return }
        }
    }
}

/// constant of type t
fn konst(l: &mut Lx, t: &Ty) -> K {
    match l.next() {
        T::Num(n) => match t {
            Ty::F64 => K::Int(float_lit(n, true)), Ty::F32 => K::Int(float_lit(n, false)),
            _ => K::Int(parse_int(n) & mask(t.bits())),
        },
        T::Word(w) => match w {
            "true" => K::Int(1), "false" => K::Int(0), "null" | "none" => K::Int(0), "undef" | "poison" => K::Undef, "zeroinitializer" => K::Zero,
            "getelementptr" => {
                while let T::Word(w) = l.peek() { if w == "inbounds" || w == "nuw" || w == "nusw" { l.next(); } else if w == "inrange" { l.next(); l.skip_parens() } else { break } }
                l.expect(b'('); let et = ty(l); l.expect(b','); let bt = ty(l); let base = konst(l, &bt);
                let mut cur = et; let mut off = 0i64; let mut first = true;
                while l.eat(b',') { let it = ty(l); let k = match konst(l, &it) { K::Int(v) => sext(v, it.bits()), K::Zero | K::Undef => 0, _ => l.fail("gep idx") };
                    if first { off += k * cur.size() as i64; first = false } else { off += cur.field_off(k as u64) as i64; cur = cur.elem(k as u64) } }
                l.expect(b')');
                match base { K::Sym(s, o) => K::Sym(s, o + off), K::Int(v) => K::Int(v.wrapping_add(off as u64 as u128) & mask(64)), _ => l.fail("gep base") }
            }
            "inttoptr" | "ptrtoint" | "bitcast" => { l.expect(b'('); let t1 = ty(l); let k = konst(l, &t1); if !l.eatw("to") { l.fail("to") } ty(l); l.expect(b')'); k }
            "splat" => { l.expect(b'('); let t1 = ty(l); let k = konst(l, &t1); l.expect(b')'); K::Agg((0..t.len()).map(|_| (t1.clone(), k.clone())).collect()) }
            "blockaddress" | "dso_local_equivalent" | "no_cfi" => l.fail("unsupported const"),
            _ => l.fail(&format!("const word {}", w)),
        },
        T::Global(g) => K::Sym(g, 0),
        T::CStr(b) => K::Bytes(b),
        T::P(b'[') => K::Agg(list(l, b']')),
        T::P(b'{') => K::Agg(list(l, b'}')),
        T::P(b'<') => { if l.eat(b'{') { let v = list(l, b'}'); l.expect(b'>'); K::Agg(v) } else { K::Agg(list(l, b'>')) } }
        x => l.fail(&format!("const {:?}", x)),
    }
}
fn list(l: &mut Lx, end: u8) -> Vec<(Ty, K)> { let mut v = vec![]; if l.eat(end) { return v } loop { let t = ty(l); let k = konst(l, &t); v.push((t, k)); if l.eat(b',') { continue } l.expect(end); return v } }
fn sext(v: u128, w: u32) -> i64 { let s = 128 - w; (((v << s) as i128) >> s) as i64 }
fn float_lit(n: &str, dbl: bool) -> u128 {
    if let Some(h) = n.strip_prefix("0x") { let b = u64::from_str_radix(h, 16).expect("float hex"); if dbl { b as u128 } else { (f64::from_bits(b) as f32).to_bits() as u128 } }
    else { let v: f64 = n.parse().unwrap(); if dbl { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 } }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {}: {}", path, e)).into_boxed_str());
        let mut line_start = vec![0];
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { line_start.push(i + 1) } }
        let mut m = Module { text, line_start, globals: vec![], gindex: HashMap::new(), fns: vec![], findex: HashMap::new(), meta: HashMap::new(), aliases: vec![] };
        let n = m.line_start.len() - 1;
        let mut i = 0; let mut pretty = String::new();
        while i < n {
            let s = m.line(i);
            if s.starts_with("; ") { if !s.starts_with("; Function Attrs") && !s.starts_with("; ModuleID") { pretty = s[2..].to_string() } }
            else if s.starts_with('@') { m.global(s); pretty.clear() }
            else if s.starts_with("define") {
                let at = s.find(" @").unwrap(); let mut l = Lx::new(&s[at + 1..]); let name = match l.next() { T::Global(g) => g, _ => panic!("define name") };
                let dbg = s.rfind("!dbg !").map(|p| s[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0)).unwrap_or(0);
                let b = i; while m.line(i) != "}" { i += 1 }
                let id = m.fns.len() as u32; m.findex.insert(name.clone(), id);
                m.fns.push(FnInfo { name, pretty: std::mem::take(&mut pretty), lines: Some((b, i)), parsed: None, dbg });
            }
            else if s.starts_with("declare") {
                let at = s.find(" @").unwrap(); let mut l = Lx::new(&s[at + 1..]); let name = match l.next() { T::Global(g) => g, _ => panic!() };
                let id = m.fns.len() as u32; m.findex.insert(name.clone(), id); m.fns.push(FnInfo { name, pretty: std::mem::take(&mut pretty), lines: None, parsed: None, dbg: 0 });
            }
            else if s.starts_with('!') { let e = s[1..].find(|c: char| !c.is_ascii_digit()).unwrap_or(0); if e > 0 { m.meta.insert(s[1..1 + e].parse().unwrap(), (m.line_start[i], m.line_start[i + 1] - 1)); } }
            else if s.is_empty() { pretty.clear() }
            i += 1;
        }
        for (a, s) in m.aliases.clone() { if let Some(&f) = m.findex.get(&s) { m.findex.insert(a, f); } else if let Some(&g) = m.gindex.get(&s) { m.gindex.insert(a, g); } }
        m
    }
    pub fn line(&self, i: usize) -> &'static str { &self.text[self.line_start[i]..self.line_start[i + 1] - 1] }
    fn global(&mut self, s: &'static str) {
        let mut l = Lx::new(s); let name = match l.next() { T::Global(g) => g, _ => panic!() }; l.expect(b'=');
        let (mut tls, mut ext, mut constant) = (false, false, false);
        loop { match l.next() { T::Word(w) => match w { "thread_local" => { tls = true; if l.peek() == T::P(b'(') { l.skip_parens() } } "external" | "extern_weak" => ext = true, "constant" => { constant = true; break } "global" => break, "alias" | "ifunc" => { return self.alias(name, l) } "addrspace" => l.skip_parens(), _ => {} }, t => panic!("global {:?} {}", t, s) } }
        let t = ty(&mut l);
        let init = if ext { None } else { Some(konst(&mut l, &t)) };
        let (mut section, mut align) = (None, t.align());
        while l.eat(b',') { match l.next() { T::Word("section") => if let T::Str(b) = l.next() { section = Some(String::from_utf8(b).unwrap()) }, T::Word("align") => if let T::Num(n) = l.next() { align = n.parse().unwrap() }, T::Word("comdat") => { if l.peek() == T::P(b'(') { l.skip_parens() } } T::Meta(_) => { l.next(); } _ => {} } }
        self.gindex.insert(name.clone(), self.globals.len() as u32);
        self.globals.push(Global { name, ty: t, init, constant, tls, section, align });
    }
    fn alias(&mut self, name: String, mut l: Lx) { let _ = ty(&mut l); l.expect(b','); let t = ty(&mut l); if let K::Sym(s, 0) = konst(&mut l, &t) { self.aliases.push((name, s)) } }

    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.fns[id as usize].parsed { return f.clone() }
        let (b, e) = self.fns[id as usize].lines.unwrap_or_else(|| panic!("no body for {}", self.fns[id as usize].name));
        let f = Rc::new(self.parse_func(id, b, e));
        self.fns[id as usize].parsed = Some(f.clone()); f
    }
    fn parse_func(&self, id: u32, b: usize, e: usize) -> Func {
        let mut fp = FP { m: self, regs: HashMap::new(), labels: HashMap::new(), blocks: vec![] };
        let h = self.line(b); let at = h.find(" @").unwrap(); let mut l = Lx::new(&h[at + 1..]); l.next(); l.expect(b'(');
        let mut params = vec![]; let mut n = 0u32;
        if !l.eat(b')') { loop {
            if l.peek() == T::Ell { l.next(); l.expect(b')'); break }
            let _t = ty(&mut l); attrs(&mut l);
            let nm = match l.peek() { T::Local(s) => { l.next(); s } _ => { let s = n.to_string(); s } };
            if nm.bytes().all(|c| c.is_ascii_digit()) { n = nm.parse::<u32>().unwrap() + 1 }
            params.push(fp.reg(nm));
            if l.eat(b',') { continue } l.expect(b')'); break } }
        // entry label
        let mut i = b + 1; let mut cur;
        { let s = self.line(i); let lab = label_of(s); match lab { Some(x) => { cur = fp.label(x); i += 1 } None => { cur = fp.label(n.to_string()) } } }
        assert_eq!(cur, 0);
        while i < e {
            let s = self.line(i);
            if s.is_empty() || s.starts_with(';') { i += 1; continue }
            if let Some(x) = label_of(s) { cur = fp.label(x); i += 1; continue }
            // join continuation lines
            let t = s.trim_start(); let mut owned: Option<String> = None;
            if t.starts_with("#dbg") { i += 1; continue }
            if t.starts_with("switch") && s.ends_with('[') { let mut o = s.to_string(); loop { i += 1; let q = self.line(i); o.push(' '); o.push_str(q); if q.trim_start().starts_with(']') { break } } owned = Some(o) }
            else if t.contains("landingpad ") { let mut o = s.to_string(); while { let q = self.line(i + 1).trim_start(); q.starts_with("cleanup") || q.starts_with("catch") || q.starts_with("filter") } { i += 1; o.push(' '); o.push_str(self.line(i)); } owned = Some(o) }
            else if t.contains("invoke ") { let q = self.line(i + 1); if q.trim_start().starts_with("to label") { i += 1; owned = Some(format!("{} {}", s, q)) } }
            let src: &str = owned.as_deref().unwrap_or(s);
            fp.inst(src, cur);
            i += 1;
        }
        let nregs = fp.regs.len() as u32;
        Func { id, params, nregs, blocks: fp.blocks }
    }
}
fn label_of(s: &str) -> Option<String> {
    if s.starts_with(' ') || s.starts_with(';') || s.starts_with('}') { return None }
    if s.starts_with('"') { let mut l = Lx::new(s); if let T::Str(b) = l.next() { return Some(String::from_utf8(b).unwrap()) } return None }
    s.find(':').map(|p| s[..p].to_string())
}

struct FP<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32>, blocks: Vec<Block> }
impl<'m> FP<'m> {
    fn reg(&mut self, s: String) -> u32 { let n = self.regs.len() as u32; *self.regs.entry(s).or_insert(n) }
    fn label(&mut self, s: String) -> u32 { if let Some(&x) = self.labels.get(&s) { return x } let n = self.blocks.len() as u32; self.labels.insert(s, n); self.blocks.push(Block::default()); n }
    fn val(&mut self, l: &mut Lx, t: &Ty) -> Op {
        if let T::Local(s) = l.peek() { l.next(); return Op::Reg(self.reg(s)) }
        match konst(l, t) {
            K::Int(v) => Op::Lit(v),
            k @ (K::Undef | K::Zero) => if t.is_agg() { Op::K(spread(t, &k)) } else { Op::Lit(0) },
            K::Bytes(b) => Op::K(K::Agg(b.iter().map(|x| (Ty::Int(8), K::Int(*x as u128))).collect())),
            k => Op::K(k),
        }
    }
    fn tval(&mut self, l: &mut Lx) -> (Ty, Op) { let t = ty(l); attrs(l); let v = self.val(l, &t); (t, v) }
    fn lab(&mut self, l: &mut Lx) -> u32 { if !l.eatw("label") { l.fail("label") } match l.next() { T::Local(s) => self.label(s), _ => l.fail("label name") } }
    fn inst(&mut self, s: &str, cur: u32) {
        let mut l = Lx::new(s); let mut dst = NODST;
        if let T::Local(n) = l.peek() { l.next(); l.expect(b'='); dst = self.reg(n) }
        let mut w = l.word();
        while matches!(w, "tail" | "musttail" | "notail") { w = l.word() }
        use Bin::*;
        let skip_flags = |l: &mut Lx| { loop { let p = l.p; match l.next() { T::Word("nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") => {} _ => { l.p = p; break } } } };
        let i = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                skip_flags(&mut l); let t = ty(&mut l); let a = self.val(&mut l, &t); l.expect(b','); let b = self.val(&mut l, &t);
                if matches!(t, Ty::Vec(..)) { I::Unsupported(s.to_string()) } else {
                I::Bin(match w { "add" => Add, "sub" => Sub, "mul" => Mul, "udiv" => UDiv, "sdiv" => SDiv, "urem" => URem, "srem" => SRem, "shl" => Shl, "lshr" => LShr, "ashr" => AShr, "and" => And, "or" => Or, _ => Xor }, t.bits(), a, b) }
            }
            "icmp" => { skip_flags(&mut l); let p = match l.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => l.fail(x) };
                let t = ty(&mut l); let a = self.val(&mut l, &t); l.expect(b','); let b = self.val(&mut l, &t); if matches!(t, Ty::Vec(..)) { I::VICmp(p, t, a, b) } else { I::ICmp(p, t.bits(), a, b) } }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => { skip_flags(&mut l); let t = ty(&mut l); let a = self.val(&mut l, &t); l.expect(b','); let b = self.val(&mut l, &t); if matches!(t, Ty::Vec(..)) { I::Unsupported(s.to_string()) } else { I::FBin(w.to_string(), t, a, b) } }
            "fneg" => { skip_flags(&mut l); let (t, a) = self.tval(&mut l); if matches!(t, Ty::Vec(..)) { I::Unsupported(s.to_string()) } else { I::FNeg(t, a) } }
            "fcmp" => { skip_flags(&mut l); let p = l.word().to_string(); let t = ty(&mut l); let a = self.val(&mut l, &t); l.expect(b','); let b = self.val(&mut l, &t); I::FCmp(p, t, a, b) }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" | "uitofp" | "sitofp" | "fptoui" | "fptosi" => { skip_flags(&mut l); let (t, v) = self.tval(&mut l); if !l.eatw("to") { l.fail("to") } let d = ty(&mut l);
                let c = match w { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::Bit, "fpext" => Cast::FPExt, "fptrunc" => Cast::FPTrunc, "uitofp" => Cast::UIToFP, "sitofp" => Cast::SIToFP, "fptoui" => Cast::FPToUI, "fptosi" => Cast::FPToSI, _ => Cast::PtrInt };
                I::Cast(c, t, v, d) }
            "select" => { skip_flags(&mut l); let (ct, c) = self.tval(&mut l); l.expect(b','); let (t, a) = self.tval(&mut l); l.expect(b','); let (_, b) = self.tval(&mut l); if matches!(ct, Ty::Vec(..)) { I::Unsupported(s.into()) } else { I::Select(t, c, a, b) } }
            "alloca" => { l.eatw("inalloca"); let t = ty(&mut l); let mut cnt = Op::Lit(1); while l.eat(b',') { match l.peek() { T::Word("align") => { l.next(); l.next(); } T::Meta(_) => break, _ => { let (_, v) = self.tval(&mut l); cnt = v } } } I::Alloca(t.size(), cnt) }
            "load" => { let at = l.eatw("atomic"); l.eatw("volatile"); let t = ty(&mut l); l.expect(b','); let (_, p) = self.tval(&mut l); I::Load(t, p, at) }
            "store" => { let at = l.eatw("atomic"); l.eatw("volatile"); let (t, v) = self.tval(&mut l); l.expect(b','); let (_, p) = self.tval(&mut l); I::Store(t, v, p, at) }
            "getelementptr" => {
                while let T::Word(x) = l.peek() { if matches!(x, "inbounds" | "nuw" | "nusw") { l.next(); } else { break } }
                let et = ty(&mut l); l.expect(b','); let (bt, base) = self.tval(&mut l); if matches!(bt, Ty::Vec(..)) { l.fail("vector gep") }
                let mut cur = et; let mut first = true; let mut off = 0u64; let mut idx = vec![];
                while l.eat(b',') { if let T::Meta(_) = l.peek() { break }
                    let (it, v) = self.tval(&mut l);
                    if first { first = false; match v { Op::Lit(k) => off = off.wrapping_add((sext(k, it.bits()) as u64).wrapping_mul(cur.size())), v => idx.push((v, cur.size(), it.bits())) } }
                    else { match v { Op::Lit(k) => { let k = sext(k, it.bits()) as u64; off = off.wrapping_add(cur.field_off(k)); cur = cur.elem(k) } v => { let e = cur.elem(0); idx.push((v, e.size(), it.bits())); cur = e } } } }
                I::Gep(base, off, idx)
            }
            "call" | "invoke" => {
                skip_flags(&mut l);
                while let T::Word(x) = l.peek() { if matches!(x, "fastcc" | "coldcc" | "ccc" | "cc" | "tailcc") || x.ends_with("cc") { l.next(); } else { break } }
                attrs(&mut l); let rt = ty(&mut l);
                if l.eat(b'(') { /* function type for varargs */ l.p -= 1; l.skip_parens(); }
                let callee = match l.peek() {
                    T::Word("asm") => { loop { match l.next() { T::Str(_) => break, _ => {} } } l.expect(b','); l.next(); Callee::Asm }
                    T::Global(g) => { l.next(); Callee::Named(*self.m.findex.get(&g).unwrap_or_else(|| panic!("unknown function {}", g))) }
                    _ => Callee::Op(self.val(&mut l, &Ty::Ptr)),
                };
                l.expect(b'('); let mut args = vec![];
                if !l.eat(b')') { loop {
                    let t = ty(&mut l);
                    if t == Ty::Meta { // skip metadata operand
                        let mut d = 0; loop { let p = l.p; match l.next() { T::P(b'(' | b'{') => d += 1, T::P(b')') if d == 0 => { l.p = p; break } T::P(b')' | b'}') => d -= 1, T::P(b',') if d == 0 => { l.p = p; break } _ => {} } }
                        args.push((t, Op::Lit(0)));
                    } else { attrs(&mut l); let v = self.val(&mut l, &t); args.push((t, v)); }
                    if l.eat(b',') { continue } l.expect(b')'); break } }
                let inv = if w == "invoke" { loop { let p = l.p; match l.next() { T::Word("to") => { l.p = p; break } T::End => l.fail("invoke"), _ => {} } } l.eatw("to"); let a = self.lab(&mut l); l.eatw("unwind"); let b = self.lab(&mut l); Some((a, b)) } else { None };
                I::Call(callee, args, rt, inv)
            }
            "extractvalue" => { let (_, v) = self.tval(&mut l); let mut ix = vec![]; while l.eat(b',') { match l.next() { T::Num(n) => ix.push(n.parse().unwrap()), _ => break } } I::ExtractV(v, ix) }
            "insertvalue" => { let (t, v) = self.tval(&mut l); l.expect(b','); let (_, x) = self.tval(&mut l); let mut ix = vec![]; while l.eat(b',') { match l.next() { T::Num(n) => ix.push(n.parse().unwrap()), _ => break } } I::InsertV(t, v, x, ix) }
            "br" => { if l.peek() == T::Word("label") { I::Br(self.lab(&mut l)) } else { let (_, c) = self.tval(&mut l); l.expect(b','); let a = self.lab(&mut l); l.expect(b','); let b = self.lab(&mut l); I::CondBr(c, a, b) } }
            "switch" => { let (t, v) = self.tval(&mut l); l.expect(b','); let d = self.lab(&mut l); l.expect(b'['); let mut cs = vec![]; while !l.eat(b']') { let ct = ty(&mut l); let k = match konst(&mut l, &ct) { K::Int(k) => k, _ => l.fail("case") }; l.expect(b','); cs.push((k, self.lab(&mut l))) } I::Switch(t.bits(), v, cs, d) }
            "ret" => { let t = ty(&mut l); if t == Ty::Void { I::Ret(None) } else { I::Ret(Some(self.val(&mut l, &t))) } }
            "unreachable" => I::Unreachable,
            "resume" => I::Resume,
            "phi" => { skip_flags(&mut l); let t = ty(&mut l); let mut inc = vec![]; loop { l.expect(b'['); let v = self.val(&mut l, &t); l.expect(b','); let b = match l.next() { T::Local(s) => self.label(s), _ => l.fail("phi") }; l.expect(b']'); inc.push((v, b)); let p = l.p; if l.eat(b',') { if l.peek() == T::P(b'[') { continue } } l.p = p; break }
                self.blocks[cur as usize].phis.push((dst, inc)); return }
            "atomicrmw" => { l.eatw("volatile"); let o = match l.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, "nand" => Rmw::Nand, x => l.fail(x) }; let (_, p) = self.tval(&mut l); l.expect(b','); let (t, v) = self.tval(&mut l); I::Rmw(o, t, p, v) }
            "cmpxchg" => { l.eatw("weak"); l.eatw("volatile"); let (_, p) = self.tval(&mut l); l.expect(b','); let (t, c) = self.tval(&mut l); l.expect(b','); let (_, n) = self.tval(&mut l); I::CmpXchg(t, p, c, n) }
            "fence" => I::Fence,
            "freeze" => { let (_, v) = self.tval(&mut l); I::Freeze(v) }
            "landingpad" => I::LandingPad,
            "insertelement" => { let (t, v) = self.tval(&mut l); l.expect(b','); let (_, x) = self.tval(&mut l); l.expect(b','); let (_, ix) = self.tval(&mut l); I::InsertE(t, v, x, ix) }
            "extractelement" => { let (t, v) = self.tval(&mut l); l.expect(b','); let (_, ix) = self.tval(&mut l); I::ExtractE(t, v, ix) }
            "shufflevector" => { let (t, a) = self.tval(&mut l); l.expect(b','); let (_, b) = self.tval(&mut l); l.expect(b','); let (_, m) = self.tval(&mut l); I::Shuffle(t, a, b, m) }
            _ => I::Unsupported(s.to_string()),
        };
        // trailing metadata
        let mut dbg = 0;
        if let Some(p) = s.rfind("!dbg !") { dbg = s[p + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0) }
        let _ = l.rest_empty();
        self.blocks[cur as usize].insts.push(Inst { dst, dbg, i });
    }
}
