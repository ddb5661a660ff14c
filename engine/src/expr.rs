//! Hash-consed bit-vector expressions (width 1..=128) with simplification.
use crate::ir::mask;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // 0 is reserved ("concrete")
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B { Add, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Slt }
/// IEEE operations on the bits of binary32 / binary64 (round to nearest even); NaN results are canonical
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F { Add, Sub, Mul, Div, Trunc, FromU, FromS, ToU, ToS, Lt, Le, Eq, Floor, Ceil, RTrunc, Even, Away, Sqrt }
pub fn f_c(op: F, a: u128, b: u128, w: u32, rw: u32) -> u128 {
    fn c32(x: f32) -> u128 { if x.is_nan() { 0x7fc00000 } else { x.to_bits() as u128 } }
    fn c64(x: f64) -> u128 { if x.is_nan() { 0x7ff8000000000000 } else { x.to_bits() as u128 } }
    match op {
        F::FromU => return if rw == 64 { c64(a as f64) } else { c32(a as f32) },
        F::FromS => { let i = sx(a, w); return if rw == 64 { c64(i as f64) } else { c32(i as f32) } }
        F::Trunc => return c32(f64::from_bits(a as u64) as f32),
        _ => {}
    }
    if w == 64 { let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op { F::Add => c64(x + y), F::Sub => c64(x - y), F::Mul => c64(x * y), F::Div => c64(x / y), F::Lt => (x < y) as u128, F::Le => (x <= y) as u128, F::Eq => (x == y) as u128,
            F::Floor => c64(x.floor()), F::Ceil => c64(x.ceil()), F::RTrunc => c64(x.trunc()), F::Even => c64(x.round_ties_even()), F::Away => c64(x.round()), F::Sqrt => c64(x.sqrt()),
            F::ToU => (x as u128).min(mask(rw)), F::ToS => { let h = (mask(rw) >> 1) as i128; (x as i128).clamp(-h - 1, h) as u128 & mask(rw) } _ => unreachable!() } }
    else { let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op { F::Add => c32(x + y), F::Sub => c32(x - y), F::Mul => c32(x * y), F::Div => c32(x / y), F::Lt => (x < y) as u128, F::Le => (x <= y) as u128, F::Eq => (x == y) as u128,
            F::Floor => c32(x.floor()), F::Ceil => c32(x.ceil()), F::RTrunc => c32(x.trunc()), F::Even => c32(x.round_ties_even()), F::Away => c32(x.round()), F::Sqrt => c32(x.sqrt()),
            F::ToU => (x as u128).min(mask(rw)), F::ToS => { let h = (mask(rw) >> 1) as i128; (x as i128).clamp(-h - 1, h) as u128 & mask(rw) } _ => unreachable!() } }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum N { F(F, E, E), C(u128), Var(u32), Bin(B, E, E), Ext(u8, E) /* lo; width = node width */, Cat(E, E) /* hi, lo */, SExt(E), Ite(E, E, E) }

pub struct Arena { pub n: Vec<(N, u8)>, map: HashMap<(N, u8), E>, vars: Vec<Option<Rc<[u32]>>>, pub var_w: Vec<u8>, fl: Vec<bool> }
pub type Model = HashMap<u32, u128>;

fn sx(v: u128, w: u32) -> i128 { let s = 128 - w; ((v << s) as i128) >> s }
pub fn bin_c(op: B, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    match op {
        B::Add => a.wrapping_add(b) & m, B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => if b == 0 { m } else { a / b }, B::URem => if b == 0 { a } else { a % b },
        B::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 & m } }
        B::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 & m } }
        B::Shl => if b >= w as u128 { 0 } else { (a << b) & m }, B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => { let x = sx(a, w); (if b >= w as u128 { x >> 127 } else { x >> b }) as u128 & m }
        B::And => a & b, B::Or => a | b, B::Xor => a ^ b, B::Eq => (a == b) as u128, B::Ult => (a < b) as u128, B::Slt => (sx(a, w) < sx(b, w)) as u128,
    }
}

impl Arena {
    pub fn new() -> Arena { Arena { n: vec![(N::C(0), 1)], map: HashMap::new(), vars: vec![None], var_w: vec![], fl: vec![false] } }
    fn mk(&mut self, n: N, w: u32) -> E {
        assert!(w >= 1 && w <= 128, "width {}", w);
        if let Some(&e) = self.map.get(&(n, w as u8)) { return e }
        let e = self.n.len() as E; self.n.push((n, w as u8)); self.vars.push(None); let f = matches!(n, N::F(..)) || Self::kids(n).iter().any(|k| self.fl[*k as usize]); self.fl.push(f); self.map.insert((n, w as u8), e); e
    }
    fn kids(n: N) -> Vec<E> { match n { N::C(_) | N::Var(_) => vec![], N::F(_, a, b) | N::Bin(_, a, b) | N::Cat(a, b) => vec![a, b], N::Ext(_, a) | N::SExt(a) => vec![a], N::Ite(a, b, c) => vec![a, b, c] } }
    /// does the floating point theory occur in it?
    pub fn has_f(&self, e: E) -> bool { self.fl[e as usize] }
    pub fn float(&mut self, op: F, a: E, b: E, rw: u32) -> E { if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { let w = self.w(a); return self.c(f_c(op, x, y, w, rw), rw) } self.mk(N::F(op, a, b), rw) }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].1 as u32 }
    pub fn node(&self, e: E) -> N { self.n[e as usize].0 }
    pub fn c(&mut self, v: u128, w: u32) -> E { self.mk(N::C(v & mask(w)), w) }
    pub fn as_c(&self, e: E) -> Option<u128> { match self.node(e) { N::C(v) => Some(v), _ => None } }
    pub fn new_var(&mut self, w: u32) -> (u32, E) { let id = self.var_w.len() as u32; self.var_w.push(w as u8); (id, self.mk(N::Var(id), w)) }
    pub fn var(&mut self, id: u32) -> E { let w = self.var_w[id as usize] as u32; self.mk(N::Var(id), w) }

    pub fn zext(&mut self, e: E, w: u32) -> E { let ew = self.w(e); if ew == w { return e } if let Some(v) = self.as_c(e) { return self.c(v, w) } let z = self.c(0, w - ew); self.cat(z, e) }
    pub fn sext(&mut self, e: E, w: u32) -> E { let ew = self.w(e); if ew == w { return e } if let Some(v) = self.as_c(e) { return self.c(sx(v, ew) as u128, w) }
        if self.nonneg(e) { return self.zext(e, w) }
        self.mk(N::SExt(e), w) }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l)); let w = hw + lw;
        match (self.node(h), self.node(l)) {
            (N::C(a), N::C(b)) => return self.c(a << lw | b, w),
            (N::Ext(hl, a), N::Ext(ll, b)) if a == b && hl as u32 == ll as u32 + lw => return self.ext(a, ll as u32, w),
            (N::Ext(hl, a), _) if a == l && hl as u32 == lw => return self.ext(a, 0, w),
            (_, N::Cat(x, y)) => { // right-nest -> left-nest: (h . x) . y
                let hx = self.cat(h, x); return self.cat(hx, y) }
            _ => {}
        }
        // left-nested: try merging l with the low part of h
        if let N::Cat(a, b) = self.node(h) {
            let bw = self.w(b);
            match (self.node(b), self.node(l)) {
                (N::C(x), N::C(y)) => { let c = self.c(x << lw | y, bw + lw); return self.mk(N::Cat(a, c), w) }
                (N::Ext(hl, p), N::Ext(ll, q)) if p == q && hl as u32 == ll as u32 + lw => { let m = self.ext(p, ll as u32, bw + lw); return self.cat(a, m) }
                _ => {}
            }
        }
        self.mk(N::Cat(h, l), w)
    }
    pub fn ext(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e); debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew { return e }
        match self.node(e) {
            N::C(v) => self.c(v >> lo, w),
            N::Ext(l2, x) => self.ext(x, lo + l2 as u32, w),
            N::Cat(h, l) => { let lw = self.w(l); if lo >= lw { self.ext(h, lo - lw, w) } else if lo + w <= lw { self.ext(l, lo, w) } else { let a = self.ext(h, 0, lo + w - lw); let b = self.ext(l, lo, lw - lo); self.cat(a, b) } }
            N::SExt(x) if lo + w <= self.w(x) => self.ext(x, lo, w),
            N::SExt(x) if lo == 0 => self.sext(x, w),
            N::Ite(c, a, b) if self.as_c(a).is_some() || self.as_c(b).is_some() => { let a = self.ext(a, lo, w); let b = self.ext(b, lo, w); self.ite(c, a, b) }
            N::Bin(op @ (B::And | B::Or | B::Xor), a, b) => { let a = self.ext(a, lo, w); let b = self.ext(b, lo, w); self.bin(op, a, b) }
            N::Bin(op @ (B::Add | B::Mul), a, b) if lo == 0 => { let a = self.ext(a, 0, w); let b = self.ext(b, 0, w); self.bin(op, a, b) }
            _ => self.mk(N::Ext(lo as u8, e), w),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a }
        if let Some(v) = self.as_c(c) { return if v == 1 { a } else { b } }
        let w = self.w(a);
        if let Some(x) = self.is_not(c) { return self.ite(x, b, a) }
        if w == 1 { match (self.as_c(a), self.as_c(b)) { (Some(1), Some(0)) => return c, (Some(0), Some(1)) => return self.not(c), (Some(1), _) => return self.bin(B::Or, c, b), (Some(0), _) => { let n = self.not(c); return self.bin(B::And, n, b) } (_, Some(0)) => return self.bin(B::And, c, a), (_, Some(1)) => { let n = self.not(c); return self.bin(B::Or, n, a) } _ => {} } }
        if let N::Ite(c2, x, _) = self.node(a) { if c2 == c { return self.ite(c, x, b) } }
        if let N::Ite(c2, _, y) = self.node(b) { if c2 == c { return self.ite(c, a, y) } }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn not(&mut self, e: E) -> E { let w = self.w(e); let m = self.c(mask(w), w); self.bin(B::Xor, e, m) }
    pub fn is_not(&self, e: E) -> Option<E> { if let N::Bin(B::Xor, a, b) = self.node(e) { let w = self.w(e); if self.as_c(b) == Some(mask(w)) { return Some(a) } } None }
    /// segments, high to low: (width, lo-offset, expr)
    fn segs(&self, e: E, out: &mut Vec<(u32, E)>) { match self.node(e) { N::Cat(h, l) => { self.segs(h, out); self.segs(l, out) } _ => out.push((self.w(e), e)) } }
    fn try_disjoint(&mut self, a: E, b: E) -> Option<E> {
        if !matches!(self.node(a), N::Cat(..)) && !matches!(self.node(b), N::Cat(..)) { return None }
        let (mut sa, mut sb) = (vec![], vec![]); self.segs(a, &mut sa); self.segs(b, &mut sb);
        // cut at common boundaries
        let mut cuts: Vec<u32> = vec![]; for s in [&sa, &sb] { let mut p = 0; for (w, _) in s.iter().rev() { p += w; cuts.push(p) } } cuts.sort(); cuts.dedup();
        let mut lo = 0; let mut parts = vec![];
        for c in cuts { let w = c - lo; let x = self.ext(a, lo, w); let y = self.ext(b, lo, w); if self.as_c(x) == Some(0) { parts.push(y) } else if self.as_c(y) == Some(0) { parts.push(x) } else { return None } lo = c }
        let mut r = parts.pop().unwrap(); while let Some(p) = parts.pop() { r = self.cat(r, p) } Some(r)
    }
    pub fn bin(&mut self, op: B, mut a: E, mut b: E) -> E {
        let w = self.w(a); debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, B::Eq | B::Ult | B::Slt) { 1 } else { w };
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) { let v = bin_c(op, x, y, w); return self.c(v, rw) }
        if matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) { if self.as_c(a).is_some() || (self.as_c(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b) } }
        let m = mask(w); let cb = self.as_c(b); let ca = self.as_c(a);
        match op {
            B::Add => { if cb == Some(0) { return a }
                if let (Some(k), N::Bin(B::Add, x, y)) = (cb, self.node(a)) { if let Some(j) = self.as_c(y) { let s = self.c(k.wrapping_add(j), w); return self.bin(B::Add, x, s) } }
                if cb.is_none() { if let Some(r) = self.try_disjoint(a, b) { return r } } }
            B::Mul => { if cb == Some(0) { return b } if cb == Some(1) { return a } if let Some(k) = cb { if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u128, w); return self.bin(B::Shl, a, s) } } }
            B::UDiv => if let Some(k) = cb { if k == 1 { return a } if k.is_power_of_two() { let s = self.c(k.trailing_zeros() as u128, w); return self.bin(B::LShr, a, s) } },
            B::URem => if let Some(k) = cb { if k.is_power_of_two() { let s = self.c(k - 1, w); return self.bin(B::And, a, s) } },
            B::Shl => if let Some(k) = cb { if k == 0 { return a } if k >= w as u128 { return self.c(0, w) } let l = self.ext(a, 0, w - k as u32); let z = self.c(0, k as u32); return self.cat(l, z) },
            B::LShr => if let Some(k) = cb { if k == 0 { return a } if k >= w as u128 { return self.c(0, w) } let h = self.ext(a, k as u32, w - k as u32); return self.zext(h, w) },
            B::AShr => if let Some(k) = cb { if k == 0 { return a } let k = k.min(w as u128 - 1) as u32; let h = self.ext(a, k, w - k); return self.sext(h, w) },
            B::And => { if cb == Some(0) { return b } if cb == Some(m) || a == b { return a }
                if let Some(k) = cb { // contiguous low mask
                    if w > 1 { let t = k.trailing_ones(); if k == mask(t) && t > 0 { let l = self.ext(a, 0, t); return self.zext(l, w) }
                        let z = k.trailing_zeros(); let k2 = k >> z; let t = k2.trailing_ones(); if z > 0 && k2 == mask(t) { let mid = self.ext(a, z, t); let zl = self.c(0, z); let r = self.cat(mid, zl); return self.zext(r, w) }
                        if let N::Bin(B::And, x, y) = self.node(a) { if let Some(j) = self.as_c(y) { let s = self.c(k & j, w); return self.bin(B::And, x, s) } } } }
                if w == 1 { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(0, 1) } } }
            B::Or => { if cb == Some(0) || a == b { return a } if cb == Some(m) { return b }
                if w == 1 { if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 1) } }
                else if let Some(r) = self.try_disjoint(a, b) { return r } }
            B::Xor => { if cb == Some(0) { return a } if a == b { return self.c(0, w) }
                if let (Some(k), N::Bin(B::Xor, x, y)) = (cb, self.node(a)) { if let Some(j) = self.as_c(y) { let s = self.c(k ^ j, w); return self.bin(B::Xor, x, s) } }
                if let (Some(k), N::Ite(c, x, y)) = (cb, self.node(a)) { if self.as_c(x).is_some() && self.as_c(y).is_some() { let kk = self.c(k, w); let x = self.bin(B::Xor, x, kk); let y = self.bin(B::Xor, y, kk); return self.ite(c, x, y) } } }
            B::Eq => { if a == b { return self.c(1, 1) }
                if w == 1 { if cb == Some(1) { return a } if cb == Some(0) { return self.not(a) } }
                if let Some(k) = cb { match self.node(a) {
                    N::Cat(h, l) => { let lw = self.w(l); let hw = self.w(h); let kh = self.c(k >> lw, hw); let kl = self.c(k, lw); let x = self.bin(B::Eq, h, kh); if self.as_c(x) == Some(0) { return x } let y = self.bin(B::Eq, l, kl); return self.bin(B::And, x, y) }
                    N::Ite(c, x, y) => { let xe = self.as_c(x).map(|v| v == k); let ye = self.as_c(y).map(|v| v == k);
                        match (xe, ye) { (Some(p), Some(q)) => return match (p, q) { (true, true) => self.c(1, 1), (false, false) => self.c(0, 1), (true, false) => c, (false, true) => self.not(c) },
                            (Some(false), None) => { let n = self.not(c); let q = self.bin(B::Eq, y, b); return self.bin(B::And, n, q) } (None, Some(false)) => { let q = self.bin(B::Eq, x, b); return self.bin(B::And, c, q) }
                            (Some(true), None) => { let q = self.bin(B::Eq, y, b); return self.bin(B::Or, c, q) } (None, Some(true)) => { let n = self.not(c); let q = self.bin(B::Eq, x, b); return self.bin(B::Or, n, q) } _ => {} } }
                    N::Bin(B::Add, x, y) => if let Some(j) = self.as_c(y) { let s = self.c(k.wrapping_sub(j), w); return self.bin(B::Eq, x, s) },
                    N::Bin(B::Xor, x, y) => if let Some(j) = self.as_c(y) { let s = self.c(k ^ j, w); return self.bin(B::Eq, x, s) },
                    N::SExt(x) => { let xw = self.w(x); let t = k & mask(xw); if sx(t, xw) as u128 & m != k { return self.c(0, 1) } let s = self.c(t, xw); return self.bin(B::Eq, x, s) }
                    _ => {} } }
                else if let (N::Cat(h1, l1), N::Cat(h2, l2)) = (self.node(a), self.node(b)) { if self.w(l1) == self.w(l2) { let x = self.bin(B::Eq, h1, h2); let y = self.bin(B::Eq, l1, l2); return self.bin(B::And, x, y) } } }
            B::Ult => { if a == b || cb == Some(0) || ca == Some(m) { return self.c(0, 1) }
                if cb == Some(1) { let z = self.c(0, w); return self.bin(B::Eq, a, z) }
                if cb == Some(m) { let mm = self.c(m, w); let q = self.bin(B::Eq, a, mm); return self.not(q) }
                if ca == Some(0) { let z = self.c(0, w); let q = self.bin(B::Eq, b, z); return self.not(q) }
                let (za, zb) = (self.lz(a), self.lz(b));
                if za > 0 || zb > 0 {
                    if let Some(k) = cb { if k > mask(w - za) { return self.c(1, 1) } }
                    if let Some(k) = ca { if k > mask(w - zb) { return self.c(0, 1) } }
                    let n = za.min(zb); if n > 0 { let x = self.ext(a, 0, w - n); let y = self.ext(b, 0, w - n); return self.bin(B::Ult, x, y) }
                }
                if let (Some(k), N::Ite(c, x, y)) = (cb, self.node(a)) { if let (Some(x), Some(y)) = (self.as_c(x), self.as_c(y)) { let p = self.c((x < k) as u128, 1); let q = self.c((y < k) as u128, 1); return self.ite(c, p, q) } }
                if let (N::Cat(h1, l1), N::Cat(h2, l2)) = (self.node(a), self.node(b)) { if h1 == h2 && self.w(l1) == self.w(l2) { return self.bin(B::Ult, l1, l2) } } }
            B::Slt => { if a == b { return self.c(0, 1) }
                if let (Some(k), N::Ite(c, x, y)) = (cb, self.node(a)) { if let (Some(x), Some(y)) = (self.as_c(x), self.as_c(y)) { let p = self.c((sx(x, w) < sx(k, w)) as u128, 1); let q = self.c((sx(y, w) < sx(k, w)) as u128, 1); return self.ite(c, p, q) } }
                // both known non-negative -> unsigned
                if self.nonneg(a) && self.nonneg(b) { return self.bin(B::Ult, a, b) }
                if self.nonneg(a) && cb == Some(0) { return self.c(0, 1) } }
            _ => {}
        }
        self.mk(N::Bin(op, a, b), rw)
    }
    fn lz(&self, e: E) -> u32 { let w = self.w(e); match self.node(e) { N::C(v) => (v.leading_zeros() - (128 - w)).min(w - 1), N::Cat(h, l) => { let hw = self.w(h); if self.as_c(h) == Some(0) { hw + self.lz(l) } else { self.lz(h) } } _ => 0 } }
    fn nonneg(&self, e: E) -> bool { let w = self.w(e); match self.node(e) { N::C(v) => v >> (w - 1) == 0, N::Cat(h, _) => self.nonneg(h), _ => false } }

    pub fn vars(&mut self, e: E) -> Rc<[u32]> {
        if let Some(v) = &self.vars[e as usize] { return v.clone() }
        let mut out: Vec<u32> = vec![];
        if let N::Var(v) = self.node(e) { out.push(v) } let kids = Self::kids(self.node(e));
        for k in kids { let v = self.vars(k); out.extend_from_slice(&v) }
        out.sort(); out.dedup(); let r: Rc<[u32]> = out.into(); self.vars[e as usize] = Some(r.clone()); r
    }
    pub fn eval(&self, e: E, m: &Model) -> u128 { let mut memo = HashMap::new(); self.ev(e, m, &mut memo) }
    fn ev(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let (n, w) = self.n[e as usize];
        match n { N::C(v) => return v, N::Var(v) => return m.get(&v).copied().unwrap_or(0) & mask(w as u32), _ => {} }
        if let Some(&v) = memo.get(&e) { return v }
        let r = match n {
            N::Bin(op, a, b) => { let x = self.ev(a, m, memo); if op == B::And && x == 0 { 0 } else { let y = self.ev(b, m, memo); bin_c(op, x, y, self.w(a)) } }
            N::F(op, a, b) => { let x = self.ev(a, m, memo); let y = self.ev(b, m, memo); f_c(op, x, y, self.w(a), w as u32) }
            N::Ext(lo, a) => (self.ev(a, m, memo) >> lo) & mask(w as u32), N::Cat(h, l) => self.ev(h, m, memo) << self.w(l) | self.ev(l, m, memo),
            N::SExt(a) => sx(self.ev(a, m, memo), self.w(a)) as u128 & mask(w as u32), N::Ite(c, a, b) => if self.ev(c, m, memo) == 1 { self.ev(a, m, memo) } else { self.ev(b, m, memo) }, _ => unreachable!() };
        memo.insert(e, r); r
    }
    /// SMT-LIB text; shared nodes become let-free define-funs via `defs`.
    pub fn smt(&self, roots: &[E]) -> (String, Vec<String>) {
        let mut cnt: HashMap<E, u32> = HashMap::new(); let mut order = vec![];
        fn walk(a: &Arena, e: E, cnt: &mut HashMap<E, u32>, order: &mut Vec<E>) { let c = cnt.entry(e).or_insert(0); *c += 1; if *c > 1 { return } for k in Arena::kids(a.node(e)) { walk(a, k, cnt, order) } order.push(e) }
        for &r in roots { walk(self, r, &mut cnt, &mut order) }
        let mut name: HashMap<E, String> = HashMap::new(); let mut defs = String::new();
        for e in order { let s = self.smt1(e, &name); let leaf = matches!(self.node(e), N::C(_) | N::Var(_)); if leaf || cnt[&e] < 2 { name.insert(e, s); } else { defs.push_str(&format!("(define-fun t{} () (_ BitVec {}) {})\n", e, self.w(e), s)); name.insert(e, format!("t{}", e)); } }
        (defs, roots.iter().map(|r| name[r].clone()).collect())
    }
    fn smt1(&self, e: E, nm: &HashMap<E, String>) -> String {
        let w = self.w(e);
        match self.node(e) {
            N::C(v) => if w % 4 == 0 { format!("#x{:0n$x}", v, n = (w / 4) as usize) } else { format!("#b{:0n$b}", v, n = w as usize) },
            N::Var(v) => format!("v{}", v),
            N::Bin(op, a, b) => { let (x, y) = (&nm[&a], &nm[&b]); match op { B::Eq => format!("(ite (= {} {}) #b1 #b0)", x, y), B::Ult => format!("(ite (bvult {} {}) #b1 #b0)", x, y), B::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", x, y),
                _ => format!("({} {} {})", match op { B::Add => "bvadd", B::Mul => "bvmul", B::UDiv => "bvudiv", B::SDiv => "bvsdiv", B::URem => "bvurem", B::SRem => "bvsrem", B::Shl => "bvshl", B::LShr => "bvlshr", B::AShr => "bvashr", B::And => "bvand", B::Or => "bvor", _ => "bvxor" }, x, y) } }
            N::F(op, a, b) => {
                let (x, y, aw) = (&nm[&a], &nm[&b], self.w(a));
                let sort = |w: u32| if w == 64 { "11 53" } else { "8 24" };
                let fp = |x: &str| format!("((_ to_fp {}) {})", sort(aw), x);
                // `(let ((r ...))`: NaN has one representation
                let back = |r: String, w: u32| format!("(let ((r {})) (ite (fp.isNaN r) {} (fp.to_ieee_bv r)))", r, if w == 64 { "#x7ff8000000000000" } else { "#x7fc00000" });
                match op {
                    F::Add => back(format!("(fp.add RNE {} {})", fp(x), fp(y)), w), F::Sub => back(format!("(fp.sub RNE {} {})", fp(x), fp(y)), w), F::Mul => back(format!("(fp.mul RNE {} {})", fp(x), fp(y)), w), F::Div => back(format!("(fp.div RNE {} {})", fp(x), fp(y)), w),
                    F::Trunc => back(format!("((_ to_fp 8 24) RNE {})", fp(x)), w), F::Sqrt => back(format!("(fp.sqrt RNE {})", fp(x)), w),
                    F::FromU => back(format!("((_ to_fp_unsigned {}) RNE {})", sort(w), x), w), F::FromS => back(format!("((_ to_fp {}) RNE {})", sort(w), x), w),
                    F::Floor => back(format!("(fp.roundToIntegral RTN {})", fp(x)), w), F::Ceil => back(format!("(fp.roundToIntegral RTP {})", fp(x)), w), F::RTrunc => back(format!("(fp.roundToIntegral RTZ {})", fp(x)), w), F::Even => back(format!("(fp.roundToIntegral RNE {})", fp(x)), w), F::Away => back(format!("(fp.roundToIntegral RNA {})", fp(x)), w),
                    F::Lt => format!("(ite (fp.lt {} {}) #b1 #b0)", fp(x), fp(y)), F::Le => format!("(ite (fp.leq {} {}) #b1 #b0)", fp(x), fp(y)), F::Eq => format!("(ite (fp.eq {} {}) #b1 #b0)", fp(x), fp(y)),
                    F::ToU | F::ToS => {
                        let s = op == F::ToS; let bits = |v: f64| if aw == 64 { format!("#x{:016x}", v.to_bits()) } else { format!("#x{:08x}", (v as f32).to_bits()) };
                        let hi = 2f64.powi(if s { w as i32 - 1 } else { w as i32 }); let lo = if s { -hi } else { 0.0 };
                        let k = |v: u128| format!("(_ bv{} {})", v & mask(w), w); let (kmin, kmax) = if s { (k(1u128 << (w - 1)), k(mask(w) >> 1)) } else { (k(0), k(mask(w))) };
                        format!("(let ((r {})) (ite (fp.isNaN r) {} (ite (fp.lt r {}) {} (ite (fp.geq r {}) {} ((_ {} {}) RTZ r)))))", fp(x), k(0), fp(&bits(lo)), kmin, fp(&bits(hi)), kmax, if s { "fp.to_sbv" } else { "fp.to_ubv" }, w)
                    }
                }
            }
            N::Ext(lo, a) => format!("((_ extract {} {}) {})", lo as u32 + w - 1, lo, nm[&a]),
            N::Cat(h, l) => format!("(concat {} {})", nm[&h], nm[&l]),
            N::SExt(a) => format!("((_ sign_extend {}) {})", w - self.w(a), nm[&a]),
            N::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", nm[&c], nm[&a], nm[&b]),
        }
    }
}
