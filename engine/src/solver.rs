use crate::expr::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub enum Ans { Sat(Rc<Model>), Unsat }
pub struct Proc { ch: Child, i: ChildStdin, o: BufReader<ChildStdout>, declared: HashSet<u32>, cmd: Vec<String> }
impl Proc {
    fn start(cmd: &[String], logic: &str) -> Proc {
        let mut ch = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start solver {:?}: {}", cmd, e));
        let i = ch.stdin.take().unwrap(); let o = BufReader::new(ch.stdout.take().unwrap());
        let mut p = Proc { ch, i, o, declared: HashSet::new(), cmd: cmd.to_vec() };
        let pre = format!("(set-option :produce-models true)\n{}(set-logic {})\n", if cmd[0].contains("cvc5") { "" } else { "(set-option :timeout 60000)\n" }, logic);
        p.i.write_all(pre.as_bytes()).unwrap(); p
    }
    fn line(&mut self) -> String { let mut s = String::new(); self.o.read_line(&mut s).expect("solver read"); if s.is_empty() { panic!("solver {:?} died", self.cmd) } s.trim().to_string() }
    fn declare(&mut self, ar: &mut Arena, es: &[E], q: &mut String) { for &c in es { for &v in ar.vars(c).iter() { if self.declared.insert(v) { q.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", v, ar.var_w[v as usize])) } } } }
    fn ask_eqs(&mut self, ar: &mut Arena, eqs: &[(E, E)]) -> Result<bool, String> {
        let es: Vec<E> = eqs.iter().flat_map(|p| [p.0, p.1]).collect();
        let mut q = String::new(); self.declare(ar, &es, &mut q);
        q.push_str("(push 1)\n"); let (d, r) = ar.smt(&es); q.push_str(&d); q.push_str("(assert (not (and true");
        for p in r.chunks(2) { q.push_str(&format!(" (= {} {})", p[0], p[1])) } q.push_str(")))\n(check-sat)\n(pop 1)\n");
        self.i.write_all(q.as_bytes()).map_err(|e| e.to_string())?; self.i.flush().map_err(|e| e.to_string())?;
        match self.line().as_str() { "unsat" => Ok(true), "sat" => Ok(false), x => Err(format!("solver answered `{}`", x)) }
    }
    fn ask(&mut self, ar: &mut Arena, cs: &[E], want_model: bool) -> Result<Ans, String> {
        let mut vs: Vec<u32> = vec![]; for &c in cs { vs.extend_from_slice(&ar.vars(c)) } vs.sort(); vs.dedup();
        let mut q = String::new();
        for &v in &vs { if self.declared.insert(v) { q.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", v, ar.var_w[v as usize])) } }
        q.push_str("(push 1)\n"); let (d, r) = ar.smt(cs); q.push_str(&d); for x in r { q.push_str(&format!("(assert (= {} #b1))\n", x)) } q.push_str("(check-sat)\n");
        self.i.write_all(q.as_bytes()).map_err(|e| e.to_string())?; self.i.flush().map_err(|e| e.to_string())?;
        let a = self.line();
        let res = match a.as_str() {
            "unsat" => Ans::Unsat,
            "sat" => { let mut m = Model::new();
                if want_model && !vs.is_empty() {
                    let names: Vec<String> = vs.iter().map(|v| format!("v{}", v)).collect();
                    self.i.write_all(format!("(get-value ({}))\n", names.join(" ")).as_bytes()).map_err(|e| e.to_string())?; self.i.flush().ok();
                    let mut s = String::new(); let mut depth = 0i32; loop { let l = self.line(); for c in l.chars() { match c { '(' => depth += 1, ')' => depth -= 1, _ => {} } } s.push_str(&l); s.push(' '); if depth <= 0 { break } }
                    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
                    let mut k = 0; while k + 1 < toks.len() { let v: u32 = toks[k].strip_prefix('v').and_then(|x| x.parse().ok()).ok_or_else(|| format!("solver value: {}", s))?;
                        let (val, adv) = if let Some(h) = toks[k + 1].strip_prefix("#x") { (u128::from_str_radix(h, 16), 2) } else if let Some(b) = toks[k + 1].strip_prefix("#b") { (u128::from_str_radix(b, 2), 2) } else if toks[k + 1] == "_" { (toks[k + 2].strip_prefix("bv").unwrap_or("?").parse(), 4) } else { return Err(format!("solver value: {}", s)) };
                        m.insert(v, val.map_err(|e| e.to_string())?); k += adv; }
                }
                Ans::Sat(Rc::new(m)) }
            x => { return Err(format!("solver answered `{}`", x)) }
        };
        self.i.write_all(b"(pop 1)\n").map_err(|e| e.to_string())?;
        Ok(res)
    }
}
impl Drop for Proc { fn drop(&mut self) { let _ = self.ch.kill(); let _ = self.ch.wait(); } }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub cache_hits: u64, pub time: Duration, pub max: Duration, pub xchecked: u64 }
pub struct Solver { p: Proc, x: Option<Proc>, /* for queries with floating point */ f: Option<Proc>, cache: HashMap<Vec<E>, Ans>, recent: Vec<Rc<Model>>, pub st: Stats }
impl Solver {
    pub fn new(cmd: &[String], xcmd: Option<&[String]>) -> Solver { Solver { p: Proc::start(cmd, "QF_BV"), x: xcmd.map(|c| Proc::start(c, "QF_BV")), f: None, cache: HashMap::new(), recent: vec![], st: Stats::default() } }
    fn float(&mut self) -> &mut Proc { if self.f.is_none() { self.f = Some(Proc::start(&self.p.cmd, "QF_FPBV")) } self.f.as_mut().unwrap() }
    /// Do the equations hold for every value of their variables?
    pub fn valid_eqs(&mut self, ar: &mut Arena, eqs: &[(E, E)]) -> Result<bool, String> {
        let t = Instant::now();
        let fl = eqs.iter().any(|p| ar.has_f(p.0) || ar.has_f(p.1));
        let a = if fl { self.float().ask_eqs(ar, eqs)? } else { self.p.ask_eqs(ar, eqs)? };
        let d = t.elapsed(); self.st.time += d; self.st.max = self.st.max.max(d); self.st.queries += 1; if a { self.st.unsat += 1 } else { self.st.sat += 1 }
        if let (Some(x), false) = (&mut self.x, fl) { let b = x.ask_eqs(ar, eqs)?; self.st.xchecked += 1; if a != b { return Err("the two solvers disagree".into()) } }
        Ok(a)
    }
    /// Is the conjunction satisfiable?  `cs` must not contain constants.
    pub fn check(&mut self, ar: &mut Arena, cs: &[E]) -> Result<Ans, String> {
        let mut key: Vec<E> = vec![];
        for &c in cs { match ar.as_c(c) { Some(1) => {} Some(_) => return Ok(Ans::Unsat), None => key.push(c) } }
        key.sort(); key.dedup();
        if key.is_empty() { return Ok(Ans::Sat(Rc::new(Model::new()))) }
        if let Some(a) = self.cache.get(&key) { self.st.cache_hits += 1; return Ok(a.clone()) }
        for m in self.recent.iter().rev() { if key.iter().all(|&c| ar.eval(c, m) == 1) { self.st.cache_hits += 1; let a = Ans::Sat(m.clone()); self.cache.insert(key, a.clone()); return Ok(a) } }
        let t = Instant::now();
        let fl = key.iter().any(|&c| ar.has_f(c));
        let a = if fl { self.float().ask(ar, &key, true)? } else { self.p.ask(ar, &key, true)? };
        let d = t.elapsed(); self.st.time += d; self.st.max = self.st.max.max(d); self.st.queries += 1;
        if let (Some(x), false) = (&mut self.x, fl) { let b = x.ask(ar, &key, false)?; self.st.xchecked += 1; if matches!(a, Ans::Unsat) != matches!(b, Ans::Unsat) { return Err("the two solvers disagree".into()) } }
        match &a { Ans::Sat(m) => { self.st.sat += 1; for &c in &key { if ar.eval(c, m) != 1 { return Err("solver model does not satisfy the query (encoding error)".into()) } } self.recent.push(m.clone()); if self.recent.len() > 12 { self.recent.remove(0); } } Ans::Unsat => self.st.unsat += 1 }
        self.cache.insert(key, a.clone()); Ok(a)
    }
}
