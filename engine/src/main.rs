#![allow(dead_code)]
mod exec; mod expr; mod ir; mod solver;
use exec::*;
use std::collections::BTreeSet;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn jl<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }
fn evs(v: &[Ev]) -> String { jl(v, |e| match e { Ev::Reach(l) => js(l), Ev::Note(l, x) => js(&format!("{}={}", l, x)) }) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().rposition(|x| x == k).map(|p| a[p + 1].clone());
    let file = &a[1]; let entry = opt("--entry").expect("--entry"); let out = opt("--out").expect("--out");
    let solver: Vec<String> = opt("--solver").unwrap_or("z3-new -in".into()).split(' ').map(|s| s.to_string()).collect();
    let x: Option<Vec<String>> = opt("--xcheck").map(|s| s.split(' ').map(|s| s.to_string()).collect());
    let num = |k: &str, d: u64| opt(k).map(|v| v.parse().unwrap()).unwrap_or(d);
    let t0 = Instant::now();
    let cfg = Cfg { max_paths: num("--max-paths", 200_000), max_steps: num("--max-steps", 20_000_000), ctor_rev: a.iter().any(|x| x == "--ctor-rev"), max_preempt: num("--preempt", 1000) as u32, max_depth: num("--max-depth", 2500) as usize, deadline: Some(t0 + Duration::from_secs(num("--time", 800))), keep_paths: num("--keep", 0) as usize, seed: num("--seed", 1).wrapping_mul(0x9E3779B97F4A7C15), leak_check: a.iter().any(|x| x == "--leak-check"), shard: opt("--shard").map(|s| { let v: Vec<u64> = s.split('/').map(|x| x.parse().unwrap()).collect(); (v[0], v[1], v[2] as u32) }).unwrap_or((0, 1, u32::MAX)) };
    let filter = opt("--cov-prefix").unwrap_or("/repo/".into());
    let r = std::thread::Builder::new().stack_size(1 << 30).spawn({ let file = file.clone(); let out = out.clone(); move || {
        let m = ir::Module::load(&file); let tp = t0.elapsed();
        let mut e = Eng::new(m, solver::Solver::new(&solver, x.as_deref()), cfg);
        let r = e.run(&entry);
        // coverage
        let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
        for d in e.cov.clone() { if let Some((f, l)) = e.loc_of(d) { if f.starts_with(&filter) { lines.insert((f, l)); } } }
        let mut fns: BTreeSet<String> = BTreeSet::new(); let mut nf = 0;
        for (f, _) in e.fns_seen.clone() { nf += 1; let fi = &e.m.fns[f as usize]; if fi.pretty.contains("typetag") || fi.name.contains("typetag") { fns.insert(if fi.pretty.is_empty() { fi.name.clone() } else { fi.pretty.clone() }); } }
        // inlined functions of the crate under test: names of the subprograms whose lines ran
        let s = &e.st; let q = &e.sol.st;
        let mut o = String::from("{");
        let mut put = |k: &str, v: String| { if o.len() > 1 { o.push_str(",\n") } o.push_str(&js(k)); o.push(':'); o.push_str(&v) };
        put("entry", js(&entry)); put("error", match &r { Ok(()) => "null".into(), Err(x) => js(x) });
        put("paths", s.paths.to_string()); put("pruned", s.pruned.to_string()); put("forks", s.forks.to_string()); put("instructions", s.insts.to_string());
        put("symbolic_branches", s.branches_sym.to_string()); put("checks_by_simplifier", s.checks_simpl.to_string()); put("checks_by_solver", s.checks_solver.to_string());
        put("equations_discharged", s.eqs.to_string()); put("sched_points", s.sched_points.to_string()); put("max_path_constraints", s.max_pc.to_string()); put("max_path_instructions", s.max_steps.to_string());
        put("solver_queries", q.queries.to_string()); put("solver_sat", q.sat.to_string()); put("solver_unsat", q.unsat.to_string()); put("solver_cache_hits", q.cache_hits.to_string()); put("solver_crosschecked", q.xchecked.to_string());
        put("solver_s", format!("{:.3}", q.time.as_secs_f64())); put("solver_max_s", format!("{:.3}", q.max.as_secs_f64())); put("parse_s", format!("{:.3}", tp.as_secs_f64())); put("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
        put("functions_executed", nf.to_string()); put("typetag_functions", jl(&fns.into_iter().collect::<Vec<_>>(), |s| js(s)));
        put("lines", jl(&lines.into_iter().collect::<Vec<_>>(), |(f, l)| js(&format!("{}:{}", f, l))));
        put("reached", format!("{{{}}}", e.reached.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
        put("checked", format!("{{{}}}", e.checked.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(",")));
        put("violations", jl(&e.viols, |v| format!("{{\"kind\":{},\"label\":{},\"inputs\":{},\"trace\":{},\"events\":{},\"sched\":{:?}}}", js(&v.kind), js(&v.label), jl(&v.inputs, |x| js(&x.to_string())), jl(&v.trace, |s| js(s)), evs(&v.events), v.sched)));
        put("kept", jl(&e.kept, |(i, ev)| format!("{{\"inputs\":{},\"events\":{}}}", jl(i, |x| js(&x.to_string())), evs(ev))));
        o.push_str("}\n"); std::fs::write(&out, o).unwrap();
        if !e.viols.is_empty() { 1 } else if r.is_err() { 2 } else { 0 }
    } }).unwrap().join();
    match r { Ok(c) => std::process::exit(c), Err(p) => { let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); let _ = std::fs::write(&out, format!("{{\"error\":{}}}", js(&format!("engine panic: {}", m)))); std::process::exit(3) } }
}
