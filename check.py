#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]: decide one property by symbolic execution.

Builds the property's harness against /repo's working tree to LLVM IR, runs
every entry point of it through the symbolic executor (engine/), replays what
the solver came up with against a native build, and writes evidence/<ID>.json.
Exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
T = os.path.join(V, "target")
ENGINE = os.path.join(T, "engine", "release", "symir")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
T0 = time.time()
IR = {"harness": "ir", "macro": "ir-macro"}
NATIVE = {"harness": "native", "macro": "native-macro"}


def fail(msg):
    print("ERROR", msg, flush=True)
    sys.exit(2)


def sh(cmd, cwd, env, what, failed=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        if failed:
            failed(p.stdout)
        print(p.stdout[-6000:])
        fail(f"{what} failed")
    return p.stdout


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def lock():
    os.makedirs(T, exist_ok=True)
    f = open(os.path.join(T, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--quiet"], os.path.join(V, "engine"), dict(ENV, CARGO_TARGET_DIR=os.path.join(T, "engine")), "building the engine")


def crate_of(b):
    """the crate that the harness is in: harness/ uses typetag, macro/ executes the macro itself"""
    return next(c for c in ("harness", "macro") if os.path.exists(os.path.join(V, c, "src", "bin", b + ".rs")))


def macro_source():
    """/repo/impl/src as an ordinary library"""
    src, dst = os.path.join(REPO, "impl", "src"), os.path.join(T, "macro-src")
    want = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                # (keeps the line numbers)
                want[os.path.relpath(p, src)] = re.sub(r"#\[\s*proc_macro_attribute\s*\]", "", open(p).read())
    for d, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(d, f), dst) not in want:
                os.remove(os.path.join(d, f))
    for f, t in want.items():
        p = os.path.join(dst, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)


def fresh(target, crate):
    """cargo trusts file times; make sure that it sees a changed /repo"""
    stamp = os.path.join(target, "repo.hash")
    h = tree_hash(REPO, os.path.join(V, "harness"), os.path.join(V, crate))
    if crate == "macro":
        macro_source()
    if os.path.exists(target) and (not os.path.exists(stamp) or open(stamp).read() != h):
        pkgs = {"harness": ["typetag", "typetag-impl", "harness"], "macro": ["typetag-impl-as-library", "macro-harness"]}[crate]
        for prof in ([], ["--release"], ["--profile", "replay"]):
            subprocess.run(["cargo", "clean", "--offline", *[x for p in pkgs for x in ("-p", p)], *prof], cwd=os.path.join(V, crate), env=dict(ENV, CARGO_TARGET_DIR=target), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.makedirs(target, exist_ok=True)
    open(stamp, "w").write(h)


def does_not_compile(pid, b, target):
    """For properties which say that certain declarations work: the harness is those
    declarations.  If typetag builds and they do not, the property is violated."""
    def failed(out):
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "-p", "typetag"], cwd=os.path.join(V, "harness"), env=dict(ENV, CARGO_TARGET_DIR=target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return
        print(out[-4000:])
        rd = os.path.join(V, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        r = os.path.join(rd, f"{pid}-compile.sh")
        with open(r, "w") as f:
            f.write(f"#!/bin/sh\n# the declarations in this file do not compile\ncd {V}/harness && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR={T}/native exec cargo check --offline --features native --bin {b}\n")
        os.chmod(r, 0o755)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        json.dump({"property": pid, "tier": "quick", "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": 1, "coverage": {"exhaustive": False, "errors": ["declarations that are to work do not compile"]}, "assumptions": []}, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
        print("  declarations that the property says work do not compile")
        print(f"VIOLATION property={pid} replay={r}")
        sys.exit(1)
    return failed


def build_ir(b, failed=None):
    crate = crate_of(b)
    target = os.path.join(T, IR[crate])
    fresh(target, crate)
    env = dict(ENV, CARGO_TARGET_DIR=target)
    deps = os.path.join(target, "debug", "deps")
    sh(["cargo", "rustc", "--offline", "--bin", b, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "linker=true", "-C", "save-temps=no"], os.path.join(V, crate), env, f"building {b} as IR", failed)
    lls = [os.path.join(deps, f) for f in os.listdir(deps) if re.fullmatch(re.escape(b) + r"-[0-9a-f]+\.ll", f)]
    if not lls:
        fail("no IR file")
    return max(lls, key=os.path.getmtime)


def build_native(b, profile):
    crate = crate_of(b)
    target = os.path.join(T, NATIVE[crate])
    if profile == "replay":
        fresh(target, crate)
    env = dict(ENV, CARGO_TARGET_DIR=target)
    prof = ["--release"] if profile == "release" else ["--profile", profile]
    sh(["cargo", "build", "--offline", "--quiet", "--features", "native", "--bin", b, *prof], os.path.join(V, crate), env, f"building {b} natively")
    return os.path.join(target, profile, b)


def run_engine(ll, entry, opts, out, limit, prefix):
    cmd = [ENGINE, ll, "--entry", entry, "--out", out, "--cov-prefix", prefix, *opts]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=limit)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, err = 2, "timeout"
    try:
        j = json.load(open(out))
    except Exception:
        j = {"error": "no result: " + err[-300:]}
    j["rc"], j["entry"], j["t"] = rc, entry, time.time() - t
    return j


def native(exe, entry, inputs, rnd=1, timeout=60):
    """one native run of an entry on the inputs of a model"""
    env = dict(os.environ, SYM_INPUTS=",".join(inputs), SYM_RND=str(rnd))
    try:
        p = subprocess.run([exe, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -999, ""
    return p.returncode, p.stdout.decode("utf-8", "replace")


def reproduces(kind, label, rc, out):
    if kind == "check":
        return rc == 101 and f"CHECK-FAILED {label}\n" in out
    if kind in ("panic", "abort", "unreachable", "arith", "memory", "recursion"):
        return rc < 0 and rc != -999 or rc in (132, 134, 136, 139) or rc == 101
    if kind == "deadlock":
        return rc == -999
    return False


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    b = pid.lower()
    crate = crate_of(b)
    prefix = {"harness": REPO + "/", "macro": f"{V}/macro/impl/../../target/macro-src/"}[crate]
    src = open(os.path.join(V, crate, "src", "bin", b + ".rs")).read()
    entries = re.search(r"entries!\s*\{([^}]*)\}", src).group(1).split()
    entries = [e for e in entries if tier == "thorough" or not e.startswith("t_")]
    meta = dict(re.findall(r"^//! @(\w+):? (.*)$", src, re.M))
    want = set(re.findall(r'(?:reach|check|check_logs)\((?:[^;]|\n)*?"([^"\n]*)"\)(?!\s*[,.&|)])', src))
    want |= {x.strip() for x in meta.get("need", "").split("|") if x.strip()}
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k.get("status") == "known" and k["property"] == pid]

    lk = lock()
    build_engine()
    ll = build_ir(b, does_not_compile(pid, b, os.path.join(T, "ir")) if "compiles" in meta else None)
    with cf.ThreadPoolExecutor(2) as ex:
        exes = [build_native(b, "replay")]
        limit = 1500 if tier == "thorough" else 700
        outdir = os.path.join(T, "out")
        os.makedirs(outdir, exist_ok=True)
        opts = {}
        for e in entries:
            o = ["--seed", str(seed), "--keep", "40" if tier == "thorough" else "12", "--time", str(limit), "--solver", "z3-new -in"]
            if tier == "thorough":
                o += ["--max-paths", "3000000", "--max-steps", "100000000", "--xcheck", "cvc5 --incremental --produce-models"]
            for k, v in re.findall(r"^//! @opt (\S+) (.*)$", src, re.M):
                if re.fullmatch(k, e):
                    o += v.split()
            opts[e] = o
    # an entry may be run several times with different engine options: `name=opts` pairs
    jobs = [(e, i, o) for e in entries for i, o in enumerate(variants(src, e, opts[e], tier))]
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(run_engine, ll, e, o, os.path.join(outdir, f"{b}.{e}.{i}.json"), limit + 60, prefix) for e, i, o in jobs]
        res = [f.result() for f in futs]
        # more interleavings than can be explored: those with at most two preemptions
        reduced = [n for n, j in enumerate(res) if not j.get("violations") and "limit" in (j.get("error") or "") and j.get("sched_points")]
        again = {}
        for n in reduced:
            e, i, o = jobs[n]
            left = str(max(60, int(limit + 120 - (time.time() - T0))))
            o = o + ["--preempt", "2", "--time", left]
            jobs[n] = (e, i, o)
            again[n] = ex.submit(run_engine, ll, e, o, os.path.join(outdir, f"{b}.{e}.{i}.json"), int(left) + 60, prefix)
        for n, f in again.items():
            res[n] = f.result()
            print(f"NOTE {jobs[n][0]}: too many interleavings, explored those with at most two preemptions")

    bad, knownhit, errors = [], [], []
    validated, samples = 0, []
    rel = None
    for (e, i, o), j in zip(jobs, res):
        vs = j.get("violations", [])
        if j.get("error") and not vs:
            errors.append(f"{e}: {j['error']}")
        elif j["rc"] not in (0, 1):
            errors.append(f"{e}: engine exit {j['rc']}")
        seen = {}
        for v in vs:
            key = (v["kind"], v["label"])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3:
                continue
            if "multithreaded" in v.get("flags", []) or len(set(v.get("sched", []))) > 1:
                ok, out = replay_threads(exes[0], e, v)
            else:
                rc, out = native(exes[0], e, v["inputs"])
                ok = reproduces(v["kind"], v["label"], rc, out)
                if not ok and v["kind"] in ("memory",):
                    ok, out = valgrind(exes[0], e, v["inputs"])
                if ok:
                    if rel is None:
                        rel = build_native(b, "release")
                    rrc, rout = native(rel, e, v["inputs"])
                    v["release"] = reproduces(v["kind"], v["label"], rrc, rout)
            kf = [k for k in known if k["entry"] == e and k["label"] == v["label"]]
            if not ok:
                errors.append(f"{e}: counterexample does not reproduce: {v['kind']} {v['label']} inputs={','.join(v['inputs'])}")
            elif kf:
                knownhit.append((kf[0], e, v))
            else:
                bad.append((e, v, out))
        # models of complete paths: the real build takes the same path
        for kpt in j.get("kept", []):
            if len(set(kpt.get("sched", []))) > 1:
                continue
            rc, out = native(exes[0], e, kpt["inputs"])
            ev = [l[6:] if l.startswith("REACH ") else l[5:] for l in out.splitlines() if l.startswith(("REACH ", "NOTE "))]
            if rc != 0 or ev != kpt["events"]:
                errors.append(f"{e}: native run differs from the symbolic path (rc {rc}): {ev} / {kpt['events']} inputs={','.join(kpt['inputs'])}")
            else:
                validated += 1
                if len(samples) < 12:
                    samples.append({"entry": e, "inputs": kpt["inputs"][:40], "events": kpt["events"][:12]})

    # every assertion and every witness was reached
    got = set()
    for j in res:
        got |= set(j.get("reached", {})) | set(j.get("checked", {})) | {v["label"] for v in j.get("violations", [])}
    if not bad:
        for w in sorted(want - got):
            if w.startswith("opt:") or (w.startswith("t:") and tier != "thorough"):
                continue
            errors.append(f"never reached: {w}")

    tot = lambda k: sum(j.get(k, 0) or 0 for j in res)
    fns = sorted({f for j in res for f in j.get("typetag_functions", [])})
    lines = sorted({l for j in res for l in j.get("lines", [])})
    per_file = {}
    for l in lines:
        f = l.rsplit(":", 1)[0].replace(prefix, "impl/src/" if crate == "macro" else "")
        per_file[f] = per_file.get(f, 0) + 1
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": len(bad),
        "coverage": {
            "states": tot("paths"), "transitions": tot("instructions"), "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": not errors and not bad,
            "what_states_and_transitions_are": "states: completed symbolic paths (each covers every value of its symbolic inputs); transitions: LLVM IR instructions executed symbolically",
            "path_forks": tot("forks"), "paths_pruned_infeasible": tot("pruned"), "symbolic_branches": tot("symbolic_branches"), "scheduling_points": tot("sched_points"),
            "assertions_decided": {"folded_then_equations_sent_to_solver": tot("checks_by_simplifier"), "by_solver_query": tot("checks_by_solver")},
            "solver": {"name": "z3-new (SMT-LIB, QF_BV)", "queries": tot("solver_queries"), "sat": tot("solver_sat"), "unsat": tot("solver_unsat"), "equations_proved": tot("equations_discharged"), "answered_from_cache": tot("solver_cache_hits"), "crosschecked_with_cvc5": tot("solver_crosschecked"), "seconds": round(tot("solver_s"), 3), "slowest_s": max([j.get("solver_max_s", 0) or 0 for j in res] or [0])},
            "entries": [{"entry": e, "options": " ".join(o), "paths": j.get("paths"), "instructions": j.get("instructions"), "longest_path": j.get("max_path_instructions"), "queries": j.get("solver_queries"), "wall_s": round(j["t"], 2), "reached": j.get("reached"), "checked": {k: sum(v) for k, v in (j.get("checked") or {}).items()}, "error": j.get("error")} for (e, i, o), j in zip(jobs, res)],
            "functions_encoded": fns, "repo_lines_executed": per_file, "repo_lines_total": len(lines),
            "bounds": meta.get("bounds", "") + ("".join(f"; {jobs[n][0]}: at most two preemptions" for n in reduced)), "outside_the_bounds": meta.get("outside", ""),
            "known_findings": [k["id"] for k, _, _ in knownhit], "errors": errors,
        },
        "assumptions": [
            "rustc's LLVM IR (opt-level 1, overflow checks, panic=abort) stands for the program; engine/ implements its semantics (paths re-run natively: traces_validated_against_impl)",
            "malloc does not fail; panics end the run and count as violations",
        ] + ([meta["assume"]] if "assume" in meta else []),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: {len(jobs)} entries, {tot('paths')} paths, {tot('instructions')} instructions, {tot('solver_queries')} solver queries ({tot('solver_s'):.2f} s), {validated} paths validated natively, {time.time() - T0:.1f} s")
    for k in sorted({k["id"] for k, _, _ in knownhit}):
        kk = [x for x in known if x["id"] == k][0]
        print(f"KNOWN-FINDING: property={pid} {k}: {kk['what']}")
    if bad:
        rd = os.path.join(V, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (e, v, out) in enumerate(bad):
            p = os.path.join(rd, f"{pid}-{e}-{n}.sh")
            with open(p, "w") as f:
                f.write(f"#!/bin/sh\n# {v['kind']}: {v['label']}\n# schedule: {v.get('sched')}\n# reproduces in the release profile: {v.get('release')}\n" + "".join(f"#   at {t}\n" for t in v["trace"][:8]))
                f.write(f"cd {V}/{crate} && export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR={T}/{NATIVE[crate]} && cargo build --offline --quiet --features native --profile replay --bin {b} || exit 2\n")
                f.write(f"SYM_INPUTS={','.join(v['inputs'])} exec $CARGO_TARGET_DIR/replay/{b} {e}\n")
            os.chmod(p, 0o755)
            print(f"  {e}: {v['kind']}: {v['label']}  inputs={','.join(v['inputs'])}")
            print("    " + "\n    ".join([l for l in out.splitlines() if not l.startswith(("REACH", "NOTE"))][:40]))
        for n in range(len(bad)):
            if n < 5:
                print(f"VIOLATION property={pid} replay={os.path.join(rd, f'{pid}-{bad[n][0]}-{n}.sh')}")
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("  " + e[:700])
        fail(f"{len(errors)} problems, no verdict")
    sys.exit(0)


def variants(src, e, opts, tier):
    """`//! @also <entry regex> <options>`: run the entry once more with these options"""
    r = [opts]
    for k, v in re.findall(r"^//! @also (\S+) (.*)$", src, re.M):
        if re.fullmatch(k, e):
            r.append(opts + v.split())
    # `//! @shard <entry regex> <n> [depth]`: n processes, split by the first choices
    for k, n, d in re.findall(r"^//! @shard (\S+) (\d+)(?: (\d+))?$", src, re.M):
        if re.fullmatch(k, e):
            r = [o + ["--shard", f"{i}/{n}/{d or 3}"] for o in r for i in range(int(n))]
            break
    return r


def replay_threads(exe, e, v):
    """The schedule itself cannot be forced natively: run the real threads many times,
    held up at random where they allocate."""
    t = time.time()
    n = 0
    while time.time() - t < 60:
        with cf.ThreadPoolExecutor(8) as ex:
            for rc, out in ex.map(lambda i: native(exe, e, v["inputs"], n + i, timeout=10), range(200)):
                if reproduces(v["kind"], v["label"], rc, out) or rc in (101, -6, -11):
                    return True, out
        n += 200
    return False, ""


def valgrind(exe, e, inputs):
    env = dict(os.environ, SYM_INPUTS=",".join(inputs))
    p = subprocess.run(["valgrind", "-q", "--error-exitcode=99", exe, e], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 99, p.stdout[-2000:]


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        lk = lock()
        build_engine()
        for b in sorted(f for c in ("harness", "macro") for f in os.listdir(os.path.join(V, c, "src", "bin"))):
            build_ir(b[:-3])
            build_native(b[:-3], "replay")
        print("ready")
        sys.exit(0)
    main()
