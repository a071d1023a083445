#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property by symbolic execution of the real code.

Builds the symbolic executor (engine/) and the property's harness against /repo's current sources,
turns the whole program into LLVM IR, runs every entry of the property and replays what the solver
returns natively.  Exit 0: held within the bounds; 1: VIOLATION; 2: no answer."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from registry import PROPS
from bounds import BOUNDS

T0 = time.time()
BUDGET = {"quick": 800.0, "thorough": 6 * 3600.0}

def die(msg, code=2):
    print("ERROR " + msg, flush=True)
    sys.exit(code)

def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", DOCS_RS="1", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "resources", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def build_engine():
    e = env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "engine")
    r = run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(V, "engine"), env=e)
    if r.returncode: die("engine does not build:\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "engine/release/symex")

def sysroot():
    return run(["rustc", "--print", "sysroot"], env=env()).stdout.strip()

def build_harness(binname, entries):
    """native binary and IR of one harness, rebuilt from /repo's working tree"""
    tgt = os.path.join(BUILD, "harness")
    e = env(); e["CARGO_TARGET_DIR"] = tgt
    h = repo_hash()
    stamp = os.path.join(BUILD, "repo.hash")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    def forget():
        fp = os.path.join(tgt, "sx/.fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("lindera", "harness")): shutil.rmtree(os.path.join(fp, d))
        bd = os.path.join(tgt, "sx/build")
        # the dictionary crates' build scripts refuse to run twice in one OUT_DIR
        if os.path.isdir(bd):
            for d in os.listdir(bd):
                if d.startswith("lindera"): shutil.rmtree(os.path.join(bd, d))
    if old != h: forget()
    deps = os.path.join(tgt, "sx/deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(binname + "-") and (f.endswith(".bc") or f.endswith(".o")): os.remove(os.path.join(deps, f))
    src = os.path.join(V, "harness/src/bin", binname + ".rs")
    os.utime(src)  # the bitcode of the final link is wanted on every run
    cmd = ["cargo", "rustc", "--bin", binname, "--profile", "sx", "--offline", "--", "-C", "save-temps", "-C", "symbol-mangling-version=v0"]
    r = run(cmd, cwd=os.path.join(V, "harness"), env=e)
    if r.returncode: forget(); r = run(cmd, cwd=os.path.join(V, "harness"), env=e)
    if r.returncode: die("the harness does not build against /repo:\n" + r.stdout[-4000:])
    os.makedirs(BUILD, exist_ok=True)
    open(stamp, "w").write(h)
    bcs = [f for f in os.listdir(deps) if f.startswith(binname + "-") and f.endswith(".lto.input.bc")]
    if len(bcs) != 1: die("expected one whole-program bitcode file, found %r" % bcs)
    ir = os.path.join(BUILD, "ir"); os.makedirs(ir, exist_ok=True)
    b = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    bc, ll = os.path.join(ir, binname + ".bc"), os.path.join(ir, binname + ".ll")
    r = run([b + "/opt", os.path.join(deps, bcs[0]), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), "-o", bc])
    if r.returncode: die("opt: " + r.stdout[-2000:])
    r = run([b + "/opt", bc, "-vectorize-loops=false", "-vectorize-slp=false", "-passes=default<O2>,function(lower-invoke,lower-atomic,simplifycfg,dce),globaldce", "-S", "-o", ll])
    if r.returncode: die("opt: " + r.stdout[-2000:])
    for f in os.listdir(deps):
        if f.startswith(binname + "-") and f.endswith(".bc"): os.remove(os.path.join(deps, f))
    os.remove(bc)
    return os.path.join(tgt, "sx", binname), ll

NREP = [0]
def native(binary, entry, inputs, timeout=60):
    """run one assignment natively: (exit status, covers, outs, stderr)"""
    NREP[0] += 1
    d = os.path.join(BUILD, "scratch-%d-%d" % (os.getpid(), NREP[0]))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    inp = os.path.join(d, "input")
    open(inp, "w").write(" ".join(str(x) for x in inputs) + "\n")
    e = env(); e.update(SX_INPUT=inp, SX_SCRATCH=os.path.join(d, "s"), RUST_BACKTRACE="0", TMPDIR=d)
    try:
        r = subprocess.run([binary, entry], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e, timeout=timeout, cwd=d)
        rc, so, se = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        rc, so, se = "timeout", "", ""
    shutil.rmtree(d, ignore_errors=True)
    outs = [int(l[4:]) for l in so.splitlines() if l.startswith("OUT ")]
    covers = {l[6:] for l in so.splitlines() if l.startswith("COVER ")}
    return rc, covers, outs, se, "SX-DONE" in so

def reproduces(f, rc, se):
    if f["kind"] == "check": return rc == 88 and ("SX-CHECK-FAILED " + f["msg"]) in se
    if rc in (77, 78, 79, 0): return False
    return True

def demangle(names):
    r = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True) if shutil.which("c++filt") else None
    out = r.stdout.split("\n") if r and r.returncode == 0 else names
    return {n: re.sub(r"\[[0-9a-f]{16}\]", "", o) for n, o in zip(names, out)}

def setup():
    """build everything once, so that a later run finds the dependencies compiled"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    symex = build_engine()
    r = run([symex, "--selftest", "200", os.environ.get("VERIF_SEED", "1")])
    if r.returncode: die("engine self-test: " + r.stdout[-2000:])
    P = PROPS["C01"]
    build_harness(P["bin"], [e["name"] for e in P["entries"]])
    print("setup done in %.0f s" % (time.time() - T0))

def main():
    if sys.argv[1] == "--setup": return setup()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in BUDGET: die("tier " + tier)
    only = sys.argv[3] if len(sys.argv) > 3 else None
    P = PROPS[prop]
    known = json.load(open(os.path.join(V, "known_findings.json")))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    symex = build_engine()
    r = run([symex, "--selftest", "25" if tier == "quick" else "2000", os.environ.get("VERIF_SEED", "1")])
    if r.returncode: die("engine self-test: " + r.stdout[-2000:])
    selftest = r.stdout.strip()
    ents = [e for e in P["entries"] if (tier in e.get("tiers", ("quick", "thorough"))) and (only is None or e["name"] == only)]
    kfs = [k for k in known["findings"] if k["property"] == prop]
    bins = {}
    for e in ents + kfs: bins.setdefault(e.get("bin", P.get("bin")), []).append(e.get("name") or e.get("entry"))
    built = {b: build_harness(b, v) for b, v in bins.items()}
    build_s = time.time() - T0
    tot = dict(paths=0, steps=0, forks=0, asserts=0, asserts_sym=0, queries=0, int_queries=0, sat=0, unsat=0, unknown=0, infeasible=0, final_sat=0)
    solver_time, validated, samples, per_entry, functions, violations, problems = 0.0, 0, [], [], {}, [], []
    for e in ents:
        binary, ll = built[e.get("bin", P.get("bin"))]
        left = BUDGET[tier] - (time.time() - T0)
        if left < 20: problems.append("%s: no time left" % e["name"]); break
        outf = os.path.join(BUILD, "out-%s.json" % e["name"])
        cmd = [symex, ll, e["name"], "--max-time", str(int(left - 15)), "--samples", str(e.get("samples", 6)), "--max-steps", str(e.get("max_steps", 100_000_000)), "--rlimit", str(e.get("rlimit", 200_000_000)), "--out", outf, "--jobs", "8", "--grace", "20" if tier == "quick" else "120"]
        r = run(cmd, timeout=left + 60)
        if r.returncode or not os.path.exists(outf): problems.append("%s: engine exit %s: %s" % (e["name"], r.returncode, r.stdout[-800:])); continue
        parts = [json.loads(l) for l in open(outf)]
        os.remove(outf)
        last = parts.pop()
        covers, fails, inc, smp, agg = {}, {}, {}, [], dict.fromkeys(tot, 0)
        st, mq, mv = 0.0, 0.0, 0
        for p in parts:
            for k in tot: agg[k] += p.get(k, 0)
            st += p.get("solver_time", 0); mq = max(mq, p.get("max_query", 0)); mv = max(mv, p.get("max_vars", 0))
            for k, n in p.get("covers", {}).items(): covers[k] = covers.get(k, 0) + n
            for f in p.get("fails", []): fails.setdefault((f["kind"], f["msg"], f["loc"]), f)
            for m, n in p.get("inconclusive", []): inc[m] = inc.get(m, 0) + n
            smp += p.get("samples", [])
        for k in tot: tot[k] += agg[k]
        solver_time += st
        for k, n in last["functions"].items(): functions[k] = max(functions.get(k, 0), n)
        # replay of the failures
        for f in list(fails.values())[:20]:
            rc, cv, outs, se, done = native(binary, e["name"], f["inputs"])
            if reproduces(f, rc, se): violations.append((e, f, rc, se))
            else: problems.append("%s: the model's failure %r at %s (inputs %s) does not reproduce natively (exit %s: %s)" % (e["name"], f["msg"], f["loc"], f["inputs"], rc, se[-300:]))
        # replay of sampled paths: prediction against the native run
        step = max(1, len(smp) // e.get("replays", 12))
        for s in smp[::step]:
            rc, cv, outs, se, done = native(binary, e["name"], s["inputs"])
            if rc == 0 and done and outs == s["outs"]:
                validated += 1
                if len(samples) < 12: samples.append({"entry": e["name"], "inputs": s["inputs"], "outputs": s["outs"][:60]})
            else: problems.append("%s: path with inputs %s: native run gives exit %s outs %s, the model predicts %s %s" % (e["name"], s["inputs"], rc, outs[:40], s["outs"][:40], se[-300:]))
        if not fails:
            if not agg["paths"]: problems.append("%s: no path completes" % e["name"])
            for c in e.get("covers", []):
                if not covers.get(c): problems.append("%s: cover point %r not reached" % (e["name"], c))
        for m, n in inc.items(): problems.append("%s: %s (%d)" % (e["name"], m, n))
        per_entry.append(dict(entry=e["name"], bounds=BOUNDS[e["name"][9:]], paths=agg["paths"], steps=agg["steps"], forks=agg["forks"], assertions=agg["asserts"], assertions_symbolic=agg["asserts_sym"], queries=agg["queries"], solver_s=round(st, 2), max_query_s=mq, symbolic_inputs=mv, wall_s=last["wall"], covers=covers, failures=len(fails)))
        print("%s: %d paths, %d steps, %d assertions, %d queries (%.1f s solver), %.1f s" % (e["name"], agg["paths"], agg["steps"], agg["asserts"], agg["queries"], st, last["wall"]), flush=True)
        if violations and tier == "quick": break
    findings = []
    for k in kfs:
        binary, _ = built[k.get("bin", P.get("bin"))]
        rc, cv, outs, se, done = native(binary, k["entry"], k.get("inputs", []))
        if rc != 0:
            findings.append(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else: print("note: known finding %s no longer fails" % k["id"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    names = demangle(sorted({k.split("\t")[1] for k in functions}))
    fl = sorted({"%s: %s" % (k.split("\t")[0].replace(REPO + "/", ""), names.get(k.split("\t")[1], k.split("\t")[1])) for k in functions if k.startswith(REPO)})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - T0, 1), violations=len(violations),
        assumptions=P.get("assumptions", []) + ["everything outside the stated bounds"],
        coverage=dict(states=tot["forks"] + len(ents), transitions=tot["steps"], traces_validated_against_impl=validated, samples=samples,
            paths_completed=tot["paths"], paths_certified_by_solver=tot["final_sat"], path_forks=tot["forks"], ir_instructions_executed=tot["steps"], assertions=tot["asserts"], assertions_decided_by_solver=tot["asserts_sym"],
            solver_queries=tot["queries"], queries_integer_encoding=tot["int_queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(solver_time, 2), build_s=round(build_s, 1),
            engine_selftest=selftest, entries=per_entry, functions_encoded=fl, functions_encoded_count=len(fl), known_findings=findings,
            exhaustive=not problems, native_replays=NREP[0]))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=False)
    for p in problems: print("PROBLEM " + p)
    if violations:
        rd = os.path.join(BUILD, "replays"); os.makedirs(rd, exist_ok=True)
        for i, (e, f, rc, se) in enumerate(violations):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            json.dump(dict(property=prop, entry=e["name"], inputs=f["inputs"], kind=f["kind"], message=f["msg"], location=f["loc"], native_exit=rc, native_stderr=se[-2000:],
                replay="SX_INPUT=<file holding the inputs> SX_SCRATCH=<empty dir> %s %s" % (built[e.get("bin", P.get("bin"))][0], e["name"])), open(path, "w"), indent=1, ensure_ascii=False)
            print("  %s %s at %s inputs=%s native exit %s" % (f["kind"], f["msg"], f["loc"], f["inputs"], rc))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    if problems: sys.exit(2)
    print("OK property=%s tier=%s paths=%d queries=%d wall=%.0fs" % (prop, tier, tot["paths"], tot["queries"], time.time() - T0))

main()
