#!/usr/bin/env python3
"""Decides one property: check.py P07 [quick|thorough]

Builds, from /repo's working tree, the LLVM IR of the whole `pemv` executable and a native
executable; executes the IR symbolically on the cases of the property (engine/, harness/);
replays every counterexample of the solver, and a sample of the explored paths, against the
native executable. Exit 0: held on everything explored; 1: broken; 2: no answer."""
import json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TOTAL = 560 if TIER == "quick" else 4 * 3600      # seconds for the exploration
PERJOB = 240 if TIER == "quick" else 3600
T0 = time.time()
CORES = os.cpu_count() or 8

def say(*a): print(*a, flush=True)

def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "MAN_PAGE", "COMPLETION_", "PEMV_"))}
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e.setdefault("HOME", "/root")
    return e
IRFLAGS = ["--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "panic=abort"]

def run(cmd, cwd, env, log):
    with open(log, "w") as f:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL).returncode

def newest(d, suffix, prefix):
    c = [os.path.join(d, f) for f in os.listdir(d) if f.startswith(prefix) and f.endswith(suffix)] if os.path.isdir(d) else []
    return max(c, key=os.path.getmtime) if c else None

def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = os.path.join(REPO, "Cargo.lock")
    b = lambda n: os.path.join(BUILD, n)
    e = base_env()
    def engine():
        x = dict(e, RUSTFLAGS="-L /usr/lib/x86_64-linux-gnu")
        return run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", b("engine")], os.path.join(HERE, "engine"), x, b("engine.log"))
    def impl():
        x = dict(e, CARGO_PROFILE_RELEASE_OPT_LEVEL="1", CARGO_PROFILE_RELEASE_LTO="fat", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="1", CARGO_PROFILE_RELEASE_DEBUG="0")
        d = b("impl/release/deps")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith("pemv"): os.unlink(os.path.join(d, f))
        r = run(["cargo", "rustc", "--release", "--offline", "--locked", "--target-dir", b("impl"), "--bin", "pemv", "--"] + IRFLAGS + ["-C", "overflow-checks=on", "-C", "strip=none"], REPO, x, b("impl.log"))
        return r
    def harness():
        r = run(["cargo", "rustc", "--release", "--offline", "--locked", "--lib", "--target-dir", b("harness"), "--"] + IRFLAGS, os.path.join(HERE, "harness"), e, b("harness.log"))
        return r or run(["cargo", "build", "--offline", "--locked", "--bin", "sxh-native", "--target-dir", b("harness")], os.path.join(HERE, "harness"), e, b("sxh.log"))
    def native():
        return run(["cargo", "build", "--locked", "--offline", "--bin", "pemv", "--target-dir", b("native")], REPO, dict(e, CARGO_PROFILE_DEV_DEBUG="0"), b("native.log"))
    def anyenv():
        return run(["cc", "-O1", "-shared", "-fPIC", "-o", b("anyenv.so"), os.path.join(HERE, "harness/anyenv.c")], HERE, e, b("anyenv.log"))
    parts = dict(engine=engine, impl=impl, harness=harness, native=native, anyenv=anyenv)
    with ThreadPoolExecutor(5) as p:
        rs = {k: p.submit(f) for k, f in parts.items()}
        rs = {k: f.result() for k, f in rs.items()}
    for k, r in rs.items():
        if r:
            for l in (k, "sxh"):
                if os.path.exists(b(l + ".log")): sys.stdout.write(open(b(l + ".log")).read()[-3000:])
            say(f"ERROR: building {k} failed ({r})")
            sys.exit(2)
    out = dict(engine=b("engine/release/sx-engine"), impl=newest(b("impl/release/deps"), ".ll", "pemv"), harness=newest(b("harness/release/deps"), ".ll", "sxh"), sxh=b("harness/debug/sxh-native"), pemv=b("native/debug/pemv"), anyenv=b("anyenv.so"))
    for k, v in out.items():
        if not v or not os.path.exists(v): say(f"ERROR: no {k} was built"); sys.exit(2)
    return out

def replay(A, case, model):
    e = dict(SXH_PEMV=A["pemv"], SXH_ANYENV=A["anyenv"], PATH=os.environ.get("PATH", ""), TMPDIR=os.path.join(BUILD, "tmp"))
    os.makedirs(e["TMPDIR"], exist_ok=True)
    try: r = subprocess.run([A["sxh"], "replay", case, model], env=e, capture_output=True, stdin=subprocess.DEVNULL, timeout=120)
    except subprocess.TimeoutExpired: return "error", "timeout"
    t = r.stdout.decode("utf-8", "replace")
    return {0: "ok", 2: "excluded", 3: "violation"}.get(r.returncode, "error"), t + r.stderr.decode("utf-8", "replace")

def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["findings"]:
            if k["property"] == PROP: out.append(k)
    return out

def demangle(names):
    """Readable paths of the functions of pemv itself (v0 mangling)."""
    out = set()
    for n in names:
        if "4pemv" not in n: continue
        parts, i = [], 0
        while i < len(n):
            m = re.match(r"(?:s|B|C s|b)[0-9A-Za-z]*_(?![0-9A-Za-z]*_?[a-z]{2,}::)", n[i:]) if n[i] in "sB" else None
            if m: i += m.end(); continue
            if n[i].isdigit():
                m = re.match(r"(\d+)_?", n[i:]); k = int(m.group(1)); j = i + m.end()
                if 0 < k <= len(n) - j: parts.append(n[j:j + k]); i = j + k; continue
                i += m.end(); continue
            i += 1
        t = "::".join(p for p in parts if p)
        out.add(t[t.find("pemv"):] if "pemv" in t else n)
    return sorted(out)

def main():
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    for f in os.listdir(ev_dir):
        if f.startswith(f"replay-{PROP}-"): os.unlink(os.path.join(ev_dir, f))
    A = build()
    t_build = time.time() - T0
    lst = subprocess.run([A["sxh"], "jobs", PROP, TIER], capture_output=True, text=True, check=True).stdout.splitlines()
    bounds = [l[2:] for l in lst if l.startswith("#")]
    jobs = [l for l in lst if l and not l.startswith("#")]
    if not jobs: say(f"ERROR: {PROP} has no cases"); sys.exit(2)
    say(f"{PROP} {TIER}: {len(jobs)} cases, built in {t_build:.0f} s")
    jf = os.path.join(BUILD, f"jobs-{PROP}.txt")
    open(jf, "w").write("\n".join(jobs))
    limit = min(PERJOB, TOTAL)
    cmd = [A["engine"], "--impl", A["impl"], "--harness", A["harness"], "--jobs", "@" + jf, "--par", str(CORES), "--limit", str(limit), "--samples", "2" if len(jobs) > 40 else "6", "--seed", str(SEED), "--warm", "1"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(os.path.join(BUILD, f"engine-{PROP}.err"), "w"), stdin=subprocess.DEVNULL, start_new_session=True)
    killed = []
    def stop():
        killed.append(1)
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
    timer = threading.Timer(TOTAL, stop); timer.daemon = True; timer.start()
    results, confirmed, unconfirmed = [], [], []
    pool = ThreadPoolExecutor(CORES)
    checks = []
    for line in p.stdout:
        try: r = json.loads(line)
        except ValueError: continue
        results.append(r)
        case = f"{r['case']}:{r['param']}"
        if r["status"] == "violation":
            for v in r["violations"][:8]:
                s, t = replay(A, case, v["model"])
                if s == "violation": confirmed.append((case, v["model"], v["msg"], t)); break
                unconfirmed.append((case, v["model"], v["msg"], s))
            if confirmed and TIER == "quick": stop(); break
        elif r["status"] == "ok":
            for m in r.get("samples", []): checks.append((case, m, pool.submit(replay, A, case, m)))
        if r["status"] in ("error", "inconclusive"): say(f"undecided case {case}: {r.get('msg', '')[:300]}")
    p.wait(); timer.cancel()
    validated, mismatched = 0, 0
    for case, m, f in checks:
        s, t = f.result()
        if s in ("ok", "excluded"): validated += 1
        elif s == "violation": confirmed.append((case, m, "the sampled path fails on the real executable", t))
        else: mismatched += 1; say(f"undecided: validating {case} {m}: {t[-300:]}")
    done = {f"{r['case']}:{r['param']}" for r in results}
    missing = [j for j in jobs if j not in done]
    undecided = [f"{r['case']}:{r['param']}" for r in results if r["status"] in ("error", "inconclusive")] + missing
    spurious = sorted({c for c, *_ in unconfirmed} - {c for c, *_ in confirmed})
    for c, m, msg, s in unconfirmed[:5]: say(f"undecided: {c} model {m}: the engine reports '{msg}', the real executable says {s}")
    undecided += spurious
    # known findings: demonstrated on the real executable, never part of the exploration
    kf = 0
    for k in known_findings():
        t = subprocess.run([sys.executable, os.path.join(HERE, "tools", k["demo"]), A["pemv"]], capture_output=True, text=True, timeout=300)
        if t.returncode == 1: kf += 1; say(f"KNOWN-FINDING: property={PROP} {k['what']}")
        else: say(f"known finding no longer shows: {k['what']}")
    sm = lambda k: sum(r.get(k, 0) for r in results)
    fns = sorted({f for r in results for f in r.get("functions", [])})
    own = demangle(fns)
    ok = [r for r in results if r["status"] == "ok"]
    samples = []
    for r in sorted(ok, key=lambda r: (r["case"], r["param"]))[:: max(1, len(ok) // 6)][:6]:
        case = f"{r['case']}:{r['param']}"
        for m in r["samples"][:1]:
            s, t = replay(A, case, m)
            samples.append(dict(case=case, symbolic_bytes=r["vars"], paths=r["paths"], model=m, verdict=s, transcript=t[:900]))
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=sm("paths"), transitions=sm("instrs"), traces_validated_against_impl=validated,
            technique="symbolic execution of the LLVM IR rustc emits for /repo's pemv (whole program), Z3 deciding path conditions and assertions",
            cases=len(jobs), cases_decided=len(ok), cases_undecided=undecided[:50], bounds=bounds,
            symbolic_bytes_max=max([r.get("vars", 0) for r in results] or [0]),
            program_runs_executed_symbolically=sm("runs"), branch_forks=sm("forks"), state_merges=sm("merges"),
            assertions_checked=sm("asserts"), assertions_with_symbolic_operands=sm("assert_sym"),
            queries_discharged_by_z3=sm("z3"), queries_discharged_by_domain_propagation=sm("doms"), solver_time_s=round(sm("z3_s"), 3),
            input_space_coverage="every decided case: disjunction of explored path conditions proved to cover the assumed input space" if ok else "none",
            functions_encoded=len(fns), functions_encoded_of_pemv=own[:400],
            build_s=round(t_build, 1), known_findings_shown=kf, samples=samples),
        assumptions=["the bounds listed under coverage.bounds; inputs outside them are not claimed",
            "rustc's LLVM IR at opt-level 1 with overflow checks and panic=abort has the meaning of the shipped program",
            "the engine's model of libc, argv, environment, files and of a non-terminal stdout/stderr (validated by replaying sampled paths on the native executable)",
            "an unlimited native stack", "the oracle in harness/src/spec.rs and tables.rs"],
        wall_s=round(time.time() - T0, 1), violations=len(confirmed))
    json.dump(ev, open(os.path.join(ev_dir, f"{PROP}.json"), "w"), indent=1)
    say(f"{PROP}: {len(ok)}/{len(jobs)} cases decided, {sm('paths')} paths, {sm('instrs')} instructions, {sm('z3')} Z3 queries in {sm('z3_s'):.1f} s, {validated} paths validated natively, {time.time() - T0:.0f} s")
    shutil.rmtree(os.path.join(BUILD, "tmp"), ignore_errors=True)
    if confirmed:
        for i, (case, m, msg, t) in enumerate(confirmed[:5]):
            rp = os.path.join(ev_dir, f"replay-{PROP}-{i + 1}.txt")
            open(rp, "w").write(f"property {PROP}\nfailed: {msg}\ncase {case}\nmodel {m}\nreplay: SXH_PEMV={A['pemv']} SXH_ANYENV={A['anyenv']} {A['sxh']} replay {case} {m}\n\n{t}")
            say(t[:3000])
            say(f"VIOLATION property={PROP} replay={rp}")
        sys.exit(1)
    if len(undecided) * 2 > len(jobs) or not ok:
        say(f"ERROR: {len(undecided)} of {len(jobs)} cases could not be decided"); sys.exit(2)
    if undecided: say(f"note: {len(undecided)} of {len(jobs)} cases undecided, listed in the evidence")
    sys.exit(0)
main()
