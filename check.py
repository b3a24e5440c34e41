#!/usr/bin/env python3
"""Decide one property of hibit_tree by symbolic execution of the code compiled from /repo.

usage: check.py ID [--tier quick|thorough] [--only HARNESS,...]

 1. builds the engine (if needed) and the harness crate's LLVM IR against /repo's working tree,
 2. runs the engine on every harness of the property,
 3. re-runs every counterexample natively (debug, release, AddressSanitizer, Miri) and reports it
    only if the native run shows it too,
 4. re-runs sample path models natively,
 5. writes evidence/ID.json.
exit: 0 held on everything explored, 1 violation (line VIOLATION ...), 2 no answer.
"""
import fcntl, glob, json, os, re, resource, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import PROPS
HB = os.path.join(HERE, "harness")
TGT = os.path.join(HB, "target")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
T0 = time.time()

def env(**kw):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"): e.pop(k, None)
    e.update(kw)
    return e

def say(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def fail(msg):
    say("ERROR:", msg)
    sys.exit(2)

class Lock:
    def __init__(self, name): self.p = os.path.join(TGT, name)
    def __enter__(self):
        os.makedirs(TGT, exist_ok=True)
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def run(cmd, cwd, timeout=800, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)

def build_engine():
    with Lock(".lock-engine"):
        r = run(["cargo", "build", "--release", "--offline"], os.path.join(HERE, "engine"))
        if r.returncode: fail("engine does not build\n" + r.stdout[-3000:])
    return os.path.join(HERE, "engine/target/release/symex")

def build_ir(feature, profile, rustflags, out):
    """LLVM IR of harness + /repo + std, link-time optimised into one module."""
    with Lock(".lock-ir"):
        for d in glob.glob(os.path.join(TGT, profile, "build/hibit_harness*")) + glob.glob(os.path.join(TGT, profile, "deps/*hibit_harness*")):
            shutil.rmtree(d) if os.path.isdir(d) else os.remove(d)
        kw = dict(CARGO_TARGET_DIR=TGT)
        if rustflags: kw["RUSTFLAGS"] = rustflags
        r = run(["cargo", "rustc", "--lib", "--crate-type", "cdylib", "--offline", "--profile", profile, "--features", feature, "--",
                 "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], HB, **kw)
        if r.returncode: fail("harness does not build against /repo\n" + r.stdout[-4000:])
        ll = [p for p in glob.glob(os.path.join(TGT, profile, "**", "hibit_harness*.ll"), recursive=True)]
        if not ll: fail("no IR produced\n" + r.stdout[-1000:])
        ll.sort(key=os.path.getmtime)
        shutil.move(ll[-1], out)

REPLAY = {}
def replayer(build, kind):
    """Native build of the same harnesses; kinds: debug, release, asan. build: (features, rustflags)"""
    if (build, kind) in REPLAY: return REPLAY[build, kind]
    feature, flags = build
    kw = dict(CARGO_TARGET_DIR=os.path.join(TGT, "replay-" + kind))
    if flags: kw["RUSTFLAGS"] = flags
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--features", "replay," + feature]
    sub = "debug"
    if kind == "release": cmd += ["--profile", "rrelease"]; sub = "rrelease"
    if kind == "asan":
        kw["RUSTFLAGS"] = (flags + " -Zsanitizer=address").strip()
        cmd += ["--target", "x86_64-unknown-linux-gnu"]; sub = "x86_64-unknown-linux-gnu/debug"
    with Lock(".lock-replay"):
        r = run(cmd, HB, **kw)
        if r.returncode: fail("replayer (%s) does not build\n%s" % (kind, r.stdout[-3000:]))
        src = os.path.join(kw["CARGO_TARGET_DIR"], sub, "replay")
        dst = os.path.join(TGT, "bin", "replay-%s-%d-%s" % (feature.replace(",", "-"), len(flags), kind))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy2(src, dst)
    REPLAY[build, kind] = dst
    return dst

def lim():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def native(build, kind, harness, inputs, timeout=30):
    """-> (bad?, text)"""
    args = [harness] + [str(x) for x in inputs]
    try:
        if kind == "miri":
            cmd = ["cargo", "miri", "run", "--offline", "--bin", "replay", "--features", "replay," + build[0], "--"] + args
            r = subprocess.run(cmd, cwd=HB, env=env(CARGO_TARGET_DIR=os.path.join(TGT, "replay-miri"), MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            bad = r.returncode != 0 and ("Undefined Behavior" in r.stdout or "REPLAY-VIOLATION" in r.stdout or "memory leaked" in r.stdout)
        else:
            r = subprocess.run([replayer(build, kind)] + args, cwd="/tmp", env=env(ASAN_OPTIONS="detect_leaks=0", RUST_BACKTRACE="0"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout, preexec_fn=lim)
            bad = r.returncode != 0
        return bad, "exit %d: %s" % (r.returncode, r.stdout.strip()[-1500:])
    except subprocess.TimeoutExpired:
        return kind != "miri", "no end within the time limit"

def confirm(build, v, harness):
    log = []
    for kind in ("debug", "release", "asan", "miri"):
        bad, txt = native(build, kind, harness, v["inputs"])
        log.append("%s: %s" % (kind, txt))
        if bad: return kind, log
    return None, log

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--only": only = a[i + 1].split(",")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    feature = pid.lower()
    src = open(os.path.join(HB, "src", feature + ".rs")).read()
    names = re.findall(r"^\s*fn (%st?_\w+)\s*\(\)" % feature, src, re.M)
    names = [n for n in names if tier == "thorough" or not n.startswith(feature + "t_")]
    if only: names = [n for n in names if n in only]
    if not names: fail("no harnesses")
    engine = build_engine()
    work = os.path.join(TGT, "run-" + pid)
    os.makedirs(work, exist_ok=True)
    results = []
    builds = P.get("builds", [("sym", "", "", "")])
    built_s = 0
    jobs = min(8, os.cpu_count() or 8)
    violation = None
    errors = []
    for bi, (profile, rustflags, label, extra) in enumerate(builds):
        if label.startswith("thorough") and tier != "thorough": continue
        ll = os.path.join(work, "ir%d.ll" % bi)
        t = time.time()
        feats = feature + ("," + extra if extra else "")
        build_ir(feats, profile, rustflags, ll)
        built_s += time.time() - t
        say("IR built (%s %s %s)" % (profile, rustflags, extra))
        out = os.path.join(work, "out%d.json" % bi)
        limit = P.get("timeout", 600 if len(builds) == 1 else 330) if tier == "quick" else P.get("thorough_timeout", 21600)
        for fast in (True, False):
            cmd = [engine, "--ll", ll, "--jobs", str(jobs), "--timeout", str(limit), "--max-steps", str(P.get("max_steps", 3000000)),
                   "--selfcheck-every", "16" if tier == "quick" else "8", "--out", out] + (["--fail-fast"] if fast else []) + names
            if os.path.exists(out): os.remove(out)
            r = subprocess.run(cmd, cwd="/tmp", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if not os.path.exists(out): fail("engine: exit %d %s" % (r.returncode, r.stdout[-2000:]))
            rs = json.load(open(out))
            nv = [(h, v) for h in rs for v in h["violations"]]
            for h, v in nv:
                say("candidate violation in %s: %s: %s, inputs %s" % (h["harness"], v["kind"], v["message"], v["inputs"]))
                kind, log = confirm((feats, rustflags), v, h["harness"])
                if kind:
                    violation = dict(property=pid, harness=h["harness"], kind=v["kind"], message=v["message"], inputs=v["inputs"], build=(profile + " " + rustflags + " " + extra).strip(),
                                     engine_backtrace=v["backtrace"].split(" <- "), confirmed_by=kind, native_runs=log)
                    break
                say("  not reproduced natively:", *log)
                errors.append("%s: counterexample not reproduced natively (%s: %s)" % (h["harness"], v["kind"], v["message"]))
            if violation or not nv: break
        os.remove(ll)
        for h in rs: h["build"] = (profile + " " + rustflags + " " + extra).strip(); h["native"] = (feats, rustflags)
        results += rs
        if violation: break
    known = []
    for l in open(os.path.join(HERE, "known_findings.jsonl")) if os.path.exists(os.path.join(HERE, "known_findings.jsonl")) else []:
        l = l.strip()
        if l.startswith("{"):
            k = json.loads(l)
            if k.get("property") == pid: known.append(k)
    # sample path models, run natively
    validated = disagreements = 0
    samples = []
    if not violation:
        for h in results:
            for s in h["samples"][:24]:
                bad, txt = native(h["native"], "debug", h["harness"], s)
                if bad:
                    disagreements += 1
                    errors.append("%s: native run of a path model disagrees: inputs %s: %s" % (h["harness"], s, txt[-300:]))
                else: validated += 1
            if h["samples"]: samples.append({"harness": h["harness"], "inputs": h["samples"][len(h["samples"]) // 2]})
    unfinished = []
    for h in results:
        if violation: break
        say("%-34s %-9s %6.1fs paths %d asserts %d queries %d solver %.1fs" % (h["harness"], h["status"], h["seconds"], h["completed"] + h["expected_panics"], h["assertions"], h["queries"], h["solver_seconds"]))
        if h["status"] == "timeout": unfinished.append(h["harness"])
        elif h["status"] not in ("ok", "violation"): errors.append("%s: %s %s" % (h["harness"], h["status"], "; ".join(h["errors"][:2])[:600]))
        elif h["status"] == "ok" and not (h["completed"] + h["expected_panics"]): errors.append("%s: no path completed" % h["harness"])
        elif h["status"] == "ok" and not h["assertions"] and not P.get("no_asserts"): errors.append("%s: nothing asserted" % h["harness"])
    S = lambda k: sum(h[k] for h in results)
    def inrepo(h): return {f[len("/repo/"):] for f in h["source_functions"] if f.startswith("/repo/src")}
    funcs = sorted(set().union(*[inrepo(h) for h in results])) if results else []
    def plain(x):
        o, d = "", 0
        for i, c in enumerate(x):
            if c == "<": d += 1
            elif c == ">" and x[i - 1] != "-": d -= 1
            elif d == 0: o += c
        return o
    inst = {}
    for f in funcs: inst[plain(f)] = inst.get(plain(f), 0) + 1
    lines = {}
    for h in results:
        for f, ls in h["lines"].items():
            if f.startswith("/repo/src"): lines.setdefault(f[6:], set()).update(ls)
    # running out of time is no verdict on what was not explored, but there has to be a lot that was
    if not violation and len(unfinished) * 2 > len(results): errors.append("out of time: %d of %d harnesses not finished" % (len(unfinished), len(results)))
    if not violation and not errors and not funcs: errors.append("no function of /repo was executed")
    cov = {
        "states": S("completed") + S("expected_panics"), "transitions": S("instructions"), "traces_validated_against_impl": validated,
        "states_are": "completed symbolic paths, each standing for all inputs that satisfy its path condition", "transitions_are": "LLVM IR instructions executed symbolically",
        "samples": samples[:12],
        "harnesses": [{k: h[k] for k in ("harness", "build", "status", "seconds", "completed", "expected_panics", "infeasible", "forks", "instructions", "assertions", "assertion_queries", "paths_reexecuted", "queries", "sat", "unsat", "query_cache_hits", "decided_by_order_closure", "solver_seconds", "max_query_seconds", "covers")} for h in results],
        "bounds": P["bounds"], "outside": P.get("outside", ""),
        "forks": S("forks"), "assertions_checked": S("assertions"), "assertions_decided_by_solver": S("assertion_queries"),
        "smt_queries": S("queries"), "smt_sat": S("sat"), "smt_unsat": S("unsat"), "smt_seconds": round(S("solver_seconds"), 2), "smt_solver": "z3 4.8.12 (QF_BV), in process",
        "paths_reexecuted_concretely_in_engine": S("paths_reexecuted"), "native_disagreements": disagreements,
        "functions_encoded": ["%s (%d instantiations)" % (f, n) if n > 1 else f for f, n in sorted(inst.items())], "source_lines_executed": {f: len(l) for f, l in sorted(lines.items())}, "ir_build_seconds": round(built_s, 1),
        "exhaustive": not errors and not violation and not unfinished, "harnesses_not_finished_in_time": unfinished,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": P.get("assumptions", []) + ["rustc's lowering to LLVM IR at opt-level 1 (debug assertions, overflow and unsafe-precondition checks on), the engine (engine/), z3"],
          "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    if errors: ev["coverage"]["errors"] = errors[:20]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation:
        rp = os.path.join(HERE, "evidence", "%s.replay.json" % pid)
        violation["replay_command"] = "cd /verif/harness && RUSTFLAGS='%s' cargo +nightly run --bin replay --features replay,%s -- %s %s" % (rustflags, feats, violation["harness"], " ".join(map(str, violation["inputs"])))
        json.dump(violation, open(rp, "w"), indent=1)
        say("confirmed natively (%s): %s" % (violation["confirmed_by"], violation["native_runs"][-1][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        sys.exit(1)
    if errors:
        for e in errors[:8]: say("ERROR:", e)
        sys.exit(2)
    if unfinished: say("INCOMPLETE: explored in part only, out of time: %s" % ", ".join(unfinished))
    say("%s held: %d paths, %d assertions, %d SMT queries (%.1f s), %d native replays" % (pid, cov["states"], cov["assertions_checked"], cov["smt_queries"], cov["smt_seconds"], validated))

if __name__ == "__main__":
    main()
