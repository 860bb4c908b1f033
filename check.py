#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep DIR]

Builds the symbolic executor, the IR of the harness crate over /repo's current
sources and the native replay binary, runs the property's harness entry points
symbolically, replays every counterexample and a sample of the explored paths
natively, and writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: no verdict.
"""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import checks as table
B = os.path.join(ROOT, ".build")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
HOOK = "--cfg verif"
JOBS = max(2, min(8, os.cpu_count() or 8))

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

def run(cmd, cwd, env, log):
    with open(log, "w") as f:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT).returncode

def tail(p, n=25):
    with open(p, errors="replace") as f:
        return "".join(f.readlines()[-n:])

def build_engine():
    r = run(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "engine"), dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "engine")), os.path.join(B, "engine.log"))
    if r: die("engine build failed\n" + tail(os.path.join(B, "engine.log")))
    return os.path.join(B, "engine", "release", "symex")

def build_ir():
    t = os.path.join(B, "ir")
    for f in glob.glob(t + "/release/deps/harness-*.ll") + glob.glob(t + "/release/deps/libharness-*"):
        os.remove(f)
    r = run(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "staticlib", "--", "--emit=llvm-ir"], os.path.join(ROOT, "harness"),
            dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS=HOOK), os.path.join(B, "ir.log"))
    if r: die("harness IR build failed\n" + tail(os.path.join(B, "ir.log")))
    l = glob.glob(t + "/release/deps/harness-*.ll")
    if len(l) != 1: die("expected one IR file, got %r" % l)
    return l[0]

def build_native():
    t = os.path.join(B, "native")
    r = run(["cargo", "build", "--offline"], os.path.join(ROOT, "harness"), dict(ENV, CARGO_TARGET_DIR=t, RUSTFLAGS=HOOK), os.path.join(B, "native.log"))
    if r: die("native replay build failed\n" + tail(os.path.join(B, "native.log")))
    return os.path.join(t, "debug", "replay")

def build_all():
    os.makedirs(B, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(build_engine), ex.submit(build_ir), ex.submit(build_native)
        return a.result(), b.result(), c.result()

def native(replay, entry, inputs, timeout=20):
    """-> dict(fails, obs, logs, panic, timeout, done)"""
    r = dict(fails=[], obs=[], logs=[], panic=None, timeout=False, done=False, raw="")
    try:
        p = subprocess.run([replay, entry] + [str(i) for i in inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV)
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as e:
        r["timeout"] = True
        out, rc = (e.stdout or b"").decode(errors="replace"), None
    for l in out.splitlines():
        w = l.split(" ", 1)
        if w[0] == "FAIL": r["fails"].append(int(w[1]))
        elif w[0] == "OBS": r["obs"].append(int(w[1]))
        elif w[0] == "LOG": r["logs"].append(w[1])
        elif w[0] == "PANIC": r["panic"] = w[1]
        elif w[0] == "DONE": r["done"] = True
        elif w[0] in ("INFEASIBLE", "EXHAUSTED", "BADCHOICE", "NOENTRY"): r["raw"] += l + " "
    if rc is not None and (rc < 0 or rc > 128) and not r["panic"]:
        r["panic"] = "process ended by signal (status %d)" % rc
    r["rc"] = rc
    return r

def merge(prefix):
    tot, viols, errs, samples, reached, called = {}, {}, {}, [], {}, set()
    files = sorted(glob.glob(prefix + ".*.json"))
    for f in files:
        d = json.load(open(f))
        for k, v in d.items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k.startswith("max") or k == "z3_max_secs" else tot.get(k, 0) + v
        for v in d["viols"]:
            k = (v["kind"], v["id"], v["what"])
            if k in viols: viols[k]["count"] += v["count"]
            else: viols[k] = v
        for e in d["errs"]:
            if e["what"] in errs: errs[e["what"]]["count"] += e["count"]
            else: errs[e["what"]] = e
        samples += d["samples"]
        for k, n in d["reached"].items(): reached[int(k)] = reached.get(int(k), 0) + n
        called |= set(d["called"])
    return len(files), tot, list(viols.values()), list(errs.values()), samples, reached, called

def known(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) fail=(\S+) input=(\S.*?) :: (.*)", l)
            if m and m.group(1) == prop: out.append(dict(entry=m.group(2), fail=m.group(3), input=m.group(4), what=m.group(5)))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--entry") + 1] if "--entry" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = table.CHECKS[prop]
    t0 = time.time()
    engine, ll, replay = build_all()
    tb = time.time() - t0
    print("built engine, IR and replay in %.0f s" % tb, flush=True)
    out = os.path.join(B, "out-" + prop)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    rdir = os.path.join(ROOT, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    budget = 780 if tier == "quick" else 3 * 3600
    kf = known(prop)
    violations, problems, entries, allcalled, validated, samples_out, knownhits = [], [], [], set(), 0, [], set()
    sumt = {}
    for e in table.entries(prop, tier):
        if only and e["entry"] != only: continue
        left = budget - (time.time() - t0)
        if left < 20:
            problems.append("no time left for " + e["entry"])
            break
        pre = os.path.join(out, e["entry"])
        t1 = time.time()
        cmd = [engine, ll, "--entry", e["entry"], "--out", pre, "--jobs", str(JOBS), "--time", str(int(left)), "--max-steps", str(e.get("max_steps", 8_000_000)),
               "--frontier", str(e.get("frontier", 400)), "--samples", str(e.get("samples", 5)), "--stop-viols", "12"]
        log = pre + ".log"
        with open(log, "w") as f:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=ENV).returncode
        if rc != 0: problems.append("engine exit %d on %s: %s" % (rc, e["entry"], tail(log, 4)))
        nf, tot, viols, errs, samples, reached, called = merge(pre)
        if nf == 0:
            continue
        allcalled |= called
        for k, v in tot.items():
            sumt[k] = max(sumt.get(k, 0), v) if k.startswith("max") or k == "z3_max_secs" else sumt.get(k, 0) + v
        if tot["left"]: problems.append("%s: exploration incomplete (%d states left)" % (e["entry"], tot["left"]))
        for x in errs: problems.append("%s: engine could not follow %d path(s): %s %s" % (e["entry"], x["count"], x["what"][:400], x["inputs"]))
        miss = [r for r in e.get("reach", []) if not reached.get(r)]
        # counterexamples
        confirmed = 0
        for v in viols:
            n = native(replay, e["entry"], v["inputs"])
            what, ok = "", False
            if v["kind"] == "assert":
                ok = v["id"] in n["fails"]
                what = c["fails"].get(v["id"]) or table.FAILS.get(v["id"], "assertion %d" % v["id"])
                if not ok and n["panic"]: ok, what = True, "panic: " + n["panic"]
            elif v["kind"] == "panic":
                ok = n["panic"] is not None
                what = "panic: %s" % n["panic"]
            elif v["kind"] == "steplimit":
                ok = n["timeout"] or n["panic"] is not None
                what = "does not terminate (within %s steps)" % e.get("max_steps", 8_000_000)
            if not ok and n["fails"]:
                ok, what = True, "; ".join(table.FAILS.get(i, str(i)) for i in n["fails"])
            if not ok:
                problems.append("%s: counterexample %s %s %s did not reproduce natively (%s)" % (e["entry"], v["kind"], v["id"], v["what"][:200], v["inputs"]))
                continue
            k = [x for x in kf if x["entry"] in (e["entry"], "*") and x["fail"] == str(v["id"]) and any(x["input"] in l for l in n["logs"])]
            if k:
                knownhits.add(k[0]["what"])
                continue
            confirmed += 1
            path = os.path.join(rdir, "%d.json" % len(violations))
            json.dump(dict(property=prop, entry=e["entry"], kind=v["kind"], id=v["id"], what=what, where=v["what"][:600], paths=v["count"], inputs=v["inputs"], log=n["logs"], native=dict(fails=n["fails"], panic=n["panic"], timeout=n["timeout"]),
                           command="%s %s %s" % (os.path.relpath(replay, ROOT), e["entry"], " ".join(map(str, v["inputs"])))), open(path, "w"), indent=1)
            violations.append((path, e["entry"], what, n["logs"]))
        # sampled paths
        bad = 0
        def one(s): return s, native(replay, e["entry"], s["inputs"])
        with ThreadPoolExecutor(JOBS) as ex:
            for s, n in ex.map(one, samples):
                if n["panic"] or n["timeout"] or n["fails"] or not n["done"] or [int(x) for x in s["observed"]] != n["obs"]:
                    bad += 1
                    if bad <= 2 and not confirmed: problems.append("%s: path %s behaves differently natively: %s" % (e["entry"], s["inputs"], {k: n[k] for k in ("fails", "obs", "panic", "raw", "timeout")}))
                else:
                    validated += 1
                    if len(samples_out) < 24 and n["logs"]:
                        samples_out.append(dict(entry=e["entry"], inputs=s["inputs"][:40], log=[l[:400] for l in n["logs"][:3]]))
                    elif not n["logs"] and len(samples_out) < 8:
                        samples_out.append(dict(entry=e["entry"], inputs=s["inputs"][:40], observed=n["obs"][:16]))
        if miss and not confirmed: problems.append("%s: witnesses not reached: %s" % (e["entry"], miss))
        entries.append(dict(entry=e["entry"], bounds=e["bounds"], paths=tot["done"], infeasible=tot["infeasible"], forks=tot["forks"], instructions=tot["instrs"], solver_assertions=tot["asserts_solver"],
                            constant_assertions=tot["asserts_const"], queries=tot["queries"], z3_calls=tot["z3_calls"], z3_unsat=tot["z3_unsat"], z3_secs=round(tot["z3_secs"], 2), complete=tot["left"] == 0 and not errs,
                            witnesses={str(k): v for k, v in sorted(reached.items())}, wall_s=round(time.time() - t1, 1)))
        print("%s: %d paths, %d queries (%d to Z3, %.1f s), %.0f s%s" % (e["entry"], tot["paths"], tot["queries"], tot["z3_calls"], tot["z3_secs"], time.time() - t1, ", %d violation(s)" % confirmed if confirmed else ""), flush=True)
        if confirmed: break
    fn = sorted(x for x in allcalled if "dice_" in x)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sumt.get("done", 0), transitions=sumt.get("forks", 0), traces_validated_against_impl=validated, samples=samples_out or [dict(note="none")],
                            rule="a state is one completed symbolic path (a set of inputs the implementation treats alike, disjoint from all others); a transition is a solver-decided fork",
                            exhaustive=not problems and not violations, entries=entries, functions_encoded=len(fn), functions=fn[:400], engine_functions=len(allcalled), queries=sumt.get("queries", 0), z3_calls=sumt.get("z3_calls", 0),
                            z3_unsat=sumt.get("z3_unsat", 0), solver_s=round(sumt.get("z3_secs", 0), 2), domain_decided=sumt.get("domain_hits", 0), domain_crosschecked_with_z3=sumt.get("domain_crosschecks", 0),
                            assertions_by_solver=sumt.get("asserts_solver", 0), assertions_constant=sumt.get("asserts_const", 0), instructions=sumt.get("instrs", 0), bounds=c["bounds"], build_s=round(tb, 1), problems=problems),
              assumptions=table.ASSUMPTIONS + c.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for w in sorted(knownhits): print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if violations:
        for p, en, w, logs in violations[:6]:
            print("  %s: %s" % (en, w))
            for l in logs[:6]: print("     ", l[:600])
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        return 1
    if problems:
        for p in problems[:12]: print("PROBLEM:", p)
        print("no verdict")
        return 2
    print("property %s held on everything explored (%d paths, %.0f s)" % (prop, sumt.get("done", 0), time.time() - t0))
    return 0

if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        os.makedirs(B, exist_ok=True)
        build_all()
        sys.exit(0)
    sys.exit(main())
