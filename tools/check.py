#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--only SUBSTR] [--keep]

Decides one property: compiles /repo's current source plus the property's Kani harnesses to GOTO
programs, lets CBMC's solver decide every assertion over all values of the symbolic inputs within the
harness bounds, replays any counterexample natively against the real code, writes evidence/<ID>.json.
exit 0: held on everything explored; 1: violation (replayed); 2: no verdict.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from props import PROPS

VERIF = engine.VERIF

def playback(crate, h, vals, expect_panic, scratch, timeout=400):
    """Native replay in a scratch copy of the harness crate. Returns (confirmed, log)."""
    src = os.path.join(VERIF, "harness", crate)
    dst = os.path.join(scratch, "replay", "harness", crate)
    if not os.path.isdir(dst):
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
    mods = os.path.join(scratch, "replay", "models")
    if not os.path.isdir(mods):
        shutil.copytree(os.path.join(VERIF, "models"), mods)
    for d in os.listdir(os.path.join(VERIF, "harness")):
        if d.startswith("common"):
            t = os.path.join(scratch, "replay", "harness", d)
            if not os.path.isdir(t):
                shutil.copytree(os.path.join(VERIF, "harness", d), t)
    modpath, fn = h["name"].rsplit("::", 1)
    f = os.path.join(dst, "src", modpath.split("::")[0] + ".rs")
    tn = "replay_" + hashlib.sha1((h["name"] + repr(vals)).encode()).hexdigest()[:10]
    body = ",\n        ".join("vec!%s" % v for v in vals)
    test = "\n#[test]\nfn %s() {\n    let vals: Vec<Vec<u8>> = vec![\n        %s\n    ];\n    kani::concrete_playback_run(vals, %s);\n}\n" % (tn, body, "crate::" + h["name"])
    orig = open(f).read()
    try:
        open(f, "w").write(orig + test)
        r = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", tn],
                           cwd=dst, env=engine.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out = r.stdout
    except subprocess.TimeoutExpired as ex:
        # a hang is itself what some harnesses look for, but it cannot be told from a slow build
        return False, test, "timeout " + str(ex.stdout)[-2000:]
    finally:
        open(f, "w").write(orig)
    ran = re.search(r"running 1 test", out)
    failed = re.search(r"test result: FAILED. 0 passed; 1 failed", out)
    ok = re.search(r"test result: ok. 1 passed", out)
    if not ran:
        return False, test, out[-4000:]
    if failed and "Not enough det vals" in out:
        return False, test, out[-4000:]
    crashed = ran and not failed and not ok   # stack overflow, abort
    return bool((failed or crashed) if expect_panic else ok), test, out[-4000:]

def report(pid, h, item, vals, test, log, confirmed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.txt" % (pid, h["name"].replace("::", "-")))
    with open(p, "w") as f:
        f.write("property %s\nharness %s (%s)\nfailed check %s: %s (line %s)\nkani::any() values in call order:\n%s\n"
                "\nnative replay (cargo kani playback on the harness crate with this test appended): %s\n%s\n\n%s\n"
                % (pid, h["name"], h["file"], item["prop"], item["desc"], item["line"], vals,
                   "reproduced" if confirmed else "NOT reproduced", test, log))
    return p

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    spec = PROPS[pid]
    t0 = time.time()
    budget = 840 if tier == "quick" else 10800
    scratch = tempfile.mkdtemp(prefix="vk-%s-" % pid)
    num = pid[1:]
    pats = ["::c%s_" % num] + (["::t%s_" % num] if tier == "thorough" else [])
    results, hs_all, rc, why = [], [], 0, []
    codegen_s = 0.0
    violations = []
    try:
        jobs = []
        for crate in spec["crates"]:
            try:
                hs, t = engine.codegen(os.path.join(VERIF, "harness", crate), pats,
                                       os.path.join(scratch, "t-" + crate), timeout=budget - 60)
            except engine.BuildError as ex:
                # /repo (or its API as the harness uses it) does not build under the verifier
                print(str(ex))
                print("NO VERDICT property=%s: the harness crate does not build against /repo" % pid)
                return 2
            codegen_s += t
            for h in hs:
                if a.only in h["name"]:
                    h["crate"] = crate
                    h["cut"] = spec.get("cut", [])
                    jobs.append(h)
        if not jobs:
            print("NO VERDICT property=%s: no harness" % pid)
            return 2
        hs_all = jobs
        lock = threading.Lock()

        def go(h):
            per = spec.get("timeout", 400) if tier == "quick" else spec.get("timeout_thorough", 2400)
            left = budget - (time.time() - t0) - 40
            r = engine.run_harness(h, max(10, min(per, left)), spec.get("mem_gb", 12))
            base = h["unwind"]
            for k in (2, 4):
                if r["status"] == "inconclusive" and r.get("unwind_fail") and base:
                    h["unwind"] = base * k
                    left = budget - (time.time() - t0) - 40
                    if left < 15:
                        break
                    r = engine.run_harness(h, max(10, min(per, left)), spec.get("mem_gb", 12))
            with lock:
                print("%-12s %-60s %7.1fs solver %7.2fs checks %d vars %d %s" % (
                    r["status"], r["name"], r.get("wall_s", 0), r.get("solver_s", 0), r["checks"], r.get("vars", 0), r["why"][:300]), flush=True)
                for f in r["failed"][:6]:
                    print("     failed: %s: %s (line %s)" % (f["prop"], f["desc"], f["line"]), flush=True)
            return h, r
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            results = list(ex.map(go, jobs))
        for h, r in results:
            if r["status"] == "inconclusive":
                why.append("%s: %s" % (h["name"], r["why"][:400]))
        fails = [(h, r) for h, r in results if r["status"] == "fail"]
        # replay: cheapest first; one confirmed violation is enough for the verdict
        fails.sort(key=lambda x: x[1].get("wall_s", 0))
        for h, r in fails:
            if violations:
                break
            order = sorted(r["failed"], key=lambda f: f["class"] not in ("assertion", "never"))
            for item in order[:4]:
                left = budget - (time.time() - t0)
                if left < 30:
                    why.append("%s: no time left to replay" % h["name"])
                    break
                vals = engine.counterexample(h, item["prop"], min(300, left - 20))
                if vals is None:
                    why.append("%s: no concrete values for %s" % (h["name"], item["prop"]))
                    continue
                left = budget - (time.time() - t0)
                ok, test, log = playback(h["crate"], h, vals, item["class"] not in ("never", "should_panic"), scratch,
                                         timeout=max(20, min(400, left)))
                p = report(pid, h, item, vals, test, log, ok)
                if ok:
                    violations.append({"harness": h["name"], "check": item["prop"], "what": item["desc"], "replay": p})
                    print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
                    break
                why.append("%s: counterexample for %s did not reproduce natively (see %s)" % (h["name"], item["desc"], p))
        if violations:
            rc = 1
        elif why:
            rc = 2
            for w in why:
                print("NO VERDICT property=%s: %s" % (pid, w))
        else:
            print("HELD property=%s on %d harnesses (%s tier)" % (pid, len(results), tier))
        for k in known(pid):
            print(k)
        return rc
    finally:
        evidence(pid, tier, spec, results, violations, why, codegen_s, time.time() - t0)
        shutil.rmtree(scratch, ignore_errors=True)

def known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property=%s " % pid):
                yield "KNOWN-FINDING: property=%s %s" % (pid, l.split(" ", 2)[2].strip())

def evidence(pid, tier, spec, results, violations, why, codegen_s, wall):
    rs = [r for _, r in results]
    hard = [{"harness": r["name"], "verdict": r["status"], "unwind": h["unwind"], "checks": r["checks"],
             "steps": r.get("steps", 0), "vars": r.get("vars", 0), "clauses": r.get("clauses", 0), "queries": r.get("queries", 0),
             "solver_s": r.get("solver_s", 0), "wall_s": r.get("wall_s", 0),
             "witnesses": [d for d, s in r["covers"].items() if s]} for h, r in results]
    cov = {
        "explanation": "Bounded symbolic execution of the real Rust code (Kani -> CBMC -> SAT): every listed check was decided by the "
                       "solver for all values of the symbolic inputs within the bounds; loops carry unwinding assertions, each harness "
                       "carries reachability witnesses that the solver satisfied.",
        "functions_encoded": spec["functions"],
        "bounds": spec["bounds"],
        "outside_bounds": spec.get("outside", ""),
        "harnesses": hard,
        "harness_count": len(rs),
        "checks_decided": sum(r["checks"] for r in rs),
        "queries_discharged": sum(r.get("queries", 0) for r in rs),
        "solver_time_s": round(sum(r.get("solver_s", 0) for r in rs), 2),
        "symex_steps": sum(r.get("steps", 0) for r in rs),
        "sat_variables": sum(r.get("vars", 0) for r in rs),
        "codegen_s": round(codegen_s, 1),
        "no_verdict": why,
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": spec["level"],
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(violations)}
    if spec.get("evidence_extra"):
        cov.update(spec["evidence_extra"])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__":
    sys.exit(main())
