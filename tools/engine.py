#!/usr/bin/env python3
"""Symbolic-execution engine driver: Kani codegen (real code -> GOTO) + CBMC (SAT), no traces unless needed.

  codegen(crate, filters)      -> harness list with goto binaries, regenerated from /repo's current source
  run_harness(h, timeout, mem) -> verdict of every check in the harness
  counterexample(h, prop)      -> concrete values for kani::any() in call order
"""
import glob, json, os, re, resource, shutil, subprocess, sys, time

KANI = "/root/.kani/kani-0.68.0"
BIN = KANI + "/bin"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + BIN + ":" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e

class BuildError(Exception):
    pass

def codegen(crate_dir, filters, target_dir, timeout=600):
    """Compile the harness crate (and /repo) with kani-compiler; returns list of harness dicts."""
    cmd = ["cargo", "kani", "--only-codegen", "--no-assertion-reach-checks", "-Z", "stubbing",
           "--target-dir", target_dir]
    for f in filters:
        cmd += ["--harness", f]
    t0 = time.time()
    r = subprocess.run(cmd, cwd=crate_dir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    hs = []
    for m in glob.glob(target_dir + "/kani/*/debug/build/*/*/out/*.kani-metadata.json") + \
             glob.glob(target_dir + "/kani/*/debug/deps/*.kani-metadata.json"):
        d = json.load(open(m))
        for h in d["proof_harnesses"]:
            hs.append({"name": h["pretty_name"], "mangled": h["mangled_name"], "file": h["original_file"],
                       "out": h["goto_file"].replace(".symtab.out", ".out"), "unwind": h["attributes"]["unwind_value"],
                       "should_panic": h["attributes"]["should_panic"], "solver": h["attributes"]["solver"]})
    hs.sort(key=lambda h: h["name"])
    return hs, time.time() - t0

def _limit(mem_gb):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30), int(mem_gb * 2**30)))
    return f

def prepare(h):
    """goto-cc --function / goto-instrument pipeline, as Kani's driver does it."""
    if h.get("prepared"):
        return
    g = h["out"]
    p = g[:-4] + ".final"
    e = env()
    cut = []
    if h.get("cut"):
        # functions that must not be reached in this harness: their body becomes assert(false)
        r = subprocess.run(["goto-instrument", "--list-goto-functions", g], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        for m in re.finditer(r"/\* (\S+) \*/$", r.stdout, re.M):
            if any(re.search(c, m.group(1)) for c in h["cut"]):
                cut += ["--remove-function-body", m.group(1)]
    for cmd in (["goto-cc", g, "--function", h["mangled"], "-o", p],
                (["goto-instrument"] + cut + [p, p]) if cut else ["true"],
                ["goto-instrument", "--add-library", "--no-malloc-may-fail", p, p],
                ["goto-instrument", "--generate-function-body-options", "assert-false-assume-false",
                 "--generate-function-body", ".*", "--drop-unused-functions", p, p],
                ["goto-instrument", "--ensure-one-backedge-per-target", p, p]):
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-3000:])
    h["prepared"] = p
def cbmc_cmd(h):
    c = ["cbmc", "--no-malloc-may-fail", "--no-undefined-shift-check", "--no-signed-overflow-check", "--nan-check",
         "--no-self-loops-to-assumptions", "--no-pointer-primitive-check", "--object-bits", "16",
         "--slice-formula"]
    if h["unwind"]:
        c += ["--unwind", str(h["unwind"])]
    s = h["solver"] or "cadical"
    if isinstance(s, dict):
        s = list(s.values())[0]
    s = str(s).lower()
    if s == "kissat":
        c += ["--external-sat-solver", BIN + "/kissat"]
    else:
        c += ["--sat-solver", s]
    return c + [h["prepared"]]

LINE = re.compile(r"^\[(.+?\.[a-zA-Z_\-]+\.\d+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")
LINE2 = re.compile(r"^\[([^\]]+\.\d+)\] (?:file (\S+) )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.S)
PROP_CLASS = re.compile(r"(?:^|\.)([a-zA-Z_\-]+)\.\d+$")

def run_harness(h, timeout, mem_gb=12):
    """Returns dict(status=pass|fail|inconclusive, failed=[...], covers={desc: bool}, ...)"""
    t0 = time.time()
    res = {"name": h["name"], "status": "inconclusive", "failed": [], "covers": {}, "checks": 0, "why": ""}
    try:
        prepare(h)
    except BuildError as ex:
        res["why"] = str(ex)
        return res
    log = h["prepared"] + ".log"
    with open(log, "w") as lf:
        pr = subprocess.Popen(cbmc_cmd(h) + ["--verbosity", "8"], env=env(), stdout=lf, stderr=subprocess.STDOUT,
                              preexec_fn=_limit(mem_gb))
        try:
            rc = pr.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(pr.pid, 9)
            except ProcessLookupError:
                pass
            pr.wait()
            rc = None
    res["wall_s"] = round(time.time() - t0, 2)
    out = open(log, errors="replace").read()
    res["solver_s"] = round(sum(float(x) for x in re.findall(r"^Runtime Solver: ([0-9.eE+-]+)s", out, re.M)), 3)
    res["queries"] = len(re.findall(r"^Runtime Solver: ", out, re.M))
    m = re.findall(r"^(\d+) variables, (\d+) clauses", out, re.M)
    res["vars"], res["clauses"] = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r"size of program expression: (\d+) steps", out)
    res["steps"] = int(m.group(1)) if m else 0
    if rc is None:
        res["why"] = "timeout after %ds" % timeout
        return res
    if "** Results:" not in out:
        res["why"] = "cbmc rc=%s: %s" % (rc, out[-400:])
        return res
    unwind_fail, unsupported = [], []
    parsed = bad_parsed = 0
    sec = out[out.index("** Results:"):]
    lines = []
    for line in sec.splitlines():
        # multi-line descriptions: glue the continuation to its "[property]" line
        if lines and lines[-1].startswith("[") and not re.match(r"^\[.*\.\d+\] |^\*\* ", line) \
                and not re.search(r": (SUCCESS|FAILURE|UNKNOWN|ERROR)$", lines[-1]):
            lines[-1] += " " + line
        else:
            lines.append(line)
    for line in lines:
        lm = LINE.match(line) or LINE2.match(line)
        if not lm:
            continue
        prop, _, ln, desc, st = lm.groups()
        parsed += 1
        bad_parsed += st == "FAILURE"
        cm = PROP_CLASS.search(prop)
        cls = cm.group(1) if cm else "other"
        if cls == "cover":
            res["covers"][desc] = res["covers"].get(desc, False) or st == "FAILURE"
            continue
        res["checks"] += 1
        if st == "SUCCESS":
            continue
        item = {"prop": prop, "class": cls, "desc": desc, "line": ln, "status": st}
        if cls in ("unwind", "recursion"):
            unwind_fail.append(item)
        elif cls in ("unsupported_construct", "missing_function") or st != "FAILURE" or "assert-false" in desc or "undefined function" in desc:
            unsupported.append(item)
        else:
            res["failed"].append(item)
    tot = re.search(r"^\*\* (\d+) of (\d+) failed", sec, re.M)
    if not tot or int(tot.group(2)) != parsed or int(tot.group(1)) != bad_parsed:
        res["why"] = "result listing not fully understood: %s vs parsed %d/%d" % (tot and tot.group(0), bad_parsed, parsed)
        return res
    panicked = bool(res["failed"])
    if h["should_panic"]:
        # every path must panic: panics are expected; "NEVER" covers carry the property
        bad = [f for f in res["failed"] if f["class"] != "assertion"]
        if bad:
            res["failed"] = bad
        elif not res["failed"]:
            res["failed"] = [{"prop": "should_panic", "class": "should_panic", "desc": "expected a panic on some path", "line": None}]
        else:
            res["failed"] = []
    for d, sat in list(res["covers"].items()):
        if d.startswith("NEVER") and sat:
            res["failed"].append({"prop": "cover:" + d, "class": "never", "desc": d, "line": None})
    if res["failed"]:
        res["status"] = "fail"
        return res
    if unwind_fail or unsupported:
        res["unwind_fail"] = bool(unwind_fail)
        res["why"] = "; ".join("%s: %s" % (i["prop"], i["desc"]) for i in (unwind_fail + unsupported)[:4])
        return res
    vac = [d for d, sat in res["covers"].items() if not sat and not d.startswith(("NEVER", "?"))]
    if vac:
        res["why"] = "reachability witness not satisfied: " + ", ".join(vac)
        return res
    if not (h["should_panic"] and panicked) and not [d for d, sat in res["covers"].items() if sat]:
        res["why"] = "no satisfied reachability witness"
        return res
    res["status"] = "pass"
    return res

def counterexample(h, prop, timeout, mem_gb=20):
    """Concrete kani::any() byte vectors, in call order, for one failing property (or None)."""
    prepare(h)
    log = h["prepared"] + ".trace"
    real = prop
    if prop.startswith("cover:"):
        out = open(h["prepared"] + ".log", errors="replace").read()
        d = prop[len("cover:"):]
        m = re.search(r"^\[(.+?\.cover\.\d+)\] .*" + re.escape(d) + r": FAILURE$", out, re.M)
        if not m:
            return None
        real = m.group(1)
    with open(log, "w") as lf:
        # no formula slicing here: every kani::any() must keep its place in the trace
        pr = subprocess.Popen([c for c in cbmc_cmd(h) if c != "--slice-formula"] + ["--property", real, "--trace", "--json-ui", "--verbosity", "4"],
                              env=env(), stdout=lf, stderr=subprocess.DEVNULL, preexec_fn=_limit(mem_gb))
        try:
            pr.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(pr.pid, 9)
            except ProcessLookupError:
                pass
            pr.wait()
            return None
    try:
        data = json.load(open(log))
    except Exception:
        return None
    vals = []
    for item in data:
        if not isinstance(item, dict) or "result" not in item:
            continue
        for r in item["result"]:
            if r.get("property") != real or "trace" not in r:
                continue
            for st in r["trace"]:
                if st.get("stepType") != "assignment":
                    continue
                lhs = st.get("lhs", "")
                fn = st.get("sourceLocation", {}).get("function", "")
                v = st.get("value", {})
                if lhs.startswith("goto_symex$$return_value") and "any_raw_" in fn and v.get("binary"):
                    b = v["binary"]
                    w = v.get("width", len(b))
                    n = int(b, 2)
                    vals.append(list(n.to_bytes(max(1, w // 8), "little")))
            return vals
    return None
