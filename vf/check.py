#!/usr/bin/env python3
"""check.py Cxx            decides one property (tier from VERIF_TIER, default quick)
check.py replay FILE       replays a recorded counterexample against the natively compiled real code
check.py setup             builds the framework"""
import json, os, random, re, resource, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from instances import PROPS

VERIF = build.VERIF
T0 = time.time()
FAIL = ("assert", "panic", "ub", "segv", "bad_free", "hang", "abort")
LIMITS = {"quick": 780.0, "thorough": 4 * 3600.0}


def limit_memory(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


# ---- native replay ---------------------------------------------------------------------------------

HUGE = threading.Lock()


def native_run(bin_, fn, params, inputs, mode=None, fill=None, timeout=20):
    # gigabytes natively: one at a time, and with time to touch them
    if "heapgb" in params:
        with HUGE:
            return native_run_(bin_, fn, params, inputs, mode, fill, 90)
    return native_run_(bin_, fn, params, inputs, mode, fill, timeout)


def native_run_(bin_, fn, params, inputs, mode, fill, timeout):
    with tempfile.TemporaryDirectory(prefix="vf") as d:
        i, o = os.path.join(d, "in"), os.path.join(d, "out")
        with open(i, "w") as f:
            for n, x in inputs:
                f.write("%s %s\n" % (n.replace(" ", "_"), x))
        e = build.env()
        for k, v in (("VF_ALLOC", mode), ("VF_FILL", fill)):
            e.pop(k, None)
            if v is not None:
                e[k] = str(v)
        cmd = [bin_, fn, i, o] + ["%s=%d" % kv for kv in sorted(params.items())]
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            return {"end": "hang", "msg": "no result after %d s" % timeout, "trace_hash": "", "trace_len": 0}
        if not os.path.exists(o):
            return {"end": "abort", "msg": "exit %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-300:].strip()), "trace_hash": "", "trace_len": 0}
        return json.load(open(o))


def reproduce(arts, inst, v):
    """-> (how, result) or None"""
    hook = "-hook" if "hook" in inst.var else ""
    rel_first = inst.var.startswith("rel")
    order = ["rel", "dev"] if rel_first else ["dev", "rel"]
    tries = []
    mem = v["kind"] not in ("assert", "panic", "hang")
    plain = [(x, None, None) for x in order]
    deep = [(x, m, f) for m in ("end", "start", "odd") for x in order for f in (None, 0xA5)]
    fills = [(x, None, f) for x in order for f in (0, 255)]
    tries = deep + plain + fills if mem else plain + deep + fills
    if "heapgb" in inst.params:
        tries = plain + deep[:2]
    seen = {}
    for prof, mode, fill in tries:
        b = arts.get("native-" + prof + hook)
        if not isinstance(b, str):
            continue
        r = native_run(b, inst.fn, inst.params, v["inputs"], mode, fill)
        if r["end"] in FAIL:
            return {"profile": prof + hook, "VF_ALLOC": mode, "VF_FILL": fill}, r
        if mode is None and fill is not None:
            k = (r["end"], r["trace_hash"])
            if prof in seen and seen[prof] != k:
                return {"profile": prof + hook, "VF_ALLOC": None, "VF_FILL": "0 and 255"}, {
                    "end": "uninitialised", "msg": "the result depends on the content of fresh memory", "trace_hash": "", "trace_len": 0}
            seen[prof] = k
    return None


# ---- one instance ----------------------------------------------------------------------------------

class Run:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.results, self.violations, self.known, self.errors, self.incomplete, self.degraded = [], [], [], [], [], []
        self.validated = 0
        self.samples = []
        self.deadline = T0 + LIMITS[tier]

    def left(self):
        return self.deadline - time.time()


def engine_run(arts, inst, max_time, seed):
    fd, o = tempfile.mkstemp(prefix="vfo")
    os.close(fd)
    cmd = [arts["engine"], "--ir", arts["ir-" + inst.var], "--fn", inst.fn, "--out", o, "--max-time", "%d" % max_time,
           "--samples", "0" if "heapgb" in inst.params else "4", "--solver-timeout", "%d" % (inst.solver * 1000), "--max-steps", "%d" % inst.steps]
    for k, v in sorted(inst.params.items()):
        cmd += ["-p", "%s=%d" % (k, v)]
    try:
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max_time + 90, preexec_fn=limit_memory(inst.gb))
            txt = p.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return {"status": "inconclusive", "inconclusive": ["time limit"]}
        s = open(o).read()
        if not s:
            return {"status": "inconclusive", "inconclusive": ["engine ended (%d): %s" % (p.returncode, txt[-300:])]}
        return json.loads(s)
    finally:
        os.unlink(o)


def one(run, arts, inst, known):
    if run.stop.is_set():
        return
    left = run.left()
    name = inst.name()
    if left < 10:
        with run.lock:
            run.incomplete.append((name, "not started: out of time"))
        return
    art = arts.get("ir-" + inst.var)
    if not isinstance(art, str):
        with run.lock:
            run.errors.append("%s: no IR (%s)" % (name, str(art)[-200:]))
        return
    hook = {"c14": "grenad_verif_varint", "far": "grenad_verif_writer"}.get(inst.fn)
    if hook and hook not in build.hooks(inst.var):
        with run.lock:
            run.incomplete.append((name, "the hook %s does not compile with this source" % hook))
        return
    r = engine_run(arts, inst, min(inst.time, left - 5), 0)
    r["name"] = name
    with run.lock:
        run.results.append(r)
    if os.environ.get("VF_V"):
        print("%-14s %6.1fs paths=%-6s %s" % (r["status"], r.get("time", 0), r.get("paths"), name), "; ".join(r.get("inconclusive", [])), flush=True)
    confirmed = False
    for v in r.get("violations", []):
        got = reproduce(arts, inst, v)
        if got is None:
            # more steps than the engine takes, but an end: the path is undecided
            if v["kind"] == "hang":
                with run.lock:
                    run.incomplete.append((name, v["msg"]))
                continue
            with run.lock:
                run.errors.append("%s: %s: %s: the counterexample does not reproduce natively: %s" % (name, v["kind"], v["msg"], json.dumps(v["inputs"])[:400]))
            continue
        how, res = got
        rec = {"property": run.prop, "fn": inst.fn, "variant": inst.var, "params": inst.params, "inputs": v["inputs"], "kind": v["kind"],
               "msg": v["msg"], "stack": v["stack"], "native": res, "how": how,
               "replay_with": "python3 /verif/vf/check.py replay <this file>"}
        text = "%s %s: %s" % (name, v["kind"], v["msg"])
        k = [x for x in known if x[0] in text]
        confirmed = True
        if k:
            with run.lock:
                run.known.append((k[0], text))
            continue
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        with run.lock:
            path = os.path.join(d, "%s-%d.json" % (run.prop, len(run.violations) + 1))
            run.violations.append((path, text, res))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        run.stop.set()
    if r["status"] == "violation":
        return
    if r["status"] != "holds" and inst.fallback and run.left() > 20:
        # no fixpoint in time: bounded histories instead, and the evidence says so
        with run.lock:
            run.degraded.append((name, "; ".join(r.get("inconclusive", []))[:300], inst.bounded().name()))
        return one(run, arts, inst.bounded(), known)
    if r["status"] != "holds":
        with run.lock:
            run.incomplete.append((name, "; ".join(r.get("inconclusive", []))[:300]))
        return
    # vacuity: every required point was reached
    for lab in inst.need:
        if lab not in r["reached"]:
            with run.lock:
                run.errors.append("%s: the point %r is not reached" % (name, lab))
    # the encoding against the real code
    hook = "-hook" if "hook" in inst.var else ""
    b = arts.get("native-" + ("rel" if inst.var.startswith("rel") else "dev") + hook)
    if isinstance(b, str):
        for s in r["samples"]:
            n = native_run(b, inst.fn, inst.params, s["inputs"], timeout=60)
            same = n["end"] == s["end"] and n["trace_hash"] == s["trace_hash"] and n["trace_len"] == s["trace_len"]
            if not same and s["end"] == "merged":
                same = n["end"] == "out_of_inputs"
            with run.lock:
                if same:
                    run.validated += 1
                    if len(run.samples) < 6:
                        run.samples.append({"harness": name, "inputs": s["inputs"][:12], "end": s["end"], "trace_hash": s["trace_hash"]})
                else:
                    run.errors.append("%s: a model of the encoding runs differently natively: engine %s/%s, native %s/%s %s: %s" % (
                        name, s["end"], s["trace_hash"], n["end"], n["trace_hash"], n["msg"][:200], json.dumps(s["inputs"])[:300]))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=\[(.*?)\] (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = PROPS[prop]
    only = os.environ.get("VF_ONLY")
    insts = [i for i in spec["instances"] if (tier == "thorough" or i.tier == "q") and (not only or re.search(only, i.name()))]
    irs = sorted({i.var for i in insts})
    nats = sorted({p + ("-hook" if "hook" in v else "") for v in irs for p in ("dev", "rel")})
    arts = build.build(irs, nats)
    t_build = time.time() - T0
    for k in ("engine", "native-dev"):
        if k in arts and not isinstance(arts[k], str):
            print("BUILD FAILED: %s: %s" % (k, arts[k]))
            return 2
    run = Run(prop, tier)
    run.deadline = T0 + LIMITS[tier]
    known = known_findings(prop)
    order = sorted(range(len(insts)), key=lambda i: (-insts[i].cost, i))
    with ThreadPoolExecutor(int(os.environ.get("VF_JOBS", "8"))) as ex:
        for f in [ex.submit(one, run, arts, insts[i], known) for i in order]:
            f.result()
    write_evidence(run, spec, insts, seed, t_build)
    for k, text in run.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[1]))
    for path, text, res in run.violations:
        print("  %s\n    natively: %s %s" % (text, res["end"], res["msg"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if run.violations:
        return 1
    for e in run.errors:
        print("ERROR " + e)
    for n, e in run.incomplete:
        print("INCOMPLETE %s: %s" % (n, e))
    for n, e, b in run.degraded:
        print("NO FIXPOINT %s: %s; instead %s" % (n, e, b))
    done = [r for r in run.results if r["status"] == "holds"]
    print("%s: %d of %d instances decided, %d paths, %d solver queries, %.0f s" % (
        prop, len(done), len(insts), sum(r.get("paths", 0) for r in run.results), sum(r.get("queries", 0) for r in run.results), time.time() - T0))
    if run.errors:
        return 2
    # a run cut short says nothing about the rest: tolerated (and reported) only while most is decided
    if len(run.incomplete) * 4 > len(insts):
        return 2
    return 0


def write_evidence(run, spec, insts, seed, t_build):
    rs = run.results
    S = lambda k: sum(r.get(k, 0) or 0 for r in rs)
    # the crate under test, not grenad 0.4.7, which only some harnesses run as an oracle
    crate = re.compile(r"Cs[A-Za-z0-9]+_6grenad")
    mine = {m for r in rs if "old" not in r["name"] for n, c, t in r.get("functions", []) for m in crate.findall(n)}
    fns = {}
    for r in rs:
        for n, c, t in r.get("functions", []):
            own = re.search(r"Cs[A-Za-z0-9]+_\d+[a-z_][a-z_0-9]*", n)
            if own and any(own.group().startswith(m) for m in mine):
                a = fns.get(n, (0, t))
                fns[n] = (max(a[0], c), t)
    try:
        names = sorted(fns)
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        plain = [re.sub(r"\[[0-9a-f]+\]", "", x) for x in p.stdout.splitlines()]
        if len(plain) == len(names):
            fns = {a: fns[b] for a, b in zip(plain, names)}
    except OSError:
        pass
    ends = {}
    for r in rs:
        for k, v in r.get("ends", {}).items():
            ends[k] = ends.get(k, 0) + v
    cov = {
        "states": S("paths") + S("distinct_states"),
        "transitions": S("steps"),
        "traces_validated_against_impl": run.validated,
        "samples": run.samples or ["none"],
        "exhaustive": not run.incomplete and not run.degraded and not run.errors,
        "rule": "states: symbolic paths ended plus distinct merged states; transitions: IR instructions executed symbolically; a validated trace is a solver model of an explored path whose native run ends the same way with the same observable bytes",
        "paths": S("paths"), "path_ends": ends, "distinct_merged_states": S("distinct_states"), "forks": S("forks"),
        "assertions_decided": S("asserts"), "assertions_with_symbolic_condition": S("asserts_symbolic"), "memory_accesses_checked": S("mem_checks"),
        "queries": S("queries"), "solver_queries": S("solver_queries"), "queries_over_one_byte_decided_over_all_its_values": S("byte_queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
        "solver_seconds": round(S("solver_time"), 2), "solver": next((r["solver"] for r in rs if r.get("solver")), ""),
        "build_seconds": round(t_build, 1),
        "bounds": spec["bounds"],
        "instances": [{"harness": r["name"], "status": r["status"], "paths": r.get("paths"), "seconds": r.get("time"), "queries": r.get("queries"),
                       "merged_states": r.get("distinct_states"), "witnesses": r.get("reached")} for r in rs],
        "incomplete": [list(x) for x in run.incomplete],
        "fixpoint_not_reached": [list(x) for x in run.degraded],
        "errors": run.errors,
        "functions_encoded": [{"function": n, "blocks_executed": c, "blocks": t} for n, (c, t) in sorted(fns.items())],
    }
    ev = {"property": run.prop, "tier": run.tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - T0, 2), "violations": len(run.violations)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, run.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


def replay(path):
    rec = json.load(open(path))
    hook = "-hook" if "hook" in rec["variant"] else ""
    arts = build.build([], [rec["how"]["profile"]])
    b = arts["native-" + rec["how"]["profile"]]
    if not isinstance(b, str):
        print(b)
        return 2
    fill = rec["how"]["VF_FILL"]
    fills = [0, 255] if isinstance(fill, str) else [fill]
    rs = [native_run(b, rec["fn"], rec["params"], rec["inputs"], rec["how"]["VF_ALLOC"], f) for f in fills]
    print(json.dumps(rs, indent=1))
    bad = any(r["end"] in FAIL for r in rs) or len({(r["end"], r["trace_hash"]) for r in rs}) > 1
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    a = sys.argv[1]
    if a == "setup":
        r = build.build(["dev", "rel", "dev-hook", "rel-hook"], ["dev", "rel", "dev-hook", "rel-hook"])
        bad = [(k, v) for k, v in r.items() if not isinstance(v, str)]
        for k, v in bad:
            print(k, v)
        return 1 if bad else 0
    if a == "replay":
        return replay(sys.argv[2])
    try:
        return check(a)
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
