"""Simulation runner: seeds, forked runs, minimisation, replay files, evidence.

One run = one *case*: a JSON document generated from (master seed, property,
index) which holds every input, fault and schedule decision.  Executing a case
is deterministic; `replay` executes a stored case again.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time as _time
import traceback

# real clock, kept before the clock seam is installed
real_time = _time.time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known_findings.json")

CASE_WALL = float(os.environ.get("SIM_CASE_WALL", "100"))


class Budget(BaseException):
    """A run used more than its step budget: no progress."""


class Violation(Exception):
    def __init__(self, rule, msg, key=None):
        Exception.__init__(self, msg)
        self.rule, self.msg, self.key = rule, msg, key or rule


def rng_for(seed, prop, index, salt=""):
    h = hashlib.sha256(("%s|%s|%s|%s" % (seed, prop, index, salt)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


class Ctx(object):
    """Collects what one run did."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.viol = []
        self.stats = {}
        self.sig = []          # what makes this run distinct
        self.h = hashlib.sha256()
        self.sim_time = 0.0
        self.nontrivial = False
        self.evals = 0
        self.notes = []

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fail(self, rule, msg, key=None):
        self.viol.append({"rule": rule, "msg": str(msg)[:2000], "key": key or rule})

    def record(self, obj):
        """Feed the run's observable outcome into its digest."""
        if hasattr(obj, "tobytes"):
            self.h.update(str(obj.shape).encode() + obj.tobytes())
        else:
            self.h.update(repr(obj).encode("utf8", "replace"))

    def path(self, *p):
        return os.path.join(self.scratch, *p)


def load_check(prop):
    return importlib.import_module("sim.checks." + prop.lower())


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return "/tmp"


_seq = [0]


def run_case(prop, case, wall=None, trace_budget=None):
    """Execute a case in a forked child. Returns the outcome dict."""
    _seq[0] += 1
    scratch = os.path.join(scratch_base(), "ahksim.%d.%d" % (os.getpid(), _seq[0]))
    os.mkdir(scratch)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
            devnull = os.open(os.path.join(scratch, ".log"), os.O_RDWR | os.O_CREAT)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            if os.environ.get("SIM_DUMP_AFTER"):       # debugging aid: stacks of a stuck run
                import faulthandler
                faulthandler.dump_traceback_later(float(os.environ["SIM_DUMP_AFTER"]))
            out = _child(prop, case, scratch, trace_budget)
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        except BaseException:
            code = 3
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    deadline = real_time() + (wall or getattr(load_check(prop), "CASE_WALL", CASE_WALL))
    buf = b""
    timed_out = False
    while True:
        left = deadline - real_time()
        if left <= 0:
            timed_out = True
            break
        rr, _, _ = select.select([r], [], [], min(left, 5))
        if rr:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            buf += chunk
    os.close(r)
    try:
        if timed_out:
            os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    log = ""
    try:
        with REAL_OPEN(os.path.join(scratch, ".log"), "rb") as fp:
            log = fp.read()[-3000:].decode("utf8", "replace")
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {"status": "timeout", "viol": [], "log": log}
    try:
        out = pickle.loads(buf)
    except Exception:
        return {"status": "error", "viol": [], "log": "child status %s\n%s" % (status, log)}
    return out


def _child(prop, case, scratch, trace_budget):
    from . import seams
    mod = load_check(prop)
    ctx = Ctx(scratch)
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    import tempfile
    tempfile.tempdir = scratch
    seams.reset(case.get("seam_seed", 0))
    if trace_budget:
        seams.line_budget(trace_budget)
    status = "ok"
    log = ""
    try:
        mod.run(case, ctx)
    except Violation as v:
        ctx.fail(v.rule, v.msg, v.key)
    except Budget as b:
        ctx.fail("progress", "no end within the step budget (%s)" % (b,))
    except BaseException as e:
        log = traceback.format_exc()
        tb = traceback.extract_tb(e.__traceback__)
        if any(seams.is_ahkab(f.filename) for f in tb):
            # the harness expects failures where they may be reported; this one escaped elsewhere
            ctx.fail("unexpected-exception", "%s: %s at %s" % (type(e).__name__, e, [(os.path.basename(f.filename), f.name) for f in tb][-3:]),
                     key="unexpected-exception:" + type(e).__name__)
        else:
            status = "error"
    finally:
        seams.disarm()
        sys.settrace(None)
    return {"status": status, "viol": ctx.viol, "stats": ctx.stats,
            "sig": json.dumps(ctx.sig, sort_keys=True, default=str),
            "digest": ctx.h.hexdigest(), "sim_time": ctx.sim_time,
            "nontrivial": bool(ctx.nontrivial), "evals": ctx.evals,
            "notes": ctx.notes, "log": log}


REAL_OPEN = open


# ---------------------------------------------------------------- worker pool

def pool_map(fn, items, workers):
    """Order-preserving map over forked workers; yields (item index, result)."""
    n = max(1, workers)
    pipes = []
    for wi in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for (rr, _) in pipes:
                os.close(rr)
            try:
                with os.fdopen(w, "wb") as fp:
                    for i in range(wi, len(items), n):
                        res = fn(items[i])
                        b = pickle.dumps((i, res))
                        fp.write(len(b).to_bytes(8, "big") + b)
                        fp.flush()
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        os.close(w)
        pipes.append((r, pid))
    bufs = {r: b"" for r, _ in pipes}
    open_r = set(bufs)
    try:
        while open_r:
            rr, _, _ = select.select(list(open_r), [], [], 1.0)
            for r in rr:
                chunk = os.read(r, 1 << 16)
                if not chunk:
                    open_r.discard(r)
                    continue
                bufs[r] += chunk
                while len(bufs[r]) >= 8:
                    ln = int.from_bytes(bufs[r][:8], "big")
                    if len(bufs[r]) < 8 + ln:
                        break
                    item = pickle.loads(bufs[r][8:8 + ln])
                    bufs[r] = bufs[r][8 + ln:]
                    yield item
    finally:
        for r, pid in pipes:
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)


# ---------------------------------------------------------------- known findings

def load_findings():
    try:
        with REAL_OPEN(FINDINGS) as fp:
            return json.load(fp)["findings"]
    except IOError:
        return []


def is_known(prop, v, findings):
    for f in findings:
        if f.get("status") == "recorded" and f["property"] == prop and f["key"] == v["key"]:
            return f
    return None


# ---------------------------------------------------------------- minimisation

def jcopy(x):
    return json.loads(json.dumps(x))


def minimise(prop, case, rule, key, max_runs=160, max_wall=60):
    """Greedy: keep a smaller case while it still shows the same violation."""
    mod = load_check(prop)
    t0 = real_time()
    runs = 0
    improved = True
    while improved and runs < max_runs and real_time() - t0 < max_wall:
        improved = False
        for cand in mod.shrink(jcopy(case)):
            if runs >= max_runs or real_time() - t0 > max_wall:
                break
            runs += 1
            out = run_case(prop, cand, wall=30)
            if any(v["rule"] == rule and v["key"] == key for v in out["viol"]):
                case = cand
                improved = True
                break
    return case, runs


def write_replay(prop, seed, index, case, viol, digest, orig_case, extra=None):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-s%s-i%s.json" % (prop, seed, index))
    doc = {"property": prop, "seed": seed, "index": index, "violation": viol,
           "digest": digest, "case": case, "unminimised_case": orig_case,
           "how": "cd /verif && ./check.sh replay %s" % os.path.relpath(path, VERIF)}
    if extra:
        doc.update(extra)
    with REAL_OPEN(path, "w") as fp:
        json.dump(doc, fp, indent=1, sort_keys=True)
    return path


def replay(path):
    with REAL_OPEN(path) as fp:
        doc = json.load(fp)
    prop = doc["property"]
    out = run_case(prop, doc["case"], wall=300, trace_budget=doc.get("trace_budget"))
    for v in out["viol"]:
        print("  %s: %s" % (v["rule"], v["msg"]))
    same = any(v["rule"] == doc["violation"]["rule"] and v["key"] == doc["violation"]["key"] for v in out["viol"])
    print("digest %s (recorded %s)" % ("identical" if out.get("digest") == doc["digest"] else "DIFFERS", doc["digest"][:16]))
    if same:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if out["status"] != "ok":
        print("run ended with status %s\n%s" % (out["status"], out.get("log")))
        return 2
    print("not reproduced on this tree")
    return 0


# ---------------------------------------------------------------- survey (development aid)

def survey(prop, n, seed, tier):
    mod = load_check(prop)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)

    def one(i):
        case = mod.gen(rng_for(seed, prop, i), tier)
        t1 = real_time()
        out = run_case(prop, case)
        out["dt"] = real_time() - t1
        return out
    tally, stats, dts = {}, {}, []
    for i, out in pool_map(one, list(range(n)), min(8, os.cpu_count() or 1)):
        dts.append((out["dt"], i))
        for k, m in out.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + m
        if out["status"] != "ok":
            t = tally.setdefault((out["status"], out.get("log", "").strip().split("\n")[-1]), [])
            t.append((i, out.get("log", "")[-1500:]))
        for m in out.get("notes", []):
            tally.setdefault(("note", str(m)[:60]), []).append((i, str(m)[:400]))
        for v in out["viol"]:
            tally.setdefault((v["rule"], v["key"]), []).append((i, v["msg"][:400]))
    for k in sorted(tally, key=str):
        print(k, len(tally[k]))
        for i, m in tally[k][:int(os.environ.get("SIM_SHOW", "4"))]:
            print("    ", i, m)
    print(json.dumps(stats, indent=1, sort_keys=True))
    dts.sort()
    print("dt median %.3f p90 %.3f slowest %s" % (dts[len(dts) // 2][0], dts[len(dts) * 9 // 10][0], dts[-3:]))
    return 0


# ---------------------------------------------------------------- a check

def check(prop, tier, seed):
    mod = load_check(prop)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    cfg = mod.TIERS[tier]
    n_runs, wall_cap = cfg["runs"], cfg["wall"]
    workers = int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 1))))
    t0 = real_time()
    stop_at = t0 + wall_cap
    findings = load_findings()

    def one(i):
        if real_time() > stop_at:
            return {"status": "skipped"}
        rng = rng_for(seed, prop, i)
        case = mod.gen(rng, tier)
        t1 = real_time()
        out = run_case(prop, case)
        out["dt"] = real_time() - t1
        # every 16th run is executed twice: same seed, same execution
        if i % 16 == 0 and out["status"] == "ok" and getattr(mod, "REPEAT", True):
            again = run_case(prop, case)
            out["repeat_same"] = bool(again.get("digest") == out.get("digest") and again["viol"] == out["viol"])
        if i < 3 or out["viol"] or out["status"] != "ok":
            out["case"] = case
        return out

    stats, sigs, digests = {}, set(), set()
    runs = skipped = nontrivial = evals = repeats = repeats_same = 0
    sim_time = 0.0
    slow = 0.0
    samples, known_seen, bad, errors, timeouts = [], {}, [], [], []
    for i, out in pool_map(one, list(range(n_runs)), workers):
        if out["status"] == "skipped":
            skipped += 1
            continue
        runs += 1
        slow = max(slow, out.get("dt", 0))
        if out["status"] == "error":
            errors.append((i, out))
        if out["status"] == "timeout":
            if getattr(mod, "SLOW_OK", False):
                stats["runs_cut_for_time"] = stats.get("runs_cut_for_time", 0) + 1
            else:
                timeouts.append((i, out))
        for k, n in out.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + n
        if out.get("nontrivial"):
            nontrivial += 1
            sigs.add(out["sig"])
        if "digest" in out:
            digests.add(out["digest"])
        sim_time += out.get("sim_time", 0.0)
        evals += out.get("evals", 0)
        if "repeat_same" in out:
            repeats += 1
            repeats_same += out["repeat_same"]
        if i < 3 and "case" in out:
            samples.append({"index": i, "case": out["case"], "outcome": out["status"], "digest": out.get("digest")})
        for v in out["viol"]:
            f = is_known(prop, v, findings)
            if f:
                known_seen.setdefault(f["id"], [f, 0])[1] += 1
            else:
                bad.append((i, out, v))
    # runs without an end: decide deterministically with a step budget
    for i, out in timeouts[:2]:
        o2 = run_case(prop, out["case"], wall=240, trace_budget=3000000)
        if o2["viol"]:
            for v in o2["viol"]:
                if not is_known(prop, v, findings):
                    bad.append((i, dict(o2, case=out["case"], trace_budget=3000000), v))
        elif o2["status"] != "ok":
            errors.append((i, dict(o2, status="timeout")))
        elif getattr(mod, "REPEAT", True):
            stats["slow_runs_decided_on_retry"] = stats.get("slow_runs_decided_on_retry", 0) + 1
    for f in findings:
        if f["property"] == prop and f.get("status") == "recorded":
            # every recorded finding is re-demonstrated by its own case
            if f["id"] not in known_seen and "case" in f:
                o = run_case(prop, f["case"])
                if any(is_known(prop, v, [f]) for v in o["viol"]):
                    known_seen[f["id"]] = [f, 1]
                for v in o["viol"]:
                    if not is_known(prop, v, findings):
                        bad.append(("finding-" + f["id"], dict(o, case=f["case"]), v))
    for fid in sorted(known_seen):
        f = known_seen[fid][0]
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    wall_explore = real_time() - t0
    replays = []
    if bad:
        bad.sort(key=lambda b: (str(b[2]["rule"]), str(b[0]).zfill(9)))
        seen = set()
        for i, out, v in bad:
            kk = (v["rule"], v["key"])
            if kk in seen or len(seen) >= 3:
                continue
            seen.add(kk)
            case = out["case"]
            extra = None
            if out.get("trace_budget"):
                small, nmin, fin, extra = case, 0, out, {"trace_budget": out["trace_budget"]}
            else:
                small, nmin = minimise(prop, case, v["rule"], v["key"])
                fin = run_case(prop, small)
            vv = [x for x in fin["viol"] if x["rule"] == v["rule"] and x["key"] == v["key"]]
            path = write_replay(prop, seed, i, small, (vv or [v])[0], fin.get("digest", ""), case, extra)
            print("  rule %s: %s" % (v["rule"], (vv or [v])[0]["msg"]))
            print("  (seed %s, run %s, minimised in %d runs)" % (seed, i, nmin))
            replays.append((v["rule"], path))
    wall = real_time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples or [{"note": "no run completed"}],
            "planned_runs": n_runs, "runs_not_started_wall_cap": skipped,
            "nontrivial_runs": nontrivial,
            "oracle_evaluations": evals,
            "runs_and_seeds_per_hour": int(runs / max(wall_explore, 1e-3) * 3600),
            "simulated_seconds_covered": sim_time,
            "distinct_outcomes": len(digests),
            "fault_and_event_counts": {k: stats[k] for k in sorted(stats)},
            "runs_executed_twice": repeats, "of_those_identical": repeats_same,
            "real_components": getattr(mod, "REAL", "all of ahkab, numpy, scipy, the CPython I/O stack"),
            "stubbed_components": getattr(mod, "STUB", "none"),
            "slowest_run_s": round(slow, 2),
            "known_findings_seen": {k: known_seen[k][1] for k in known_seen},
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with REAL_OPEN(os.path.join(EVIDENCE, prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
        fp.write("\n")
    print("%s %s seed=%s: %d runs (%d non-trivial, %d distinct), %d violations, %.1fs; repeats %d/%d identical"
          % (prop, tier, seed, runs, nontrivial, len(sigs), len(bad), wall, repeats_same, repeats))
    for rule, path in replays:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
    if replays:
        return 1
    if errors:
        for i, out in errors[:3]:
            print("HARNESS ERROR in run %d (%s):\n%s" % (i, out["status"], out.get("log", "")), file=sys.stderr)
        return 2
    if runs == 0:
        print("HARNESS ERROR: nothing was run", file=sys.stderr)
        return 2
    return 0
