"""C08: a disk error is never turned into silently missing or wrong results."""
import os

import numpy as np

from .. import circ as cm
from .. import scen, seams, util

TIERS = {"quick": {"runs": 500, "wall": 90}, "thorough": {"runs": 40000, "wall": 3000}}
RULE = ("random circuits x lists of 1-3 analyses (op, dc, tran, ac, pss, pz; named or temporary output) x errors (ENOSPC, EIO, "
        "EACCES, EMFILE, short writes and reads; once or staying) at chosen file operations during the analysis or during a "
        "random sequence of accessor calls; then the medium recovers and everything is repeated; non-trivial = a fault fired; "
        "distinct by circuit, requests, fault position and outcome")
REAL = "ahkab (run, all analyses, csvlib, results, printing of the operating point), numpy, scipy, io buffering layers, a real file system"
STUB = "raw file descriptors pass through the disk seam, which fails or shortens chosen operations"
ASSUME = ["an error may be reported by any exception or a missing result, an accessor must not report it as a missing variable",
          "a read which ends early without error (a file truncated by someone else) is not a medium failure"]

ERR = ["enospc", "enospc", "eio", "eio", "eacces", "emfile", "short"]


def gen(rng, tier):
    cj = scen.gen_circ(rng, kind=rng.choice(["lin", "lin", "lin", "dio"]), nmax=3)
    ans = []
    for i in range(rng.choice([1, 1, 2, 3])):
        an = scen.gen_an(rng, cj, ["tran", "dc", "ac", "op", "op", "pss", "pz"])
        if an.get("x0") == "op" and not any(a["type"] == "op" for a in ans):
            an["x0"] = None
        if an["type"] == "tran":
            an["use_step_control"] = False
        if an["type"] in [a["type"] for a in ans]:
            continue
        an["named"] = rng.random() < .6
        ans.append(an)
    phase = rng.choice(["run", "run", "access"])
    faults = []
    for _ in range(rng.choice([1, 1, 2])):
        f = {"k": rng.choice(ERR), "frac": rng.choice([0.0, .2, .6, .99])}
        if rng.random() < .3 and f["k"] != "short":
            f["sticky"] = True
            f["ops"] = ["write", "open", "close", "read"] if f["k"] == "eio" else ["write", "open"]
        faults.append([rng.random(), f])
    acc = [[rng.randrange(10 ** 6), rng.choice(["item", "item", "get", "getdef", "values", "items", "iter", "array", "x", "missing",
                                                "missget", "in", "len", "keys", "wrongcase"])] for _ in range(rng.randint(1, 8))]
    return {"circ": cj, "ans": ans, "phase": phase, "faults": faults, "acc": acc, "wbuf": rng.choice([None, None, 16, 200]),
            "chunk": rng.choice([None, None, 5]), "dml": rng.choice([400, 0]), "seam_seed": rng.randrange(10 ** 9)}


def access(r, what, pick):
    """One accessor call -> comparable value."""
    names = [str(n) for n in r.keys()]
    nm = names[pick % len(names)] if names else "none"
    A = np.array
    if what == "item":
        return A(r[nm])
    if what == "wrongcase":
        return A(r[nm.upper() if pick % 2 else nm.lower()]) if r.sol_type != "PZ" else A(r[nm])
    if what == "get":
        return A(r.get(nm))
    if what == "getdef":
        return A(r.get(nm, "DEFAULT"))
    if what == "values":
        return [A(v) for v in r.values()]
    if what == "items":
        return [(str(k), A(v)) for k, v in r.items()]
    if what == "iter":
        return [(str(k), A(v)) for k, v in r]
    if what == "array":
        return A(r.asarray()) if r.sol_type != "PZ" else None
    if what == "x":
        return A(r.get_x()) if hasattr(r, "get_x") else None
    if what == "missing":
        try:
            r["no such variable"]
        except KeyError:
            return "KeyError"
        return "value"
    if what == "missget":
        return r.get("no such variable", 7)
    if what == "in":
        return [nm in r, "no such variable" in r]
    if what == "len":
        return len(r)
    return names


def eq(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b) if a.dtype.kind not in "fc" else \
            a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def outname(i, an):
    return "o%d" % i if an["named"] else None


def process(case, plan_run, plan_acc, ctx=None):
    """A whole process: run, access, then the same again without faults."""
    import ahkab
    util.set_options({"dense_matrix_limit": case["dml"]})
    c = cm.build(case["circ"])
    out = {"acc": []}
    dkw = {"wbuf": case["wbuf"], "chunk_seed": case["chunk"]}
    np.random.seed(1)

    def once(plan):
        with util.quiet():
            ans = [scen.make(a, outname(i, a)) for i, a in enumerate(case["ans"])]
            np.random.seed(1)
            with seams.disk_faults(plan, **dkw) as dk:
                r = util.attempt(ahkab.run, c, ans)
                n, fired = dk.n, list(dk.fired)
        return r, n, fired
    r, out["n_run"], out["fired_run"] = once(plan_run)
    if isinstance(r, util.Failed):
        out["run"] = "failed"
        out["why"] = r.why
    else:
        out["run"] = "ok"
        out["snap"] = {}
        for k, v in r.items():
            try:
                with util.quiet():
                    out["snap"][k] = scen.snap(v)
            except Exception as e:
                out["snap"][k] = {"type": "unreadable", "data": [(repr(e)[:200], "")]}
        keys = sorted(k for k, v in r.items() if v is not None)
        with seams.disk_faults(plan_acc, **dkw) as dk:
            for pick, what in case["acc"]:
                if not keys:
                    break
                o = r[keys[pick // 7 % len(keys)]]
                n0 = len(dk.fired)
                try:
                    with util.quiet():
                        v = ("value", access(o, what, pick))
                except OSError as e:
                    v = ("oserror", type(e).__name__)
                except Exception as e:
                    v = ("other", "%s: %s" % (type(e).__name__, e))
                out["acc"].append((keys[pick // 7 % len(keys)], what, v, len(dk.fired) > n0))
            out["n_acc"], out["fired_acc"] = dk.n, list(dk.fired)
    out["fds"] = util.leaked_fds(seams.disk.root)
    # the medium has recovered
    r2, _, _ = once({})
    if isinstance(r2, util.Failed):
        out["again"] = r2.why
    else:
        try:
            with util.quiet():
                out["again"] = {k: scen.snap(v) for k, v in r2.items()}
        except Exception as e:
            out["again"] = repr(e)
    return out


def place(case, n):
    plan = {}
    for f, spec in case["faults"]:
        if n:
            plan[min(n - 1, int(f * n))] = spec
    return plan


def run(case, ctx):
    d = ctx.path("ref")
    os.mkdir(d)
    code, r0 = scen.in_child(lambda: process(case, {}, {}), d)
    if code != 0 or r0 is None:
        return ctx.fail("run", "the undisturbed process ended with status %s" % code)
    if r0["run"] != "ok" or any(v is None for v in r0["snap"].values()):
        ctx.count("skipped_undisturbed_failed")
        ctx.notes.append(str(r0.get("why", r0.get("snap")))[:40])
        return
    for t, what, v, _ in r0["acc"]:
        if v[0] != "value":
            return ctx.fail("accessor", "%s %s of an undisturbed result: %s" % (t, what, v[1]))
    bad0 = None
    if isinstance(r0["again"], str):
        return ctx.fail("again", "repeating the undisturbed run failed: %s" % r0["again"])
    for k in r0["snap"]:
        bad0 = bad0 or scen.same(r0["snap"][k], r0["again"][k], 1e-9, 1e-15)
    if bad0:
        ctx.count("skipped_not_repeatable")       # a matter of C10
        ctx.notes.append("not repeatable " + bad0[:60])
    if r0["fds"]:
        ctx.fail("fd-leak", "files left open after an undisturbed run: %s" % sorted(set(r0["fds"])), key="fd-leak")
    plan_run = place(case, r0["n_run"]) if case["phase"] == "run" else {}
    plan_acc = place(case, r0["n_acc"]) if case["phase"] == "access" else {}
    d = ctx.path("flt")
    os.mkdir(d)
    code, r1 = scen.in_child(lambda: process(case, plan_run, plan_acc), d)
    if code != 0 or r1 is None:
        return ctx.fail("run", "the process with failing file operations ended with status %s" % code)
    fired = r1["fired_run"] + r1.get("fired_acc", [])
    for i, k, op, rel in fired:
        ctx.count("fault_disk_%s_%s" % (k, op))
    ctx.nontrivial = bool(fired)
    ctx.sig = [case["circ"], case["ans"], [(i, k, op) for i, k, op, _ in fired], r1["run"], [(a, b, v[0]) for a, b, v, _ in r1["acc"]]]
    ctx.record([r1["run"], [(a, b, v[0]) for a, b, v, _ in r1["acc"]]])
    ops = ["%s of %s" % (op, rel if rel.startswith("flt/o") else "temporary file") for _, _, op, rel in fired][:3]
    if r1["run"] == "failed":
        ctx.count("reported_by_analysis")
        if not r1["fired_run"]:
            ctx.fail("spurious", "the run failed without a fault: %s" % r1["why"])
    else:
        for k in r0["snap"]:
            if r1["snap"].get(k) is None and r1["fired_run"]:
                ctx.count("reported_by_missing_result")
                continue
            w = scen.same(r0["snap"][k], r1["snap"].get(k))
            if w:
                ctx.fail("wrong-success", "%s reported success although %s failed; its result differs: %s" % (k, ops, w))
            else:
                ctx.count("complete_nonetheless")
        if not ctx.viol and not any(v is None for v in r1["snap"].values()):
            for (t, what, v, hit), (_, _, v0, _) in zip(r1["acc"], r0["acc"]):
                if v[0] == "oserror":
                    ctx.count("reported_by_accessor")
                    if not r1.get("fired_acc"):
                        ctx.fail("spurious", "%s %s failed without a fault" % (t, what))
                elif v[0] == "other":
                    ctx.fail("accessor-error", "%s %s answered a failing %s with %s" % (t, what, ops, v[1]))
                elif not eq(v[1], v0[1]):
                    ctx.fail("accessor-value", "%s %s returned something else because %s failed: %s instead of %s"
                             % (t, what, ops, str(v[1])[:100], str(v0[1])[:100]))
                else:
                    ctx.evals += 1
    if r1["fds"]:
        ctx.fail("fd-leak", "after failing %s these files stay open: %s" % (ops, sorted(set(r1["fds"]))), key="fd-leak")
    if isinstance(r1["again"], str):
        ctx.fail("recovery", "after the fault (%s) cleared the same run fails: %s" % (ops, r1["again"]))
    elif not bad0:
        for k in r0["again"]:
            w = scen.same(r0["again"][k], r1["again"].get(k), 1e-9, 1e-15)
            if w:
                ctx.fail("recovery", "after the fault (%s) cleared %s differs: %s" % (ops, k, w))
        ctx.count("recovered")


def shrink(case):
    for k in cm.shrink_list(case["faults"]):
        if k:
            yield dict(case, faults=k)
    for k in cm.shrink_list(case["acc"]):
        yield dict(case, acc=k)
    if len(case["ans"]) > 1:
        for a in cm.shrink_list(case["ans"]):
            if a and not any(x.get("x0") == "op" for x in a):
                yield dict(case, ans=a)
    for k, v in (("wbuf", None), ("chunk", None), ("dml", 400)):
        if case[k] != v:
            yield dict(case, **{k: v})
    keep = [a[q] for a in case["ans"] for q in ("source", "input_source") if a.get(q)]
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        if all(a.get("output_port") is None or a["output_port"][0] in cm.nodes_of(c) for a in case["ans"]):
            yield dict(case, circ=c)
