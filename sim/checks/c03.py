"""C03: a transient result covers the requested interval or is reported as failed."""
import math

import numpy as np

from .. import tran, util
from ..util import Failed

TIERS = {"quick": {"runs": 900, "wall": 75}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("random dynamic circuits x interval, step, 8 integration methods, step control on/off, start "
        "state, options x failing linear solves (single, bursts) and failing device evaluations at "
        "chosen simulated times; non-trivial = a fault fired, distinct by request, faults and outcome")
REAL = "ahkab (run, transient_analysis, dc_solve, differentiation formulas), numpy, scipy, result files"
STUB = "numpy/scipy solvers and the user device pass through a seam that fails chosen calls"
ASSUME = ["a solver failure hits a finite number of calls (the plan)"]

gen = tran.gen
shrink = tran.shrink


def run(case, ctx):
    o = tran.execute(case, ctx)
    if "skip" in o:
        ctx.count("skipped")
        return
    r = o["res"]
    ctx.nontrivial = bool(o["fired"] or o["dfired"])
    ok = not isinstance(r, Failed)
    ctx.sig = [case["circ"], case["method"], case["sc"], case["tstep"], case["tstop"], o["fired"], o["dfired"], ok]
    t0, t1, h = case["tstart"], case["tstop"], case["tstep"]
    sc = case["sc"] and not case["opts"].get("transient_no_step_control")
    maxit = case["opts"].get("transient_max_time_iter")
    if not ok:
        ctx.record(r.why)
        ctx.count("tran_reported_failure")
        ctx.count("failure " + r.why.split(":")[0])
        soft = any(f[1] in ("nomem", "wild") for f in o["fired"])
        if soft or maxit:
            return
        aids = sum(case["opts"].get(k, True) for k in ("use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"))
        nf = len(o["fired"]) + len(o["dfired"])
        lin = case["kind"] == "lin"
        if not aids or not (sc or (lin and nf < aids)):
            return
        if sc and not (case["x0"] == "op" and not case["tstart"] and case["kind"] in ("lin", "user") and tran.calm(case["circ"])):
            ctx.count("failure_not_judged_for_recovery")
            return
        if r.why.startswith("budget"):          # many points, or no progress?
            o2 = tran.execute(case, ctx, budget=60000)
            if "skip" in o2 or not (isinstance(o2["res"], Failed) and o2["res"].why.startswith("budget")):
                ctx.count("long_runs")
                return
        u = tran.execute(dict(case, faults={}, dev=[]), ctx, budget=4500) if nf else None
        if u is not None and ("skip" in u or isinstance(u["res"], Failed)):
            ctx.count("failure_also_undisturbed")
            return
        if nf > 9 or (case["method"] or "").upper() in ("GEAR3", "GEAR4", "GEAR5", "GEAR6"):
            return        # steps so short that rounding dominates the high-order formulas
        if nf or lin:
            ctx.fail("tran-recovery", "%d transient failures, completes without them, step control %s: %s"
                     % (nf, "on" if sc else "off", r.why))
        return
    ctx.count("tran_ok")
    if ctx.nontrivial:
        ctx.count("tran_ok_after_fault")
    t = o["t"]
    ctx.record(t)
    ctx.evals += len(t)
    if len(t) == 0:
        return ctx.fail("tran-covers", "a result without points")
    if len(t) != o["X"].shape[1] or not np.all(np.isfinite(o["X"])):
        return ctx.fail("tran-finite", "values missing or not finite")
    ta = np.concatenate(([t0], t))
    d = np.diff(ta)
    scale = max(abs(t1), abs(t0), h)
    eps = 1e-9 * h + 8e-16 * scale * (1 if sc else len(t))
    if np.any(d <= 0):
        i = int(np.argmin(d))
        return ctx.fail("tran-monotonic", "time %r is followed by %r" % (ta[i], ta[i + 1]))
    if np.any(d > h + 2 * eps):
        i = int(np.argmax(d))
        return ctx.fail("tran-step", "step of %.9g at t=%.9g, %.9g was requested" % (d[i], ta[i], h))
    if maxit and len(t) > maxit:
        return ctx.fail("tran-limit", "%d points although the iteration limit is %d" % (len(t), maxit))
    tl = t[-1]
    if sc:
        if tl < t1 - 2e-6 * h:
            return ctx.fail("tran-covers", "reported as success, but it ends at %.12g of %.12g" % (tl, t1))
        if tl > t1 + eps:
            if len(ta) > 2 and ta[-2] < t1 and (ta[-1] - ta[-2]) <= (t1 - ta[-3]) + 2 * eps:
                ctx.fail("tran-end", "last point %.12g is beyond the stop time %.12g" % (tl, t1), key="tran-overshoot")
            else:
                ctx.fail("tran-end", "last point %.12g is beyond the stop time %.12g by more than one step" % (tl, t1))
    else:
        q = (t1 - t0) / h
        n = len(t)
        if n not in (int(math.ceil(q - 1e-5)), int(math.ceil(q - 1e-12))):
            n = int(math.ceil(q - 2e-6))
            return ctx.fail("tran-covers", "%d points of step %.9g from %.9g to %.9g, expected %d" % (len(t), h, t0, t1, n))
        want = t0 + h * np.arange(1, n + 1)
        if np.max(np.abs(t - want)) > eps:
            return ctx.fail("tran-uniform", "the points are not spaced by the requested step")
