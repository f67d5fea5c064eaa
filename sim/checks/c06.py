"""C06: a periodic steady state really is periodic and belongs to the circuit."""
import math

import numpy as np

from .. import circ as cm
from .. import ref, seams, tran, util
from ..util import Failed

TIERS = {"quick": {"runs": 700, "wall": 90}, "thorough": {"runs": 30000, "wall": 3000}}
RULE = ("random stable dynamic circuits with periodic excitation (linear, diode, user elements) x shooting / brute force x "
        "point count or step x matrix back end x start vector x solver failures and damaged solves at chosen calls x "
        "device failures; non-trivial = a fault fired or a result was judged; distinct by circuit, request, faults, outcome")
REAL = "ahkab (run, shooting, bfpss, the initial transient, results, files), numpy, scipy"
STUB = "numpy/scipy linear solvers and the user element pass through a seam that fails chosen calls"
ASSUME = ["the periodic solution is the one of the documented fixed-step implicit Euler formula; its distance to the "
          "continuous one is not judged"]


def per_fn(rng, dc, T):
    k = rng.choice(["sin", "sin", "sin", "pulse"])
    v = lambda: cm.nice(rng, -4, 4)
    m = rng.choice([1, 1, 1, 2, 3])
    if k == "sin":
        return ["sin", rng.choice([dc, v()]), v(), m / T, 0.0, 0.0]
    P = T / m
    tr, pw = P * rng.choice([.0317, .1171]), P * cm.nice(rng, .2, .5)
    return ["pulse", v(), v(), 0.0, tr, pw, tr, P]


def gen(rng, tier):
    for _ in range(80):
        kind = rng.choice(["lin", "lin", "lin", "dio", "user"])
        g = cm.Gen(rng, 1, 4)
        g.backbone(100, 2e4)
        for _ in range(rng.randint(1, 2)):
            g.add(rng.choice("VVI"))
        for _ in range(rng.randint(1, 3)):
            g.add("C", lo=1e-9, hi=1e-7)
        if rng.random() < .4:
            g.add("L", lo=1e-4, hi=1e-2)
            if rng.random() < .4:
                g.add("L", lo=1e-4, hi=1e-2), g.add("K")
                if rng.random() < .4:
                    g.add("L", lo=1e-4, hi=1e-2), g.add("K"), g.add("K"), g.add("K")
        for _ in range(rng.randint(0, 2)):
            g.add(rng.choice("RRGEF"))
        if kind != "lin":
            for _ in range(rng.randint(1, 2)):
                g.add({"dio": "D", "user": "N"}[kind], bv=False)
        cj = cm.shuffled(rng, g.out())
        s = ref.Sys(cj)
        if s.cond() > 1e9 or not any(e[0] in "VI" for e in cj["els"]):
            continue
        tc, w = tran.timescales(cj)
        if not tc or (w and max(x.real for x in w) > -1e-3 / tc[-1]):
            continue
        break
    T = float("%.3g" % (tc[-1] * cm.logu(rng, .15, 30)))
    srcs = [e for e in cj["els"] if e[0] in "VI"]
    for e in srcs:
        if rng.random() < .7 or e is srcs[0]:
            e[6] = per_fn(rng, e[4], T)
            if e[0] == "I":
                for q in ((1, 2) if e[6][0] == "pulse" else (1, 2)):
                    e[6][q] *= 1e-3
    pts = rng.choice([5, 8, 11, 20, 21, 30, 41])
    step = None
    method = rng.choice(["shooting", "brute-force"])
    if rng.random() < .25:
        step = T / (pts - 1) if rng.random() < .5 else float("%.3g" % (T / (pts - rng.uniform(0.1, .9))))
    opts = {"ver": 1e-6, "ier": 1e-6, "vea": 1e-8, "iea": 1e-10, "shooting_max_nr_iter": 60, "bfpss_max_nr_iter": 60}
    if rng.random() < .3:
        opts["dense_matrix_limit"] = rng.choice([0, 10000])
    faults, dev = {}, []
    r = rng.random()
    if r < .5:
        span = 10 * pts if method == "brute-force" else 12 * pts + 4 * pts * pts
        if method == "brute-force":
            span = 6
        for _ in range(rng.randint(1, 3)):
            a = int(math.exp(rng.uniform(0, math.log(span)))) - 1
            k = rng.choice(["singular"] * 4 + ["nan", "inf", "wild", "nomem"])
            for i in range(a, a + rng.choice([1, 1, 2, 3, 30])):
                faults[str(i)] = k
    elif kind == "user" and r < .7:
        dev = [[rng.choice([0, 3, 50, 200, 2000]), rng.choice([1, 2])]]
    if rng.random() < .12:
        opts["_verbose"] = rng.randint(1, 6)
    return {"circ": cj, "kind": kind, "period": T, "points": pts, "step": step, "method": method, "opts": opts,
            "faults": faults, "dev": dev, "x0": rng.choice([None, None, "op", "vec"]), "x0seed": rng.randrange(10 ** 6),
            "named": rng.random() < .4, "seam_seed": rng.randrange(10 ** 9)}


def periodic(s, h, times, start=None):
    """The periodic fixed-step implicit Euler solution at the given times (the last precedes the first)."""
    N = len(times)
    n = s.n
    D = s.D / h
    bs = [s.b(t) for t in times]
    X = np.zeros((N, n)) if start is None else start.copy()

    def resid(X):
        R = np.empty((N, n))
        Js = []
        for k in range(N):
            f, J = s.inl(X[k])
            R[k] = s.A.dot(X[k]) + D.dot(X[k] - X[k - 1]) + bs[k] + f
            Js.append(J)
        return R, Js
    big = np.zeros((N * n, N * n))
    for it in range(400):
        R, Js = resid(X)
        big[:] = 0
        for k in range(N):
            a = slice(k * n, (k + 1) * n)
            p = (k - 1) % N
            big[a, k * n:(k + 1) * n] += s.A + D + Js[k]
            big[a, p * n:(p + 1) * n] -= D
        try:
            dx = seams.real["solve"](big, -R.reshape(-1)).reshape(N, n)
        except np.linalg.LinAlgError:
            return None, None
        m = np.max(np.abs(dx[:, :s.nn]))
        if s.nl and m > .3:
            X = X + dx * (.3 / m)
            continue
        X = X + dx
        if np.max(np.abs(dx)) < 1e-10 * (1 + np.max(np.abs(X))):
            return X, big
        if not s.nl:
            return X, big
    return None, None


def run(case, ctx):
    import ahkab
    from ahkab import pss
    cj = case["circ"]
    s = ref.Sys(cj)
    util.set_options(case["opts"])
    plan = [list(d) for d in case["dev"]]
    seen = [0]
    dfired = []

    def hook(el, v, t):
        seen[0] += 1
        for d in plan:
            if d[1] > 0 and seen[0] > d[0]:
                d[1] -= 1
                dfired.append(seen[0])
                raise OverflowError("math range error (simulated, in the device)")
    c = cm.build(cj, hook=hook)
    plan, keep = [], plan
    x0 = None
    out = "out" if case["named"] else None
    with util.quiet():
        if case["x0"] == "op":
            try:
                with seams.solver_faults({}, budget=3000):
                    x0 = util.run1(c, ahkab.new_op())
            except seams.Budget:
                x0 = Failed("")
            if isinstance(x0, Failed):
                ctx.count("skipped_no_op")
                return
        elif case["x0"] == "vec":
            rs = np.random.RandomState(case["x0seed"])
            x0 = rs.uniform(-1, 1, (s.n, 1)) * np.where(np.arange(s.n) < s.nn, 2.0, 1e-3).reshape(-1, 1)
        plan = keep
        with seams.solver_faults(case["faults"], budget=300000) as sol:
            if case["method"] == "brute-force":
                sol.skip = ("inv",)
            if case["step"] is None:
                an = ahkab.new_pss(case["period"], x0=x0, points=case["points"], method=case["method"], outfile=out)
                r = util.run1(c, an)
            else:
                r = util.attempt(pss.pss_analysis, c, method=case["method"], period=case["period"], step=case["step"],
                                 x0=x0, outfile=(out or "tmp") + ".pss", verbose=0)
        fired = list(sol.fired)
    for i, k, n in fired:
        ctx.count("fault_solver_" + k)
    ctx.count("fault_device_overflow", len(dfired))
    ok = not isinstance(r, Failed)
    ctx.sig = [cj, case["period"], case["points"], case["step"], case["method"], case["opts"], fired, dfired, ok]
    ctx.nontrivial = bool(fired or dfired or ok)
    if not ok:
        ctx.count("pss_reported_failure_" + case["method"])
        ctx.record(r.why)
        if not fired and not dfired and case["kind"] == "lin":
            ctx.fail("pss-progress", "an undisturbed %s analysis of a stable linear circuit failed: %s" % (case["method"], r.why))
        return
    ctx.count("pss_ok_" + case["method"])
    if fired or dfired:
        ctx.count("pss_ok_after_fault")
    T = case["period"]
    t = np.asarray(r.get_x(), dtype=float).reshape(-1)
    X = np.array([np.asarray(r[n], dtype=float).reshape(-1) for n in s.names]).T
    ctx.record(X)
    ctx.sim_time += T
    if not np.all(np.isfinite(X)) or X.shape[0] != len(t) or len(t) < 2:
        return ctx.fail("pss-values", "values missing or not finite: %d points, %d rows" % (len(t), X.shape[0]))
    h = np.diff(t)
    if np.max(np.abs(h - h[0])) > 1e-9 * h[0] or abs(t[0]) > 1e-9 * T:
        return ctx.fail("pss-grid", "the points are not uniformly spaced from 0: %s" % t[:5])
    N = int(round(T / h[0]))
    if abs(N * h[0] - T) > 1e-9 * T:
        return ctx.fail("pss-grid", "the step %.12g does not divide the period %.12g (%d points to %.12g)" % (h[0], T, len(t), t[-1]))
    if len(t) not in (N, N + 1):
        return ctx.fail("pss-grid", "%d points with %d steps per period" % (len(t), N))
    if case["step"] is None:
        if len(t) != case["points"]:
            return ctx.fail("pss-grid", "%d points, %d were requested" % (len(t), case["points"]))
    elif h[0] > case["step"] * (1 + 1.0 / max(N, 1)) or h[0] < case["step"] * (1 - 1.0 / max(N, 1)):
        return ctx.fail("pss-grid", "step %.9g, requested %.9g" % (h[0], case["step"]))
    ctx.evals += len(t)
    V = case["opts"]

    def compare(S, times):
        # the periodic solution nearest to what was reported (it is unique for these circuits)
        Z, big = periodic(s, h[0], times, S)
        if Z is None:
            Z, big = periodic(s, h[0], times)
        if Z is None:
            return None
        cn = float(np.linalg.cond(big)) if big.shape[0] <= 250 else 1e8
        if cn > 1e12:
            return None
        sc = np.max(np.abs(Z), axis=0)
        lim = np.where(np.arange(s.n) < s.nn, V["ver"] * sc[:s.nn].max() + V["vea"],
                       V["ier"] * (sc[s.nn:].max() if s.n > s.nn else 0) + V["iea"])
        # the iteration stops on its last change
        lim = lim * 20 + cn * 1e-15 * np.max(np.abs(Z))
        return Z, lim, np.abs(S - Z) / lim
    idx = [(k + 1) % N if len(t) == N else k + 1 for k in range(N)]
    q = compare(X[idx], [h[0] * (k if k < N else 0) for k in range(1, N + 1)])
    if q is None:
        ctx.count("skipped_no_reference")
        return
    Z, lim, d = q
    bad = None
    if len(t) == N + 1 and np.max(np.abs(X[0] - X[-1]) / lim) > 1:
        j = int(np.argmax(np.abs(X[0] - X[-1]) / lim))
        bad = ("pss-periodic", "%s (%s points): %s is %.9g at t=0 and %.9g after one period"
               % (case["method"], len(t), s.names[j], X[0, j], X[-1, j]))
    elif np.max(d) > 1:
        k, j = np.unravel_index(np.argmax(d), d.shape)
        bad = ("pss-circuit", "%s (%d points): %s at t=%.6g is %.9g, the periodic solution of the circuit is %.9g (%.3g x tolerance)"
               % (case["method"], len(t), s.names[j], T / N * (k + 1), X[idx][k, j], Z[k, j], d[k, j]))
    if not bad:
        ctx.count("pss_agrees")
        return
    if case["method"] == "shooting" and len(t) == N + 1:
        q = compare(X, [h[0] * k for k in range(N + 1)])
        if q is None:
            ctx.count("skipped_no_reference")
            return
        if np.max(q[2]) <= 1:
            ctx.count("pss_agrees_with_period_of_one_more_step")
            return ctx.fail("pss-period", "shooting: the result is periodic after %d steps of 1/%d period; %s" % (N + 1, N, bad[1]),
                            key="shooting-extra-step")
    ctx.fail(bad[0], bad[1])


def shrink(case):
    if case["faults"]:
        for fd in cm.shrink_dict(case["faults"]):
            yield dict(case, faults=fd)
    if case["dev"]:
        yield dict(case, dev=[])
    for o in cm.shrink_dict(case["opts"]):
        if any(k not in o for k in ("ver", "ier", "vea", "iea")):
            continue
        yield dict(case, opts=o)
    for k, v in (("named", False), ("x0", None), ("step", None), ("points", 5)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for c in cm.shrink_circuit(case["circ"]):
        if any(e[0] in "VI" and e[6] for e in c["els"]):
            yield dict(case, circ=c)
