"""Transient cases shared by C03 (coverage of the interval) and C04 (waveform)."""
import math

import numpy as np

from . import circ as cm
from . import ref, seams, util
from .core import Budget
from .util import Failed

METHODS = ["TRAP", "TRAP", "TRAP", "IMPLICIT_EULER", "GEAR2", "GEAR1", "GEAR3", "GEAR4", "GEAR5", "GEAR6"]
OV = "overflow"


def rnd_fn(rng, dc, T):
    k = rng.choice(["sin", "pulse", "exp", "pwl", "sin", "pulse"])
    v = lambda: cm.nice(rng, -5, 5)
    if k == "sin":
        return ["sin", dc, v(), cm.logu(rng, .3, 4) / T, rng.choice([0.0, 0.0, cm.nice(rng, 0, .4) * T]),
                rng.choice([0.0, 0.0, 1.0 / T])]
    if k == "pulse":
        tr = rng.choice([1e-3, 1e-2, .1]) * T
        pw = cm.nice(rng, .05, .5) * T
        td = rng.choice([0.0, .1 * T])
        return ["pulse", v(), v(), td, tr, pw, tr, (td + 2 * tr + pw) * cm.nice(rng, 1.2, 3)]
    if k == "exp":
        t1 = cm.nice(rng, 0, .3) * T
        return ["exp", v(), v(), t1, cm.logu(rng, .02, .5) * T, t1 + cm.nice(rng, .1, .5) * T, cm.logu(rng, .02, .5) * T]
    n = rng.randint(2, 5)
    t = sorted({cm.nice(rng, 0, 1.2) * T for _ in range(n)} | {0.0, 50 * T})
    return ["pwl", t, [v() for _ in t]]


def timescales(cj):
    """Finite time constants of the linear part, seconds (sorted)."""
    s = ref.Sys(dict(cj, els=[e for e in cj["els"] if e[0] not in "DMSN"]))
    import scipy.linalg
    try:
        w = scipy.linalg.eigvals(s.A, -s.D)
    except Exception:
        return [], []
    w = w[np.isfinite(w) & (np.abs(w) < 1e13) & (np.abs(w) > 1e-6)]
    return sorted(1.0 / np.abs(w)), [complex(x) for x in w]


def gen(rng, tier, smooth=False):
    """A dynamic circuit, its time scale, and a transient request."""
    want_calm = rng.random() < .55
    for _ in range(60):
        kind = rng.choice(["lin"] * 6 + ["dio", "user", "user", "user", "dio", "mos"])
        g = cm.Gen(rng, 1, 5)
        g.backbone(100, 2e4)
        for _ in range(rng.randint(1, 2)):
            g.add(rng.choice("VVI"))
        for _ in range(rng.randint(1, 3)):
            g.add("C", lo=1e-9, hi=1e-7)
        if rng.random() < .4:
            g.add("L", lo=1e-4, hi=1e-2)
            if rng.random() < .4:
                g.add("L", lo=1e-4, hi=1e-2), g.add("K")
                if rng.random() < .4:
                    g.add("L", lo=1e-4, hi=1e-2), g.add("K"), g.add("K"), g.add("K")
        for _ in range(rng.randint(0, 2)):
            g.add(rng.choice("RRGEF"))
        if kind != "lin":
            for _ in range(rng.randint(1, 2)):
                g.add({"dio": "D", "user": "N", "mos": "M"}[kind], bv=False)
        cj = cm.shuffled(rng, g.out())
        s = ref.Sys(cj)
        if s.cond() > 1e10:
            continue
        tc, w = timescales(cj)
        if not tc or (w and max(x.real for x in w) > -1e-3 / tc[-1]):
            continue                                    # unstable or not damped
        tau = [t for t in tc if t < 1] or [1e-5]
        if want_calm and not calm(cj):
            continue
        break
    T = cm.logu(rng, 1.5, 6) * (tau[-1] if rng.random() < .7 else math.sqrt(tau[0] * tau[-1]))
    if T / tau[0] > 2000:
        T = 2000 * tau[0]
    T = float("%.3g" % T)
    for e in cj["els"]:
        if e[0] in "VI" and rng.random() < .8:
            e[6] = rnd_fn(rng, e[4], T)
            if want_calm:
                e[6] = ["sin", e[4], cm.nice(rng, -5, 5), cm.logu(rng, .3, 4) / T, 0.0, 0.0]
    tstart = 0.0 if rng.random() < .75 else float("%.3g" % (T * rng.choice([.1, 1.0, 3.7])))
    sc = rng.random() < .7
    method = rng.choice(METHODS)
    npts = rng.choice([7, 10, 33, 50, 100, 128]) if not sc else rng.choice([10, 20, 50, 100])
    step = float("%.6g" % (T / npts * (rng.uniform(.9, 1.1) if rng.random() < .3 else 1.0)))
    opts = {}
    if rng.random() < .5:
        opts["ver"] = opts["ier"] = rng.choice([1e-4, 1e-5, 1e-3])
        opts["vea"] = rng.choice([1e-5, 1e-6, 1e-7])
        opts["iea"] = rng.choice([1e-9, 1e-11])
    elif kind != "lin" and rng.random() < .6:
        opts["ver"] = opts["ier"] = 1e-5
        opts["vea"] = 1e-7
    if rng.random() < .25:
        opts["dense_matrix_limit"] = rng.choice([0, 2])
    if rng.random() < .2:
        opts["transient_use_aposteriori_step_control"] = False
    if rng.random() < .2:
        opts["transient_aposteriori_step_threshold"] = rng.choice([.5, .95, .2])
    if rng.random() < .3:
        opts["transient_prediction_as_x0"] = rng.choice([True, False])
    if rng.random() < .15:
        opts["transient_no_step_control"] = True
        sc = False
    if rng.random() < .15:
        for k in rng.sample(["use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"], rng.randint(1, 2)):
            opts[k] = False
    if rng.random() < .1:
        opts["transient_max_nr_iter"] = rng.choice([5, 50])
    if rng.random() < .08:
        opts["transient_max_time_iter"] = rng.choice([3, 20, 60])
    faults = {}
    r = rng.random()
    span = npts * (1 if not sc else 6)

    def at():
        return int(math.exp(rng.uniform(0, math.log(span + 2)))) - 1 if rng.random() < .6 else rng.randint(0, span)
    kinds = ["singular"] * 6 + (["nan", "wild", "inf"] if kind != "lin" else ["nan"])
    if r < .3 or (r < .65 and not sc):
        for _ in range(rng.randint(1, 4)):
            faults[str(at())] = rng.choice(kinds)
    elif r < .75:
        for _ in range(rng.randint(1, 3)):
            a = at()
            for i in range(a, a + rng.choice([2, 3, 3, 3, 3, 4, 6, 9, 15])):
                faults[str(i)] = "singular"
    elif r < .8:
        faults[str(at())] = "nomem"
    dev = []
    if kind == "user" and rng.random() < .7:
        for _ in range(rng.randint(1, 3)):
            dev.append([tstart + rng.random() * T, rng.choice([1, 2, 3, 5, 8])])
    x0 = rng.choice(["op"] * (8 if want_calm else 1) + ["op", None, "op+ic", "vec", "opsol", "icdict", "icmod"])
    if x0 in ("op+ic", "icmod"):
        for e in cj["els"]:
            if e[0] == "C" and rng.random() < .6:
                e[5] = rng.choice([0.0, cm.nice(rng, -4, 4), cm.nice(rng, -4, 4)])
            elif e[0] == "L" and rng.random() < .6:
                e[5] = rng.choice([0.0, cm.nice(rng, -1e-3, 1e-3)])
    if rng.random() < .12:
        opts["_verbose"] = rng.randint(1, 6)
    return {"circ": cj, "kind": kind, "tstart": tstart, "tstep": step, "tstop": tstart + T, "sc": sc,
            "method": rng.choice([method, method, method.lower()]) if method != "TRAP" else rng.choice(["TRAP", "TRAP", None, "trap"]),
            "opts": opts, "faults": faults, "dev": dev, "x0": x0,
            "x0seed": rng.randrange(10 ** 6), "seam_seed": rng.randrange(10 ** 9)}


def circ_order(c, cj):
    """Names of the unknowns in the circuit object's own order."""
    nm = ["V%s" % c.int_node_to_ext(k) for k in range(1, c.get_nodes_number())]
    return nm + ["I(%s)" % e[1] for e in cj["els"] if cm.is_vdef(e)]


def calm(cj):
    """Smooth excitation, and no variable that jumps when a slope does or follows the numerical
    noise of a derivative (loops of sources and capacitors, cutsets of sources and inductors)."""
    for e in cj["els"]:
        if e[0] in "VI" and e[6] is not None and (e[6][0] != "sin" or e[6][4]):
            return False
    return index1(ref.Sys(cj))


def index1(s):
    cols = [i for i in range(s.n) if np.any(s.D[:, i])]
    import scipy.linalg
    if not cols:
        return True
    # index one: the algebraic part is regular on the null space of D
    Z = scipy.linalg.null_space(s.D)
    Y = scipy.linalg.null_space(s.D.T)
    if Z.shape[1] == 0:
        return True
    scale = np.maximum(np.abs(s.A).max(axis=1), 1e-12)
    M = Y.T.dot(s.A).dot(Z)
    return bool(np.linalg.matrix_rank(M, tol=1e-9 * scale.max()) == Z.shape[1])


def execute(case, ctx, budget=5000):
    """Run the request under its faults. Returns a dict."""
    import ahkab
    cj = case["circ"]
    util.set_options(case["opts"])
    s = ref.Sys(cj)
    plan = [list(d) for d in case["dev"]]
    dfired = []

    def hook(el, v, t):
        for d in plan:
            if d[1] > 0 and t >= d[0]:
                d[1] -= 1
                dfired.append(t)
                raise OverflowError("math range error (simulated, in the device)")
    c = cm.build(cj, hook=hook if plan else None)
    order = circ_order(c, cj)
    perm = [order.index(n) for n in s.names]        # reference order <- circuit order
    rs = np.random.RandomState(case["x0seed"])
    vec = rs.uniform(-1, 1, (s.n, 1)) * np.where(np.arange(s.n) < s.nn, 3.0, 1e-3).reshape(-1, 1)
    k = case["x0"]
    x0 = None
    start = None          # expected start vector, reference order (None: take the OP's)
    pre = []
    with util.quiet():
        if k is None:
            start = np.zeros(s.n)
        elif k == "vec":
            x0 = vec
        elif k == "icdict":
            d, m = {}, dict(zip(order, vec[:, 0]))
            for n in order:
                if rs.rand() < .7:
                    d["V(%s)" % n[1:] if n[0] == "V" else n] = float(m[n])
            x0 = ahkab.new_x0(c, d)
            start = np.array([d.get("V(%s)" % n[1:] if n[0] == "V" else n, 0.0) for n in s.names])
        elif k == "opsol":
            from ahkab import results
            x0 = results.op_solution(x=vec.copy(), error=vec * 0, circ=c, outfile=None)
            start = vec[perm, 0]
        elif k == "icmod":
            x0 = ahkab.icmodified_x0(c, vec.copy())
        elif k in ("op", "op+ic"):
            pre = [ahkab.new_op()]
            x0 = k
        if start is None and isinstance(x0, np.ndarray):
            start = np.asarray(x0, dtype=float)[perm, 0].copy()
        tr = ahkab.new_tran(case["tstart"], case["tstop"], case["tstep"], x0=x0, method=case["method"],
                            use_step_control=case["sc"])
        with seams.solver_faults({}, budget=budget) as sol:
            sol.skip = ("inv",)      # the predictor's tiny Vandermonde system
            opres = None
            if pre:
                # the operating point is not what is disturbed here: arm the faults after it
                seams.solver.budget = 1200
                try:
                    opres = util.attempt(ahkab.run, c, [util.loud(pre[0])])
                except Budget:
                    return {"skip": "op budget"}
                seams.solver.budget = budget + sol.calls
                if isinstance(opres, Failed) or opres.get("op") is None:
                    return {"skip": "no op"}
                opv = util.op_vec(opres["op"], s)
                x0v = np.zeros((s.n, 1))
                x0v[perm, 0] = opv
                nop = sol.calls
                sol.calls = 0
                sol.plan = {}
                an = [ahkab.new_op(), tr]
                sol.plan = {nop + int(i): f for i, f in case["faults"].items()}
            else:
                an = [tr]
                sol.plan = {int(i): f for i, f in case["faults"].items()}
            try:
                r = util.attempt(ahkab.run, c, [util.loud(a) for a in an])
            except Budget:
                r = Failed("budget: no end within %d solves" % budget)
        fired = list(sol.fired)
        if not isinstance(r, Failed):
            if k in ("op", "op+ic"):
                o = r.get("op")
                if o is None:
                    return {"skip": "no op"}
                if k == "op+ic":
                    o = ahkab.icmodified_x0(c, o)
                start = util.op_vec(o, s)
            r = r.get("tran")
            if r is None:
                r = Failed("None")
    for i, kk, n in fired:
        ctx.count("fault_solver_" + kk)
    ctx.count("fault_device_overflow", len(dfired))
    ctx.count("solves", sol.calls)
    out = {"res": r, "fired": fired, "dfired": dfired, "sys": s, "start": start, "circ": c, "perm": perm}
    if not isinstance(r, Failed):
        out["t"] = np.asarray(r.get_x()).reshape(-1).astype(float)
        out["X"] = util.get_names(r, s.names).astype(float)
        ctx.sim_time += float(out["t"][-1] - case["tstart"]) if len(out["t"]) else 0.0
        ctx.count("steps", len(out["t"]))
    return out


def shrink(case):
    if case["faults"]:
        for f in cm.shrink_dict(case["faults"]):
            yield dict(case, faults=f)
    if case["dev"]:
        for d in cm.shrink_list(case["dev"]):
            yield dict(case, dev=d)
    for o in cm.shrink_dict(case["opts"]):
        yield dict(case, opts=o)
    if case["x0"]:
        yield dict(case, x0=None)
    if case["tstart"]:
        yield dict(case, tstart=0.0, tstop=case["tstop"] - case["tstart"])
    for c in cm.shrink_circuit(case["circ"]):
        yield dict(case, circ=c)
