"""C04: a transient waveform is the true response, whatever steps were rejected."""
import math

import numpy as np

from .. import circ as cm
from .. import tran, util
from ..seams import real
from ..util import Failed

TIERS = {"quick": {"runs": 800, "wall": 80}, "thorough": {"runs": 50000, "wall": 3000}}
RULE = ("the transient cases of C03; every accepted point is recomputed from the reported history by an "
        "independent implementation of the integration formula, linear step-controlled runs are compared "
        "with a 5th order reference integration, start vectors with the requested initial conditions; "
        "non-trivial = at least one waveform point judged, distinct by request, faults and outcome")
REAL = "ahkab (run, transient_analysis, dc_solve, differentiation formulas, new_x0, icmodified_x0), numpy, scipy, result files"
STUB = "numpy/scipy solvers and the user device pass through a seam that fails chosen calls"
ASSUME = ["MOS device currents are taken from the device objects",
          "the accuracy clause is judged for linear damped circuits whose fastest time constant is resolved by the first step"]

shrink = tran.shrink
K_ACC = 20.0


def gen(rng, tier):
    case = tran.gen(rng, tier)
    if rng.random() < .35 and len(case["faults"]) > 3:
        case["faults"] = {k: case["faults"][k] for k in sorted(case["faults"])[:3]}
    if rng.random() < .4 and not case["sc"]:
        case["faults"] = {}
    return case


def lagrange_dcoef(ts):
    """Weights w with x'(ts[0]) = sum w_i x(ts[i]) for the interpolating polynomial."""
    n = len(ts)
    w = np.zeros(n)
    for i in range(1, n):
        p = 1.0
        for j in range(1, n):
            if j != i:
                p *= (ts[0] - ts[j]) / (ts[i] - ts[j])
        w[i] = p / (ts[i] - ts[0])
    w[0] = sum(1.0 / (ts[0] - ts[j]) for j in range(1, n))
    return w


def startup(method):
    return {"TRAP": 1, "IMPLICIT_EULER": 0}.get(method, int(method[4:]) if method.startswith("GEAR") else 0)


def replay_method(case, o, hsign=1.0):
    """Worst deviation of a reported point from what the formula gives there."""
    s, t, X = o["sys"], o["t"], o["X"]
    method = (case["method"] or "TRAP").upper()
    opts = case["opts"]
    gm = s.gmin(opts.get("gmin", 1e-12))
    D = s.D + s.gmin(opts.get("cmin", 1e-18))
    ns = startup(method)
    order = int(method[4:]) if method.startswith("GEAR") else 1
    T = [case["tstart"]] + list(t)
    xs = [o["start"]] + [X[:, i] for i in range(X.shape[1])]
    dx = None
    nz = np.zeros(s.n)            # rounding noise carried by the recursive formula
    eps = 4e-16
    worst = (0.0,)
    lin = not s.nl
    scale = max(np.max(np.abs(X)), np.max(np.abs(o["start"]))) + 1e-12
    for n in range(1, len(T)):
        h = T[n] - T[n - 1]
        if n <= ns or method == "IMPLICIT_EULER":
            c, const = 1.0 / h, -xs[n - 1] / h
            nw = eps * c * np.abs(xs[n - 1])
            nw = nw + c * (eps * abs(T[n]) / h) * np.abs(xs[n] - xs[n - 1])
        elif method == "TRAP":
            c, const = 2.0 / h, -2.0 / h * xs[n - 1] - dx
            nw = nz + eps * (c * np.abs(xs[n - 1]) + np.abs(dx))
            nw = nw + c * (eps * abs(T[n]) / h) * np.abs(xs[n] - xs[n - 1])
        else:
            ts = [T[n - j] for j in range(order + 1)]
            w = lagrange_dcoef(ts)
            c = w[0]
            const = sum(w[j] * xs[n - j] for j in range(1, order + 1))
            hm = min(T[n - j] - T[n - j - 1] for j in range(order))
            nw = sum(abs(w[j]) * eps * (np.abs(xs[n - j]) + abs(T[n]) / hm * np.abs(xs[n - j] - xs[n])) for j in range(1, order + 1))
        A = s.A + gm + c * D
        b = s.b(T[n]) + D.dot(const)
        x, ok = s.newton(xs[n], A, b)
        if ok and np.all(np.isfinite(x)):
            lim = util.vtol(x, s.nn, dict(opts, iea=opts.get("vea", 1e-6)), 3.0) if not lin else 1e-6 * np.abs(x) + 1e-9 * scale
            iA = np.abs(real["inv"](A))
            lim = lim + 100 * iA.dot(np.abs(D).dot(nw + eps * abs(c) * np.abs(x)) + eps * np.abs(b))
            lim = lim + 4 * eps * iA.sum(axis=1) * np.max(np.abs(A).dot(np.abs(x)) + np.abs(b))   # normwise backward error
            dev = np.abs(xs[n] - x) / lim
            w = int(np.argmax(dev))
            if dev[w] > worst[0]:
                worst = (dev[w], n, s.names[w], xs[n][w], x[w], T[n])
        dx = c * xs[n] + const
        nz = nw + eps * abs(c) * np.abs(xs[n])
    return worst


# --- Radau IIA, three stages, order 5, for D x' + A x + b(t) = 0
_s6 = math.sqrt(6.0)
RA = np.array([[(88 - 7 * _s6) / 360, (296 - 169 * _s6) / 1800, (-2 + 3 * _s6) / 225],
               [(296 + 169 * _s6) / 1800, (88 + 7 * _s6) / 360, (-2 - 3 * _s6) / 225],
               [(16 - _s6) / 36, (16 + _s6) / 36, 1.0 / 9]])
RC = np.array([(4 - _s6) / 10, (4 + _s6) / 10, 1.0])


def exact(case, o, sub):
    s = o["sys"]
    A = s.A + s.gmin(case["opts"].get("gmin", 1e-12))
    T = np.concatenate(([case["tstart"]], o["t"]))
    br = s.breaks(T[0], T[-1])
    x = o["start"].copy()
    out = []
    iA = np.linalg.inv(RA)
    n = s.n
    for k in range(1, len(T)):
        cuts = [T[k - 1]] + [b for b in br if T[k - 1] < b < T[k]] + [T[k]]
        for a, b in zip(cuts[:-1], cuts[1:]):
            H = (b - a) / sub
            if b - a <= 1e-9 * (T[k] - T[k - 1]):
                continue
            # stage values X_i: D (sum_j iA_ij (X_j - x))/H + A X_i + b_i = 0
            M = np.kron(iA, s.D) / H + np.kron(np.eye(3), A)
            for q in range(sub):
                t0 = a + q * H
                rhs = np.concatenate([-s.b(t0 + c * H - (1e-12 * H if c == 1.0 else 0)) for c in RC])
                rhs = rhs + np.kron(iA.sum(axis=1), s.D.dot(x)) / H
                X = real["solve"](M, rhs)
                x = X[2 * n:]
        out.append(x.copy())
    return np.array(out).T


def check_start(case, o, ctx):
    """Requested initial conditions in the start vector."""
    cj, s = case["circ"], o["sys"]
    if case["x0"] not in ("op+ic", "icmod"):
        return
    v = dict(zip(s.names, o["start"]))
    v["V0"] = 0.0
    uf = {n: n for n in s.nodes + [cm.GND]}

    def find(a):
        while uf[a] != a:
            a = uf[a]
        return a
    loop = set()
    caps = [e if e[0] == "C" else e[:5] + [e[6] or 0.0] for e in cj["els"]
            if e[0] == "C" and e[5] is not None or e[0] == "D" and (len(e) > 6 and e[6] is not None or len(e) > 8)]
    for e in caps:
        a, b = find(e[2]), find(e[3])
        if a == b:
            loop.add(a)
        else:
            uf[a] = b
    bad = {find(x) for x in loop}
    for e in caps:
        if find(e[2]) in bad:
            continue
        got = v["V" + e[2]] - v["V" + e[3]] if cm.GND not in (e[2], e[3]) else \
            (v["V" + e[2]] if e[3] == cm.GND else -v["V" + e[3]])
        ctx.evals += 1
        if abs(got - e[5]) > 1e-9 * (1 + abs(e[5]) + max(abs(x) for x in v.values())):
            return ctx.fail("ic-honoured", "%s: ic=%g requested, the start vector has %g" % (e[1], e[5], got))
    for e in cj["els"]:
        if e[0] == "L" and e[5] is not None:
            ctx.evals += 1
            if abs(v["I(%s)" % e[1]] - e[5]) > 1e-9 * (1 + abs(e[5])):
                return ctx.fail("ic-honoured", "%s: ic=%g requested, the start vector has %g" % (e[1], e[5], v["I(%s)" % e[1]]))


def run(case, ctx):
    o = tran.execute(case, ctx)
    if "skip" in o:
        ctx.count("skipped")
        return
    r = o["res"]
    if o["start"] is not None:
        check_start(case, o, ctx)
    ctx.sig = [case["circ"], case["method"], case["sc"], case["tstep"], case["tstop"], o["fired"], o["dfired"], isinstance(r, Failed)]
    if isinstance(r, Failed):
        ctx.record(r.why)
        ctx.count("tran_reported_failure")
        return
    ctx.nontrivial = True
    ctx.count("tran_ok")
    ctx.record(o["X"])
    t, X, s = o["t"], o["X"], o["sys"]
    if len(t) != X.shape[1] or not np.all(np.isfinite(X)) or np.any(np.diff(t) <= 0) or t[0] <= case["tstart"]:
        return           # C03's business
    ctx.evals += len(t)
    w = replay_method(case, o)
    if w[0] > 1:
        ctx.fail("tran-formula", "point %d (t=%.9g): %s = %.10g, the %s formula on the reported history gives %.10g (%.3g x tolerance)"
                 % (w[1], w[5], w[2], w[3], case["method"] or "TRAP", w[4], w[0]))
        return
    if o["fired"] or o["dfired"]:
        ctx.count("waveform_ok_after_fault")
    sc = case["sc"] and not case["opts"].get("transient_no_step_control")
    if sc and not s.nl and case["opts"].get("transient_use_aposteriori_step_control", True) and len(t) < 4000:
        accuracy(case, o, ctx)


def accuracy(case, o, ctx):
    t, X, s = o["t"], o["X"], o["sys"]
    tc, wv = tran.timescales(case["circ"])
    T = t[-1] - case["tstart"]
    if not tc or T / 9999.0 > 0.05 * min(tc) or not tran.index1(s):
        return
    if wv and max(x.real / abs(x) for x in wv) > -0.05:
        return
    E = exact(case, o, 2)
    mag = np.max(np.abs(np.concatenate((E, o["start"].reshape(-1, 1)), axis=1)), axis=1).reshape(-1, 1)
    # voltages share one scale: what is lost in one is found in its neighbours
    vm = np.max(mag[:s.nn]) if s.nn else 1.0
    ver, vea, ier = (case["opts"].get(k, d) for k, d in (("ver", 1e-3), ("vea", 1e-6), ("ier", 1e-3)))
    tol = np.empty((s.n, 1))
    tol[:s.nn] = ver * vm + vea
    im = max(np.max(mag[s.nn:]) if s.n > s.nn else 0.0, vm / 2e4)
    tol[s.nn:] = ier * im + vea
    dev = np.abs(X - E) / tol
    i, j = np.unravel_index(int(np.argmax(dev)), dev.shape)
    ctx.count("accuracy_judged")
    ctx.evals += X.size
    # a local error of one tolerance per step adds up over the memory of the circuit
    mem = min(len(t), int(np.max(np.searchsorted(t, t + max(tc)) - np.arange(len(t)))))
    dev = dev / (1 + 0.1 * mem)
    ctx.count("accuracy_ratio_%s" % ("<1" if dev[i, j] < 1 else "<3" if dev[i, j] < 3 else "<10" if dev[i, j] < 10 else "<20" if dev[i, j] < 20 else ">20"))
    if dev[i, j] > K_ACC:
        ctx.fail("tran-accuracy", "%s = %.8g at t=%.9g, exact response %.8g: %.3g times the configured tolerance, %d steps per time constant (%s)"
                 % (s.names[i], X[i, j], t[j], E[i, j], dev[i, j], mem, case["method"] or "TRAP"))
