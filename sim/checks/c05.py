"""C05: an AC sweep gives the exact phasors at the requested frequencies, or fails."""
import math

import numpy as np

from .. import circ as cm
from .. import ref, seams, tran, util
from ..util import Failed

TIERS = {"quick": {"runs": 2200, "wall": 75}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("random dynamic circuits (linear, diode, user, MOS) with complex AC sources x LOG/LIN/default grids x matrix back "
        "end x phase unit (also switched between sweep and access) x accessor x solver faults in the linearisation point "
        "and at chosen frequencies; non-trivial = a fault fired or the circuit is nonlinear or reactive; distinct by "
        "circuit, grid, options, faults and outcome")
REAL = "ahkab (Circuit API, run, ac_analysis, op_analysis, results, csv files), numpy, scipy"
STUB = "numpy/scipy linear solvers pass through a seam that fails chosen calls"
ASSUME = ["circuits with MOS devices are compared with an undisturbed run, because device laws are not judged; operating points may differ by the "
          "configured tolerance, which is carried into the phasors"]


def gen(rng, tier):
    kind = rng.choice(["lin"] * 4 + ["dio", "user", "mos"])
    g = cm.Gen(rng, 1, 6)
    g.backbone(50, 1e5)

    def ac():
        r = rng.random()
        if r < .25:
            return 0
        if r < .5:
            return 1.0
        m, p = cm.logu(rng, .01, 10), cm.nice(rng, -3, 3)
        return [float("%.4g" % (m * math.cos(p))), float("%.4g" % (m * math.sin(p)))]
    for _ in range(rng.randint(1, 3)):
        g.add(rng.choice("VVI"), ac=ac())
    for _ in range(rng.randint(0, 3)):
        g.add("C", lo=1e-10, hi=1e-7)
    if rng.random() < .5:
        g.add("L", lo=1e-4, hi=1e-2)
        if rng.random() < .6:
            g.add("L", lo=1e-4, hi=1e-2)
            if rng.random() < .7:
                g.add("K")
            if rng.random() < .4:
                g.add("L", lo=1e-4, hi=1e-2), g.add("K"), g.add("K")
    for _ in range(rng.randint(0, 4)):
        g.add(rng.choice("RRGEFH"))
    if kind != "lin":
        for _ in range(rng.randint(1, 2)):
            g.add({"dio": "D", "user": "N", "mos": "M"}[kind], bv=False)
    for e in g.els:
        if e[0] in "VI" and rng.random() < .3:
            e[6] = ["sin", e[4], 1.0, 1e3, 0.0, 0.0]
    cj = cm.shuffled(rng, g.out())
    opts = {}
    if rng.random() < .35:
        opts["dense_matrix_limit"] = rng.choice([0, 1])
    if kind != "lin":
        opts.update(ver=1e-7, ier=1e-7, vea=1e-10, iea=1e-12)
        opts["dc_max_nr_iter"] = 300
    if rng.random() < .15:
        for k in rng.sample(["use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"], rng.randint(1, 2)):
            opts[k] = False
    deg = rng.choice([0, 0, 0, 1, 2, 3])      # never, at the sweep, at the access, both
    a = cm.logu(rng, 1.0, 1e5)
    st = rng.choice(["LOG", "LOG", "LIN", "log", "lin", None])
    b = float("%.4g" % (a * rng.choice([1.5, 10, 100, 1e4, 3.3])))
    pts = rng.choice([2, 3, 4, 5, 8, 10, 11, 21, 30])
    if rng.random() < .05:
        b, pts = a, 1
    fl = {}
    if rng.random() < .6:
        for _ in range(rng.randint(1, 3)):
            i = rng.choice([0, 1, 2, pts - 1, rng.randrange(2 * pts + 4)])
            k = rng.choice(["singular"] * 6 + ["nan", "inf", "nomem", "overflow", "intr"])
            for j in range(rng.choice([1, 1, 2, 3, 3, 4, 6, 12, 60])):
                fl[str(i + j)] = k
            if k == "intr":
                fl = {str(i): "intr"}
                break
    if rng.random() < .12:
        opts["_verbose"] = rng.randint(1, 6)
    return {"circ": cj, "kind": kind, "start": a, "stop": b, "points": pts, "stype": st, "opts": opts, "deg": deg,
            "faults": fl, "x0": rng.choice([None, None, "op"]), "named": rng.random() < .4,
            "via": rng.choice(["run", "run", "func"]), "faults_from": rng.choice(["all", "sweep"]),
            "seam_seed": rng.randrange(10 ** 9)}


def grid(case):
    a, b, n = case["start"], case["stop"], case["points"]
    if n == 1:
        return np.array([a])
    if (case["stype"] or "LOG").upper() == "LOG":
        return np.exp(np.linspace(np.log(a), np.log(b), n))
    return np.linspace(a, b, n)



def phasors(s, w, J, gm, cmn):
    M = s.A + J + gm * s.gmin(1.0) + 1j * w * (s.D + cmn * s.gmin(1.0))
    return real_solve(M, -s.bac), float(np.linalg.cond(M))


def real_solve(M, b):
    return seams.real["solve"](M, b)


def run(case, ctx):
    import ahkab
    from ahkab import ac as acmod, options
    cj = case["circ"]
    s = ref.Sys(cj)
    if s.cond() > 1e10:
        ctx.count("skipped_ill_conditioned")
        return
    util.set_options(case["opts"])
    c = cm.build(cj)
    lin = not s.nl
    f = grid(case)
    out = "out" if case["named"] else None
    deg_sweep, deg_read = case["deg"] in (1, 3), case["deg"] in (2, 3)
    intr = False
    r = None
    opr = None
    with util.quiet():
        if not lin:
            with seams.solver_faults({}, budget=4000):
                try:
                    opr = util.run1(c, ahkab.new_op())
                except seams.Budget:
                    opr = Failed("budget")
            if isinstance(opr, Failed):
                ctx.count("skipped_no_op")
                return
        x0 = None
        if case["x0"] == "op":
            x0 = opr if opr is not None else util.run1(c, ahkab.new_op())
            if isinstance(x0, Failed):
                ctx.count("skipped_no_op")
                return
        elif not lin and case["faults_from"] == "sweep":
            x0 = opr
        options.ac_phase_in_deg = deg_sweep
        with seams.solver_faults(case["faults"], budget=20000) as sol:
            try:
                if case["via"] == "func":
                    r = util.attempt(acmod.ac_analysis, c, case["start"], case["points"], case["stop"], x0=x0,
                                     sweep_type=case["stype"] or "LOG", outfile=(out + ".ac") if out else "tmp.ac", verbose=0)
                else:
                    kw = {} if case["stype"] is None else {"sweep_type": case["stype"]}
                    an = ahkab.new_ac(case["start"], case["stop"], case["points"], x0=x0, outfile=out, **kw)
                    r = util.run1(c, an)
            except KeyboardInterrupt:
                intr = True
                r = Failed("KeyboardInterrupt")
        options.ac_phase_in_deg = deg_read
        fired = list(sol.fired)
    for i, k, n in fired:
        ctx.count("fault_solver_" + k)
    ok = not isinstance(r, Failed)
    ctx.sig = [cj, case["start"], case["stop"], case["points"], case["stype"], case["opts"], case["deg"], fired, ok]
    ctx.nontrivial = bool(fired) or not lin or bool(np.any(s.D))
    if intr != any(k == "intr" for _, k, _ in fired):
        ctx.fail("interrupt", "interrupt %s, fired %s" % (intr, fired))
    if not ok:
        ctx.count("ac_reported_failure")
        ctx.record(r.why)
        aids = sum(case["opts"].get(k, True) for k in ("use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"))
        if not fired:
            ctx.fail("ac-progress", "an undisturbed AC sweep failed: %s" % r.why)
        elif lin and len(fired) < aids and all(k == "singular" for _, k, _ in fired):
            ctx.fail("ac-progress", "%d solver failures, %d convergence aids: %s" % (len(fired), aids, r.why))
        return
    ctx.count("ac_ok")
    if fired:
        ctx.count("ac_ok_after_fault")
    judge(case, ctx, r, s, f, opr)


def judge(case, ctx, r, s, f, opr):
    x = np.asarray(r.get_x()).reshape(-1)
    if np.iscomplexobj(x) and np.any(x.imag):
        return ctx.fail("ac-grid", "complex frequencies")
    x = x.real.astype(float)
    ctx.record(x)
    if len(x) != len(f) or np.max(np.abs(x - f) / f) > 1e-9:
        return ctx.fail("ac-grid", "frequencies %s, requested %s" % (x.tolist()[:6] + [len(x)], f.tolist()[:6] + [len(f)]))
    X = np.array([np.asarray(r[n]).reshape(-1) for n in s.names])
    ctx.record(X)
    if X.shape[1] != len(f) or not np.all(np.isfinite(X)):
        return ctx.fail("ac-values", "values missing or not finite")
    # accessors
    keys = list(r.keys())
    arr = np.asarray(r.asarray())
    vals = list(r.values())
    its = dict((str(k), v) for k, v in r.items())
    itr = dict((str(k), v) for k, v in r)
    for j, n in enumerate(s.names):
        k = [i for i, kk in enumerate(keys) if kk.upper() == n.upper()]
        if len(k) != 1:
            return ctx.fail("ac-accessors", "%s is %d times in %s" % (n, len(k), keys))
        for what, v in (("asarray", arr[k[0]]), ("values", vals[k[0]]), ("items", its[keys[k[0]]]), ("iteration", itr[keys[k[0]]]),
                        ("get", r.get(n.lower()))):
            ctx.evals += 1
            if np.asarray(v).shape != X[j].shape or not np.allclose(v, X[j], rtol=1e-12, atol=0):
                return ctx.fail("ac-accessors", "%s of %s is %s, by name it is %s" % (what, n, np.asarray(v)[:3], X[j][:3]))
    if not np.allclose(arr[0].real, x, rtol=1e-12) or not np.allclose(vals[0], x, rtol=1e-12):
        return ctx.fail("ac-accessors", "frequency axis differs between accessors")
    # phasors
    best = {}
    if any(e[0] == "M" for e in case["circ"]["els"]):
        return undisturbed(case, ctx, s, X)
    hs = [1.0, -1.0] if any(e[0] == "H" for e in case["circ"]["els"]) else [1.0]
    for h in hs:
        o = ref.Sys(case["circ"], hsign=h)
        Js = [np.zeros((o.n, o.n))]
        if o.nl:
            xop = util.op_vec(opr, o)
            z, okz = o.newton(xop, A=o.A + o.gmin(1e-12))
            if not okz:
                if h == hs[0] and len(hs) == 1:
                    ctx.count("skipped_no_reference_op")
                    return
                continue
            Js = [o.inl(z)[1]]
            rs = np.random.RandomState(1)
            lim = util.vtol(z, o.nn, case["opts"], 10.0)
            Js += [Js[0] + o.gdev(2e-12), o.inl(xop)[1]] + [o.inl(z + lim * rs.choice([-1, 1], o.n))[1] for _ in range(3)]
        worst, at = 0.0, None
        for i, ff in enumerate(f):
            w = 2 * math.pi * ff
            p, cn = phasors(o, w, Js[0], 1e-12, 1e-18)
            p0, _ = phasors(o, w, Js[0], 0.0, 0.0)
            if cn > 1e13:
                ctx.count("frequencies_skipped_ill_conditioned")
                continue
            spread = np.abs(p - p0)
            for J in Js[1:]:
                spread = np.maximum(spread, np.abs(phasors(o, w, J, 1e-12, 1e-18)[0] - p))
            mx = np.max(np.abs(p)) if len(p) else 0.0
            vs = np.abs(p) * (1e-9 if not o.nl else 1e-6) + 4 * spread + cn * 2e-15 * (mx + 10.0)
            d = np.max(np.abs(X[:, i] - p) / vs)
            ctx.evals += 1
            if d > worst:
                worst, at = d, (i, ff, o.names[int(np.argmax(np.abs(X[:, i] - p) / vs))], X[:, i], p)
        best[h] = (worst, at)
    if not best:
        ctx.count("skipped_no_reference_op")
        return
    if best.get(1.0, (9e9,))[0] <= 1:
        return
    if best.get(-1.0, (9e9,))[0] <= 1:
        return ctx.fail("ac-phasor", "the CCVS has the opposite sign of its documentation", key="ccvs-sign")
    w, at = sorted(best.values(), key=lambda q: q[0])[0]
    ctx.fail("ac-phasor", "%s at %.6g Hz (row %d): got %s, the circuit gives %s (%.3g x tolerance)"
             % (at[2], at[1], at[0], at[3][:6], at[4][:6], w))


def undisturbed(case, ctx, s, X):
    """MOS conductances are the device's own: compare with a calm run, dense and sparse."""
    import ahkab
    from ahkab import options
    st = case["stype"] or "LOG"
    refs = []
    for limit in (400, 0):
        options.dense_matrix_limit = limit
        with util.quiet():
            r = util.run1(cm.build(case["circ"]), ahkab.new_ac(case["start"], case["stop"], case["points"], sweep_type=st))
        if isinstance(r, Failed):
            ctx.count("skipped_no_reference")
            return
        refs.append(np.array([np.asarray(r[n]).reshape(-1) for n in s.names]))
    mx = np.max(np.abs(refs[0])) + 1e-12
    d = min(np.max(np.abs(X - q)) for q in refs)
    ctx.evals += 1
    if d > 1e-4 * mx + 3 * np.max(np.abs(refs[0] - refs[1])):
        ctx.fail("ac-undisturbed", "differs from the undisturbed sweep by %.3g (largest phasor %.3g)" % (d, mx))


def shrink(case):
    if case["faults"]:
        for fd in cm.shrink_dict(case["faults"]):
            yield dict(case, faults=fd)
    for o in cm.shrink_dict(case["opts"]):
        yield dict(case, opts=o)
    if case["points"] > 2:
        yield dict(case, points=2)
        yield dict(case, points=case["points"] - 1)
    for k, v in (("deg", 0), ("named", False), ("x0", None), ("via", "run"), ("stype", None)):
        if case[k] != v:
            yield dict(case, **{k: v})
    for c in cm.shrink_circuit(case["circ"]):
        yield dict(case, circ=c)
