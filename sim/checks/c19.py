"""C19: pole-zero analysis finds exactly the finite singularities, whatever shift it took, or fails."""
import numpy as np
import scipy.optimize

from .. import circ as cm
from .. import core, ref, seams, util
from ..util import Failed

TIERS = {"quick": {"runs": 2600, "wall": 60}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("random RLCK circuits with controlled sources, diodes and user elements x input source x output port x shift x "
        "linearisation point x failures of the linear algebra on the way (inversion fails, determinant underflows, eigenvalue "
        "iteration fails) which make the analysis move its expansion point; non-trivial = a fault fired or the analysis moved "
        "the expansion point by itself; distinct by circuit, request, faults and outcome")
REAL = "ahkab (Circuit API, run, op_analysis, pz), numpy, scipy"
STUB = "numpy's inv, det and eigvals pass through a seam that fails chosen calls"
ASSUME = ["poles and zeros more than eight decades above the slowest pole are not told from those at infinity"]


def gen(rng, tier):
    kind = rng.choice(["lin"] * 4 + ["dio", "user"])
    g = cm.Gen(rng, 1, 5 if tier == "quick" else 8)
    g.backbone(50, 1e5)
    for _ in range(rng.randint(1, 2)):
        g.add(rng.choice("VVI"))
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        g.add("C", lo=1e-10, hi=1e-7)
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        g.add("L", lo=1e-4, hi=1e-2)
    if sum(e[0] == "L" for e in g.els) > 1 and rng.random() < .6:
        g.add("K")
    for _ in range(rng.randint(0, 4)):
        g.add(rng.choice("RRGEFH"))
    if kind != "lin":
        for _ in range(rng.randint(1, 2)):
            g.add({"dio": "D", "user": "N"}[kind], bv=False)
    cj = cm.shuffled(rng, g.out())
    nodes = cm.nodes_of(cj)
    src = [e[1] for e in cj["els"] if e[0] in "VI"]
    req = {"input": None, "output": None, "shift": 0.0}
    if rng.random() < .8:
        req["input"] = rng.choice(src)
        a = rng.choice(nodes)
        req["output"] = [a, rng.choice([n for n in nodes if n != a] + ["0"] * 3)]
        req["form"] = rng.choice(["tuple", "tuple", "str", "str", "node"])
    if rng.random() < .25:
        req["shift"] = cm.logu(rng, 1.0, 1e5) * rng.choice([1, 1, -1])
    faults = {}
    if rng.random() < .6:
        for _ in range(rng.randint(1, 3)):
            what = rng.choice(["det", "eig", "eig", "inv"])
            faults["%s%d" % (what, rng.choice([0, 0, 1, 2, 3]))] = {"det": "zero", "eig": "fail", "inv": "singular"}[what]
    opts = dict(ver=1e-7, ier=1e-7, vea=1e-10, iea=1e-12) if kind != "lin" else {}
    if rng.random() < .1:
        opts["_verbose"] = rng.randint(1, 6)
    return {"circ": cj, "kind": kind, "req": req, "faults": faults, "opts": opts, "via": rng.choice(["run", "run", "oprun", "func", "func"] if req["input"] else ["run", "oprun", "func", "poles"]),
            "mna": rng.random() < .15, "x0form": rng.choice(["op", "array"]), "inst": rng.random() < .2,
            "seam_seed": rng.randrange(10 ** 9)}


def singular(A, D, s0):
    """Finite s with det(A + s D) = 0, as (s, uncertainty in 1/(s - s0), 1/(s - s0)); None if singular at s0."""
    M = A + s0 * D
    if not np.all(np.isfinite(M)) or np.linalg.cond(scale(M)) > 1e14:
        return None
    T = -real_solve(M, D)
    import scipy.linalg
    mu, vl, vr = scipy.linalg.eig(T, left=True, right=True)
    k = np.abs(np.sum(vl.conj() * vr, axis=0))
    err = 1e-13 * np.linalg.norm(T) / np.maximum(k, 1e-12)
    return mu, err


def scale(M):
    r = np.abs(M).max(axis=1, keepdims=True)
    M = M / np.where(r > 0, r, 1)
    c = np.abs(M).max(axis=0, keepdims=True)
    return M / np.where(c > 0, c, 1)


def real_solve(M, D):
    return seams.real["solve"](M, D)


def match(got, want, tol, sure):
    """Pair each of got with one of want within tol (by index of want); list of unpaired got, unpaired want."""
    got, want = np.asarray(got), np.asarray(want)
    if not len(got) or not len(want):
        return list(range(len(got))), list(range(len(want)))
    d = np.abs(got[:, None] - want[None, :]) / tol[None, :]
    i, j = scipy.optimize.linear_sum_assignment(np.where(d <= 1, 1e-3 * d + np.where(sure, 0, .3)[None, :], 1.0))
    ok = [(a, b) for a, b in zip(i, j) if d[a, b] <= 1]
    return [a for a in range(len(got)) if a not in [x for x, _ in ok]], [b for b in range(len(want)) if b not in [x for _, x in ok]]


def compare(ctx, what, got, mu, err, s0, lo, hi, cancel=()):
    """got: reported singularities (rad/s); mu = 1/(s - s0) of the circuit's own. Returns a complaint."""
    top = np.max(np.abs(mu)) if len(mu) else 0.0
    sure = [k for k in range(len(mu)) if np.abs(mu[k]) > 1e-8 * top and np.abs(mu[k]) > 30 * err[k] and lo <= abs(s0 + 1 / mu[k]) <= hi]
    may = [k for k in range(len(mu)) if np.abs(mu[k]) > 1e-14 * top]
    s = s0 + 1 / mu[may]
    tol = 1e-4 * np.abs(s) + 1e-5 * lo + 100 * err[may] / np.abs(mu[may]) ** 2
    g = list(got)
    extra, missing = match(g, s, tol, np.array([k in sure for k in may], bool))
    for b in missing:
        if may[b] in sure and not any(abs(s[b] - p) <= tol[b] for p in cancel):
            return "%s %.8g%+.8gj rad/s is not among those reported: %s" % (what, s[b].real, s[b].imag, [complex("%.6g%+.6gj" % (z.real, z.imag)) for z in g])
    for a in extra:
        if lo <= abs(g[a]) <= hi / 10 :
            return "%.8g%+.8gj rad/s is reported but no %s of the circuit; those are %s" % (
                g[a].real, g[a].imag, what, [complex("%.6g%+.6gj" % (z.real, z.imag)) for z in s[np.abs(s) < hi * 100]])
    return None


def run(case, ctx):
    import ahkab
    from ahkab import dc_analysis, pz
    cj, req = case["circ"], case["req"]
    sys0 = ref.Sys(cj)
    if sys0.cond() > 1e12:
        ctx.count("skipped_ill_conditioned")
        return
    util.set_options(case["opts"])
    c = cm.build(cj)
    x0 = None
    with util.quiet():
        if sys0.nl:
            with seams.solver_faults({}, budget=3000):
                try:
                    x0 = util.attempt(dc_analysis.op_analysis, c, guess=True, verbose=0)
                except core.Budget:
                    x0 = Failed(None)
            if isinstance(x0, Failed):
                ctx.count("skipped_no_operating_point")
                return
        xa = x0
        if x0 is not None and case["x0form"] == "array":
            xa = np.array(x0.asarray()).reshape(-1, 1)
        kw = dict(input_source=req["input"], output_port=None, shift=req["shift"], x0=xa)
        if req["input"] and case["inst"]:
            kw["input_source"] = [e for e in c if e.part_id == req["input"]][0]
        if req["output"]:
            a, b = req["output"]
            f = req["form"]
            kw["output_port"] = {"tuple": (a, b), "str": "V(%s)" % a if b == "0" else "V(%s,%s)" % (a, b),
                                 "node": a if b == "0" else [a, b]}[f]
        M = None
        if case["mna"] and not sys0.nl:
            M = kw["MNA"] = dc_analysis.generate_mna_and_N(c, verbose=0)[0]
            keep = M.copy()
        with seams.eig_faults(case["faults"]) as st:
            if case["via"] == "run":
                r = util.run1(c, ahkab.new_pz(**kw))
            elif case["via"] == "oprun":
                if x0 is not None:
                    kw["x0"] = "op"
                try:
                    r = util.attempt(ahkab.run, c, [ahkab.new_op(guess=True), ahkab.new_pz(**kw)])
                except core.Budget:
                    if sys0.nl:         # the operating point again, this time with failures
                        ctx.count("skipped_no_operating_point")
                        return
                    raise
                if not isinstance(r, Failed):
                    r = r["pz"] if r.get("pz") is not None else Failed("no result")
            elif case["via"] == "poles":
                r = util.attempt(pz.calculate_poles, c, MNA=M, x0=xa)
            else:
                r = util.attempt(pz.calculate_singularities, c, verbose=0, outfile=None, **kw)
    for f in st.fired:
        ctx.count("fault_" + f)
    if M is not None and not np.array_equal(M, keep):
        return ctx.fail("pz-argument", "the matrix handed to the analysis was changed by it")
    ctx.count("expansions", st.calls["inv"])
    ctx.sig = [cj, req, st.fired, isinstance(r, Failed)]
    ctx.nontrivial = bool(st.fired) or st.calls["inv"] > 1 and case["via"] != "oprun"
    if st.calls["inv"] > 1 and case["via"] != "oprun":
        ctx.count("expansion_moved")
    Aref = None
    judged = None
    for hs in (1.0, -1.0) if any(e[0] == "H" for e in cj["els"]) else (1.0,):
        s = ref.Sys(cj, hsign=hs)
        A = s.A
        if s.nl:
            J = s.inl(util.op_vec(x0, s))[1]
            if not np.max(np.abs(J)) < 1e4:
                ctx.count("skipped_extreme_bias")
                return
            A = A + J
        bad = verdict(ctx, case, s, A, r, st)
        if bad is None:
            if hs < 0:
                ctx.fail("pz-truth", "matches only with V(n1)-V(n2) = -alpha*I for the CCVS", key="ccvs-sign-pz")
            return
        judged = judged or bad
    ctx.fail(*judged)


def verdict(ctx, case, s, A, r, st):
    cj, req = case["circ"], case["req"]
    nst = sum(e[0] in "CL" for e in cj["els"])
    pp = singular(A, s.D, 0.0)
    if pp is None:
        ctx.count("skipped_singular")
        return None
    mu, err = pp
    top = np.max(np.abs(mu)) if len(mu) else 0.0
    live = [k for k in range(len(mu)) if np.abs(mu[k]) > 1e-8 * top and np.abs(mu[k]) > 30 * err[k]] if top > 0 else []
    regular = len(live) == nst
    if isinstance(r, Failed):
        ctx.count("pz_failed")
        if not ctx.notes:
            ctx.notes.append(str(r.why)[:60])
        if not st.fired and regular:
            return "pz-refused", "no faults, %d finite poles, as many as capacitors and inductors, yet: %s" % (nst, str(r.why)[:200])
        return None
    ctx.count("pz_ok")
    P = 2 * np.pi * np.asarray(r.poles).reshape(-1)
    Z = 2 * np.pi * np.asarray(r.zeros).reshape(-1)
    ctx.evals += 1
    if not (np.all(np.isfinite(P)) and np.all(np.isfinite(Z))):
        return "pz-finite", "non-finite singularities are reported"
    mags = [1 / abs(mu[k]) for k in live] or [1.0]
    lo, hi = min(mags) / 10, max(mags) * 1e3
    bad = compare(ctx, "pole", P, mu, err, 0.0, lo, hi)
    if bad:
        return "pz-truth", bad
    for i in range(len(P)):
        if abs(2 * np.pi * r["p%d" % i] - P[i]) > 1e-9 * abs(P[i]):
            return "pz-access", "p%d is not the pole at its place" % i
    if not req["input"]:
        if len(Z):
            return "pz-truth", "zeros are reported though no input was named"
        return None
    # ---- zeros
    n = s.n
    e = [e for e in cj["els"] if e[1] == req["input"]][0]
    b = np.zeros(n)
    if e[0] == "V":
        b[s.bi[e[1]]] = -1.0
    else:
        for nd, sg in zip(e[2:4], (1, -1)):
            if nd != "0":
                b[s.ni[nd]] += sg
    cc = np.zeros(n)
    for nd, sg in zip(req["output"], (1, -1)):
        if nd != "0":
            cc[s.ni[nd]] += sg
    B = np.zeros((n + 1, n + 1))
    B[:n, :n], B[:n, n], B[n, :n] = A, b, cc
    E = np.zeros((n + 1, n + 1))
    E[:n, :n] = s.D
    M = A + req["shift"] * s.D
    Mi = np.linalg.inv(M)
    hb = np.abs(cc).dot(np.abs(Mi).dot(np.abs(M)).dot(np.abs(Mi))).dot(np.abs(b))
    near = max(abs(cc.dot(np.linalg.solve(A + w * s.D, b))) for w in (mags[0] * 1j, max(mags) * 1j))
    if abs(cc.dot(Mi).dot(b)) <= max(1e-9 * hb, 1e-9 * near) and st.calls["inv"] < 2:
        ctx.count("zeros_lost_in_rounding")
        return None
    s0 = np.sqrt(min(mags) * max(mags)) * (.37 + .21j)
    zz = singular(B, E, s0)
    if zz is None:
        ctx.count("zeros_undefined")
        return None
    ctx.count("zeros_judged")
    ctx.evals += 1
    bad = compare(ctx, "zero", Z, zz[0], zz[1], s0, lo, hi, cancel=1 / mu[live])
    if bad:
        return "pz-zeros", bad
    return None


def shrink(case):
    for f in cm.shrink_dict(case["faults"]):
        yield dict(case, faults=f)
    for o in cm.shrink_dict(case["opts"]):
        yield dict(case, opts=o)
    keep = [case["req"]["input"]] if case["req"]["input"] else []
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        if all(n in cm.nodes_of(c) + ["0"] for n in case["req"]["output"] or []):
            yield dict(case, circ=c)
