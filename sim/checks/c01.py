"""C01: a returned operating point solves the circuit, whatever the solver met."""
import numpy as np

from .. import circ as cm
from .. import ref, scen, seams, util
from ..util import Failed

TIERS = {"quick": {"runs": 1600, "wall": 60}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("random well-posed circuits (R, C, L, K, V, I, E, F, G, H, diodes, MOS, switches, user "
        "nonlinear elements) x options (tolerances, aids enabled, dense/sparse, iteration limits, "
        "guesses, start vectors) x solver faults at chosen calls; non-trivial = a fault fired or a "
        "nonlinear solve took place, distinct by circuit, options, faults fired and outcome")
REAL = "ahkab (Circuit API, op_analysis, run), numpy, scipy"
STUB = "numpy/scipy linear solvers pass through a seam that fails or damages chosen calls"
ASSUME = ["MOS device currents are taken from the device objects (device laws are N01)"]


def gen(rng, tier, h=True):
    kind = rng.choice(["lin", "lin", "lin", "dio", "dio", "mos", "user", "sw"])
    g = cm.Gen(rng, 1, 8 if tier == "quick" else 12)
    hi = rng.choice([1e9, 1e9, 1e12]) if rng.random() < .2 else 2e5
    g.backbone(50, hi)
    for _ in range(rng.randint(1, 3)):
        g.add(rng.choice("VVI"))
    pool = "RRCLEGF" + ("H" if h and rng.random() < .3 else "")
    for _ in range(rng.randint(0, 6)):
        g.add(rng.choice(pool), hi=hi)
    if rng.random() < .3:
        g.add("L"), g.add("L"), g.add("K")
    for e in g.els:
        if e[0] in "VI" and rng.random() < .3:
            e[6] = ["sin", e[4] + 1.0, 0.5, 1e3, 0.0, 0.0]
            if rng.random() < .5:
                e[6] = ["pulse", e[4], e[4] + 1.0, 0.0, 1e-6, 1e-3, 1e-6, 2e-3]
    if kind != "lin":
        for _ in range(rng.randint(1, 4)):
            g.add({"dio": "D", "mos": "M", "user": "N", "sw": "S"}[kind],
                  **({"rs": True, "area": rng.choice([None, None, 2.0])} if kind == "dio" else {}))
    cj = cm.guesses(rng, cm.shuffled(rng, g.out()))
    opts = {}
    if rng.random() < .4:
        opts["ver"], opts["vea"] = rng.choice([1e-6, 1e-5, 1e-4]), rng.choice([1e-9, 1e-8, 1e-6])
        opts["ier"], opts["iea"] = opts["ver"], rng.choice([1e-12, 1e-10, 1e-9])
    if rng.random() < .35:
        opts["dense_matrix_limit"] = rng.choice([0, 1, 3])
    aids = ["use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"]
    if rng.random() < .45:
        for k in rng.sample(aids, rng.randint(1, 2)):
            opts[k] = False
    opts["dc_max_nr_iter"] = rng.choice([400, 400, 400, 150, 100, 5, 2]) if kind != "lin" else 10000
    if rng.random() < .2:
        opts["nl_voltages_lock_factor"] = rng.choice([1, 2, 10])
    if rng.random() < .1:
        opts["nl_voltages_lock"] = False
    if rng.random() < .1:
        opts["nr_damp_first_iters"] = True
    if rng.random() < .15:
        opts["gmin"] = rng.choice([1e-9, 1e-15, 1e-12, 0.0])
    faults = {}
    r = rng.random()
    if r < .65:
        m = rng.randint(1, 3)
        for _ in range(m):
            at = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, rng.randint(0, 40)])
            ks = ["singular"] * 5 + ["nomem"]
            if kind != "lin":
                ks += ["wild", "nan", "inf"]
            faults[str(at)] = rng.choice(ks)
    elif r < .75:
        a = rng.randint(0, 3)                   # a burst
        for i in range(a, a + rng.randint(2, 12)):
            faults[str(i)] = "singular"
    dev = {}
    if kind == "user" and rng.random() < .5:    # the device's own evaluation overflows
        for _ in range(rng.randint(1, 2)):
            dev[str(rng.choice([0, 1, 2, 5, rng.randint(0, 60)]))] = "overflow"
    x0 = rng.choice([None, None, "rand", "huge"] + ["near"] * (kind in ("lin", "user")))
    if rng.random() < .12:
        opts["_verbose"] = rng.randint(1, 6)
    return {"circ": cj, "kind": kind, "opts": opts, "faults": faults, "x0": x0, "dev": dev,
            "x0seed": rng.randrange(10 ** 6), "guess": rng.choice([True, True, False, None]),
            "via": rng.choice(["run", "func"]), "seam_seed": rng.randrange(10 ** 9)}


def judge(ctx, case, cj, x, opts, what, again=None):
    """x: vector in reference order, claimed to be an operating point.

    again() tells whether the circuit can be solved from there without gmin:
    if so, a solution of the circuit with gmin in it is not one.
    """
    best, worst0 = None, np.nan
    for hs in (1.0, -1.0) if any(e[0] == "H" for e in cj["els"]) else (1.0,):
        s = ref.Sys(cj, hsign=hs)
        if not np.all(np.isfinite(x)):
            return ctx.fail("op-finite", "%s returned non-finite values" % what)
        for gm in (0.0, opts.get("gmin", 1e-12)):
            A = s.A + s.gmin(gm)
            xs, ok = s.newton(x, A=A)
            if not ok:
                continue
            lim = util.vtol(xs, s.nn, opts, 5.0) + 1e-11 * (1 + np.max(np.abs(xs))) + s.roundoff(xs)
            dev = np.abs(x - xs) / lim
            w = int(np.argmax(dev))
            if best is None or dev[w] < best[0]:
                best = (dev[w], s.names[w], x[w], xs[w], hs)
            if dev[w] <= 1 and gm and again is not None and again():
                return ctx.fail("op-truth", "%s: it is the solution with a conductance of %g at every node, "
                                "the circuit's own is %s away and can be computed from there"
                                % (what, gm, best and "%.3g x tolerance" % worst0))
            if gm == 0.0:
                worst0 = float(dev[w])
            if dev[w] <= 1:
                ctx.evals += 1
                if hs < 0:
                    ctx.fail("op-truth", "%s: matches only with V(n1)-V(n2) = -alpha*I for the CCVS" % what, key="ccvs-sign")
                return
    if best is None:
        # refinement got nowhere: judge by the equations themselves
        worst = None
        for hs in (1.0, -1.0) if any(e[0] == "H" for e in cj["els"]) else (1.0,):
            s = ref.Sys(cj, hsign=hs)
            f = s.residual(x)
            rel = np.max(np.abs(f) / (np.abs(s.A).dot(np.abs(x) + 1e-3) + np.abs(s.b0) + 1e-9))
            if rel <= 1e-2:
                ctx.evals += 1
                if hs < 0:
                    ctx.fail("op-truth", "%s: matches only with V(n1)-V(n2) = -alpha*I for the CCVS" % what, key="ccvs-sign")
                return
            worst = rel if worst is None else min(worst, rel)
        return ctx.fail("op-truth", "%s: equations violated, relative residual %.3g" % (what, worst))
    ctx.fail("op-truth", "%s: %s = %.10g but the circuit's solution nearby is %.10g (%.3g x tolerance)"
             % (what, best[1], best[2], best[3], best[0]))


def run(case, ctx):
    import ahkab
    from ahkab import dc_analysis
    cj, opts = case["circ"], case["opts"]
    s = ref.Sys(cj)
    lin = not s.nl
    if s.cond() > 1e12:
        ctx.count("skipped_ill_conditioned")
        return
    util.set_options(opts)
    dev = {int(k): v for k, v in case.get("dev", {}).items()}
    nev = [0]
    dfired = []

    def hook(el, v, t):
        i = nev[0]
        nev[0] += 1
        if i in dev:
            dfired.append((i, dev[i]))
            raise OverflowError("math range error (simulated, in the device)")
    c = cm.build(cj, hook=hook)
    rs = np.random.RandomState(case["x0seed"])
    x0 = None
    if case["x0"] in ("rand", "huge"):
        x0 = rs.uniform(-1, 1, (s.n, 1)) * (5.0 if case["x0"] == "rand" else 1e4)
    elif case["x0"] == "near":
        try:
            xs, ok = s.dc()
        except RuntimeError:          # EKV's own inner solver
            xs, ok = np.zeros(s.n), False
        # circuit's own variable order: nodes by internal number, then branches by element order
        nm = ["V%s" % c.int_node_to_ext(k) for k in range(1, c.get_nodes_number())]
        x0 = np.zeros((s.n, 1))
        m = {n: v for n, v in zip(s.names, xs)}
        for k, n in enumerate(nm):
            x0[k, 0] = m.get(n, 0.0)
        br = [e[1] for e in cj["els"] if cm.is_vdef(e)]
        for k, b in enumerate(br):
            x0[len(nm) + k, 0] = m["I(%s)" % b]
        x0 = x0 * (1 + 1e-3 * rs.uniform(-1, 1, x0.shape))
        if not np.all(np.isfinite(x0)):
            x0 = None
    x0c = None if x0 is None else x0.copy()
    with util.quiet() as (so, se):
        with seams.solver_faults(case["faults"], budget=60000) as sol:
            an = ahkab.new_op(x0=x0, guess=case["guess"])
            if case["via"] == "run":
                r = util.run1(c, an)
            else:
                r = util.attempt(dc_analysis.op_analysis, c, x0=x0, guess=bool(case["guess"]), verbose=0)
    fired = list(sol.fired)
    for i, k, n in fired:
        ctx.count("fault_solver_" + k)
    for i, k in dfired:
        ctx.count("fault_device_" + k)
    fired += [(i, k, "device") for i, k in dfired]
    ctx.count("solves", sol.calls)
    ctx.sig = [cj, sorted(opts.items()), fired, isinstance(r, Failed)]
    ctx.nontrivial = bool(fired) or not lin
    hard = [f for f in fired if f[1] in ("singular", "overflow", "nan", "inf") and f[2] != "inv"]
    soft = len(fired) > len(hard)
    aids = sum(opts.get(k, True) for k in ("use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"))
    if isinstance(r, Failed):
        ctx.count("op_reported_failure")
        ctx.record(r.why)
        ctx.count("failure_%s_%s" % ("undisturbed" if not fired else "disturbed", r.why.split(":")[0]))
        if r.exc is not None and not fired: ctx.notes.append(r.why)
        if soft:          # a failed allocation, a damaged guess or a wild step: failing is fine
            return
        if lin and len(hard) < max(aids, 1) and aids:
            ctx.fail("op-recovery", "%d of %d aids hit by a solver failure, yet no operating point (%s)"
                     % (len(hard), aids, r.why))
        elif case["kind"] in ("dio", "user") and len(hard) < aids and opts.get("dc_max_nr_iter", 10000) >= 100 and _each_aid_works(case, opts, x0c):
            ctx.fail("op-recovery", "%d of %d aids hit by a solver failure, every aid works alone, yet no "
                     "operating point (%s)" % (len(hard), aids, r.why))
        elif not fired and case["x0"] in (None, "near") and lin:
            ctx.fail("op-recovery", "no faults, linear solvable circuit, no operating point: %s" % r.why)
        return
    ctx.count("op_ok")
    if fired:
        ctx.count("op_ok_after_fault")
    x = util.op_vec(r, s)
    ctx.record(np.round(x, 12))

    def again():
        ctx.count("gmin_solution_questioned")
        if fired:
            return False
        util.set_options(dict(opts, gmin=0.0))
        xc = np.array(r.asarray()).reshape(-1, 1)
        with util.quiet():
            with seams.solver_faults({}, budget=60000):
                q = util.attempt(dc_analysis.op_analysis, cm.build(cj), x0=xc, guess=False, verbose=0)
        return not isinstance(q, Failed)
    judge(ctx, case, cj, x, opts, "op", again)
    report(ctx, cj, x, s, r)


def report(ctx, cj, x, s, r):
    """What is reported about the operating point belongs to it."""
    val = dict(zip(s.names, x))

    def volt(a, b):
        return (val["V" + a] if a != "0" else 0.0) - (val["V" + b] if b != "0" else 0.0)
    terms, want = [], {}
    for e in cj["els"]:
        k, v = e[0], volt(e[2], e[3]) if e[0] in "RCLVIEFGHD" else 0.0
        if k == "V":
            i = val["I(%s)" % e[1]]
            want[e[1]] = {"V": v, "I": i, "P": v * i}
            terms.append(v * i)
        elif k == "I":
            want[e[1]] = {"V": v, "I": e[4], "P": v * e[4]}
            terms.append(v * e[4])
        elif k in "EH":
            terms.append(v * val["I(%s)" % e[1]])
        elif k == "G":
            terms.append(v * e[6] * volt(e[4], e[5]))
        elif k == "F":
            terms.append(v * e[5] * val["I(%s)" % e[4]])
        elif k == "R":
            want[e[1]] = {"V": v, "I": v / e[4], "P": v * v / e[4]}
        elif k == "C":
            want[e[1]] = {"V": v, "Q": v * e[4], "E": .5 * e[4] * v * v}
        elif k == "L":
            i = val["I(%s)" % e[1]]
            want[e[1]] = {"\u03d5": i * e[4], "I": i, "E": .5 * e[4] * i * i}
    p = -sum(terms)
    lim = 1e-9 * sum(abs(t) for t in terms) + 1e-30
    got = getattr(r, "tot_power", None)
    if got is None or not abs(float(np.asarray(got).reshape(-1)[0]) - p) <= lim:
        return ctx.fail("op-report", "the sources deliver %.10g W at the operating point, a power dissipation of %s is reported"
                        % (p, got))
    b = scen.read(r.filename + "info") if isinstance(r.filename, str) else None
    if b is None:
        return
    t = b.decode("utf8", "replace")
    ctx.count("report_read")
    row, head = {}, []
    for line in t.split("ELEMENTS OP INFORMATION")[-1].split("\n"):
        w = line.split()
        if line.startswith("Part ID"):
            head = [c for c in line.split("  ") if c.strip()][1:]
        elif w and not line.startswith(("---", "===", "Total")) and len(w) == len(head) + 1:
            row[w[0].upper()] = dict(zip((h.strip()[0] if h.strip()[:1] != "R" else "R" for h in head), w[1:]))
    for n in want:
        if n.upper() not in row:
            return ctx.fail("op-report", "the report of the operating point has no line for %s" % n)
        for q, v in want[n].items():
            g = row[n.upper()].get(q)
            try:
                g = float(g)
            except (TypeError, ValueError):
                return ctx.fail("op-report", "the report of the operating point says %s = %r for %s" % (q, g, n))
            big = max(abs(z) for z in x)
            if abs(g - v) > 2e-5 * abs(v) + 1e-12 * big * (abs(v) if abs(v) > 1 else 1.0):
                return ctx.fail("op-report", "the report of the operating point says %s = %s for %s, at that point it is %.7g"
                                % (q, g, n, v))
    ctx.evals += 1


def _each_aid_works(case, opts, x0):
    """Would each enabled aid, alone and undisturbed, solve it? (same process, no faults)"""
    from ahkab import dc_analysis
    names = ["use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"]
    for a in names:
        if not opts.get(a, True):
            continue
        o = dict(opts)
        for b in names:
            o[b] = (b == a)
        util.set_options(o)
        c = cm.build(case["circ"])
        with util.quiet():
            with seams.solver_faults({}, budget=60000):
                r = util.attempt(dc_analysis.op_analysis, c, x0=None if x0 is None else x0.copy(),
                                 guess=bool(case["guess"]), verbose=0)
        if isinstance(r, Failed):
            return False
    return True


def shrink(case):
    for f in cm.shrink_dict(case["faults"]):
        yield dict(case, faults=f)
    for o in cm.shrink_dict(case["opts"]):
        yield dict(case, opts=o)
    if case["x0"]:
        yield dict(case, x0=None)
    for c in cm.shrink_circuit(case["circ"]):
        yield dict(case, circ=c)
