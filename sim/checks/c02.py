"""C02: a DC sweep reports exactly the requested points, and leaves the source alone."""
import os

import numpy as np

from .. import circ as cm
from .. import ref, seams, util
from ..util import Failed

TIERS = {"quick": {"runs": 1400, "wall": 70}, "thorough": {"runs": 40000, "wall": 3000}}
RULE = ("random circuits (linear, diode, user elements) x swept V or I source x lin/log grids (also grids whose "
        "step ratio rounds badly, descending, steps that do not divide) x solver faults aimed at chosen sweep points "
        "x aborts (interrupt at a solve or at an executed line, failed allocation) x skip allowed or not; "
        "non-trivial = a fault fired or more than 2 points were solved; distinct by circuit, grid, faults and outcome")
REAL = "ahkab (Circuit API, dc_analysis, op_analysis, results, files), numpy, scipy"
STUB = "numpy/scipy linear solvers pass through a seam that fails chosen calls; interrupts are raised by a line tracer"
ASSUME = ["points of nonlinear circuits that fail are accepted when the same solve fails again by itself"]

# (start, stop, points): grids whose rounded ratio is not a whole number
ODD = [(0, 1, 50), (-5, 5, 62), (0, 10, 78), (0, 1, 99), (0, 1, 104), (0.1, 3.3, 98), (0.3, 0.9, 7), (0, 0.7, 8)]


def gen(rng, tier):
    kind = rng.choice(["lin", "lin", "lin", "dio", "user"])
    g = cm.Gen(rng, 1, 6)
    g.backbone(50, 1e5)
    for _ in range(rng.randint(1, 2)):
        g.add(rng.choice("VI"))
    src = g.add(rng.choice("VI"))
    for _ in range(rng.randint(0, 4)):
        g.add(rng.choice("RRCLEGF"))
    for e in g.els:
        if e[0] in "VI" and rng.random() < .25:
            e[6] = ["sin", e[4] + 1.0, 0.5, 1e3, 0.0, 0.0]
    if kind == "dio":
        for _ in range(rng.randint(1, 3)):
            g.add("D", bv=False)
    if kind == "user":
        for _ in range(rng.randint(1, 2)):
            g.add("N")
    if src is None:
        src = [e for e in g.els if e[0] in "VI"][0] if any(e[0] in "VI" for e in g.els) else g.add("I")
    if rng.random() < .9:              # rarely: a node named as the digits of the swept source
        for e in g.els:
            for k in range(2, 2 + cm.NPINS[e[0]]):
                if e[k].isdigit() and e[k] != cm.GND:
                    e[k] = "n" + e[k]
    cj = cm.shuffled(rng, g.out())
    isv = src[0] == "V"
    sc = 1.0 if isv else 1e-3
    if kind != "lin":
        sc *= rng.choice([.1, .3, 1.0])
    log = rng.random() < .25
    pts = rng.choice([2, 3, 4, 5, 7, 9, 12]) if kind == "lin" else rng.choice([2, 3, 4, 6])
    step = None
    if log:
        a, b = sorted([cm.logu(rng, .01, 10), cm.logu(rng, .01, 10)])
        if a == b:
            b = 2 * a
        a, b = a * sc, b * sc
    elif rng.random() < .25:
        a, b, pts = rng.choice(ODD)
        a, b = a * sc, b * sc
    elif rng.random() < .2:            # a step as a netlist gives it
        a = cm.nice(rng, -3, 3) * sc
        n = rng.randint(1, 6)
        step = rng.choice([.1, .25, .3, .7]) * sc * rng.choice([1, -1])
        b = a + step * (n + rng.choice([0, 0, .5, .3]))
    else:
        a, b = cm.nice(rng, -8, 8) * sc, cm.nice(rng, -8, 8) * sc
        if a == b:
            b = a + sc
    opts = {}
    if rng.random() < .3:
        opts["dc_sweep_skip_allowed"] = False
    if rng.random() < .3:
        opts["dense_matrix_limit"] = 0
    if rng.random() < .35:
        for k in rng.sample(["use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"], rng.randint(1, 2)):
            opts[k] = False
    if kind != "lin":
        opts["dc_max_nr_iter"] = rng.choice([200, 200, 100])
    # faults by (sweep value index, solve within that value)
    fl = []
    r = rng.random()
    npt = pts if step is None else 6
    if r < .6:
        for _ in range(rng.randint(1, 3)):
            pt = rng.choice([0, 0, 1, npt - 1, rng.randrange(npt)])
            n0 = rng.choice([0, 0, 0, 1, 2])
            burst = rng.choice([1, 2, 3, 60, 200])
            k = rng.choice(["singular"] * 7 + ["nomem", "intr"])
            fl.append([pt, n0, burst if k == "singular" else 1, k])
    line = None
    if r > .75 and pts <= 12 and len(cj["els"]) < 12:
        line = rng.random()
    if rng.random() < .12:
        opts["_verbose"] = rng.randint(1, 6)
    return {"circ": cj, "src": src[1], "kind": kind, "start": a, "stop": b, "points": pts, "step": step,
            "log": log, "opts": opts, "faults": fl, "line": line, "guess": rng.random() < .7,
            "case": rng.choice(["as", "lower", "upper"]), "named": rng.random() < .4,
            "via": rng.choice(["run", "run", "func"]), "again": rng.random() < .5, "seam_seed": rng.randrange(10 ** 9)}


def grid(case):
    a, b = float(case["start"]), float(case["stop"])
    if case["step"] is not None:
        n = int(np.floor(abs((b - a) / case["step"]) * (1 + 1e-7) + 1e-9)) + 1
        return np.array([a + case["step"] * i for i in range(n)])
    n = case["points"]
    if case["log"]:
        return np.exp(np.linspace(np.log(a), np.log(b), n))
    return np.linspace(a, b, n)


def sweep(case, c, out):
    import ahkab
    from ahkab import dc_analysis
    src = {"as": case["src"], "lower": case["src"].lower(), "upper": case["src"].upper()}[case["case"]]
    an = ahkab.new_dc(case["start"], case["stop"], case["points"], src, sweep_type="LOG" if case["log"] else "LINEAR",
                      guess=case["guess"], outfile=out)
    if case["step"] is not None:
        an["step"] = case["step"]
    if case["via"] == "func":
        an = dict(an)
        an.pop("type")
        return util.attempt(dc_analysis.dc_analysis, c, **an)
    return util.run1(c, an)


def judge(ctx, case, r, s, seen, what, lost=None):
    """The rows of r against the grid and the circuit. lost(i, prev): may point i be missing?"""
    g = grid(case)
    label = case["src"][0].upper() + case["src"].lower()[1:]
    xs = np.asarray(r.get_x(), dtype=float).reshape(-1)
    if not any(k.upper() == label.upper() for k in r.keys()):
        return ctx.fail("sweep-axis", "%s: swept variable %s not in %s" % (what, label, list(r.keys())))
    span = max(abs(g[0]), abs(g[-1]))
    got, j = [], 0
    if len(xs) == 0:
        return ctx.fail("sweep-empty", "%s: a successful sweep without rows" % what)
    for v in xs:
        while j < len(g) and abs(g[j] - v) > 1e-8 * span:
            j += 1
        if j == len(g):
            return ctx.fail("sweep-points", "%s: rows at %s, requested %s" % (what, xs.tolist()[:12] + xs.tolist()[-2:], g.tolist()[:12]))
        got.append(j)
        j += 1
    rows = np.array([np.asarray(r[n], dtype=float).reshape(-1) for n in s.names])
    hidden = [k for k, n in enumerate(s.names) if n.upper() == label.upper()]
    if rows.shape[1] != len(xs):
        return ctx.fail("sweep-shape", "%s: %d values on the axis, %d rows" % (what, len(xs), rows.shape[1]))
    for k, jj in enumerate(got):
        x = rows[:, k]
        o = ref.Sys(case["circ"], override={case["src"]: float(g[jj])}, dev_circ=None)
        best = None
        for gm in (0.0, 1e-12):
            z, ok = o.newton(x, A=o.A + o.gmin(gm))
            if not ok:
                continue
            lim = util.vtol(z, o.nn, case["opts"], 5.0) + 1e-10 * (1 + np.max(np.abs(z)))
            dd = np.abs(x - z) / lim
            if hidden and dd[hidden[0]] > 1 and abs(x[hidden[0]] - xs[k]) < 1e-9 * span:
                # the swept source and a node share a name: the node voltage cannot be read
                ctx.fail("sweep-row", "%s: %s is the swept value, the voltage of node %s is lost"
                         % (what, label, s.nodes[hidden[0]]), key="sweep-label-collision")
                dd[hidden[0]] = 0.0
            d = np.max(dd)
            if best is None or d < best:
                best = d
        if best is None and hidden:
            continue
        if best is None:
            f = o.residual(x)
            best = np.max(np.abs(f) / (np.abs(o.A).dot(np.abs(x)) + np.abs(o.b0) + 1e-9)) / 1e-2
        ctx.evals += 1
        if not best <= 1:
            return ctx.fail("sweep-row", "%s: the row at %s=%.6g is not that circuit's operating point (%.3g x tolerance)"
                            % (what, case["src"], g[jj], best))
    missing = [i for i in range(len(g)) if i not in got]
    if missing and not case["opts"].get("dc_sweep_skip_allowed", True):
        return ctx.fail("sweep-skip", "%s: skipping is disabled, yet rows %s are missing from a successful sweep" % (what, missing))
    for i in missing:
        prev = rows[:, got.index(i - 1)] if (i - 1) in got else None
        why = lost(i, prev)
        if why:
            return ctx.fail("sweep-lost", "%s: no row for value %d (%.6g): %s" % (what, i, g[i], why))
        ctx.count("rows_skipped")
    return None


def run(case, ctx):
    s = ref.Sys(case["circ"])
    lin = not s.nl
    if s.cond() > 1e11:
        ctx.count("skipped_ill_conditioned")
        return
    if not lin:
        for v in grid(case):
            z, ok = ref.Sys(case["circ"], override={case["src"]: float(v)}).dc()
            if not ok or np.max(np.abs(z)) > 50:
                ctx.count("skipped_overdriven")
                return
    util.set_options(case["opts"])
    c = cm.build(case["circ"])
    el = [e for e in c if e.part_id == case["src"]][0]
    orig = el.dc_value
    g = grid(case)
    span = max(abs(g[0]), abs(g[-1]))
    cur = {"i": None, "n": 0}
    per = {}
    actual = {}
    fired = []
    plan = {}
    for pt, n0, burst, k in case["faults"]:
        for m in range(n0, n0 + burst):
            plan[(pt, m)] = k

    def where(name, *_):
        d = np.abs(g - float(el.dc_value))
        i = int(np.argmin(d)) if np.min(d) <= 1e-8 * span else None
        if i != cur["i"]:
            cur["i"], cur["n"] = i, 0
        n = cur["n"]
        cur["n"] += 1
        per.setdefault(i, []).append(None)
        actual[i] = float(el.dc_value)
        k = plan.get((i, n))
        if k:
            fired.append((i, n, k))
            per[i][-1] = k
            seams._solve_fault(k, name)
    aids = sum(case["opts"].get(k, True) for k in ("use_standard_solve_method", "use_gmin_stepping", "use_source_stepping"))

    def lost(i, prev):
        hits = [k for k in per.get(i, []) if k]
        if len(hits) >= aids:
            return None
        if lin:
            return "%d of %d convergence aids were hit by a solver failure" % (len(hits), aids)
        if hits:
            return None
        from ahkab import dc_analysis
        c2 = cm.build(case["circ"])
        [e for e in c2 if e.part_id == case["src"]][0].dc_value = actual.get(i, float(g[i]))
        sv = seams.solver.where
        seams.solver.where = None
        try:
            with util.quiet():
                x0 = None
                if prev is not None:
                    x0 = rearrange(s, c2, case["circ"], prev)
                r2 = util.attempt(dc_analysis.op_analysis, c2, x0=x0, guess=case["guess"], verbose=0)
        finally:
            seams.solver.where = sv
        return None if isinstance(r2, Failed) else "nothing failed there and the value is solvable by itself"
    out = "out" if case["named"] else None
    intr = False
    total = None
    if case["line"] is not None:
        with util.quiet(), seams.solver_faults({}, budget=200000):
            seams.trace_on()
            r0 = sweep(case, c, out and "dry")
            total = seams.trace_off()
        if el.dc_value != orig:
            return ctx.fail("source-restored", "dry run: dc_value is %r, was %r" % (el.dc_value, orig))
    with util.quiet():
        with seams.solver_faults({}, budget=200000) as sol:
            sol.where = where
            try:
                if total:
                    seams.trace_on(at=int(case["line"] * total))
                r = sweep(case, c, out)
            except KeyboardInterrupt as e:
                intr = True
                r = Failed("KeyboardInterrupt", None)
            finally:
                if total:
                    seams.trace_off()
                sol.where = None
    lf = seams.lines.fired_at if total else None
    for i, n, k in fired:
        ctx.count("fault_solver_" + k)
    if lf:
        ctx.count("fault_interrupt_at_line")
        ctx.count("interrupt_site_%s" % lf[1])
    ctx.count("sweep_%s" % ("failed" if isinstance(r, Failed) else "ok"))
    ctx.sig = [case["circ"], [case["start"], case["stop"], case["points"], case["step"]], fired, lf, isinstance(r, Failed)]
    ctx.nontrivial = bool(fired or lf) or len(g) > 2
    if el.dc_value != orig or type(el.dc_value) is not type(orig):
        ctx.fail("source-restored", "after the sweep (%s) dc_value of %s is %r, was %r; fired %s %s"
                 % (r, case["src"], el.dc_value, orig, fired[:3], lf))
    want_intr = bool(lf) or (fired and fired[-1][2] == "intr")
    if want_intr and not intr:
        ctx.fail("interrupt-lost", "an interrupt at %s did not reach the caller" % (lf or fired[-1],))
    if intr and not want_intr:
        ctx.fail("interrupt-invented", "KeyboardInterrupt without an interrupt")
    if not isinstance(r, Failed):
        if any(k == "nomem" for _, _, k in fired):
            pass                      # allowed only if everything below holds
        judge(ctx, case, r, s, per, "sweep", lost)
        ctx.record(np.asarray(r.get_x()))
        if case["named"]:
            check_file(ctx, r, "out.dc")
    else:
        ctx.record(r.why)
        if not fired and not lf and lin:
            ctx.fail("sweep-progress", "undisturbed sweep of a linear circuit failed: %s" % r.why)
        if lin and fired and not want_intr and all(k == "singular" for _, _, k in fired):
            bad = [i for i in per if len([k for k in per[i] if k]) >= aids]
            if not bad or (case["opts"].get("dc_sweep_skip_allowed", True) and len(bad) < len(g)):
                ctx.fail("sweep-progress", "only points %s could fail, yet the whole sweep did (%s)" % (bad, r.why))
    if case["again"] and not ctx.viol:
        del fired[:]
        per.clear()
        with util.quiet():
            r = sweep(case, c, out)
        if isinstance(r, Failed):
            if lin:
                ctx.fail("sweep-progress", "sweep repeated without faults failed: %s" % r.why)
        else:
            judge(ctx, case, r, s, per, "repeated sweep", lost)
        if el.dc_value != orig:
            ctx.fail("source-restored", "after repeating: %r, was %r" % (el.dc_value, orig))


def rearrange(s, c, cj, x):
    """x in reference order -> the circuit's own variable order (column)."""
    m = dict(zip(s.names, x))
    v = [m["V%s" % c.int_node_to_ext(k)] for k in range(1, c.get_nodes_number())]
    v += [m["I(%s)" % e[1]] for e in cj["els"] if cm.is_vdef(e)]
    return np.array(v).reshape(-1, 1)


def check_file(ctx, r, fn):
    if not os.path.exists(fn):
        return ctx.fail("sweep-file", "no file %s" % fn)
    with seams.real["open"](fn) as fp:
        lines = fp.read().split("\n")
    n = len([x for x in lines[1:] if x.strip()])
    if n != len(np.asarray(r.get_x()).reshape(-1)):
        ctx.fail("sweep-file", "%d rows in the file, %d in the result" % (n, len(r.get_x())))


def shrink(case):
    for i in range(len(case["faults"])):
        yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    for o in cm.shrink_dict(case["opts"]):
        yield dict(case, opts=o)
    for k in ("named", "again"):
        if case[k]:
            yield dict(case, **{k: False})
    if case["points"] > 2 and case["step"] is None:
        yield dict(case, points=2)
        yield dict(case, points=case["points"] - 1)
    for c in cm.shrink_circuit(case["circ"], keep=(case["src"],)):
        yield dict(case, circ=c)
    if case["line"] is not None:
        yield dict(case, line=None)
