"""C10: results depend only on circuit, request and settings, not on what ran before."""
import copy
import gc
import os

import numpy as np

from .. import circ as cm
from .. import core, decks, scen, seams, util

TIERS = {"quick": {"runs": 420, "wall": 100}, "thorough": {"runs": 30000, "wall": 3000}}
RULE = ("random histories over 1-3 circuits (linear, diode, MOS, switch, user element): request lists run, queued or called "
        "directly, re-run and shared between circuits, with solver faults, device failures and interrupts in between, "
        "temperature and option changes, element edits, netlist decks, rebuilt circuits; every undisturbed run is compared "
        "with the same run as the first thing in a fresh process; distinct by history")
REAL = "ahkab (run, queue, main, all analyses, models, result files, netlist parser), numpy, scipy, a real file system"
STUB = "numpy/scipy solvers pass through a seam that fails chosen calls; interrupts are raised at chosen executed lines"
ASSUME = ["the state of a freshly forked process that only imported ahkab is that of a fresh process",
          "the temperature of a circuit is the one set when each of its elements was built together with the one set when it is run"]

OPTS = [{"vea": 1e-9, "ver": 1e-7}, {"vea": 1e-6, "ver": 1e-3, "iea": 1e-9, "ier": 1e-3}, {"iea": 1e-6}, {"iea": 1e-13},
        {"gmin": 1e-9}, {"nl_voltages_lock": False}, {"use_gmin_stepping": False}, {"use_source_stepping": False},
        {"dense_matrix_limit": 0}, {"cache_len": 3}, {"nr_damp_first_iters": True}, {"transient_prediction_as_x0": False},
        {"dc_max_nr_iter": 8}, {"dc_sweep_skip_allowed": False}, {"cmin": 1e-15}, {"transient_max_nr_iter": 6},
        {"transient_use_aposteriori_step_control": False}]
BASE = {"vea": 1e-8, "ver": 1e-6, "iea": 1e-11, "ier": 1e-6}


def gen(rng, tier):
    circs = []
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.choice(["lin", "dio", "dio", "user", "mos", "sw"])
        cj = scen.gen_circ(rng, kind=k, nmax=3)
        if cj["kind"] == "dio":
            for m in cj.get("models", {}).values():
                if rng.random() < .5:
                    m[1]["RS"] = cm.logu(rng, 1, 500)
                    if rng.random() < .6:
                        m[1]["TRS"] = cm.logu(rng, 2e-4, 1e-2)
                if rng.random() < .3:
                    m[1]["TBV"] = 1e-3
            ds = [e for e in cj["els"] if e[0] == "D"]
            if len(ds) > 1 and rng.random() < .6:
                for e in ds:
                    e[4] = ds[0][4]              # one model shared by several diodes
        if cj["kind"] == "sw" and rng.random() < .3:
            for m in cj["models"].values():
                m[1]["VH"] = .3
        circs.append(cj)
    if len(circs) > 1 and rng.random() < .3:
        circs[1] = copy.deepcopy(circs[0])
        r = [e for e in circs[1]["els"] if e[0] == "R"]
        r[0][4] *= 3
    reqs = []
    for i in range(rng.randint(2, 5)):
        ci = rng.randrange(len(circs))
        cj = circs[ci]
        an = scen.gen_an(rng, cj, ["op", "op", "dc", "tran", "tran", "ac", "pss"] + (["pz", "symbolic"] if cj["kind"] == "lin" else []))
        if an["type"] == "symbolic" and (cj["kind"] != "lin" or len(cj["els"]) > 5):
            an = {"type": "op", "guess": True}
        if an["type"] == "tran" and cj["kind"] != "lin":
            an["use_step_control"] = False
        if an["type"] == "pss" and cj["kind"] != "lin":
            an = {"type": "op", "guess": False}
        if rng.random() < .3 and an["type"] in ("op", "dc", "tran"):
            an["xv"] = rng.randrange(10 ** 6)
        an["out"] = rng.choice([None, None, None, "n0", "n1"])
        reqs.append([ci, an])
    ops = []
    for ci, cj in enumerate(circs):
        ds = [e for e in cj["els"] if e[0] == "D"]
        if len(ds) > 1 and rng.random() < .3:    # diodes of one model at different temperatures
            ops.append(["dtemp", ci, rng.choice(ds)[1], rng.choice([280.0, 330.0, 350.0])])
    for i in range(rng.randint(3, 9)):
        k = rng.choice(["run"] * 6 + ["faulty"] * 3 + ["queue", "direct", "temp", "opt", "opt", "edit", "rebuild", "deck", "dtemp", "grow"])
        ci = rng.randrange(len(circs))
        mine = [q for q in range(len(reqs)) if reqs[q][0] == ci]
        if k in ("run", "faulty", "queue"):
            if not mine:
                continue
            lst = []
            for q in rng.sample(mine, rng.randint(1, min(3, len(mine)))):
                if reqs[q][1]["type"] not in [reqs[p][1]["type"] for p in lst]:
                    lst.append(q)
            op = [k, ci, lst]
            if k == "faulty":
                f = rng.choice(["solve", "solve", "intr", "intr", "dev", "solve_intr"])
                if f == "solve":
                    n = rng.randint(1, 4)
                    op.append(["solve", {str(rng.randrange(0, 60)): rng.choice(["singular", "overflow", "nomem", "nan", "wild", "inf"]) for _ in range(n)}])
                elif f == "solve_intr":
                    op.append(["solve", {str(rng.randrange(0, 40)): "intr"}])
                elif f == "intr":
                    op.append(["intr", int(cm.logu(rng, 20, 60000))])
                else:
                    op.append(["dev", rng.randrange(0, 80)])
            ops.append(op)
        elif k == "direct":
            ops.append(["direct", ci, rng.choice(["op", "ac", "tran"]), rng.randrange(10 ** 6)])
        elif k == "temp":
            ops.append(["temp", rng.choice([-20.0, 0.0, 26.85, 50.0, 85.0])])
        elif k == "dtemp":
            ds = [e[1] for e in circs[ci]["els"] if e[0] == "D"]
            if ds:
                ops.append(["dtemp", ci, rng.choice(ds), rng.choice([280.0, 300.0, 330.0, 350.0])])
        elif k == "opt":
            ops.append(["opt", rng.choice(OPTS + [{}, {}])])
        elif k == "edit":
            es = [e for e in circs[ci]["els"] if e[0] == "R"]
            e = rng.choice(es)
            ops.append(["edit", ci, e[1], cm.logu(rng, 100, 2e4)])
        elif k == "grow":
            # the user goes on building a circuit that was simulated already
            kinds = [reqs[q][1]["type"] for q in mine]
            if "symbolic" in kinds:
                continue
            nl = not ({"pz", "pss"} & set(kinds))
            e = grown(rng, circs[ci], i, nl)
            for q in mine:
                if reqs[q][1]["type"] == "tran" and e[0] in "ND":
                    reqs[q][1]["use_step_control"] = False
            ops.append(["grow", ci, e])
            ops.append(["run", ci, [rng.choice(mine)]] if mine else ["direct", ci, "op", rng.randrange(10 ** 6)])
        elif k == "rebuild":
            ops.append(["rebuild", ci])
        elif k == "deck":
            cj = circs[ci]
            if all(decks.can(e) for e in cj["els"]):
                ans = [scen.gen_an(rng, cj, ["op"])]
                a2 = scen.gen_an(rng, cj, ["dc", "tran", "ac"])
                if a2.get("sweep_type") == "LOG" and a2["type"] == "dc":
                    a2 = scen.gen_an(rng, cj, ["tran"])
                ops.append(["deck", ci, ans + [a2]])
    ops.append(["run", reqs[0][0], [0]])
    if  rng.random() < .5 and ops[0][0] in ("run", "queue"):
        ops.append(["run", ops[0][1], ops[0][2]])
    return {"circs": circs, "reqs": reqs, "ops": ops, "seam_seed": rng.randrange(10 ** 9)}


def grown(rng, cj, i, nl):
    nodes = cm.nodes_of(cj)
    a = rng.choice(nodes)
    b = rng.choice([n for n in nodes if n != a] + ["0"])
    k = rng.choice(["R", "R", "C"] + (["N", "N", "D", "D"] if nl else []))
    if k == "R":
        return ["R", "R9%d" % i, a, b, cm.logu(rng, 500, 2e4)]
    if k == "C":
        return ["C", "C9%d" % i, a, b, cm.logu(rng, 1e-10, 1e-8), None]
    if k == "N":
        return ["N", "YG%d" % i, a, b, "tanh", [1e-3, .5, 1e-4]]
    return ["D", "D9%d" % i, a, b, "gm%d" % i, 1.0]


def grow(c, e, hook=None):
    if e[0] == "D":
        # never straight across a source
        c.add_model("diode", e[4], {"IS": 1e-14, "N": 1.2})
        cm.add_elem(c, ["R", e[1].replace("D", "R8"), e[2], "x" + e[4], 1e3])
        e = e[:2] + ["x" + e[4]] + e[3:]
    cm.add_elem(c, e, hook)


def x0_for(c, cj, seed):
    """A start vector assembled with the library's own helper."""
    import random
    import ahkab
    r = random.Random(seed)
    ic = {"V(%s)" % n: round(r.uniform(-2, 2), 3) for n in cm.nodes_of(cj) if r.random() < .7}
    return ahkab.new_x0(c, ic)


def build(cj, hook, edits, dtemps, wrap=None, more=()):
    c = cm.build(cj, hook=hook, fnwrap=wrap)
    for e in more:
        grow(c, e, hook)
    apply_edits(c, edits, dtemps)
    return c


def apply_edits(c, edits, dtemps):
    for e in c:
        if e.part_id in edits:
            e.value = edits[e.part_id]
        if e.part_id in dtemps:
            e.set_temperature(dtemps[e.part_id])


def request(c, cj, an, qi):
    d = scen.make(an, an["out"])
    if an.get("xv") is not None:
        d["x0"] = x0_for(c, cj, an["xv"])
        if "guess" in d:
            d["guess"] = False
    return d


def direct(c, cj, what, seed, x0=None):
    import random
    import ahkab
    from ahkab import ac, dc_analysis, transient
    r = random.Random(seed)
    if x0 is None:
        x0 = x0_for(c, cj, seed)
    T = cj["T"]
    if what == "op":
        return dc_analysis.op_analysis(c, x0=x0, guess=False, outfile=None, verbose=0)
    if what == "ac":
        return ac.ac_analysis(c, start=.1 / T, points=5, stop=9 / T, sweep_type="LOG", x0=x0, outfile=os.path.abspath("direct%d.ac" % seed), verbose=0)
    return transient.transient_analysis(c, 0.0, T / 10, T / 2, r.choice(["TRAP", "IMPLICIT_EULER"]), use_step_control=False, x0=x0,
                                        outfile=os.path.abspath("direct%d.tran" % seed), verbose=0)


def snaps(r):
    if isinstance(r, util.Failed):
        return r
    out = {}
    for t, v in r.items():
        if t == "symbolic" and v is not None:
            out[t] = {"type": "Symbolic", "data": [("r", sym(v))]}
        else:
            out[t] = scen.snap(v)
        if t == "op" and v is not None:
            out["op-info"] = {"type": "text", "data": [("info", info(v))]}
    return out


def info(r):
    """What the report of an operating point says below its header."""
    b = scen.read(r.filename + "info")
    return None if b is None else b.decode("utf8", "replace").split("RESULTS:", 1)[-1]


def sym(v):
    a, tf = v
    s = repr(sorted((str(k), str(a[str(k)])) for k in a.keys()))
    if tf:
        s += repr(sorted((str(k), sorted((str(i), str(j)) for i, j in tf[str(k)].items())) for k in tf.keys()))
    return s


def failing(n):
    """A source of device failures: the n-th evaluation of any device raises."""
    st = {"i": 0, "at": None}

    def hook(*a):
        if st["at"] is not None:
            if st["i"] == st["at"]:
                st["i"] += 1
                raise ZeroDivisionError("device")
            st["i"] += 1
    st["hook"] = hook

    def wrap(e, f):
        class Fn(object):
            _type, __str__ = getattr(f, "_type", "V"), f.__str__

            def __call__(self, t):
                hook()
                return f(t)

            def __deepcopy__(self, memo):
                return self
        return Fn()
    st["wrap"] = wrap
    return st


def plain(req):
    return {k: (v.copy() if isinstance(v, np.ndarray) else copy.copy(v)) for k, v in req.items()}


def req_same(a, b):
    if set(a) != set(b):
        return "keys %s / %s" % (sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and np.array_equal(x, y)):
                return k
        elif x != y:
            return "%s: %r / %r" % (k, x, y)
    return None


def state(c):
    """The circuit as its user sees it."""
    lines = str(c).split("\n")
    vals = []
    for e in c:
        for k in ("value", "dc_value", "ac_value", "ic", "alpha", "n1", "n2", "part_id"):
            if hasattr(e, k):
                vals.append((e.part_id, k, repr(getattr(e, k))))
    sw = tuple(x for x in lines if x[:1] in "sS")
    return tuple(x for x in lines if x[:1] not in "sS"), sw, tuple(vals), tuple(sorted(str(n) for n in c.nodes_dict.keys()))


def run(case, ctx):
    import ahkab
    from ahkab import options
    base_options = defaults()
    util.set_options(BASE)
    circs, reqs = case["circs"], case["reqs"]
    ops = [o for o in case["ops"]]
    hyst = [any(m[0] == "sw" and m[1].get("VH") for m in cj.get("models", {}).values()) for cj in circs]

    # ---- what each undisturbed run gives as the first thing in a fresh process
    T0 = 26.85
    temp, opt = None, {}
    tb = {}
    edits = {i: {} for i in range(len(circs))}
    dt = {i: {} for i in range(len(circs))}
    gr = {i: [] for i in range(len(circs))}
    refs = []
    used = set()
    for k, op in enumerate(ops):
        ref = None
        if op[0] == "temp":
            temp = op[1]
        elif op[0] == "opt":
            opt = op[1]
        elif op[0] == "rebuild":
            tb[op[1]] = temp
            gr[op[1]] = [(e, temp) for e, _ in gr[op[1]]]
        elif op[0] == "edit":
            tb.setdefault(op[1], temp)
            edits[op[1]][op[2]] = op[3]
        elif op[0] == "grow":
            tb.setdefault(op[1], temp)
            gr[op[1]].append((op[2], temp))
        elif op[0] == "dtemp":
            tb.setdefault(op[1], temp)
            dt[op[1]][op[2]] = op[3]
        elif op[0] in ("run", "queue", "faulty", "direct"):
            tb.setdefault(op[1], temp)
        if op[0] in ("run", "queue", "direct", "deck"):
            spec = (op, opt, tb.get(op[1]), temp, dict(edits[op[1]]), dict(dt[op[1]]), list(gr[op[1]]))

            def fresh(spec=spec):
                op, opt, t_b, t, ed, dts, more = spec
                util.set_options(dict(BASE, **opt))
                cj = circs[op[1]]
                with util.quiet(), seams.solver_faults({}, budget=2500):
                    if op[0] == "deck":
                        if t is not None:
                            ahkab.set_temperature(t)
                        return snaps(util.attempt(ahkab.main, deckfile(cj, op[2]), "fresh", 0))
                    if t_b is not None:
                        ahkab.set_temperature(t_b)
                    c = cm.build(cj)
                    for e, t_e in more:
                        if t_e is not None:
                            ahkab.set_temperature(t_e)
                        grow(c, e)
                    apply_edits(c, ed, dts)
                    if t is not None:
                        ahkab.set_temperature(t)
                    if op[0] == "direct":
                        r = util.attempt(direct, c, cj, op[2], op[3])
                        return snaps({"x": None if isinstance(r, util.Failed) else r})
                    return snaps(util.attempt(ahkab.run, c, [request(c, cj, reqs[q][1], q) for q in op[2]]))
            d = ctx.path("f%d" % len(refs))
            os.mkdir(d)

            def bounded():
                try:
                    return fresh()
                except core.Budget:
                    return "long"
            code, ref = scen.in_child(bounded, d)
            if ref == "long":
                ctx.count("skipped_long")
                ops = ops[:k]
                break
            if code != 0:
                return ctx.fail("run", "a fresh run ended with status %s" % code)
        refs.append(ref)

    # ---- the history, in one process
    os.mkdir(ctx.path("h"))
    os.chdir(ctx.path("h"))
    C, fail = {}, {}
    R = {}
    handed = []           # (result objects, snapshot, named files)
    temp, opt = None, {}
    ed = {i: {} for i in range(len(circs))}
    dts = {i: {} for i in range(len(circs))}
    gr = {i: [] for i in range(len(circs))}

    def get(ci):
        if ci not in C:
            fail[ci] = failing(0)
            C[ci] = build(circs[ci], fail[ci]["hook"], ed[ci], dts[ci], fail[ci]["wrap"], gr[ci])
        return C[ci]

    def req(ci, q):
        if q not in R:
            R[q] = request(get(ci), circs[ci], reqs[q][1], q)
        return R[q]

    for k, (op, ref) in enumerate(zip(ops, refs)):
        kind = op[0]
        ci = op[1] if kind not in ("temp", "opt") else None
        if kind == "temp":
            ahkab.set_temperature(op[1])
            continue
        if kind == "opt":
            util.set_options(base_options)
            util.set_options(dict(BASE, **op[1]))
            opt = op[1]
            continue
        if kind == "edit":
            ed[ci][op[2]] = op[3]
            apply_edits(get(ci), {op[2]: op[3]}, {})
            continue
        if kind == "grow":
            with util.quiet():
                grow(get(ci), op[2], fail[ci]["hook"])
            gr[ci].append(op[2])
            for q in list(R):
                if reqs[q][0] == ci:
                    R.pop(q)                     # start vectors of another size
            ctx.count("circuit_extended")
            continue
        if kind == "dtemp":
            dts[ci][op[2]] = op[3]
            apply_edits(get(ci), {}, {op[2]: op[3]})
            continue
        if kind == "rebuild":
            C.pop(ci, None)
            gc.collect()
            get(ci)
            continue
        c = get(ci) if kind != "deck" else None
        cj = circs[ci]
        if kind in ("run", "queue", "faulty"):
            for q in op[2]:
                req(ci, q)
        before = {i: state(C[i]) for i in C}
        rq = {q: plain(R[q]) for q in R}
        ob = util.options_snapshot()
        named = set()
        xv = None
        with util.quiet():
            if kind == "deck":
                r = util.attempt(ahkab.main, deckfile(cj, op[2]), "d%d" % k, 0)
            elif kind == "direct":
                x0 = x0_for(c, cj, op[3])
                keep = x0.copy()
                r = util.attempt(direct, c, cj, op[2], op[3], x0)
                r = {"x": None if isinstance(r, util.Failed) else r}
                named = {"direct%d.%s" % (op[3], op[2])}
                if not np.array_equal(keep, x0):
                    return ctx.fail("x0-changed", "the start vector handed to %s was changed by the analysis" % op[2])
            else:
                lst = [R[q] for q in op[2]]
                named = {reqs[q][1]["out"] + scen.ext(reqs[q][1]) for q in op[2] if reqs[q][1]["out"]}
                if kind == "queue":
                    ahkab.queue(*lst)
                    r = util.attempt(ahkab.run, c)
                elif kind == "run":
                    r = util.attempt(ahkab.run, c, lst)
                else:
                    r = faulty(c, lst, op[3], fail[ci], ctx)
        # nothing but results changes
        for i in before:
            now = state(C[i])
            for w, (a, b) in enumerate(zip(before[i], now)):
                if a != b:
                    d = [x for x in zip(a, b) if x[0] != x[1]][:2]
                    ctx.fail("circuit-changed", "after %s the circuit differs: %s" % (op, d), "switch-state" if w == 1 else None)
                    if w != 1:
                        return
        for q in rq:
            d = req_same(rq[q], R[q])
            if d:
                return ctx.fail("request-changed", "after %s request %s differs in %s" % (op, reqs[q][1], d))
        oa = util.options_snapshot()
        if oa != ob:
            return ctx.fail("options-changed", "after %s options differ: %s" % (op, [(x, ob.get(x), oa[x]) for x in oa if oa[x] != ob.get(x)]))
        # results handed out before are what they were
        for hr, hs, files in handed:
            if files & named:
                continue
            ctx.evals += 1
            now = snaps(hr)
            for t in hs:
                d = scen.same(hs[t], now[t])
                if d:
                    return ctx.fail("old-result-changed", "after %s an earlier %s result reads differently: %s" % (op, t, d))
        handed = [h for h in handed if not (h[2] & named)]
        if kind == "faulty":
            if not isinstance(r, (util.Failed, dict)):
                ctx.count("faulty_interrupted")
            if isinstance(r, dict):
                try:
                    handed.append((r, snaps(r), named))
                except Exception:
                    return ctx.fail("read", "a result of %s cannot be read" % op)
            continue
        ctx.nontrivial = ctx.nontrivial or k > 0
        got = snaps(r)
        ctx.evals += 1
        key = "switch-state" if hyst[ci] else None
        if isinstance(ref, util.Failed) or isinstance(got, util.Failed):
            if isinstance(ref, util.Failed) and isinstance(got, util.Failed):
                ctx.count("fails_in_both")
                if kind == "queue":
                    break
                continue
            return ctx.fail("differs", "%s: %s in this process, %s in a fresh one" % (op, brief(got), brief(ref)), key)
        if set(got) != set(ref):
            return ctx.fail("differs", "%s: results %s, fresh %s" % (op, sorted(got), sorted(ref)), key)
        for t in sorted(ref):
            tol = dict(rtol=1e-6 if t == "pz" else 1e-9, atol=1e-18) if cj["kind"] == "lin" and not any(e[0] in "ND" for e in gr[ci]) else dict(rtol=50 * ver(opt), atol=50 * vea(opt))
            if t == "op-info" and (scen.same(got["op"], ref["op"]) or cj["kind"] == "sw"):
                continue        # the report of other digits; the state of switches
            d = scen.same(got[t], ref[t], **tol)
            if d:
                return ctx.fail("differs", "%s: %s differs from the fresh process: %s" % (op, t, d), key)
            ctx.count("identical" if scen.same(got[t], ref[t]) is None else "equal_within_tolerance")
            if t == "tran" and got[t]:
                ctx.sim_time += cj["T"]
        ctx.record(repr([(t, str(got[t])[:300]) for t in sorted(got)]))
        if kind != "direct" or True:
            handed.append((r, got, named if kind != "deck" else set()))
    ctx.sig = [circs, ops, [a for _, a in reqs]]


def ver(o):
    return o.get("ver", BASE["ver"])


def vea(o):
    return o.get("vea", BASE["vea"])


def brief(x):
    return repr(x)[:200] if isinstance(x, util.Failed) else "results"


def defaults():
    from ahkab import options
    return {k: getattr(options, k) for o in OPTS for k in o if hasattr(options, k)}


def deckfile(cj, ans):
    p = os.path.abspath("deck%d.ckt" % (len(str(cj)) % 7))
    with seams.real["open"](p, "w") as fp:
        fp.write("\n".join(decks.deck(cj, ans)) + "\n")
    return p


def faulty(c, lst, f, fl, ctx):
    import ahkab
    if f[0] == "solve":
        with seams.solver_faults(f[1], budget=2500) as s:
            try:
                r = util.attempt(ahkab.run, c, lst)
            except (KeyboardInterrupt, core.Budget):
                r = None
            for q in s.fired:
                ctx.count("fault_solver_%s" % (q[1] if isinstance(q, (tuple, list)) else q))
        return r
    if f[0] == "dev":
        fl["at"], fl["i"] = f[1], 0
        r = None
        try:
            with seams.solver_faults({}, budget=2500):
                r = util.attempt(ahkab.run, c, lst)
        except core.Budget:
            pass
        finally:
            if fl["i"] > f[1]:
                ctx.count("fault_device_exception")
            fl["at"] = None
        return r
    seams.trace_on(at=f[1])
    try:
        with seams.solver_faults({}, budget=2500):
            r = util.attempt(ahkab.run, c, lst)
    except core.Budget:
        r = None
    except KeyboardInterrupt:
        r = None
        ctx.count("fault_interrupt")
    finally:
        seams.trace_off()
    return r


def shrink(case):
    for o in cm.shrink_list(case["ops"]):
        if o:
            yield dict(case, ops=o)
    for i, o in enumerate(case["ops"]):
        if o[0] in ("run", "queue", "faulty") and len(o[2]) > 1:
            for l in cm.shrink_list(o[2]):
                if l:
                    yield dict(case, ops=case["ops"][:i] + [[o[0], o[1], l] + o[3:]] + case["ops"][i + 1:])
    for i, cj in enumerate(case["circs"]):
        keep = [a["source"] for c, a in case["reqs"] if c == i and a.get("source")] + [o[2] for o in case["ops"] if o[0] in ("edit", "dtemp") and o[1] == i]
        keep += [a["input_source"] for c, a in case["reqs"] if c == i and a.get("input_source")]
        for c in cm.shrink_circuit(cj, keep=keep):
            yield dict(case, circs=case["circs"][:i] + [c] + case["circs"][i + 1:])
