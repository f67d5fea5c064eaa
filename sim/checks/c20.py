"""C20: symbolic results are those of the circuit, whatever the hash order, formulation and failures of the solver."""
import numpy as np

from .. import circ as cm
from .. import core, ref, seams, util
from ..util import Failed

TIERS = {"quick": {"runs": 260, "wall": 75}, "thorough": {"runs": 26000, "wall": 3000}}
CASE_WALL = 60
SLOW_OK = True          # the algebra explodes with a few circuits: cut, and counted as such
RULE = ("random small circuits of all elements the symbolic analysis takes, any part of them numeric x source x substitutions x "
        "formulation, assumptions, AC or DC x hash order of the symbols x solver failures and interrupts on the way, followed by an "
        "undisturbed repetition; non-trivial = a fault fired or the hash order was changed; distinct by circuit, request and fault")
REAL = "ahkab (Circuit API, run, symbolic), sympy"
STUB = "sympy.solve passes through a seam that fails chosen calls; the hashes of symbols are salted per run, as another PYTHONHASHSEED would"
ASSUME = ["sympy solves the equations it is given correctly"]


def gen(rng, tier):
    g = cm.Gen(rng, 1, 3 if tier == "quick" else 4)
    g.backbone(50, 1e5)
    g.add(rng.choice("VVI"))
    kinds = list("RRGEFHCCLLKVIDM")
    for _ in range(rng.randint(1, 4 if tier == "quick" else 6)):
        t = rng.choice(kinds)
        if t == "K":
            g.add("L")
            g.add("L")
        g.add(t)
    cj = cm.shuffled(rng, g.out())
    els = cj["els"]
    if sum(e[0] in "CLK" for e in els) > (3 if tier == "quick" else 4):
        while sum(e[0] in "CLK" for e in els) > 3:
            k = [e for e in els if e[0] in "CKL"]
            k = [e for e in k if e[0] == "K"] or [e for e in k if e[0] != "K"]
            els.remove(k[0])
    most = 8 if tier == "quick" else 10
    for e in [e for e in els if e[0] in "GEFHLCRM"][::-1]:
        if len(els) > most and not any(e[1] in (x[2:] if x[0] == "K" else x[4:5]) for x in els):
            rest = dict(cj, els=[x for x in els if x is not e])
            if e[0] != "R" and set(cm.nodes_of(rest)) == set(cm.nodes_of(cj)):
                els.remove(e)
    req = {"source": None, "ac": rng.random() < .7, "r0s": rng.random() < .3, "subs": []}
    src = [e[1] for e in els if e[0] in "VI"]
    if rng.random() < .5:
        req["source"] = rng.choice(src)
        req["low"] = rng.random() < .2
    if rng.random() < .4:
        t = rng.choice("RRRCLGEVIFHDM")
        same = [e[1] for e in els if e[0] == t]
        if t == "D":
            same = ["g" + x for x in same]
        if t == "M":
            same = ["gm_" + x for x in same]
        if len(same) > 1:
            req["subs"].append(rng.sample(same, 2))
    numeric = [e[1] for e in els if rng.random() < .12 and e[0] not in "DM"]
    flt = None
    if rng.random() < .35:
        flt = {"at": rng.choice([0, 0, 1, 2, 3, rng.randint(2, 12)]), "k": rng.choice(["notimpl", "memory", "intr"])}
    return {"circ": cj, "req": req, "numeric": numeric, "gs": rng.random() < .3, "manual": rng.random() < .1, "fault": flt,
            "salt": rng.choice([0, rng.randrange(1, 10 ** 6)]), "val_seed": rng.randrange(10 ** 9), "plain": rng.random() < .1,
            "via": rng.choice(["run", "func"])}


class SymFaults(object):
    """The n-th call of sympy.solve fails; symbols' hashes are salted."""

    def __init__(self, fault, salt):
        self.fault, self.salt, self.n, self.fired = fault, salt, 0, []

    def __enter__(self):
        import sympy
        from sympy.core.cache import clear_cache
        self.solve, self.hc = sympy.solve, sympy.Symbol._hashable_content
        clear_cache()

        def solve(*a, **k):
            i = self.n
            self.n += 1
            if self.fault and i == self.fault["at"]:
                self.fired.append(self.fault["k"])
                what = self.fault["k"]
                if what == "notimpl":
                    raise NotImplementedError("no algorithms are implemented (simulated)")
                if what == "memory":
                    raise MemoryError("simulated")
                raise KeyboardInterrupt()
            return self.solve(*a, **k)
        sympy.solve = solve
        if self.salt:
            base, salt = self.hc, "h%d" % self.salt

            def content(sym):
                c = base(sym)
                return (c[0], salt if sym.name[:1].isupper() else "") + tuple(c[1:])
            sympy.Symbol._hashable_content = content
        return self

    def __exit__(self, *a):
        import sympy
        from sympy.core.cache import clear_cache
        sympy.solve, sympy.Symbol._hashable_content = self.solve, self.hc
        clear_cache()
        return False


def values(case):
    """Symbol name -> value; and the circuit those values describe, all of its elements linear."""
    import random
    rng = random.Random(case["val_seed"])
    cj, req = case["circ"], case["req"]
    val = {}
    els = []
    for e in cj["els"]:
        i, t = e[1].upper(), e[0]
        if t in "RCLEGFH":
            val[i] = e[-1] if t in "EGFHR" else e[4]
        elif t in "VI":
            val[i] = e[4]
        elif t == "D":
            val["G" + i] = cm.logu(rng, 1e-5, 1e-2)
        elif t == "M":
            val["GM_" + i] = cm.logu(rng, 1e-5, 1e-3)
            val["R0_" + i] = cm.logu(rng, 1e3, 1e6)
    L = {e[1]: e[4] for e in cj["els"] if e[0] == "L"}
    kid = {}
    for e in cj["els"]:
        if e[0] == "K":
            val[e[1].upper()] = kid[e[1]] = e[4] * np.sqrt(L[e[2]] * L[e[3]])
    num = {x.upper() for x in case["numeric"]}
    sub = {}
    for a, b in req["subs"]:
        sub[a.upper()] = b.upper()
    eff = {k: val[k] if k in num else val[sub.get(k, k)] for k in val}
    for e in cj["els"]:
        i, t = e[1].upper(), e[0]
        if t == "D":
            els.append(["R", e[1], e[2], e[3], 1 / eff["G" + i]])
        elif t == "M":
            d, gt, s = e[2:5]
            els.append(["G", "GM" + e[1], d, s, gt, s, eff["GM_" + i]])
            if req["r0s"]:
                els.append(["R", "R0" + e[1], d, s, eff["R0_" + i]])
        elif t in "EGFHR":
            els.append(e[:-1] + [eff[i]])
        elif t in "CLVI":
            els.append(e[:4] + [eff[i]] + e[5:])
        elif t == "K":
            Lv = {x[1]: eff[x[1].upper()] for x in cj["els"] if x[0] == "L"}
            els.append(e[:4] + [kid[e[1]] / np.sqrt(Lv[e[2]] * Lv[e[3]])])
    nodes = cm.nodes_of(cj)
    return val, {"els": els, "models": {}}, nodes


def run(case, ctx):
    import ahkab
    import sympy
    from ahkab import options, symbolic
    cj, req = case["circ"], case["req"]
    val, lin, nodes = values(case)
    if set(cm.nodes_of(lin)) != set(nodes):
        ctx.count("skipped_floating")
        return
    options.symb_formulate_with_gs = case["gs"]
    options.symb_sympy_manual_solver = case["manual"]
    saved = dict(symbolic.enabled_assumptions)
    if case["plain"]:
        symbolic.enabled_assumptions.update({k: False for k in saved})
    try:
        with util.quiet():
            c = cm.build(cj)
            for e in c:
                if e.part_id in case["numeric"]:
                    e.is_symbolic = False
            for k in (0, 1):
                f = case["fault"] if k == 0 else None
                if k and not case["fault"]:
                    break
                with SymFaults(f, case["salt"]) as st:
                    r = ask(case, ctx, c)
                    if st.fired:
                        ctx.count("fault_" + st.fired[0])
                    if k == 0:
                        ctx.sig = [cj, req, case["numeric"], case["gs"], case["fault"], bool(case["salt"])]
                        ctx.nontrivial = bool(st.fired) or bool(case["salt"])
                    bad = None
                    for hs in (1.0, -1.0) if any(e[0] == "H" for e in cj["els"]) else (1.0,):
                        b = judge(case, ctx, r, st, val, lin, nodes, hs, sympy)
                        if b is None:
                            if hs < 0:
                                ctx.fail("sym-truth", "matches only with V(n1)-V(n2) = -alpha*I for the CCVS", key="ccvs-sign-sym")
                            bad = None
                            break
                        bad = bad or b
                    if bad:
                        if k:
                            bad = (bad[0], "after a failed analysis: " + bad[1])
                        return ctx.fail(*bad)
    finally:
        symbolic.enabled_assumptions.update(saved)


def ask(case, ctx, c):
    import ahkab
    from ahkab import symbolic
    req = case["req"]
    src = req["source"]
    if src and req.get("low"):
        src = src.lower()
    kw = dict(source=src, ac_enable=req["ac"], r0s=req["r0s"], subs=dict(req["subs"]) or None)

    def f():
        try:
            if case["via"] == "run":
                return ahkab.run(c, ahkab.new_symbolic(outfile=ctx.path("sym"), **kw))["symbolic"]
            return symbolic.symbolic_analysis(c, verbose=0, **kw)
        except KeyboardInterrupt:
            return Failed("interrupted")
    return util.attempt(f)


def number(expr, sub, s, sympy):
    x = expr.subs({k: sympy.Float(repr(float(v)), 30) for k, v in sub.items()}) if sub else expr
    for q in list(x.free_symbols):
        if q.name == "s":
            x = x.subs(q, sympy.Float(s.real, 30) + sympy.I * sympy.Float(s.imag, 30))
    return complex(sympy.N(x, 20))


def judge(case, ctx, r, st, val, lin, nodes, hs, sympy):
    req, cj = case["req"], case["circ"]
    S = ref.Sys(lin, hsign=hs)
    w0 = 1e4
    rng = np.random.RandomState(case["val_seed"] % (2 ** 32))
    pts = [complex(*rng.normal(size=2)) * 10 ** rng.uniform(3, 6) for _ in range(2)] if req["ac"] else [0j]
    if isinstance(r, Failed):
        ctx.count("sym_failed")
        if st.fired:
            return None
        if S.cond() > 1e10 or bad_cond(S, pts):
            ctx.count("skipped_singular")
            return None
        return "sym-refused", "no fault, a well-posed circuit, yet: %s" % str(r.why)[:200]
    if not isinstance(r, tuple) or len(r) != 2:
        return "sym-shape", "the result is %s, not a pair" % type(r).__name__
    if bad_cond(S, pts):
        ctx.count("skipped_singular")
        return None
    sol, tfs = r
    ctx.count("sym_ok")
    want = ["V" + n for n in nodes] + ["I[%s]" % e[1].upper() for e in cj["els"] if cm.is_vdef(e)]
    lab = {"V" + n: i for n, i in S.ni.items()}
    lab.update({"I[%s]" % k.upper(): i for k, i in S.bi.items()})
    keys = {str(k).upper(): k for k in sol.keys()}
    if set(keys) != {w.upper() for w in want}:
        return "sym-variables", "the solution has %s instead of %s" % (sorted(keys), sorted(want))
    for p in pts:
        M = S.A + p * S.D
        x = np.linalg.solve(M.astype(complex), -S.b0.astype(complex))
        sc = scales(M, x, S)
        for w in want:
            ex = sol[keys[w.upper()]]
            u = [q.name for q in ex.free_symbols if q.name.upper() not in val and q.name != "s"]
            if u:
                return "sym-variables", "%s depends on %s" % (w, u)
            try:
                got = number(ex, {q: val[q.name.upper()] for q in ex.free_symbols if q.name != "s"}, p, sympy)
            except (TypeError, ValueError, ZeroDivisionError) as e:
                return "sym-truth", "%s cannot be evaluated: %s" % (w, e)
            ctx.evals += 1
            i = lab[w]
            if not abs(got - x[i]) <= 1e-6 * abs(x[i]) + 1e-9 * sc[i] + 1e-14:
                return "sym-truth", "%s is %.10g%+.10gj at s=%.5g%+.5gj, the circuit's is %.10g%+.10gj; it reads %s" % (
                    w, got.real, got.imag, p.real, p.imag, x[i].real, x[i].imag, str(ex)[:200])
    if not req["source"]:
        return None if tfs is None else ("sym-shape", "transfer functions though no source was named")
    if tfs is None:
        return "sym-shape", "no transfer functions though a source was named"
    name = req["source"].upper()
    # the symbol the source goes by after substitution; a numeric source has no transfer
    if name in [x.upper() for x in case["numeric"]] or any(name in (a.upper(), b.upper()) for a, b in req["subs"]):
        ctx.count("transfer_not_judged")
        return None
    tk = {str(k).upper(): k for k in tfs.keys()}
    if set(tk) != {(w + "/" + name).upper() for w in want}:
        return "sym-variables", "transfer functions %s instead of those of %s to %s" % (sorted(tk), sorted(want), name)
    e = [e for e in lin["els"] if e[1].upper() == name][0]
    db = np.zeros(S.n, complex)
    if e[0] == "V":
        db[S.bi[e[1]]] = -1
    else:
        for nd, sg in zip(e[2:4], (1, -1)):
            if nd != cm.GND:
                db[S.ni[nd]] += sg
    dc_ok = not bad_cond(S, [0j])
    for w in want:
        t = tfs[tk[(w + "/" + name).upper()]]
        i = lab[w]
        for p, ex in [(q, t["gain"]) for q in pts] + [(0j, t["gain0"])] * dc_ok:
            M = (S.A + p * S.D).astype(complex)
            h = np.linalg.solve(M, -db)
            sc = scales(M, h, S)
            ex = sympy.sympify(ex)
            try:
                got = number(ex, {q: val[q.name.upper()] for q in ex.free_symbols if q.name != "s"}, p, sympy)
            except (TypeError, ValueError, KeyError) as err:
                return "sym-gain", "%s/%s cannot be evaluated: %s" % (w, name, err)
            ctx.evals += 1
            if not abs(got - h[i]) <= 1e-6 * abs(h[i]) + 1e-9 * sc[i] + 1e-14:
                return "sym-gain", "%s/%s is %.10g%+.10gj at s=%.5g%+.5gj, the circuit's is %.10g%+.10gj; it reads %s" % (
                    w, name, got.real, got.imag, p.real, p.imag, h[i].real, h[i].imag, str(ex)[:200])
        try:
            bad = roots(case, ctx, t, val, sympy, w)
        except Exception as e:
            if type(e).__name__ != "NoConvergence":
                raise
            ctx.count("roots_not_judged")
            bad = None
        if bad:
            return bad
    return None


def roots(case, ctx, t, val, sympy, w):
    """Poles and zeros listed against the roots of the (verified) gain."""
    g = sympy.sympify(t["gain"])
    sub = {q: sympy.Rational(repr(float(val[q.name.upper()]))) for q in g.free_symbols if q.name != "s"}
    s = [q for q in g.free_symbols if q.name == "s"]
    if not s:
        if t["poles"] or t["zeros"]:
            return "sym-roots", "poles or zeros of %s, which does not depend on s" % w
        return None
    s = s[0]
    n, d = sympy.fraction(sympy.cancel(sympy.nsimplify(g.subs(sub), rational=True)))
    for what, poly in (("poles", d), ("zeros", n)):
        full = sympy.Poly(poly, s)
        true = [complex(z) for z in np.atleast_1d(polyroots(full))]
        got = []
        for z in t[what]:
            z = sympy.sympify(z)
            u = [q for q in z.free_symbols if q.name.upper() not in val]
            if u:
                return "sym-roots", "the %s of %s depend on %s" % (what, w, u)
            got.append(complex(sympy.N(z.subs({q: sympy.Rational(repr(float(val[q.name.upper()]))) for q in z.free_symbols}), 40)))
        sc = max([abs(z) for z in true] + [1e-9])
        for z in true:
            if not any(abs(z - y) <= 1e-4 * abs(z) + 1e-9 * sc for y in got):
                return "sym-roots", "%s of %s: %s is not among %s" % (what, w, z, got[:6])
        # those that cancel in the gain may be listed
        raw = sympy.fraction(g)[0 if what == "zeros" else 1].subs(sub)
        raw = [complex(z) for z in np.atleast_1d(polyroots(sympy.Poly(raw, s)))] if raw.has(s) else []
        for y in got:
            if not any(abs(z - y) <= 1e-4 * abs(z) + 1e-9 * sc for z in true + raw):
                return "sym-roots", "%s of %s: %s is none of %s" % (what, w, y, true[:6])
        ctx.evals += 1
    return None


def polyroots(p):
    import sympy
    if p.degree() < 1:
        return np.array([])
    p = sympy.Poly(sympy.nsimplify(p.as_expr(), rational=True), p.gen).sqf_part()
    return np.array([complex(z) for z in p.nroots(n=30, maxsteps=500)])


def scales(M, x, S):
    """The size of the terms that make up each unknown."""
    Mi = np.abs(np.linalg.inv(M))
    return Mi.dot(np.abs(M)).dot(np.abs(x))


def bad_cond(S, pts):
    for p in pts:
        M = S.A + p * S.D
        r = np.abs(M).max(axis=1, keepdims=True)
        if not np.all(r > 0):
            return True
        M = M / r
        c = np.abs(M).max(axis=0, keepdims=True)
        if not np.all(c > 0) or np.linalg.cond(M / c) > 1e9:
            return True
    return False


def shrink(case):
    if case["fault"]:
        yield dict(case, fault=None)
    for k, v in (("salt", 0), ("gs", False), ("manual", False), ("plain", False), ("numeric", [])):
        if case[k] != v:
            yield dict(case, **{k: v})
    if case["req"]["subs"]:
        yield dict(case, req=dict(case["req"], subs=[]))
    if case["req"]["source"]:
        yield dict(case, req=dict(case["req"], source=None))
    keep = [x for x in [case["req"]["source"]] if x] + [y for x in case["req"]["subs"] for y in x]
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        yield dict(case, circ=c)
