"""C09: result objects return what was computed, however they are accessed."""
import os

import numpy as np

from .. import circ as cm
from .. import scen, seams, util

TIERS = {"quick": {"runs": 900, "wall": 90}, "thorough": {"runs": 60000, "wall": 3000}}
RULE = ("random circuits x one or two analyses of every kind x random histories of accessor calls, including several "
        "iterations in progress at once and abandoned ones, arbitrary read sizes and transient read errors in between; "
        "every answer is compared with a table parsed independently from the result file; distinct by circuit, requests, history")
REAL = "ahkab (run, all analyses, results, csvlib), numpy, scipy, sympy, a real file system"
STUB = "raw file descriptors pass through the disk seam, which splits reads and fails chosen ones"
ASSUME = ["the result file (or, for symbolic and pole-zero results, the first plain reading) is what was computed"]

ACC = ["item", "item", "get", "getdef", "values", "items", "keys", "array", "x", "missing", "missget", "in", "notin", "len",
       "str", "iter_all", "iter_new", "iter_next", "iter_next", "iter_next", "iter_next", "nested", "zip"]


def gen(rng, tier):
    cj = scen.gen_circ(rng, kind=rng.choice(["lin", "lin", "lin", "dio", "user"]), nmax=3)
    ans = []
    types = ["tran", "dc", "ac", "op", "op", "pss", "pz", "pz"]
    if cj["kind"] != "lin":
        types = types[:6]
    if rng.random() < .06 and cj["kind"] == "lin":
        cj = {"els": [["V", "V1", "in", "0", 1.0, 1.0, None], ["R", "R1", "in", "out", 1000.0],
                      rng.choice([["C", "C1", "out", "0", 1e-9, None], ["R", "R2", "out", "0", 500.0]])], "T": 1e-6, "kind": "lin"}
        ans.append({"type": "symbolic", "source": rng.choice([None, "V1"]), "ac_enable": True, "named": rng.random() < .5})
    for i in range(rng.choice([1, 1, 2])):
        an = scen.gen_an(rng, cj, types)
        if an["type"] in [a["type"] for a in ans]:
            continue
        if an.get("x0") == "op":
            an["x0"] = None
        if an["type"] == "tran":
            an["use_step_control"] = False
        if an["type"] == "pz" and rng.random() < .5:
            an["input_source"] = None
        if an["type"] == "dc" and an["source"].upper() in ["V" + n.upper() for n in cm.nodes_of(cj)]:
            continue                 # two columns of one name: recorded under C02
        an["named"] = rng.random() < .5
        ans.append(an)
    if rng.random() < .05:
        cj = {"els": [["I", "I1", "a", "0", .001, 1.0, None], ["R", "R1", "a", "0", 1000.0]], "T": 1e-6, "kind": "lin"}
        ans = [{"type": "op", "guess": True, "named": False},
               {"type": "dc", "source": "I1", "start": 0.0, "stop": .01, "points": 3, "sweep_type": "LIN", "guess": False, "named": True}]
    if not ans:
        ans = [{"type": "op", "guess": True, "named": False}]
    acc = [[rng.randrange(10 ** 6), rng.choice(ACC)] for _ in range(rng.randint(3, 25))]
    faults = {}
    if rng.random() < .2:
        faults = {str(rng.randrange(0, 60)): {"k": rng.choice(["eio", "short", "emfile"]), "frac": .3} for _ in range(rng.randint(1, 4))}
    return {"circ": cj, "ans": ans, "acc": acc, "faults": faults, "chunk": rng.choice([None, None, 3]), "deg": rng.random() < .4,
            "cwd": rng.random() < .2, "seam_seed": rng.randrange(10 ** 9)}


def table(r, deg):
    """The result as an independent reader sees it: [(name, values)] or None."""
    b = scen.read(r.filename)
    lines = b.decode("ascii").strip("\n").split("\n")
    head = lines[0].lstrip("#").strip("\r\n ").split("\t")
    M = [[float(x) for x in ln.split("\t")] for ln in lines[1:]]
    cols = {h: np.array([row[i] for row in M]) for i, h in enumerate(head)}
    if r.sol_type != "AC":
        return [(h, cols[h]) for h in head]
    out = [(head[0], cols[head[0]])]
    for h in head[1:]:
        if h.startswith("|") and h.endswith("|"):
            ph = cols["arg(%s)" % h[1:-1]]
            out.append((h[1:-1], cols[h] * np.exp(1j * (np.deg2rad(ph) if deg else ph))))
    return out


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-13 * np.abs(b)))


class Res(object):
    """A result and its model."""

    def __init__(self, r, deg):
        self.r = r
        self.st = r.sol_type
        self.plain = self.st in ("Symbolic", "PZ")
        if self.st == "PZ":
            z = [("p%d" % i, p) for i, p in enumerate(r.poles)] + [("z%d" % i, p) for i, p in enumerate(r.zeros)]
            self.tab = z
        elif self.st == "Symbolic":
            self.tab = [(k, r.results[k]) for k in r.results.keys()]
        else:
            self.tab = table(r, deg)
        self.names = [n for n, _ in self.tab]
        self.its = []

    def same(self, got, want):
        if self.st == "Symbolic":
            return got == want
        if self.st == "PZ":
            return close(np.asarray(got).reshape(-1), np.asarray(want).reshape(-1))
        return close(np.asarray(got).reshape(-1), want)

    def pair(self, p, i):
        return isinstance(p, tuple) and len(p) == 2 and str(p[0]) == self.names[i] and self.same(p[1], self.tab[i][1])

    def pairs(self, ps):
        return len(ps) == len(self.tab) and all(self.pair(p, i) for i, p in enumerate(ps))


def vary(nm, pick):
    return [nm, nm.upper(), nm.lower(), nm.swapcase()][pick % 4]


def step(o, what, pick, ctx):
    """One access; returns None or what was wrong."""
    r, T, N = o.r, o.tab, o.names
    if not N and what in ("item", "get", "getdef", "in", "x"):
        return None
    i = pick // 11 % len(N) if N else 0
    nm = vary(N[i], pick) if N else ""
    if what == "item":
        v = r[nm]
        if not o.same(v, T[i][1]):
            return "[%r] is %s, computed %s" % (nm, v, T[i][1])
    elif what in ("get", "getdef"):
        v = r.get(nm) if what == "get" else r.get(nm, "default")
        if v is None or isinstance(v, str) or not o.same(v, T[i][1]):
            return "get(%r) is %s, computed %s" % (nm, v, T[i][1])
    elif what == "values":
        vs = r.values()
        if isinstance(vs, (float, complex)) or len(list(vs)) != len(T):
            return "values() returns %r for %d variables" % (vs, len(T))
        for (n, w), v in zip(T, list(r.values())):
            if not o.same(v, w):
                return "values(): %s for %s, computed %s" % (v, n, w)
    elif what == "items":
        ps = list(r.items())
        if not o.pairs([(p[0], p[1]) for p in ps]):
            return "items() returned %s, computed %s" % (str(ps)[:300], str(T)[:300])
    elif what == "keys":
        ks = [str(k) for k in r.keys()]
        if ks != N:
            return "keys() %s, computed %s" % (ks, N)
    elif what == "array":
        if o.plain:
            return None
        a = np.asarray(r.asarray())
        w = np.array([v for _, v in T])
        if o.st == "OP":
            w = w.reshape(-1, 1)
        if not close(a, w):
            return "asarray() has shape %s and differs from the computed %s" % (a.shape, w.shape)
    elif what == "x":
        if o.plain or o.st == "OP":
            return None
        if not close(np.asarray(r.get_x()), np.real(T[0][1])):
            return "get_x() is %s, computed %s" % (r.get_x(), T[0][1])
    elif what in ("missing", "missget", "notin"):
        bad = ["nope", "", N[0] + "x" if N else "q", "V", "I(none)", "arg(V1)", " ", "#" + N[0] if N else "#", N[-1][:-1] if N else "z"][pick % 9]
        if bad.upper() in [x.upper() for x in N]:
            return None
        if what == "missing":
            try:
                v = r[bad]
            except KeyError:
                return None
            return "[%r] did not raise KeyError but returned %s" % (bad, v)
        if what == "missget":
            d = object()
            if r.get(bad) is not None or r.get(bad, d) is not d:
                return "get(%r, default) returned something else than the default" % bad
        elif bad in r or r.has_key(bad):
            return "%r is said to be in the results" % bad
    elif what == "in":
        if nm not in r or not r.has_key(nm):
            return "%r is said not to be in the results" % nm
    elif what == "len":
        if o.st != "PZ" and len(r) != len(T) or o.st == "PZ" and len(r) != len(T):
            return "len() is %d, %d were computed" % (len(r), len(T))
    elif what == "str":
        str(r)
    elif what == "iter_all":
        ps = list(iter(r))
        if not o.pairs(ps):
            return "iteration gives %s, computed %s" % (str(ps)[:300], str(T)[:300])
    elif what == "iter_new":
        if len(o.its) < 4:
            o.its.append([iter(r), 0])
    elif what == "iter_next":
        if not o.its:
            return None
        it = o.its[pick % len(o.its)]
        try:
            p = next(it[0])
        except StopIteration:
            if it[1] < len(T):
                return "an iteration ended after %d of %d variables" % (it[1], len(T))
            o.its.remove(it)
            return None
        if it[1] >= len(T) or not o.pair(p, it[1]):
            return "step %d of an iteration gave %s, computed %s" % (it[1], str(p)[:200], str(T[it[1]] if it[1] < len(T) else "the end")[:200])
        it[1] += 1
    elif what == "nested":
        seen = []
        for p in r:
            inner = []
            for q in r:
                inner.append(q)
                if len(inner) > 3 * len(T) + 3:
                    return "an inner iteration does not end"
            if not o.pairs(inner):
                return "a nested iteration gives %s, computed %s" % (str(inner)[:200], str(T)[:200])
            seen.append(p)
            if len(seen) > len(T) + 2:
                return "an outer iteration does not end"
        if not o.pairs(seen):
            return "an iteration with another one inside it gives %s, computed %s" % (str(seen)[:300], str(T)[:300])
    elif what == "zip":
        a = list(zip(r, r))
        if not o.pairs([p for p, _ in a]) or not o.pairs([q for _, q in a]):
            return "two simultaneous iterations give %s, computed %s" % (str(a)[:300], str(T)[:300])
    return None


def run(case, ctx):
    import ahkab
    from ahkab import options
    options.ac_phase_in_deg = case["deg"]
    c = cm.build(case["circ"])
    np.random.seed(3)
    with util.quiet():
        r = util.attempt(ahkab.run, c, [scen.make(a, ("o%d" % i) if a["named"] else None) for i, a in enumerate(case["ans"])])
    ctx.sig = [case["circ"], case["ans"], case["acc"], case["deg"]]
    if isinstance(r, util.Failed) or any(v is None for v in r.values()):
        ctx.count("skipped_analysis_failed")
        return
    options.ac_phase_in_deg = not case["deg"] if case["cwd"] else case["deg"]
    objs = []
    for k in sorted(r):
        for v in (r[k] if isinstance(r[k], tuple) else (r[k],)):      # symbolic: solution and transfer functions
            if v is not None:
                objs.append(Res(v, case["deg"]))
    for o in objs:
        ctx.record(o.names)
        if not o.plain:
            ctx.record([v.tobytes() for _, v in o.tab])
        ctx.count("results_" + o.st)
    with seams.disk_faults(case["faults"], chunk_seed=case["chunk"]) as dk:
        for k, (pick, what) in enumerate(case["acc"]):
            o = objs[pick % len(objs)]
            n0 = len(dk.fired)
            try:
                with util.quiet():
                    w = step(o, what, pick, ctx)
            except OSError as e:
                if len(dk.fired) > n0:
                    ctx.count("read_error_reported")
                    continue
                w = "%s: %s" % (type(e).__name__, e)
            except Exception as e:
                w = "%s: %s" % (type(e).__name__, e)
            ctx.evals += 1
            ctx.count("access_" + what)
            if w:
                return ctx.fail("access", "%s %s (access %d of the history): %s" % (o.st, what, k, w))
    for f in dk.fired:
        ctx.count("fault_disk_" + f[1])
    ctx.nontrivial = True


def shrink(case):
    for k in cm.shrink_list(case["acc"]):
        yield dict(case, acc=k)
    if len(case["ans"]) > 1:
        for a in cm.shrink_list(case["ans"]):
            if a:
                yield dict(case, ans=a)
    if case["faults"]:
        for f in cm.shrink_dict(case["faults"]):
            yield dict(case, faults=f)
    for k, v in (("chunk", None), ("deg", False), ("cwd", False)):
        if case[k] != v:
            yield dict(case, **{k: v})
    keep = [a[q] for a in case["ans"] for q in ("source", "input_source") if a.get(q)]
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        if all(a.get("output_port") is None or a["output_port"][0] in cm.nodes_of(c) for a in case["ans"]):
            yield dict(case, circ=c)
