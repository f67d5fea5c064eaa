"""C12: an interrupt at any instant leaves the simulator usable and the circuit intact."""
import copy
import os

import numpy as np

from .. import circ as cm
from .. import core, decks, scen, seams, util
from . import c10

TIERS = {"quick": {"runs": 420, "wall": 100}, "thorough": {"runs": 30000, "wall": 3000}}
RULE = ("random circuits and request lists (or netlist decks), interrupted one to eight times: at a code line chosen uniformly "
        "among the distinct lines a first run executes, or among those of a function that changes objects, and a random passage through it, at a chosen linear solve, or at a "
        "chosen file operation; afterwards everything is inspected and a later run is compared with one in a fresh process; "
        "distinct by circuit, requests and interrupted line")
REAL = "ahkab (run, main, all analyses, models, result files, netlist parser), numpy, scipy, a real file system"
STUB = "the interrupt is raised by the simulator at the chosen line, solve or file operation, as the signal handler would"
ASSUME = ["the interrupt does not fall into the clean-up code itself (finally bodies, re-raising handlers, context exits)",
          "the state of a freshly forked process that only imported ahkab is that of a fresh process"]


def gen(rng, tier):
    k = rng.choice(["lin", "lin", "dio", "dio", "dio", "user", "mos", "sw"])
    cj = scen.gen_circ(rng, kind=k, nmax=3)
    if k == "dio":
        for m in cj.get("models", {}).values():
            if rng.random() < .4:
                m[1]["RS"] = cm.logu(rng, 1, 500)
                m[1]["TRS"] = cm.logu(rng, 2e-4, 1e-2)
            if rng.random() < .3:
                m[1]["TBV"] = 1e-3
    ans = []
    for i in range(rng.randint(1, 3)):
        types = ["op", "dc", "dc", "tran", "ac", "pss"] + (["pz", "symbolic"] if k == "lin" else [])
        an = scen.gen_an(rng, cj, [rng.choice(types)])
        if an["type"] == "symbolic" and len(cj["els"]) > 5:
            an = {"type": "op", "guess": True}
        if an["type"] in [a["type"] for a in ans]:
            continue
        if an["type"] == "tran" and k != "lin":
            an["use_step_control"] = rng.random() < .2
            an["x0"] = "op"
        if an["type"] == "pss" and k != "lin":
            an = {"type": "op", "guess": False}
        if rng.random() < .3:
            an["verbose"] = rng.choice([3, 4, 5])
        an["out"] = rng.choice([None, "n"])
        ans.append(an)
    # the one that is needed for "op" comes first
    ans.sort(key=lambda a: a["type"] != "op")
    later = [{"type": "op", "guess": True, "out": None}] if rng.random() < .4 else [dict(a, verbose=0) for a in ans]
    case = {"circ": cj, "ans": ans, "later": later, "temp": rng.choice([None, None, None, 0.0, 50.0, 85.0]), "dtemp": {}, "opt": {}, "hits": []}
    if k == "dio" and rng.random() < .4:
        for e in cj["els"]:
            if e[0] == "D" and rng.random() < .7:
                case["dtemp"][e[1]] = rng.choice([280.0, 320.0, 350.0])
    if rng.random() < .3:
        case["opt"] = rng.choice([{"dense_matrix_limit": 0}, {"nl_voltages_lock": False}, {"transient_prediction_as_x0": False},
                                  {"use_standard_solve_method": False}, {"cache_len": 2}])
    case["deck"] = rng.random() < .2 and all(decks.can(e) for e in cj["els"]) and not case["dtemp"]
    if case["deck"]:
        case["ans"] = [a for a in ans if a["type"] in ("op", "tran", "ac") or (a["type"] == "dc" and a["sweep_type"] == "LIN")] or [{"type": "op", "guess": True, "out": None}]
    case["wrong"] = rng.random() < .1
    if case["wrong"] and rng.random() < .5:
        case["ans"], case["deck"] = [{"type": "op", "guess": True, "out": None}], False
    for i in range(rng.choice([1, 2, 4, 6, 8])):
        case["hits"].append(rng.choice([["line", rng.random(), rng.random()]] * 4 + [["hot", rng.random(), rng.random()]] * 4 + [["solve", rng.random()], ["disk", rng.random()]]))
    return case


class Stop(object):
    """Line hook: counts passages per line, interrupts at a given one."""

    def __init__(self, target=None, occ=0):
        self.target, self.occ, self.n, self.pending, self.at = target, occ, 0, False, None
        self.sites, self.hot = {}, {}

    def __call__(self, frame):
        k = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
        if self.target is None:
            if k not in self.sites and frame.f_lineno in seams.hot_lines(frame.f_code.co_filename):
                self.hot[k] = frame.f_code.co_name
            self.sites[k] = self.sites.get(k, 0) + 1
            return
        if k == self.target:
            if self.n == self.occ:
                self.pending = True
            self.n += 1
        if self.pending and not seams.in_cleanup(frame):
            self.pending = False
            self.at = k
            raise KeyboardInterrupt()


def groups(w):
    """The lines of each executed function that changes objects."""
    g = {}
    for k, n in sorted(w.sites.items()):
        if k in w.hot:
            g.setdefault((k[0], w.hot[k]), []).append((k, n))
    return [g[k] for k in sorted(g)]


def reqs(c, cj, ans):
    out = []
    for a in ans:
        b = dict(a)
        v = b.pop("verbose", 0)
        d = scen.make(b, a["out"])
        d["verbose"] = v
        out.append(d)
    return out


def wrong(case, l):
    """A request that names an integration method that does not exist."""
    import ahkab
    if case["wrong"]:
        T = case["circ"]["T"]
        l = l + [ahkab.new_tran(0, T, T / 10, method="NOSUCH", x0=None, outfile="w")]
    return l


def run(case, ctx):
    import ahkab
    base = dict(c10.BASE, **case["opt"])
    util.set_options(base)
    cj = case["circ"]
    env = {}

    def setup():
        if case["temp"] is not None:
            ahkab.set_temperature(case["temp"])
        c = cm.build(cj)
        c10.apply_edits(c, {}, case["dtemp"])
        return c

    def go(c):
        """The run that is interrupted."""
        if case["deck"]:
            return ahkab.main(c10.deckfile(cj, case["ans"]), "dk", 0)
        return ahkab.run(c, wrong(case, reqs(c, cj, case["ans"])))

    def after(c):
        return c10.snaps(util.attempt(ahkab.run, c, reqs(c, cj, case["later"])))

    def profile():
        c = setup()
        w = Stop()
        ops = []
        with util.quiet(), seams.solver_faults({}, budget=1500) as s, seams.disk_faults({}, observer=lambda a, i, o, r: ops.append(i)):
            seams.trace_on(hook=w)
            try:
                r = util.attempt(go, c)
            except core.Budget:
                return "long"
            finally:
                seams.trace_off()
            n = seams.solver.calls
        return (sorted(w.sites.items()), groups(w), n, len(set(ops)), repr(r) if isinstance(r, util.Failed) else None)

    def fresh():
        c = setup()
        try:
            with util.quiet(), seams.solver_faults({}, budget=2500):
                return after(c)
        except core.Budget:
            return "long"

    os.mkdir(ctx.path("p"))
    code, prof = scen.in_child(profile, ctx.path("p"))
    os.mkdir(ctx.path("f"))
    code2, ref = scen.in_child(fresh, ctx.path("f"))
    if code or code2:
        return ctx.fail("run", "a fresh run ended with status %s, %s" % (code, code2))
    if prof == "long" or ref == "long":
        ctx.count("skipped_long")
        return
    sites, hot, nsolve, ndisk, why = prof
    os.mkdir(ctx.path("h"))
    os.chdir(ctx.path("h"))
    c = setup()
    before = c10.state(c)
    ob = util.options_snapshot()
    po, ge = np.get_printoptions(), np.geterr()
    where = []
    for h in case["hits"]:
        stop = None
        plan, dplan = {}, {}
        if h[0] in ("line", "hot"):
            l, x = sites, h[1]
            if h[0] == "hot" and hot:
                l, x = hot[int(x * len(hot))], x * len(hot) % 1
            target, n = l[int(x * len(l))]
            if h[2] > .6:
                n = 1
            stop = Stop(target, int(h[2] * n))
        elif h[0] == "solve" and nsolve:
            plan = {str(int(h[1] * nsolve)): "intr"}
        elif h[0] == "disk" and ndisk:
            dplan = {int(h[1] * ndisk): {"k": "intr"}}
        exc = r = None
        fired = False
        with util.quiet(), seams.solver_faults(plan, budget=2500) as s, seams.disk_faults(dplan):
            if stop:
                seams.trace_on(hook=stop)
            try:
                r = go(c)
            except BaseException as e:
                if isinstance(e, core.Budget):
                    ctx.count("skipped_long")
                    return
                exc = e
            finally:
                if stop:
                    seams.trace_off()
            fired = (stop is not None and stop.at is not None) or bool(seams.solver.fired) or bool(seams.disk.fired)
            at = (stop.at if stop else None) or [tuple(x[:3]) for x in list(seams.solver.fired) + list(seams.disk.fired)]
        if fired:
            ctx.count("fault_interrupt_" + h[0])
            ctx.nontrivial = True
            where.append(at)
            if not isinstance(exc, KeyboardInterrupt):
                return ctx.fail("swallowed", "interrupted at %s: %s" % (at, "raised %r" % exc if exc is not None else "returned as if nothing had happened"))
        exc = r = None
        ctx.evals += 1
        now = c10.state(c)
        for q in (0, 2, 3):
            if before[q] != now[q]:
                d = [x for x in zip(before[q], now[q]) if x[0] != x[1]][:2]
                return ctx.fail("circuit", "after an interrupt at %s the circuit differs: %s" % (at, d))
        oa = util.options_snapshot()
        if oa != ob:
            return ctx.fail("options", "after an interrupt at %s options differ: %s" % (at, [(x, ob.get(x), oa[x]) for x in oa if oa[x] != ob.get(x)]))
        if np.get_printoptions() != po:
            return ctx.fail("printoptions", "after an interrupt at %s numpy's print options are %s" % (at, np.get_printoptions()))
        if np.geterr() != ge:
            return ctx.fail("errstate", "after an interrupt at %s numpy's error handling is %s" % (at, np.geterr()))
        lk = util.leaked_fds(ctx.scratch)
        if lk:
            return ctx.fail("leak", "after an interrupt at %s files are open: %s" % (at, lk))
    with util.quiet(), seams.solver_faults({}, budget=5000):
        try:
            got = after(c)
        except core.Budget:
            return ctx.fail("later", "after an interrupt at %s a later run does not end" % where)
    ctx.evals += 1
    if isinstance(ref, util.Failed) != isinstance(got, util.Failed):
        return ctx.fail("later", "after an interrupt at %s: later run %s, in a fresh process %s" % (where, c10.brief(got), c10.brief(ref)))
    if not isinstance(ref, util.Failed):
        if set(got) != set(ref):
            return ctx.fail("later", "after an interrupt at %s: later results %s, fresh %s" % (where, sorted(got), sorted(ref)))
        for t in sorted(ref):
            lin = cj["kind"] == "lin"
            tol = dict(rtol=1e-6 if t == "pz" else 1e-9, atol=1e-18) if lin else dict(rtol=50 * base["ver"], atol=50 * base["vea"])
            if t == "op-info" and (scen.same(got["op"], ref["op"]) or cj["kind"] == "sw"):
                continue
            d = scen.same(got[t], ref[t], **tol)
            if d:
                hy = any(m[0] == "sw" and m[1].get("VH") for m in cj.get("models", {}).values())
                return ctx.fail("later", "after an interrupt at %s: later %s differs from the fresh process: %s" % (where, t, d), "switch-state" if hy else None)
            ctx.count("identical" if scen.same(got[t], ref[t]) is None else "equal_within_tolerance")
        if got.get("tran"):
            ctx.sim_time += cj["T"]
    ctx.record([str(where), sorted(got) if isinstance(got, dict) else str(got)])
    ctx.sig = [cj, case["ans"], [str(w) for w in where]]
    for w in where:
        if isinstance(w, tuple):
            ctx.count("line_%s" % w[0] if w[0] != "diode.py" else "line_diode.py_%d" % w[1])


def shrink(case):
    for h in cm.shrink_list(case["hits"]):
        if h:
            yield dict(case, hits=h)
    for a in cm.shrink_list(case["ans"]):
        if a:
            yield dict(case, ans=a)
    for a in cm.shrink_list(case["later"]):
        if a:
            yield dict(case, later=a)
    if case["wrong"]:
        yield dict(case, wrong=False)
    keep = [a["source"] for a in case["ans"] + case["later"] if a.get("source")] + [a["input_source"] for a in case["ans"] + case["later"] if a.get("input_source")]
    keep += list(case["dtemp"])
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        yield dict(case, circ=c)
