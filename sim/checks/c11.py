"""C11: simulations in concurrent threads do not disturb each other."""
import copy
import os

import numpy as np

from .. import circ as cm
from .. import core, decks, scen, sched, seams, util
from . import c10, c12

TIERS = {"quick": {"runs": 350, "wall": 100}, "thorough": {"runs": 40000, "wall": 3000}}
RULE = ("2-3 threads, each with circuits and requests (or a deck) of its own, some failing by themselves; a seeded scheduler "
        "lets exactly one run and switches at executed lines, solves and file operations: at random with different rates, or "
        "at chosen passages of chosen lines; every thread must get bit for bit what it gets alone; distinct by threads and "
        "schedule")
REAL = "ahkab (run, main, all analyses, models, result files), real threads, numpy, scipy, a real file system"
STUB = "the choice of the running thread is the simulator's; locks made by ahkab are wrapped so that waiting is a switch"
ASSUME = ["a switch inside one line of Python code or inside a library call adds nothing that a switch between lines does not"]


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3])
    th = []
    for i in range(n):
        k = rng.choice(["lin", "lin", "dio", "mos", "user", "sw"])
        cj = scen.gen_circ(rng, kind=k, nmax=2)
        if i and rng.random() < .4:
            cj = copy.deepcopy(th[0]["circ"])
            for e in cj["els"]:
                if e[0] == "R":
                    e[4] *= 1.7
                elif e[0] == "V":
                    e[4] += .5
            k = cj["kind"]
        ans = []
        for j in range(rng.choice([1, 1, 2, 3])):
            an = scen.gen_an(rng, cj, ["op", "dc", "tran", "tran", "tran", "ac"] + (["pss", "pz", "symbolic"] if k == "lin" else []))
            if an["type"] == "symbolic" and len(cj["els"]) > 5:
                an = {"type": "op", "guess": True}
            if an["type"] == "tran":
                an["method"] = rng.choice(["TRAP", "IMPLICIT_EULER", "GEAR1", "GEAR2", "GEAR3", "GEAR4", "GEAR5", "GEAR6"])
                an["tstop"] = cj["T"] * .5
                an["x0"] = rng.choice(["op", "op", None])
                if k != "lin":
                    an["use_step_control"] = False
            an["out"] = rng.choice([None, "t%d" % i])
            ans.append(an)
        ans.sort(key=lambda a: a["type"] != "op")
        deck = rng.random() < .15 and all(decks.can(e) for e in cj["els"])
        if deck:
            ans = [a for a in ans if a["type"] in ("op", "tran", "ac") or (a["type"] == "dc" and a["sweep_type"] == "LIN")] or [{"type": "op", "guess": True, "out": None}]
            for a in ans:
                a["out"] = None
        t = {"circ": cj, "ans": ans, "deck": deck, "fail": rng.randrange(5, 200) if rng.random() < .1 else None, "read": rng.random() < .5}
        th.append(t)
    s = {"mode": rng.choice(["random", "random", "sites", "sites", "sites"]), "seed": rng.randrange(10 ** 9)}
    if s["mode"] == "random":
        s["p"] = rng.choice([.3, .05, .01, .002])
    else:
        s["plan"] = [[rng.randrange(n), rng.random(), rng.random()] for _ in range(rng.choice([1, 2, 2, 4, 8]))]
    return {"th": th, "sched": s, "opt": rng.choice([{}, {}, {}, {"cache_len": 2}, {"dense_matrix_limit": 0}, {"use_standard_solve_method": False}])}


def run(case, ctx):
    import ahkab
    base = dict(c10.BASE, **case["opt"])
    util.set_options(base)

    def task(i):
        t = case["th"][i]
        cj = t["circ"]
        if t["deck"]:
            p = os.path.abspath("deck%d.ckt" % i)
            if not os.path.exists(p):
                with seams.real["open"](p, "w") as fp:
                    fp.write("\n".join(decks.deck(cj, t["ans"])) + "\n")

            def fn():
                return ahkab.main(p, "t%d" % i, 0)
        else:
            fl = c10.failing(0)
            c = cm.build(cj, hook=fl["hook"], fnwrap=fl["wrap"])
            fl["at"] = t["fail"]
            rq = c12.reqs(c, cj, t["ans"])

            def fn():
                return ahkab.run(c, rq)

        def go():
            r = util.attempt(fn)
            return (r, c10.snaps(r) if t["read"] else None)
        return go

    def result(v):
        r, s = v
        return {"now": c10.snaps(r), "then": s}

    n = len(case["th"])
    solo, sites = [], []
    for i in range(n):
        d = ctx.path("s%d" % i)
        os.mkdir(d)

        def alone(i=i):
            w = c12.Stop()
            with util.quiet(), seams.solver_faults({}, budget=1500):
                f = task(i)
                seams.trace_on(hook=w)
                try:
                    v = f()
                except core.Budget:
                    return "long"
                finally:
                    seams.trace_off()
                return result(v), sorted(w.sites.items()), c12.groups(w)
        code, v = scen.in_child(alone, d)
        if code:
            return ctx.fail("run", "thread %d alone ended with status %s" % (i, code))
        if v == "long":
            ctx.count("skipped_long")
            return
        solo.append(v[0])
        sites.append(v[1:])
    os.mkdir(ctx.path("h"))
    os.chdir(ctx.path("h"))
    s = case["sched"]
    plan = []
    for i, x, o in s.get("plan", []):
        l, y = sites[i][0], x * 2
        if x < .5 and sites[i][1]:
            g = sites[i][1]
            l, y = g[int(y * len(g))], y * len(g)
        k, m = l[int(y % 1 * len(l))]
        plan.append((i, k, int(o * m) if o < .6 else 0))
    sc = sched.Sched(s["seed"], s.get("p", 0.0), plan)
    with util.quiet(), seams.solver_faults({}, budget=20000), sched.sim_locks(), \
            seams.disk_faults({}, observer=lambda when, *a: sched.point() if when == "before" else None):
        seams.solver.where = sched.point
        out = sc.run([task(i) for i in range(n)])
        seams.solver.where = None
        got = []
        for i, (v, e) in enumerate(out):
            if e is not None:
                got.append(e)
            else:
                got.append(result(v))
    ctx.count("switches", sc.switches)
    ctx.count("steps", sc.n)
    ctx.count("mode_" + s["mode"])
    ctx.nontrivial = sc.switches > 0
    for i in range(n):
        t, a, b = case["th"][i], got[i], solo[i]
        ctx.evals += 1
        if isinstance(a, BaseException):
            return ctx.fail("thread", "thread %d (%s) ended with %r" % (i, [x["type"] for x in t["ans"]], a))
        for w in ("now", "then"):
            x, y = a[w], b[w]
            if isinstance(x, util.Failed) or isinstance(y, util.Failed):
                if not (isinstance(x, util.Failed) and isinstance(y, util.Failed)) or why(x) != why(y):
                    return ctx.fail("differs", "thread %d: %s, alone %s" % (i, brief(x), brief(y)))
                ctx.count("fails_alone_too")
                continue
            if x is None and y is None:
                continue
            if set(x) != set(y):
                return ctx.fail("differs", "thread %d: results %s, alone %s" % (i, sorted(x), sorted(y)))
            for k in sorted(x):
                d = scen.same(x[k], y[k])
                if d:
                    return ctx.fail("differs", "thread %d: %s%s differs from the thread alone: %s" % (i, k, "" if w == "now" else " as read in the thread", d))
                ctx.count("identical")
            if x.get("tran"):
                ctx.sim_time += t["circ"]["T"] / 2
    ctx.record([sc.trace[:2000], [sorted(g["now"]) if isinstance(g["now"], dict) else str(g["now"]) for g in got]])
    ctx.sig = [case["th"], sc.trace[:2000]]


def why(f):
    # how deep the stack is when it overflows depends on the caller
    return "RecursionError" if "RecursionError" in f.why else f.why


def brief(x):
    return repr(x)[:200] if isinstance(x, util.Failed) else "results"


def shrink(case):
    if len(case["th"]) > 2:
        for i in range(len(case["th"])):
            yield dict(case, th=case["th"][:i] + case["th"][i + 1:], sched=dict(case["sched"], plan=[p for p in case["sched"].get("plan", []) if p[0] < len(case["th"]) - 1]))
    for p in cm.shrink_list(case["sched"].get("plan", [])):
        yield dict(case, sched=dict(case["sched"], plan=p))
    for i, t in enumerate(case["th"]):
        for a in cm.shrink_list(t["ans"]):
            if a:
                yield dict(case, th=case["th"][:i] + [dict(t, ans=a)] + case["th"][i + 1:])
        keep = [a["source"] for a in t["ans"] if a.get("source")] + [a["input_source"] for a in t["ans"] if a.get("input_source")]
        for c in cm.shrink_circuit(t["circ"], keep=keep):
            yield dict(case, th=case["th"][:i] + [dict(t, circ=c)] + case["th"][i + 1:])
