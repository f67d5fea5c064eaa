"""C17: the same run gives the same bytes on every machine state."""
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import circ as cm
from .. import core, decks, scen, util

TIERS = {"quick": {"runs": 40, "wall": 140}, "thorough": {"runs": 6000, "wall": 3000}}
CASE_WALL = 400
RULE = ("batches of scenarios (random circuits, analyses of every type, through run() or a netlist, options) executed by fresh "
        "interpreters in different machine states: hash seed, clock reading and jumps, time zone, locale, process id, working "
        "directory and files in it, temporary directory, heap layout, garbage collection, listing order, state of the global "
        "random generators; a run is a batch with its machines, distinct by scenarios and machines")
REAL = "ahkab, numpy, scipy, sympy, the Python interpreter started anew for each machine"
STUB = "the clock, the process id and the directory listing order are simulated; hash seed, time zone and directories are real"
ASSUME = ["the same processor, the same libraries and one thread in the linear algebra library",
          "symbolic expressions are compared as text, and where that differs by value at random points"]


def gen(rng, tier):
    scs = []
    while len(scs) < (6 if tier == "quick" else 10):
        kind = rng.choice(["lin", "lin", "lin", "dio", "user", "mos", "sw"])
        try:
            cj = scen.gen_circ(rng, kind=kind, nmax=rng.choice([2, 2, 3]))
        except IndexError:               # no circuit of that kind came out
            continue
        ans = []
        for q in range(rng.randint(1, 3)):
            ts = ["op", "dc", "tran", "ac", "pss"]
            if kind == "lin":
                ts += ["pz", "pz"]
                if len(cj["els"]) <= 7:
                    ts += ["symbolic"] * 4
            ans.append(scen.gen_an(rng, cj, [rng.choice(ts)]))
            if ans[-1]["type"] == "ac":
                ans[-1]["x0"] = None
            if ans[-1]["type"] == "tran":
                ans[-1]["x0"] = None
        sc = {"circ": cj, "ans": ans, "route": "run", "named": rng.random() < .6, "post": [], "opt": {}}
        if rng.random() < .35 and all(decks.can(e) for e in cj["els"]):
            sc["route"] = "main"
            sc["ans"] = [a for a in ans if a["type"] in ("op", "dc", "tran", "ac", "pss")] or [{"type": "op"}]
            for a in sc["ans"]:
                if a["type"] == "dc":
                    a["sweep_type"] = "LIN"
            if any(a["type"] == "tran" for a in sc["ans"]) and rng.random() < .6:
                n = rng.choice(cm.nodes_of(cj))
                sc["post"] = [rng.choice([".four %s v(%s)" % (decks.num(1 / cj["T"]), n), ".fft v(%s)" % n])]
        if rng.random() < .3:
            sc["opt"] = rng.choice([{"dense_matrix_limit": 0}, {"use_standard_solve_method": False}, {"dc_max_nr_iter": 4},
                                    {"cache_len": 2}, {"symb_sympy_manual_solver": True}, {"nl_voltages_lock": False}])
        scs.append(sc)
    return {"scs": scs, "machines": [mach(rng) for _ in range(1 if tier == "quick" else 3)]}


def mach(rng):
    m = {"seed": rng.randrange(1, 2 ** 31), "hash": rng.choice([rng.randrange(1, 4294967295), rng.randrange(1, 100), "random"]),
         "heap": rng.random() < .7, "gc": rng.random() < .4, "listing": rng.random() < .5, "pid": rng.choice([None, 1, 2, 99999, 4194303]),
         "time": rng.choice([None, 0.0, 1.0e9, 4.1e9, 951782399.0, 1709164800.5]), "jumps": rng.random() < .6,
         "rng": rng.random() < .7,
         "tz": rng.choice(["UTC", "America/St_Johns", "Asia/Kathmandu", "XYZ-13", "XYZ+12EDT", None]),
         "lang": rng.choice(["en_US.UTF-8", "C", "de_DE.UTF-8", "tr_TR.UTF-8", None]),
         "cwd": rng.choice(["w", "deep/er/dir", "with space", "ünï", "o1", "x" * 100]),
         "deck": rng.choice(["deck.ckt", "a.cir", "zz top.net", "o"]),
         "decoys": rng.sample(["r0.op", "ahkab.cfg", "tran", "numpy_.py", "v1", ".ahkabrc", "options.txt"], rng.randint(0, 3)),
         "env": {("SIMX%d" % rng.randrange(10 ** 6)): "x" * rng.randrange(2000) for _ in range(rng.randrange(4))},
         "opt": rng.choice([[], [], ["-O"], ["-E"][:0]]), "malloc": rng.choice([None, None, "malloc", "pymalloc"])}
    return m


PLAIN = {"seed": 0, "hash": 0, "heap": False, "gc": False, "listing": False, "pid": None, "time": 1.0e9, "jumps": False, "rng": False,
         "tz": "UTC", "lang": "en_US.UTF-8", "cwd": "w", "deck": "deck.ckt", "decoys": [], "env": {}, "opt": [], "malloc": None}


def boot(ctx, name, m, scs):
    d = os.path.join(ctx.path(name), m["cwd"])
    os.makedirs(d)
    tmp = os.path.join(ctx.path(name), "tmp%s" % m["seed"])
    os.makedirs(tmp)
    with open(ctx.path(name, "batch"), "w") as fp:
        json.dump({"machine": m, "scenarios": scs}, fp)
    env = {k: os.environ[k] for k in ("PATH", "PYTHONPATH", "PYTHONDONTWRITEBYTECODE", "PYTHONWARNINGS", "MPLBACKEND", "OPENBLAS_NUM_THREADS",
                                      "OMP_NUM_THREADS", "MKL_NUM_THREADS", "SIM_REPO") if k in os.environ}
    env.update(m["env"], PYTHONHASHSEED=str(m["hash"]), PYTHONIOENCODING="utf-8", TMPDIR=tmp, HOME=tmp)
    for k, v in (("TZ", m["tz"]), ("LANG", m["lang"]), ("PYTHONMALLOC", m["malloc"])):
        if v:
            env[k] = v
    with open(ctx.path(name, "err"), "wb") as err:
        p = subprocess.run([sys.executable] + m["opt"] + ["-X", "utf8", "-m", "sim.child17", ctx.path(name, "batch"), ctx.path(name, "out")],
                           env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=err, stderr=err, timeout=600)
    if p.returncode or not os.path.exists(ctx.path(name, "out")):
        return None, scen.read(ctx.path(name, "err")).decode("utf8", "replace")[-300:]
    with open(ctx.path(name, "out"), "rb") as fp:
        return pickle.load(fp), None


def run(case, ctx):
    scs = case["scs"]
    base, err = boot(ctx, "m0", PLAIN, scs)
    if base is None:
        return ctx.fail("run", "the plain machine failed: %s" % err)
    ctx.sig = [scs, case["machines"]]
    for k, (code, v) in enumerate(base):
        for an, e in zip(scs[k]["ans"], (v or {}).get("ends", [])):
            ctx.count("%s_%s" % (scs[k]["route"] if scs[k]["route"] == "main" else an["type"], "ok" if e == "ok" else "fails"))
        if v and "ok" in v["ends"]:
            ctx.nontrivial = True
        ctx.record([code, v and v["ends"], v and sorted(v["files"].items()), v and [x["data"] if isinstance(x, dict) else x for x in v["snaps"]]])
    for i, m in enumerate(case["machines"]):
        got, err = boot(ctx, "m%d" % (i + 1), m, scs)
        if got is None:
            return ctx.fail("run", "machine %d failed: %s" % (i, err))
        for what in ("hash", "time", "tz", "heap", "pid", "listing", "rng", "gc"):
            if m[what] not in (None, False):
                ctx.count("varied_" + what)
        for k, (a, b) in enumerate(zip(base, got)):
            if a[0] == -14 or b[0] == -14:
                ctx.count("skipped_long")
                continue
            ctx.evals += 1
            d = "the process ends with status %s / %s" % (a[0], b[0]) if a[0] != b[0] else differ(a[1], b[1], ctx)
            if d:
                return ctx.fail("differs", "scenario %d on machine %d: %s" % (k, i, d))


def differ(a, b, ctx):
    if a is None or b is None:
        return None if a is b else "one gave nothing"
    if [x.split(":")[0] for x in a["ends"]] != [x.split(":")[0] for x in b["ends"]]:
        return "the analyses end with %s / %s" % (a["ends"], b["ends"])
    if len(a["snaps"]) != len(b["snaps"]):
        return "%d / %d results" % (len(a["snaps"]), len(b["snaps"]))
    for x, y in zip(a["snaps"], b["snaps"]):
        if isinstance(x, dict) and isinstance(y, dict):
            d = scen.same(x, y)
            if d:
                return "%s: %s" % (x["type"], d)
            ctx.count("identical_results")
        elif x != y:
            return "%r / %r" % (x[:200], y[:200])
    if sorted(a["files"]) != sorted(b["files"]):
        return "files %s / %s" % (sorted(a["files"]), sorted(b["files"]))
    for f in a["files"]:
        if a["files"][f] != b["files"][f]:
            return "file %s: %s" % (f, first(a["files"][f], b["files"][f]))
        ctx.count("identical_files")
    if a["stdout"] != b["stdout"]:
        return "standard output: %s" % first(a["stdout"], b["stdout"])
    if len(a["sym"]) != len(b["sym"]):
        return "%d / %d symbolic results" % (len(a["sym"]), len(b["sym"]))
    for x, y in zip(a["sym"], b["sym"]):
        if sorted(x) != sorted(y):
            return "symbolic results for %s / %s" % (sorted(x), sorted(y))
        for k in x:
            d = unequal(x[k], y[k], ctx)
            if d:
                return "symbolic %s: %s" % (k, d)
    return None


def first(x, y):
    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return "at byte %d: %r / %r" % (i, x[max(0, i - 30):i + 50], y[max(0, i - 30):i + 50])


def unequal(x, y, ctx):
    if isinstance(x, list) or isinstance(y, list):
        if x == y:
            ctx.count("identical_expressions")
            return None
        if not (isinstance(x, list) and isinstance(y, list) and len(x) == len(y)):
            return "%s / %s" % (x, y)
        left = list(y)
        for p in x:
            q = next((q for q in left if not unequal(p, q, ctx)), None)
            if q is None:
                return "%s / %s" % (x, y)
            left.remove(q)
        return None
    if x == y:
        ctx.count("identical_expressions")
        return None
    import sympy
    ns = {}
    p, q = sympy.sympify(x, locals=names(x)), sympy.sympify(y, locals=names(y))
    rng = np.random.RandomState(5)
    syms = sorted(set(str(s) for s in p.free_symbols | q.free_symbols))
    for _ in range(4):
        v = {s: sympy.Rational(int(rng.randint(1, 1000)), int(rng.randint(1, 1000))) for s in syms}
        u = complex(p.subs({s: v[str(s)] for s in p.free_symbols}).evalf(30))
        w = complex(q.subs({s: v[str(s)] for s in q.free_symbols}).evalf(30))
        if not abs(u - w) <= 1e-12 * max(abs(u), abs(w), 1e-300):
            return "%s / %s" % (x[:150], y[:150])
    ctx.count("expressions_equal_by_value")
    return None


def names(x):
    """Every identifier is a plain symbol, but for the functions of sympy."""
    import re
    import sympy
    return {n: sympy.Symbol(n) for n in re.findall(r"[A-Za-z_][A-Za-z_0-9]*", x)
            if n not in ("sqrt", "exp", "log", "Abs", "re", "im", "conjugate", "Piecewise")} | {"I": sympy.I}


def shrink(case):
    for m in cm.shrink_list(case["machines"]):
        if m:
            yield dict(case, machines=m)
    for s in cm.shrink_list(case["scs"]):
        if s:
            yield dict(case, scs=s)
    for i, m in enumerate(case["machines"]):
        for k in m:
            if m[k] != PLAIN[k]:
                yield dict(case, machines=case["machines"][:i] + [dict(m, **{k: PLAIN[k]})] + case["machines"][i + 1:])
    if len(case["scs"]) == 1:
        s = case["scs"][0]
        for a in cm.shrink_list(s["ans"]):
            if a:
                yield dict(case, scs=[dict(s, ans=a)])
        if s["route"] == "run":
            keep = [a["source"] for a in s["ans"] if a.get("source")] + [a["input_source"] for a in s["ans"] if a.get("input_source")]
            for c in cm.shrink_circuit(s["circ"], keep=keep):
                yield dict(case, scs=[dict(s, circ=c)])
