"""Scenarios: small well-posed circuits with lists of analyses, run in child
processes or in this one, and plain snapshots of what they returned."""
import os
import pickle
import signal
import sys

import numpy as np

from . import circ as cm
from . import ref, seams, tran, util

EXT = {"op": ".op", "dc": ".dc", "tran": ".tran", "ac": ".ac", "pz": ".pz", "symbolic": ".symbolic"}


def ext(an):
    return "." + an["method"].lower() if an["type"] == "pss" else EXT[an["type"]]


# ------------------------------------------------------------- generation

def gen_circ(rng, kind=None, nmax=4, ind=True, amp=True):
    """A damped dynamic circuit with sources of every use, and its time scale."""
    for _ in range(200):
        k = kind or rng.choice(["lin", "lin", "dio", "user", "lin"])
        g = cm.Gen(rng, 1, nmax)
        g.backbone(100, 2e4)
        g.add("V", ac=1.0)
        for _ in range(rng.randint(0, 2)):
            g.add(rng.choice("VI"))
        for _ in range(rng.randint(1, 2)):
            g.add("C", lo=1e-9, hi=1e-7)
        if ind and rng.random() < .3:
            g.add("L", lo=1e-4, hi=1e-2)
        for _ in range(rng.randint(0, 2)):
            g.add(rng.choice("RRGEF" if amp and k == "lin" else "RR"))
        if k in ("dio", "user", "mos", "sw"):
            for q in range(rng.randint(1, 2)):
                e = g.add({"dio": "D", "user": "N", "mos": "M", "sw": "S"}[k], bv=False)
                if e is not None and k in ("dio", "user", "mos"):
                    # never straight across a source: a resistor in series
                    a = e[2]
                    e[2] = "w%d" % q
                    g.els.append(["R", g.name("R"), a, e[2], cm.logu(rng, 200, 5000)])
        cj = cm.shuffled(rng, g.out())
        s = ref.Sys(cj)
        srcs = [e for e in cj["els"] if e[0] == "V"]
        if not srcs or s.cond() > 1e9:
            continue
        tc, w = tran.timescales(cj)
        if not tc or max(x.real for x in w) > -1e-3 / tc[-1] or tc[-1] / tc[0] > 300:
            continue
        break
    T = float("%.3g" % (tc[-1] * cm.logu(rng, .5, 3)))
    for e in cj["els"]:
        if e[0] in "VI":
            a = 1.0 if e[0] == "V" else 1e-3
            if rng.random() < .7 or e is srcs[0]:
                e[6] = rng.choice([["sin", e[4], a * cm.nice(rng, .2, 3), 1 / T, 0.0, 0.0],
                                   ["pulse", e[4], e[4] + a * cm.nice(rng, .2, 3), .1 * T, .05 * T, .4 * T, .05 * T, T]])
            if rng.random() < .5:
                e[5] = cm.nice(rng, .1, 2)
    cj["T"] = T
    cj["kind"] = k
    return cm.guesses(rng, cj)


def gen_an(rng, cj, types, small=True):
    t = rng.choice(types)
    T = cj["T"]
    an = {"type": t}
    srcs = [e for e in cj["els"] if e[0] in "VI"]
    if t == "op":
        an["guess"] = rng.random() < .7
    elif t == "dc":
        e = rng.choice(srcs)
        a = 1.0 if e[0] == "V" else 1e-3
        s, o = sorted([cm.nice(rng, -4, 4), cm.nice(rng, -4, 4)])
        an.update(source=e[1], start=a * s, stop=a * (o + .5), points=rng.randint(2, 9), sweep_type="LIN",
                  guess=rng.random() < .7)
        if rng.random() < .2:
            an.update(start=a * .01, stop=a * cm.nice(rng, .1, 5), sweep_type="LOG")
        if rng.random() < .2 and an["sweep_type"] == "LIN":
            an["start"], an["stop"] = an["stop"], an["start"]
    elif t == "tran":
        an.update(tstart=0.0, tstop=T * rng.choice([.5, 1, 1.3]), method=rng.choice(["TRAP", "TRAP", "IMPLICIT_EULER", "GEAR2", "GEAR4"]),
                  use_step_control=rng.random() < .6, x0=rng.choice([None, None, "op"]))
        an["tstep"] = an["tstop"] / rng.choice([8, 13, 20])
    elif t == "ac":
        f = 1.0 / T
        an.update(start=f * .1, stop=f * cm.logu(rng, 2, 100), points=rng.randint(2, 9), sweep_type=rng.choice(["LOG", "LIN"]),
                  x0=rng.choice([None, None, "op"]))
    elif t == "pss":
        an.update(period=T, points=rng.choice([8, 12, 20]), method=rng.choice(["shooting", "brute-force"]))
    elif t == "pz":
        v = [e for e in srcs if e[0] == "V"] or srcs
        an.update(input_source=rng.choice(v)[1], output_port=[rng.choice(cm.nodes_of(cj)), "0"], x0=None)
    elif t == "symbolic":
        an.update(source=rng.choice([None, rng.choice(srcs)[1]]), ac_enable=rng.random() < .5)
    return an


def make(an, outfile=None):
    """The request through the public constructors."""
    import ahkab
    a = dict(an)
    t = a.pop("type")
    a.pop("out", None)
    if t == "dc":
        return ahkab.new_dc(a["start"], a["stop"], a["points"], a["source"], a["sweep_type"], guess=a["guess"], outfile=outfile)
    if t == "tran":
        return ahkab.new_tran(a["tstart"], a["tstop"], a["tstep"], x0=a["x0"], method=a["method"],
                              use_step_control=a["use_step_control"], outfile=outfile)
    if t == "ac":
        return ahkab.new_ac(a["start"], a["stop"], a["points"], x0=a["x0"], sweep_type=a["sweep_type"], outfile=outfile)
    if t == "op":
        return ahkab.new_op(guess=a["guess"], outfile=outfile)
    if t == "pss":
        return ahkab.new_pss(a["period"], points=a["points"], method=a["method"], outfile=outfile)
    if t == "pz":
        return ahkab.new_pz(input_source=a["input_source"], output_port=tuple(a["output_port"]), x0=a["x0"], outfile=outfile)
    if t == "symbolic":
        return ahkab.new_symbolic(source=a["source"], ac_enable=a["ac_enable"], outfile=outfile)
    raise ValueError(t)


# ------------------------------------------------------------- snapshots

def snap(r):
    """What a result says, as plain data (None: no result)."""
    if r is None or isinstance(r, util.Failed):
        return None
    st = getattr(r, "sol_type", "?")
    if st == "Symbolic":
        return {"type": st, "data": sorted((str(k), repr(v)) for k, v in r.items())}
    if st == "PZ":
        return {"type": st, "data": [("p", np.array(r.poles)), ("z", np.array(r.zeros))]}
    names = [str(n) for n in r.keys()]
    return {"type": st, "data": [(n, np.array(r[n]).reshape(-1)) for n in names]}


def same(a, b, rtol=0.0, atol=0.0):
    """None if two snapshots agree, else what differs."""
    if (a is None) != (b is None):
        return "one is missing"
    if a is None:
        return None
    if a["type"] != b["type"]:
        return "different kinds"
    if [n for n, _ in a["data"]] != [n for n, _ in b["data"]]:
        return "variables %s / %s" % ([n for n, _ in a["data"]], [n for n, _ in b["data"]])
    for (n, x), (_, y) in zip(a["data"], b["data"]):
        if isinstance(x, str):
            if x != y:
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), 0)
                i = max(i - 30, 0) if i > 60 else 0
                return "%s: %s / %s" % (n, x[i:i + 100], y[i:i + 100])
            continue
        if x.shape != y.shape:
            return "%s: %d values / %d values" % (n, x.size, y.size)
        if rtol == 0 and atol == 0:
            ok = np.array_equal(x, y, equal_nan=True)
        else:
            sc = max(np.max(np.abs(x)) if x.size else 0, np.max(np.abs(y)) if y.size else 0)
            ok = bool(np.all(np.abs(x - y) <= atol + rtol * sc))
        if not ok:
            k = int(np.argmax(np.abs(x - y))) if x.size else 0
            return "%s[%d]: %r / %r" % (n, k, x.reshape(-1)[k], y.reshape(-1)[k])
    return None


# ------------------------------------------------------------- children

def in_child(fn, cwd=None, hooks=False):
    """Run fn() in a fork; returns (exit status, value).  hooks: run exit hooks."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 9
        try:
            os.close(r)
            if cwd:
                os.chdir(cwd)
            v = fn()
            data = pickle.dumps(v)
            seams.disk.armed = False
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            if hooks:
                import atexit
                try:
                    atexit._run_exitfuncs()
                except BaseException:
                    code = 8
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    val = None
    if buf:
        try:
            val = pickle.loads(buf)
        except Exception:
            val = None
    return code, val


def listing(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if f.startswith(".log"):
                continue
            with seams.real["open"](p, "rb") as fp:
                out[os.path.relpath(p, d)] = fp.read()
    return out


def read(p):
    try:
        with seams.real["open"](p, "rb") as fp:
            return fp.read()
    except OSError:
        return None
