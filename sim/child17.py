"""One simulated machine of C17: a fresh interpreter that runs a batch of scenarios.

   python -m sim.child17 <batch file> <output file>
The machine's state comes in the environment and in the batch's "machine" entry."""
import datetime
import json
import os
import pickle
import random
import re
import sys
import time

STAMP = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d|(?<=\nNetlist: )[^\n]*(?=\n)")
_dt = datetime.datetime


class SimDatetime(_dt):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(time.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(time.time())


def machine(m):
    """Put this process into the given state; before anything of ahkab is imported."""
    r = random.Random(m["seed"])
    datetime.datetime = SimDatetime
    if m["heap"]:
        # other addresses: what is ordered by id comes out in another order
        keep = [object() for _ in range(r.randrange(1, 50000))]
        hole = [bytearray(r.randrange(1, 600)) for _ in range(r.randrange(1, 20000))]
        r.shuffle(hole)
        del hole[::2]
        machine.keep = (keep, hole)
    if m["gc"]:
        import gc
        gc.set_threshold(*r.choice([(5000, 20, 20), (300, 5, 5), (700, 10, 10)]))
    if m["listing"]:
        ld, sd = os.listdir, os.scandir

        def listdir(*a):
            x = sorted(ld(*a))
            r.shuffle(x)
            return x
        os.listdir = listdir
    if m["pid"]:
        p = m["pid"]
        os.getpid = lambda: p
    if m["time"] is not None:
        from . import seams
        seams.real                       # the real clock is kept there


def start(m):
    from . import seams
    seams.install()
    if m["time"] is not None:
        time.time_ns = lambda: int(time.time() * 1e9)
        time.monotonic = lambda: time.perf_counter()


def scenario(sc, m, k):
    import numpy as np
    import ahkab
    from . import circ as cm
    from . import decks, scen, seams, util
    seams.reset(k)
    if m["time"] is None:
        seams.clock.armed = False
    else:
        seams.clock.now = m["time"]
        if m["jumps"]:
            seams.clock.rng = random.Random(m["seed"] + k)
    if m["rng"]:
        random.seed(m["seed"])
        np.random.seed(m["seed"] % 2 ** 31)
    for p in m["decoys"]:
        with seams.real["open"](p, "w") as fp:
            fp.write("not yours\n")
    cj = sc["circ"]
    util.set_options(sc["opt"])
    out = {"ends": [], "snaps": [], "sym": []}
    with util.quiet() as (so, se):
        with seams.solver_faults({}, budget=4000):
            if sc["route"] == "run":
                c = cm.build(cj)
                for i, an in enumerate(sc["ans"]):
                    q = scen.make(an, "o%d" % i if sc["named"] else None)
                    r = util.attempt(ahkab.run, c, q)
                    note(out, an, r)
                try:
                    out["snaps"].append(str(c))
                except Exception as e:
                    out["snaps"].append(type(e).__name__)
            else:
                deck = m["deck"]
                with seams.real["open"](deck, "w") as fp:
                    fp.write("\n".join(decks.deck(cj, sc["ans"])[:-1] + sc["post"] + [".end"]) + "\n")
                r = util.attempt(ahkab.main, *([deck, "o"] if sc["named"] else [deck]), verbose=0)
                note(out, {"type": "main"}, r)
        text = so.buffer.getvalue() if hasattr(so, "buffer") else b""
    seams.disk.armed = False
    fl = {}
    for f in sorted(scen.listing(".")):
        if f in m["decoys"] or f == m["deck"] or not f.startswith("o"):
            continue
        data = scen.read(f)
        if f.endswith((".symbolic", ".tfs")):
            fl[f] = b"(expressions)"
        else:
            fl[f] = STAMP.sub(b"<stamp>", data)
    out["files"] = fl
    out["stdout"] = STAMP.sub(b"<stamp>", text.replace(m["deck"].encode(), b"<deck>"))
    return out


def note(out, an, r):
    from . import scen, util
    if isinstance(r, util.Failed):
        out["ends"].append(r.why)
        return
    out["ends"].append("ok")
    for k in sorted(r):
        v = r[k]
        for q in v if isinstance(v, tuple) else (v,):
            if getattr(q, "sol_type", "") == "Symbolic":
                out["sym"].append({str(a): b for a, b in expressions(q).items()})
            elif q is not None:
                out["snaps"].append(scen.snap(q))


def expressions(q):
    """name -> expression text, functions flattened."""
    d = {}
    for k in q.keys():
        v = q[str(k)]
        if isinstance(v, dict):
            for kk, vv in v.items():
                if isinstance(vv, (list, tuple)):
                    d["%s.%s" % (k, kk)] = sorted(flat(x) for x in vv)
                else:
                    d["%s.%s" % (k, kk)] = flat(vv)
        else:
            d[str(k)] = flat(v)
    return d


def flat(x):
    return str(x)


def main():
    with open(sys.argv[1]) as fp:
        batch = json.load(fp)
    m = batch["machine"]
    machine(m)
    start(m)
    import ahkab                         # noqa: the simulated machine's import
    from . import scen, seams
    res = []
    top = os.getcwd()
    for k, sc in enumerate(batch["scenarios"]):
        d = os.path.join(top, "s%d" % k)
        os.mkdir(d)

        def go():
            import signal
            signal.alarm(40)
            return scenario(sc, m, k)
        code, v = scen.in_child(go, d)
        res.append((code, v))
    with seams.real["open"](sys.argv[2], "wb") as fp:
        pickle.dump(res, fp)


if __name__ == "__main__":
    main()
