"""C13: queued and listed analyses run exactly once each, in order, on the given circuit."""
import copy
import os

import numpy as np

from .. import circ as cm
from .. import core, scen, seams, util

TIERS = {"quick": {"runs": 500, "wall": 100}, "thorough": {"runs": 40000, "wall": 3000}}
RULE = ("random histories of queue, run and request-modification calls over 1-2 circuits; requests of every type, some of them "
        "wrong, others failed by an I/O error at a chosen write, an exception inside a device or an interrupt at a chosen line; "
        "a small model of the queue says what every run must return, what reaches each named file and what stays queued; "
        "distinct by history")
REAL = "ahkab (queue, run, all analyses, result files), numpy, scipy, a real file system"
STUB = "the file layer below open() can fail a chosen operation; interrupts are raised at chosen executed lines"
ASSUME = ["what a request gives is what it gives as the first thing in a fresh process, after the operating point it refers to",
          "an interrupt between two analyses may count as interrupting the next one"]

WRONG = ["dc_source", "method", "type", "argument", "keyword", "sweep", "stop"]


def gen(rng, tier):
    circs = []
    for i in range(rng.choice([1, 1, 2])):
        cj = scen.gen_circ(rng, kind=rng.choice(["lin", "lin", "lin", "user"]), nmax=2)
        circs.append(cj)
    if len(circs) > 1 and rng.random() < .6:
        circs[1] = copy.deepcopy(circs[0])      # same shape, other values: vectors of one fit the other
        for e in circs[1]["els"]:
            if e[0] == "R":
                e[4] *= 2.5
            if e[0] == "V":
                e[4] += 1
    reqs = []
    for q in range(rng.randint(3, 7)):
        cj = circs[0]
        t = rng.choice(["op", "op", "op", "dc", "tran", "tran", "tran", "ac", "pss", "pz", "symbolic"])
        if cj["kind"] != "lin" and t in ("pss", "pz", "symbolic"):
            t = "tran"
        if t == "symbolic" and len(cj["els"]) > 6:
            t = "op"
        an = scen.gen_an(rng, cj, [t])
        if t == "tran":
            an["x0"] = rng.choice(["op", "op", "op", "op+ic", None, "vec", "vec"])
            an["use_step_control"] = False
            an["method"] = rng.choice(["TRAP", "IMPLICIT_EULER"])
        if t == "op" and rng.random() < .2:
            an["x0v"] = rng.randrange(10 ** 6)
        if t == "ac":
            an["x0"] = rng.choice(["op", None])
        if rng.random() < .2:
            an["wrong"] = rng.choice(WRONG)
        an["out"] = "q%d" % q if rng.random() < .75 else None
        reqs.append(an)
    ops = []
    nq = 0
    for k in range(rng.randint(3, 9)):
        o = rng.choice(["queue", "queue", "queue", "run", "run", "list", "mutate"])
        if o == "queue":
            n = rng.randint(0, 4)
            ops.append(["queue", [rng.randrange(len(reqs)) for _ in range(n)]])
        elif o == "mutate":
            last = [q for p in ops[-2:] if p[0] == "queue" for q in p[1]]
            q = rng.choice(last) if last and rng.random() < .7 else rng.randrange(len(reqs))
            vec = [p for p in last if reqs[p].get("x0") == "vec"]
            if vec and rng.random() < .6:
                ops.append(["mutate", rng.choice(vec), "x0"])
            else:
                ops.append(["mutate", q, rng.choice(["value", "del", "clear", "x0"])])
        else:
            op = [o, rng.randrange(len(circs)), None, None]
            if o == "list":
                op[2] = [rng.randrange(len(reqs)) for _ in range(rng.randint(1, 4))]
                op.append(rng.choice(["list", "list", "tuple", "dict"]))
                if op[4] == "dict":
                    op[2] = op[2][:1]
            if rng.random() < .45:
                op[3] = rng.choice([["disk", rng.randrange(0, 40), rng.choice(["eio", "intr"])],
                                    ["disk", rng.randrange(0, 4), rng.choice(["eio", "intr"])],
                                    ["device", rng.randrange(0, 60)],
                                    ["line", int(cm.logu(rng, 10, 20000))]])
            ops.append(op)
    ops.append(["run", rng.randrange(len(circs)), None, None])
    if rng.random() < .5:
        ops.append(["run", rng.randrange(len(circs)), None, None])
    return {"circs": circs, "reqs": reqs, "ops": ops}


def request(an, cj):
    import ahkab
    a = dict(an)
    w = a.pop("wrong", None)
    x0v = a.pop("x0v", None)
    vec = a.get("x0") == "vec"
    if vec:
        a["x0"] = None
    d = scen.make(a, an["out"])
    if vec or x0v is not None:
        d["x0"] = vector(cj, x0v or 5)
        if "guess" in d:
            d["guess"] = False
    if w == "dc_source":
        d = ahkab.new_dc(0, 1, 3, "Vnope", outfile=an["out"])
    elif w == "method":
        d = ahkab.new_tran(0, 1, .1, method="NOPE", x0=None, outfile=an["out"])
    elif w == "type":
        d["type"] = "nope"
    elif w == "argument":
        d = {"type": "dc", "source": "V1"}
    elif w == "keyword":
        d["bogus"] = 1
    elif w == "sweep":
        d = ahkab.new_ac(1, 10, 3, sweep_type="FOO", x0=None, outfile=an["out"])
    elif w == "stop":
        d = ahkab.new_tran(0, -1, .1, x0=None, outfile=an["out"])
    return d


def vector(cj, seed):
    import random
    import ahkab
    r = random.Random(seed)
    c = cm.build(cj)
    return ahkab.new_x0(c, {"V(%s)" % n: round(r.uniform(-2, 2), 3) for n in cm.nodes_of(cj)})


def typ(an):
    w = an.get("wrong")
    return {"dc_source": "dc", "method": "tran", "argument": "dc", "sweep": "ac", "stop": "tran"}.get(w, an["type"])


def file_of(an):
    """The files an analysis may write to: its name and what begins with it."""
    return an["out"]


def shot(r):
    if r is None:
        return None
    if isinstance(r, tuple):
        a, tf = r
        s = repr(sorted((str(k), str(a[str(k)])) for k in a.keys()))
        if tf:
            s += repr(sorted(str(k) for k in tf.keys()))
        return {"type": "Symbolic", "data": [("r", s)]}
    return scen.snap(r)


def content(d, out):
    """Data rows of every file of this output name."""
    o = {}
    for f, b in scen.listing(d).items():
        if os.path.basename(f).split(".")[0] == out:
            if f.endswith("opinfo"):
                o[os.path.basename(f)] = 1
                continue
            o[os.path.basename(f)] = [l for l in b.split(b"\n") if l and not l.startswith(b"#")]
    return o


class Watch(object):
    """Names of the analyses whose files were written, in order; fails the n-th write."""

    def __init__(self, at=None, kind=None):
        self.at, self.kind, self.n, self.order, self.writes, self.fired = at, kind, 0, [], {}, None
        self.rels = []

    def __call__(self, when, i, op, rel):
        if when != "before" or op not in ("open", "write"):
            return
        b = os.path.basename(rel)
        name = b.split(".")[0]
        if not self.order or self.order[-1] != name:
            self.order.append(name)
        if op == "write":
            self.writes[name] = self.writes.get(name, 0) + 1
        if self.at is not None and self.n == self.at:
            self.n += 1
            self.fired = name
            if self.kind == "intr":
                raise KeyboardInterrupt()
            raise OSError(5, "Input/output error (simulated)", rel)
        self.n += 1


def failing():
    st = {"i": 0, "at": None, "fired": False}

    def hook(*a):
        if st["at"] is not None:
            st["i"] += 1
            if st["i"] - 1 == st["at"]:
                st["fired"] = True
                raise ZeroDivisionError("device")

    class Fn(object):
        def __init__(self, f):
            self.f, self._type = f, getattr(f, "_type", "V")

        def __str__(self):
            return self.f.__str__()

        def __call__(self, t):
            hook()
            return self.f(t)

        def __deepcopy__(self, memo):
            return self
    st["hook"], st["wrap"] = hook, lambda e, f: Fn(f)
    return st


def run(case, ctx):
    import ahkab
    util.set_options({"vea": 1e-8, "ver": 1e-6, "iea": 1e-11, "ier": 1e-6})
    circs, reqs = case["circs"], case["reqs"]
    memo = {}

    def alone(ci, chain):
        """What the last request of the chain gives, in a fresh process."""
        key = (ci, tuple(chain))
        if key not in memo:
            d = ctx.path("r%d" % len(memo))
            os.mkdir(d)

            def fresh():
                c = cm.build(circs[ci])
                w = Watch()
                with util.quiet(), seams.disk_faults({}, observer=w):
                    r = util.attempt(ahkab.run, c, [request(reqs[q], circs[0]) for q in chain])
                if isinstance(r, util.Failed):
                    return ("failed", type(r.exc).__name__ if r.exc is not None else "None", w.writes, None)
                q = chain[-1]
                return ("ok", shot(r[reqs[q]["type"]]), w.writes, content(d, reqs[q]["out"]) if reqs[q]["out"] else None)
            code, v = scen.in_child(fresh, d)
            if code != 0:
                raise core.Violation("run", "a fresh run ended with status %s" % code)
            memo[key] = v
        return memo[key]

    os.mkdir(ctx.path("h"))
    os.chdir(ctx.path("h"))
    C, fl = {}, {}
    for ci, cj in enumerate(circs):
        fl[ci] = failing()
        C[ci] = cm.build(cj, hook=fl[ci]["hook"], fnwrap=fl[ci]["wrap"])
    for q, an in enumerate(reqs):      # each wrong request is refused
        if an.get("wrong") and alone(0, (q,))[0] != "failed":
            ctx.count("wrong_request_accepted")
            return
    objs = {}
    queue = []            # model: requests as they were when queued
    carried = {}          # circuit -> last op of an unfinished run of the queue

    def obj(q):
        if q not in objs:
            objs[q] = request(reqs[q], circs[0])
        return objs[q]

    for k, op in enumerate(case["ops"]):
        if op[0] == "queue":
            try:
                ahkab.queue(*[obj(q) for q in op[1]])
            except Exception as e:
                return ctx.fail("queue", "queue() raised %r" % e)
            queue = queue + list(op[1])
            continue
        if op[0] == "mutate":
            d = objs.pop(op[1], None)     # the caller changes its own object; a new one is made next time
            if d is not None:
                if op[2] == "clear":
                    d.clear()
                elif op[2] == "del":
                    d.pop("type", None)
                elif op[2] == "x0" and isinstance(d.get("x0"), np.ndarray):
                    d["x0"][:] = 77.0
                else:
                    for kk in d:
                        if isinstance(d[kk], float):
                            d[kk] = d[kk] * 2 + 1
                    d["outfile"] = "mutated"
            continue
        ci, f = op[1], op[3]
        c = C[ci]
        listed = op[0] == "list"
        todo = list(op[2]) if listed else list(queue)
        w = Watch(*(f[1:] if f and f[0] == "disk" else ()))
        for q in range(len(reqs)):
            if reqs[q]["out"]:
                for p in os.listdir("."):
                    if p.split(".")[0] == reqs[q]["out"]:
                        os.remove(p)
        exc = r = None
        if listed:
            l = [copy.deepcopy(obj(q)) for q in todo]
            arg = {"list": l, "tuple": tuple(l), "dict": l[0]}[op[4]]
        if f and f[0] == "device":
            fl[ci].update(at=f[1], i=0, fired=False)
        if f and f[0] == "line":
            seams.trace_on(at=f[1])
        fired = False
        try:
            with util.quiet(), seams.disk_faults({}, observer=w):
                r = ahkab.run(c, arg) if listed else ahkab.run(c)
        except (KeyboardInterrupt, SystemExit, Exception) as e:
            exc = e
        finally:
            if f and f[0] == "line":
                fired = isinstance(exc, KeyboardInterrupt)
                seams.trace_off()
            fl[ci]["at"] = None
        if f and f[0] == "disk":
            fired = w.fired is not None
        if f and f[0] == "device":
            fired = fl[ci]["fired"]
        if fired:
            ctx.count("fault_%s" % (f[0] if f[0] != "disk" else f[0] + "_" + f[2]))
        ctx.nontrivial = ctx.nontrivial or len(todo) > 1 or bool(f)
        ctx.evals += 1
        if os.path.exists("mutated") or any(p.startswith("mutated") for p in os.listdir(".")):
            return ctx.fail("mutated", "a change of the request after it was queued took effect")

        # what the model says
        last = first = None if listed else carried.pop(ci, None)
        if not listed:
            carried.clear()
        want, order, done, failure = {}, [], 0, None
        for q in todo:
            an = reqs[q]
            uses = an.get("x0") in ("op", "op+ic") and not an.get("wrong")
            ref = alone(ci, ((last,) if last is not None and uses else ()) + (q,))
            if ref[0] == "failed":
                failure = ref[1]
                break
            done += 1
            if an["out"] and ref[3]:
                order.append(an["out"])
            want[an["type"]] = (q, ref)
            if an["type"] == "op":
                last = q
        if f and f[0] == "disk" and fired and exc is None:
            return ctx.fail("swallowed", "%s: an I/O fault in the file of %s was not reported" % (op, w.fired))
        if fired and exc is None:
            # a device failure taken for a failed solve: nothing to compare with
            ctx.count("device_fault_absorbed")
            return
        if fired and not todo:
            continue
        if fired:
            # cut short somewhere in the list: which one is seen from the files
            seen = names(w.order, todo, reqs)
            cand = candidates(seen, todo, reqs, lambda q: bool(alone(ci, (q,))[3]))
            if cand is None:
                return ctx.fail("order", "%s: files were written in the order %s, requested %s" % (op, seen, [reqs[q]["out"] for q in todo]))
            if not listed:
                # what stays queued is found out by the next run
                res = rest(queue, cand, reqs, C, ci, ctx, alone, first)
                if res is None:
                    return
                queue = []
                if res is False:
                    return
            continue
        if failure is not None:
            if exc is None:
                return ctx.fail("no-error", "%s: request %s fails alone with %s, here run() returned %s" % (op, reqs[todo[done]], failure, sorted(r)))
            if type(exc).__name__ != failure:
                return ctx.fail("error", "%s: %r instead of %s" % (op, exc, failure))
            ctx.count("failed_request")
            if not listed:
                queue = queue[done + 1:]
                if queue and last is not None:
                    carried[ci] = last
        else:
            if exc is not None:
                return ctx.fail("error", "%s: raised %r, each request works alone" % (op, exc))
            if not listed:
                queue = []
            if not isinstance(r, dict) or sorted(r) != sorted(want):
                return ctx.fail("results", "%s: results %s, expected %s" % (op, sorted(r) if isinstance(r, dict) else r, sorted(want)))
            for t in sorted(want):
                q, ref = want[t]
                d = scen.same(shot(r[t]), ref[1], rtol=1e-9, atol=1e-15)
                if d:
                    return ctx.fail("result", "%s: %s differs from what request %s gives alone: %s" % (op, t, reqs[q], d))
        seen = [n for n in w.order if n in [reqs[q]["out"] for q in todo]]
        if dedup(seen) != dedup(order) and failure is None:
            return ctx.fail("order", "%s: files were written in the order %s, expected %s" % (op, dedup(seen), dedup(order)))
        for q in todo[:done]:
            out = reqs[q]["out"]
            n = sum(1 for p in todo if reqs[p]["out"] == out)
            uses = reqs[q].get("x0") in ("op", "op+ic")
            if out and n == 1 and not uses:
                ref = alone(ci, (q,))
                if w.writes.get(out, 0) != ref[2].get(out, 0):
                    return ctx.fail("once", "%s: %d writes to the file of request %s, alone %d" % (op, w.writes.get(out, 0), reqs[q], ref[2].get(out, 0)))
        for q in todo[done + 1:]:
            out = reqs[q]["out"]
            if out and w.writes.get(out) and out not in [reqs[p]["out"] for p in todo[:done + 1]]:
                return ctx.fail("order", "%s: request %s ran though one before it failed" % (op, reqs[q]))
        ctx.count("analyses", done)
        ctx.record([k, done, sorted(want), dedup(seen)])
    ctx.sig = [circs, reqs, case["ops"]]


def dedup(l):
    o = []
    for x in l:
        if not o or o[-1] != x:
            o.append(x)
    return o


def names(order, todo, reqs):
    outs = [reqs[q]["out"] for q in todo]
    return dedup([n for n in order if n in outs])


def candidates(seen, todo, reqs, writes):
    """Indices in todo of the analysis that may have been cut short, given the files seen."""
    out = []
    for n in range(len(todo)):
        w = [reqs[q]["out"] for q in todo[:n + 1] if reqs[q]["out"] and writes(q)]
        must = [reqs[q]["out"] for q in todo[:n] if reqs[q]["out"] and writes(q)]
        if seen == dedup(must) or seen == dedup(w) or seen == dedup(must + [reqs[todo[n]]["out"]]):
            out.append(n)
    return out or None


def rest(queue, cand, reqs, C, ci, ctx, alone, first):
    """Run what stayed queued; it has to be a suffix that begins after the one cut short."""
    import ahkab
    # the one cut short is consumed: what follows stays
    poss = [queue[n + 1:] for n in cand]
    if 0 in cand:
        poss.append(queue)       # not even the first one was begun
    w = Watch()
    exc = r = None
    for p in os.listdir("."):
        if p.startswith("q"):
            os.remove(p)
    try:
        with util.quiet(), seams.disk_faults({}, observer=w):
            r = ahkab.run(C[ci])
    except (KeyboardInterrupt, SystemExit, Exception) as e:
        exc = e
    good = None
    why = []
    for p in poss:
        bad = fits(p, queue, reqs, ci, r, exc, w, alone, first)
        if bad is None:
            good = p
            break
        why.append("%s: %s" % (p, bad))
    ctx.evals += 1
    if good is None:
        ctx.fail("remaining", "after a run of requests %s was cut short (at one of %s) the next run does not process what follows: %s" % (queue, cand, "; ".join(why)[:600]))
        return None
    ctx.count("remaining_run")
    return exc is None


def fits(p, queue, reqs, ci, r, exc, w, alone, first):
    """None if the run observed is one of requests p (operating points before p may be used)."""
    want, last, failure, order = {}, None, None, []
    start = len(queue) - len(p)
    prev = [q for q in queue[:start] if reqs[q]["type"] == "op"]
    lasts = [None] + [first] * (first is not None) + prev[-2:]
    errs = []
    for l0 in reversed(lasts):
        want, last, failure, order = {}, l0, None, []
        for q in p:
            an = reqs[q]
            uses = an.get("x0") in ("op", "op+ic") and not an.get("wrong")
            ref = alone(ci, ((last,) if last is not None and uses else ()) + (q,))
            if ref[0] == "failed":
                failure = ref[1]
                break
            if an["out"] and ref[3]:
                order.append(an["out"])
            want[an["type"]] = (q, ref)
            if an["type"] == "op":
                last = q
        seen = names(w.order, p, reqs)
        if failure is not None:
            if exc is None or type(exc).__name__ != failure:
                errs.append("%r instead of %s" % (exc, failure))
                continue
            if seen[:len(dedup(order))] != dedup(order):
                errs.append("order %s / %s" % (seen, order))
                continue
            return None
        if exc is not None:
            errs.append("raised %r" % exc)
            continue
        if sorted(r) != sorted(want):
            errs.append("results %s / %s" % (sorted(r), sorted(want)))
            continue
        if seen != dedup(order):
            errs.append("order %s / %s" % (seen, order))
            continue
        d = None
        for t in want:
            d = d or scen.same(shot(r[t]), want[t][1][1], rtol=1e-9, atol=1e-15)
        if d:
            errs.append(d)
            continue
        return None
    return errs[0] if errs else "?"


def shrink(case):
    for o in cm.shrink_list(case["ops"]):
        if o:
            yield dict(case, ops=o)
    for i, o in enumerate(case["ops"]):
        if o[0] == "queue" and len(o[1]) > 1:
            for l in cm.shrink_list(o[1]):
                yield dict(case, ops=case["ops"][:i] + [["queue", l]] + case["ops"][i + 1:])
        if o[0] == "list" and len(o[2]) > 1:
            for l in cm.shrink_list(o[2]):
                if l:
                    yield dict(case, ops=case["ops"][:i] + [[o[0], o[1], l] + o[3:]] + case["ops"][i + 1:])
