"""C16: results sent to standard output are complete and contain nothing but results."""
import io
import os
import re
import sys

import numpy as np

from .. import circ as cm
from .. import core, decks, scen, seams, util
from . import c10, c12

TIERS = {"quick": {"runs": 900, "wall": 90}, "thorough": {"runs": 80000, "wall": 3000}}
RULE = ("1-4 analyses of a random circuit directed to standard output through run(), main() or the command line, at any "
        "verbosity up to 3, with solver faults, failing sweep points and every convergence aid on the way, text of the user in "
        "between; the stream (any buffering, short writes) must hold exactly what the same analyses put into files; a share "
        "with a write error, a closed stream; distinct by circuit, requests, route, stream and faults")
REAL = "ahkab (requests, analyses, results, csvlib, command line), Python's text and buffer layers, numpy"
STUB = "the raw standard output stream of the process is the simulator's (pieces, errors); failing linear solves by plan"
ASSUME = ["the operating point report is printed only by a simulator running as a command line tool (options.cli)",
          "what an analysis puts into a named file is its table (judged by C07/C08)"]

RANK = {"op": 0, "dc": 1, "tran": 1, "ac": 1, "pss": 1}


def gen(rng, tier):
    route = rng.choice(["run", "run", "main", "main", "cli"])
    cj = scen.gen_circ(rng, kind=rng.choice(["lin", "dio", "dio", "mos", "sw"] + (["user"] if route == "run" else [])), nmax=3)
    if route != "run":
        cj = dict(cj, els=[e for e in cj["els"] if decks.can(e)])
    ans = []
    srcs = [e for e in cj["els"] if e[0] in "VI"]
    types = ["op", "dc", "dc", "tran", "tran", "ac"] + (["pss"] if cj["kind"] == "lin" else [])
    if not srcs:
        types = ["op", "tran"]
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        an = scen.gen_an(rng, cj, types)
        if route != "run" and an["type"] in [a["type"] for a in ans]:
            continue
        if an["type"] == "tran":
            an["method"] = rng.choice(["TRAP", "IMPLICIT_EULER", "GEAR2", "GEAR4"])
            an["x0"] = rng.choice(["op", None, None])
        if an["type"] == "dc" and route != "run":
            an["sweep_type"] = "LIN"
            an["start"], an["stop"] = sorted([an["start"], an["stop"]])
        ans.append(an)
    ans.sort(key=lambda a: RANK[a["type"]])
    if not any(a["type"] == "op" for a in ans):
        for a in ans:
            if a["type"] == "tran":
                a["x0"] = None
    ic = None
    if rng.random() < .25 and any(e[0] == "D" for e in cj["els"]):
        ic = rng.choice([.3, .6])
    st = {"kind": rng.choice(["text", "text", "line", "raw", "raw", "string"]), "chunk": rng.choice([None, rng.randrange(10 ** 6)]),
          "buf": rng.choice([64, 512, 8192])}
    case = {"circ": cj, "ans": ans, "route": route, "verbose": rng.choice([0, 1, 2, 3, 3]), "stream": st, "ic": ic,
            "cli": route == "cli" or rng.random() < .5, "list": rng.random() < .5,
            "say": [rng.random() < .3 for _ in range(len(ans) + 1)], "given": rng.random() < .5,
            "opt": dict(c10.BASE, **rng.choice([{}, {}, {"use_standard_solve_method": False}, {"use_gmin_stepping": False},
                                                {"dc_sweep_skip_allowed": False}, {"dense_matrix_limit": 0},
                                                {"dc_max_nr_iter": rng.choice([2, 3, 5])}, {"nl_voltages_lock": False}]))}
    if route == "run":
        case["cli"] = True
    if rng.random() < .55:
        case["solves"] = {str(rng.randrange(rng.choice([4, 30, 200]))): {"k": rng.choice(["sing", "nan", "inf"])}
                          for _ in range(rng.choice([1, 2, 4, 8]))}
    else:
        case["solves"] = {}
    if rng.random() < .15:
        # every solve of a stretch fails: points are skipped, aids are used up
        a = rng.randrange(60)
        case["solves"] = {str(i): {"k": "sing"} for i in range(a, a + rng.randint(3, 60))}
    if rng.random() < .3:
        case["fault"] = {"k": rng.choice(["eio", "epipe", "enospc", "enospc", "closed"]), "at": rng.random(), "frac": rng.choice([0, .5, .97])}
    else:
        case["fault"] = None
    return case


class RawOut(io.RawIOBase):
    def __init__(self, chunk=None, fault=None):
        self.got = bytearray()
        self.rng = core.rng_for(chunk, "stdout", 0) if chunk is not None else None
        self.fault = fault
        self.n = 0
        self.fired = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        i = self.n
        self.n += 1
        if self.fault is not None and i >= self.fault[1] and not self.fired:
            part = b[:int(len(b) * self.fault[2])]
            if part and len(part) < len(b):
                # a full disk or a gone reader takes what it can, then fails
                self.got += part
                self.fault = (self.fault[0], self.fault[1], 0)
                return len(part)
            self.fired = True
            e = {"eio": 5, "epipe": 32, "enospc": 28}[self.fault[0]]
            raise OSError(e, os.strerror(e))
        k = len(b)
        if self.rng is not None and k > 1:
            k = self.rng.choice([k, k, 1 + self.rng.randrange(k)])
        self.got += b[:k]
        return k


class Whole(io.RawIOBase):
    """Python's own text layer ignores short writes: not what is judged."""

    def __init__(self, raw):
        self.raw = raw

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        n = 0
        while n < len(b):
            n += self.raw.write(b[n:])
        return n


class Unbuffered(io.TextIOWrapper):
    buffer = property(lambda self: self.raw)


def stream(st, fault=None):
    raw = RawOut(st["chunk"], fault)
    k = st["kind"]
    if k == "string":
        return io.StringIO(newline=""), None
    if k == "raw":
        # python -u
        t = Unbuffered(Whole(raw), encoding="utf-8", write_through=True)
        t.raw = raw
    else:
        t = io.TextIOWrapper(io.BufferedWriter(raw, st["buf"]), encoding="utf-8", line_buffering=k == "line")
    return t, raw


STAMP = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\n")


def run(case, ctx):
    import ahkab
    import ahkab.__main__ as front
    cj, ans, route = case["circ"], case["ans"], case["route"]
    if not ans:
        return
    st = case["stream"]
    util.set_options(dict(case["opt"], cli=case["cli"]))
    deck = ctx.path("deck.ckt")
    lines = decks.deck(cj, ans) if route != "run" else []
    if case["ic"] is not None:
        lines = [l + " ic=%s" % case["ic"] if l[:1] == "D" else l for l in lines]
    with seams.real["open"](deck, "w") as fp:
        fp.write("\n".join(lines) + "\n")

    def go(named, out, raw=None):
        """The whole session; a list of what each step gave. The user gives up when the stream is broken."""
        res = []

        def say(i):
            if raw is not None and raw.fired:
                return
            if case["say"][i] and not named:
                out.write("user text %d\n" % i)
        with seams.solver_faults(case["solves"], budget=3000):
            if route == "run":
                c = cm.build(cj)
                rq = []
                for i, an in enumerate(ans):
                    r = scen.make(an, "f%d" % i if named else ["stdout", None][not case["given"]])
                    r["verbose"] = case["verbose"]
                    rq.append(r)
                if case["list"]:
                    say(0)
                    res.append(util.attempt(ahkab.run, c, rq))
                    say(1)
                else:
                    say(0)
                    last = None
                    for i, r in enumerate(rq):
                        if r["type"] == "tran" and isinstance(r["x0"], str):
                            r["x0"] = last
                        v = util.attempt(ahkab.run, c, r)
                        if r["type"] == "op" and not isinstance(v, util.Failed):
                            last = v["op"]
                        res.append(v)
                        if raw is not None and raw.fired:
                            break
                        say(i + 1)
            elif route == "main":
                say(0)
                a = (deck, "f") if named else (deck, "stdout") if case["given"] else (deck,)
                res.append(util.attempt(ahkab.main, *a, verbose=case["verbose"]))
                say(1)
            else:
                say(0)
                old = sys.argv
                sys.argv = ["ahkab", "-v", str(case["verbose"])] + (["-o", "f"] if named else ["-o", "stdout"] if case["given"] else []) + [deck]
                try:
                    res.append(util.attempt(front._cli))
                finally:
                    sys.argv = old
                say(1)
        return res

    def why(r):
        return r.why if isinstance(r, util.Failed) else "ok"

    def tofile():
        try:
            with util.quiet():
                res = go(True, None)
        except core.Budget:
            return "long", None
        return [why(r) for r in res], {f: scen.read(f) for f in sorted(os.listdir(".")) if os.path.isfile(f)}
    os.mkdir(ctx.path("ref"))
    code, v = scen.in_child(tofile, ctx.path("ref"))
    if code or v is None:
        return ctx.fail("run", "directed to files, the run ended with status %s" % code)
    wstat, fl = v
    if wstat == "long":
        ctx.count("skipped_long")
        return
    # what the stream has to hold
    want = []

    def said(i):
        if case["say"][i]:
            want.append(b"user text %d\n" % i)
    one = route != "run" or case["list"]
    said(0)
    for i, an in enumerate(ans):
        if route == "run":
            names = ["f%d%s" % (i, scen.ext(an))]
        else:
            names = ["f." + an["type"]]
        for n in names:
            if an["type"] == "op":
                if case["cli"] and n + "info" in fl:
                    want.append(("op", fl[n + "info"]))
            elif n in fl:
                want.append(fl[n])
        if not one:
            said(i + 1)
    if one:
        said(1)
    ctx.count("tables", len([w for w in want if not isinstance(w, bytes) or not w.startswith(b"user")]))

    def session(fault=None, closed=False):
        t, raw = stream(st, fault)
        e = io.StringIO()
        so, se = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = t, e
        try:
            if closed:
                t.close()
            try:
                res = [why(r) for r in go(False, t, raw)]
                ex = None
                if raw is not None and not closed:
                    t.flush()
            except KeyboardInterrupt:
                raise
            except (OSError, ValueError) as x:
                res, ex = None, x
        finally:
            sys.stdout, sys.stderr = so, se
        if closed:
            got = b""
        elif raw is None:
            got = t.getvalue().encode("utf-8")
        else:
            got = bytes(raw.got)
        n = raw.n if raw is not None else 0
        # what the stream could not write is not written at exit either
        if raw is not None:
            raw.write = lambda b: len(b)
        return res, ex, got, n, e.getvalue(), raw.fired if raw is not None else False

    d = ctx.path("out")
    os.mkdir(d)
    code, v = scen.in_child(session, d)
    if code:
        return ctx.fail("run", "directed to stdout, the run ended with status %s" % code)
    res, ex, got, nw, err, _ = v
    ctx.evals += 1
    if ex is not None:
        return ctx.fail("refused", "%r, without any error of the stream" % ex)
    if res != wstat:
        return ctx.fail("outcome", "directed to stdout %s, directed to files %s" % (res, wstat))
    m = match(got, want)
    if m:
        return ctx.fail("stream", "%s, v=%d, %s: %s" % (route, case["verbose"], [a["type"] for a in ans], m))
    ctx.count("stream_%s" % st["kind"])
    if case["solves"]:
        ctx.count("with_solver_faults")
    if err.strip():
        ctx.count("diagnostics_on_stderr")
    if wstat != ["ok"] * len(wstat):
        ctx.count("with_failed_analysis")
    extra = [f for f in os.listdir(d)]
    if extra:
        return ctx.fail("files", "files appeared although everything went to stdout: %s" % extra)
    f = case["fault"]
    if f and got and st["kind"] != "string":
        k = f["k"]

        def faulted():
            if k == "closed":
                a = session(closed=True)
            else:
                a = session((k, int(f["at"] * nw), f["frac"]))
            # the medium works again: the same to a new stream, and to files
            b = session()
            with util.quiet():
                r = [why(x) for x in go(True, None)]
            return a, b, r, {f: scen.read(f) for f in sorted(os.listdir(".")) if os.path.isfile(f)}
        d2 = ctx.path("flt")
        os.mkdir(d2)
        code, v = scen.in_child(faulted, d2)
        if code:
            return ctx.fail("run", "with a failing stdout, the run ended with status %s" % code)
        (res, ex, got, n2, err, fired), b, r, fl2 = v
        ctx.evals += 1
        ctx.count("fault_" + k + ("" if fired or k == "closed" else "_not_reached"))
        bad = ex is not None or (res is not None and res != wstat)
        if not bad and (fired or k == "closed") and match(got, want):
            return ctx.fail("silent", "stdout failed (%s), yet nothing was reported; the stream lacks results" % k)
        if fired and bad and k != "closed":
            # what got through is the beginning of the true stream
            m = match(got, want, prefix=True)
            if m:
                return ctx.fail("damaged", "after %s on stdout: %s" % (k, m))
        if b[0] != wstat or b[1] is not None:
            return ctx.fail("later", "stdout works again: %s %r instead of %s" % (b[0], b[1], wstat))
        m = match(b[2], want)
        if m:
            return ctx.fail("later", "stdout works again: %s" % m)
        if r != wstat:
            return ctx.fail("later", "directed to files after a failure of stdout: %s" % (r,))
        for n in fl:
            x, y = (STAMP.sub(b"", z) for z in (fl[n], fl2.get(n, b"")))
            if x != y:
                return ctx.fail("later", "file %s differs after a failure of stdout" % n)
    ctx.nontrivial = any(not isinstance(w, bytes) or not w.startswith(b"user") for w in want)
    ctx.sig = [cj["els"], ans, route, st, case["solves"], f, case["verbose"]]
    ctx.record([wstat, len(want)])


def match(got, want, prefix=False):
    pos = 0
    for w in want:
        if prefix and pos >= len(got):
            return None
        if isinstance(w, tuple):
            m = STAMP.match(got, pos)
            if not m:
                if prefix and len(got) - pos < 20:
                    return None
                return "no report of the operating point at %r" % got[pos:pos + 60]
            pos = m.end()
            w = w[1][w[1].index(b"\n") + 1:]
        part = got[pos:pos + len(w)]
        if part != w:
            if prefix and w.startswith(part):
                return None
            i = next((i for i, (a, b) in enumerate(zip(part, w)) if a != b), min(len(part), len(w)))
            return "at byte %d of %d: %r instead of %r" % (pos + i, len(got), got[max(0, pos + i - 20):pos + i + 60], w[max(0, i - 20):i + 60])
        pos += len(w)
    if pos < len(got):
        return "%d bytes too many: %r" % (len(got) - pos, got[pos:pos + 120])
    return None


def shrink(case):
    for a in cm.shrink_list(case["ans"]):
        if a:
            yield dict(case, ans=a, say=case["say"][:len(a) + 1])
    for k in list(case["solves"]):
        yield dict(case, solves={x: y for x, y in case["solves"].items() if x != k})
    for k, x in (("fault", None), ("verbose", 0), ("ic", None), ("list", True), ("route", "main"), ("say", [False] * 6),
                 ("stream", dict(case["stream"], chunk=None)), ("stream", {"kind": "text", "chunk": None, "buf": 8192})):
        if case[k] != x and not (k == "route" and case["route"] == "run"):
            yield dict(case, **{k: x})
    keep = [a["source"] for a in case["ans"] if a.get("source")] + [a["input_source"] for a in case["ans"] if a.get("input_source")]
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        yield dict(case, circ=c)
