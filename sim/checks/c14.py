"""C14: a netlist means the same however its bytes arrive, and read errors surface."""
import contextlib
import io
import os
import sys

import numpy as np

from .. import circ as cm
from .. import core, decks, scen, seams, util
from . import c10

TIERS = {"quick": {"runs": 4500, "wall": 90}, "thorough": {"runs": 200000, "wall": 3000}}
RULE = ("random decks (elements, models, subcircuits, analyses, .ic, post-processing) delivered in random ways: file, relative "
        "path, symbolic link, other working directory, standard input; line endings, blank and comment lines, continuation "
        "lines, included files (also nested, mixed case names); reads of random sizes; a share of them with a failing open, "
        "read or close, an interrupt, a missing include or a cut subcircuit; distinct by deck, delivery and fault")
REAL = "ahkab.netlist_parser and ahkab.main, Python's text and buffer layers, a real file system"
STUB = "the raw file layer delivers chosen sizes and errors; standard input is a raw stream of the simulator"
ASSUME = ["included text acts as if pasted to the bottom of the netlist (the documented meaning)"]


# ----------------------------------------------------------------- decks

def gen(rng, tier):
    cj = scen.gen_circ(rng, kind=rng.choice(["lin", "lin", "dio", "mos", "sw"]), nmax=3)
    els = [e for e in cj["els"] if decks.can(e)]
    els.sort(key=lambda e: e[0] == "K")
    blocks = [[m] for m in decks.models(cj)]
    body = [decks.line(e) for e in els]
    nodes = sorted({n for e in els for n in cm.pins(e)} - {"0"})
    k = [l for l in body if l[0] in "kKlL"]
    rest = [l for l in body if l[0] not in "kKlL"]
    blocks += [[l] for l in rest]
    if k:
        blocks.insert(rng.randint(0, len(blocks)), k)
    subs = rng.choice([0, 0, 1, 1, 2])
    for s in range(subs):
        sb = [".subckt cell%d p q" % s, "Ra p m %s" % decks.num(cm.nice(rng, 100, 1e4)),
              "Cb m 0 %s" % decks.num(cm.nice(rng, 1e-9, 1e-7)), "Rc m q %s" % decks.num(cm.nice(rng, 100, 1e4))][:rng.choice([3, 4, 4])]
        if len(sb) == 3:
            sb.append("Rc p q 1k")
        sb.append(".ends")
        blocks.insert(rng.randint(0, len(blocks)), sb)
        for i in range(rng.randint(1, 2)):
            blocks.insert(rng.randint(0, len(blocks)), ["X%d%d name=cell%d p=%s q=%s" % (s, i, s, rng.choice(nodes), rng.choice(nodes + ["0"]))])
    ans = []
    for t in rng.choice([["op"], ["op", "tran"], ["ac"], ["op", "dc"], ["op", "ac", "tran"]]):
        a = scen.gen_an(rng, dict(cj, els=els), [t])
        if t == "tran":
            a["x0"] = "op" if "op" in [x["type"] for x in ans] else None
            a["method"] = rng.choice(["TRAP", "IMPLICIT_EULER", "GEAR2"])
        if t == "dc":
            a["sweep_type"] = "LIN"
        ans.append(a)
    dirs = [decks.directive(a) for a in ans]
    if rng.random() < .3:
        dirs.append(".ic name=start v(%s)=%s" % (rng.choice(nodes), decks.num(cm.nice(rng, .1, 5))))
    if rng.random() < .15:
        dirs.append(".four %s v(%s)" % (decks.num(1e3), rng.choice(nodes)))
    if rng.random() < .15:
        dirs.append(".plot tran v(%s)" % rng.choice(nodes))
    dirblocks = [[d] for d in dirs]
    if rng.random() < .5:
        blocks += dirblocks
    else:
        blocks = dirblocks + blocks
    title = rng.choice(["a deck", "Deck 1 + 2", "* starred", "", "R1 1 0 1k", ".op", "caf\u00e9 \u03a9"])
    d = {"title": title, "blocks": blocks}
    # delivery
    v = {"route": rng.choice(["file", "file", "rel", "link", "linkdir", "stdin", "stdin", "dash"]),
         "cwd": rng.choice(["same", "other"]), "chunk": rng.choice([None, rng.randrange(10 ** 6)]),
         "nl": rng.choice(["\n", "\n", "\r\n", "\r\n", "\r", "mix"]), "endnl": rng.random() < .7, "end": rng.random() < .5,
         "seed": rng.randrange(10 ** 9), "noise": rng.random() < .6, "split": rng.choice([0, 0, .3, .9]), "case": rng.random() < .2,
         "parts": [], "abs": rng.random() < .4, "name": rng.choice(["deck.ckt", "Deck.CKT", "n", "a b.ckt", "d.\u00e9"])}
    n = len(blocks)
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        v["parts"].append(rng.randint(0, n))
    v["parts"].sort()
    v["nested"] = rng.random() < .4
    v["incname"] = rng.choice(["part%d.inc", "Part%d.Inc", "sub/p%d.inc", "SUB/p%d"])
    v["incat"] = rng.random()
    v["run"] = rng.random() < .2
    f = None
    if rng.random() < .45:
        f = {"kind": rng.choice(["eio", "eio", "eio", "intr", "emfile", "missing", "isdir", "cut", "cut", "close"]), "at": rng.random()}
        if f["kind"] in ("missing", "isdir") and not v["parts"]:
            v["parts"] = [rng.randint(0, n)]
        if f["kind"] == "cut" and not subs:
            f = None
    return {"deck": d, "v": v, "fault": f}


def files(d, v):
    """The deck as {name: list of logical lines}; includes are pasted at the bottom."""
    cuts = [0] + v["parts"] + [len(d["blocks"])]
    parts = [[l for b in d["blocks"][cuts[i]:cuts[i + 1]] for l in b] for i in range(len(cuts) - 1)]
    names = [None] + [v["incname"] % i for i in range(1, len(parts))]
    out = {None: [d["title"]] + parts[0]}
    for i in range(1, len(parts)):
        out[names[i]] = parts[i]
    for i in range(1, len(parts)):
        # pasted in the order met: a chain, or all from the main file
        host = names[i - 1] if v["nested"] else None
        out[host] = out[host] + [("inc", names[i])]
    return out


def render(lines, v, rng, inc, main):
    """Bytes of one file, and the span of every subcircuit body in them."""
    out, spans, sub = "", [], None
    pos = []
    # the place of an include line does not matter, but never inside a subcircuit (or before the title)
    incs = [l for l in lines if isinstance(l, tuple)]
    plain = [l for l in lines if not isinstance(l, tuple)]
    if incs and v["incat"] < .5:
        ok, depth = [], 0
        for i, l in enumerate(plain):
            if i >= (1 if main else 0) and not depth:
                ok.append(i)
            if l.startswith(".subckt"):
                depth = 1
            elif l.startswith(".ends"):
                depth = 0
        ok.append(len(plain))
        at = ok[int(v["incat"] * 2 * len(ok))]
        plain[at:at] = incs
        lines = plain
    nls = ["\n", "\r\n"] if v["nl"] == "mix" else [v["nl"]]

    def put(s, first=False):
        nonlocal out
        pos.append(len(out))
        out += s + rng.choice(nls)
    for i, l in enumerate(lines):
        if isinstance(l, tuple):
            put(".include " + inc(l[1]))
            continue
        if main and i == 0:
            put(l)
            continue
        if v["noise"] and rng.random() < .3:
            # never blank between a line and a line continuing it: none follows here
            put(rng.choice(["", "  ", "* a comment", "*", "* .include nothing", "\t"]))
        if v["case"] and not l.startswith(".include"):
            l = "".join(c.upper() if rng.random() < .5 else c for c in l)
        w = l.split(" ")
        low = w[0].lower()
        if low == ".subckt":
            sub = len(out)
        phys = [w[0]]
        for x in w[1:]:
            if rng.random() < v["split"]:
                phys.append("+" + rng.choice(["", " ", "  "]) + x)
            else:
                phys[-1] += rng.choice([" ", " ", "  ", "\t"]) + x
        for j, p in enumerate(phys):
            if v["noise"]:
                p = rng.choice(["", "", " ", "\t"]) + p + rng.choice(["", "", " "])
            put(p)
            if low == ".subckt" and j == len(phys) - 1:
                head = len(out)
        if low == ".ends":
            # cut anywhere behind the header: the body or the closing line is lost
            spans.append((head, len(out) - len(p) - 2))
            sub = None
    if v["end"]:
        put(".end")
        put("Rjunk x 0 bad ignored")
    elif not v["endnl"]:
        out = out.rstrip("\r\n")
    return out, spans


# ----------------------------------------------------------------- the same?

def dump(x, depth=6):
    if x is None or isinstance(x, (bool, int, str)):
        return x
    if isinstance(x, (float, complex, np.floating, np.integer)):
        return repr(x)
    if isinstance(x, np.ndarray):
        return [str(x.shape)] + [repr(y) for y in x.ravel().tolist()]
    if depth <= 0:
        return type(x).__name__
    if isinstance(x, dict):
        return sorted(([str(k), dump(v, depth - 1)] for k, v in x.items()), key=repr)
    if isinstance(x, (list, tuple)):
        return [dump(y, depth - 1) for y in x]
    if callable(x) and not hasattr(x, "__dict__"):
        return "callable"
    return [type(x).__name__] + sorted(([k, dump(v, depth - 1)] for k, v in getattr(x, "__dict__", {}).items()), key=repr)


def meaning(got):
    """Everything a netlist determines, as plain data."""
    from ahkab import netlist_parser as P
    c, dirs, post = got

    def el(e):
        n = [c.nodes_dict.get(getattr(e, a)) for a in ("n1", "n2", "sn1", "sn2", "nb", "ng") if hasattr(e, a)]
        return [e.part_id, n, dump(e)]
    return {"title": c.title, "nodes": sorted(map(str, c.nodes_dict.items())), "elements": [el(e) for e in c], "text": str(c),
            "models": dump(getattr(c, "models", {})), "analyses": dump(P.parse_analysis(c, dirs)),
            "ics": dump(P.parse_ics(dirs)), "post": dump(attempt_post(c, post))}


def attempt_post(c, post):
    from ahkab import netlist_parser as P
    try:
        return P.parse_postproc(c, post)
    except Exception as e:
        return type(e).__name__


def diff(a, b):
    for k in sorted(a):
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if k == "elements":
                if [e[0] for e in x] != [e[0] for e in y]:
                    return "elements %s instead of %s" % ([e[0] for e in x], [e[0] for e in y])
                for p, q in zip(x, y):
                    if p != q:
                        return "element %s: %s instead of %s" % (p[0], str(p)[:200], str(q)[:200])
            return "%s: %s instead of %s" % (k, str(x)[:300], str(y)[:300])
    return None


class RawIn(io.RawIOBase):
    """Standard input as a raw stream: pieces of any size, faults at will."""

    def __init__(self, data, chunk, fault):
        self.data, self.rng, self.fault = data, core.rng_for(chunk, "stdin", 0) if chunk is not None else None, fault
        self.pos = self.n = 0
        self.fired = False

    def readable(self):
        return True

    def readinto(self, b):
        n = self.n
        self.n += 1
        if self.fault is not None and self.pos >= self.fault[1]:
            self.fired = True
            if self.fault[0] == "intr":
                raise KeyboardInterrupt()
            raise OSError(5, "Input/output error")
        k = len(b)
        if self.rng is not None:
            k = min(k, self.rng.choice([1, 2, 3, 7, 40, 200]))
        if self.fault is not None:
            k = min(k, max(1, self.fault[1] - self.pos))
        part = self.data[self.pos:self.pos + k]
        b[:len(part)] = part
        self.pos += len(part)
        return len(part)


@contextlib.contextmanager
def stdin(raw):
    old = sys.stdin
    sys.stdin = io.TextIOWrapper(io.BufferedReader(raw), encoding="utf-8")
    try:
        yield
    finally:
        sys.stdin = old


# ----------------------------------------------------------------- a run

def run(case, ctx):
    import ahkab
    from ahkab import netlist_parser as P
    d, v, f = case["deck"], case["v"], case["fault"]
    rng = core.rng_for(v["seed"], "render", 0)
    # the plain deck: one file, one line each
    rd = ctx.path("plain.ckt")
    with seams.real["open"](rd, "w", encoding="utf-8") as fp:
        fp.write("\n".join([d["title"]] + [l for b in d["blocks"] for l in b]) + "\n")
    with util.quiet():
        try:
            want = meaning(P.parse_circuit(rd))
        except Exception as e:
            return ctx.fail("plain", "the plain deck is refused: %r" % e)
        wres = None
        if v["run"]:
            def plain():
                try:
                    with seams.solver_faults({}, budget=1500):
                        r = util.attempt(ahkab.main, rd, "plain", 0)
                except core.Budget:
                    return None
                return r.why if isinstance(r, util.Failed) else c10.snaps(r)
            os.mkdir(ctx.path("ref"))
            if not any(b[0].startswith((".plot", ".four")) for b in d["blocks"]):
                wres = scen.in_child(plain, ctx.path("ref"))
                if wres == (0, None):
                    wres = None
                    ctx.count("run_too_long")
    # the delivery
    home = ctx.path("Home dir" if not v["parts"] else "Home")
    os.mkdir(home)
    other = ctx.path("elsewhere")
    os.mkdir(other)
    fs = files(d, v)
    std = v["route"] in ("stdin", "dash")
    name = v["name"]
    spans = {}
    base = other if std and v["cwd"] == "other" else home      # where relative includes are looked for
    cwd = other if v["cwd"] == "other" else home

    def inc(n):
        return os.path.join(base, n) if v["abs"] else n
    data = {}
    linked = v["route"] == "link" and not v["parts"]
    for k in fs:
        r = core.rng_for(v["seed"], str(k), 1)
        text, sp = render(fs[k], v, r, inc, k is None)
        data[k] = text
        if sp:
            spans[k] = sp
    if f and f["kind"] == "cut":
        ks = [(k, s) for k in sorted(spans, key=str) for s in spans[k]]
        if not ks:
            f = None
        else:
            k, (a, b) = ks[int(f["at"] * len(ks))]
            at = a + int((f["at"] * 997 % 1) * max(1, b - a))
            data[k] = data[k][:at]
    if f and f["kind"] in ("missing", "isdir"):
        ks = sorted(k for k in fs if k is not None)
        gone = ks[int(f["at"] * len(ks))]
    else:
        gone = None
    for k in fs:
        p = os.path.join(home, name) if k is None else os.path.join(base, k)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        if k is not None and k == gone:
            if f["kind"] == "isdir":
                os.mkdir(p)
            continue
        with seams.real["open"](p, "wb") as fp:
            fp.write(data[k].encode("utf-8"))
    if cwd != base and v["seed"] % 2 and not v["abs"]:
        for k in fs:                    # what lies in the current directory is of no interest
            if k is not None:
                p = os.path.join(cwd, k)
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                with seams.real["open"](p, "w") as fp:
                    fp.write("Rdecoy n1 0 12345\n")
                ctx.count("decoy")
    path = os.path.join(home, name)
    if linked:
        os.symlink(path, os.path.join(other, "lnk.ckt"))
        path = os.path.join(other, "lnk.ckt")
    elif v["route"] == "linkdir":
        os.symlink(home, ctx.path("ld"))
        path = os.path.join(ctx.path("ld"), name)
    elif v["route"] == "rel":
        path = os.path.relpath(path, cwd)
        if v["seed"] % 3 == 0:
            path = os.path.join(".", path)
    os.chdir(cwd)
    raw = None
    arg = path

    def source(fault=None, chunk=None):
        nonlocal raw, arg
        if std:
            raw = RawIn(data[None].encode("utf-8"), chunk, fault)
            arg = "-" if v["route"] == "dash" else None
            return stdin(raw)
        return contextlib.nullcontext()

    def read():
        return meaning(P.parse_circuit(arg, std))

    # without a fault first: counts the operations
    must, plan, sf = False, {}, None
    if f and f["kind"] in ("missing", "isdir", "cut"):
        must = True
    else:
        with util.quiet(), source(None, v["chunk"]), seams.disk_faults({}, chunk_seed=v["chunk"]):
            got = util.attempt(read)
            ops = list(seams.disk.trace)
            left = sorted(set(map(str, seams.disk.open_files.values())))
        ctx.evals += 1
        if isinstance(got, util.Failed):
            return ctx.fail("refused", "delivered by %s%s: %s" % (v["route"], " with includes" if v["parts"] else "", got.why))
        e = diff(got, want)
        if e:
            return ctx.fail("differs", "delivered by %s%s: %s" % (v["route"], " with includes" if v["parts"] else "", e))
        if left:
            return ctx.fail("open", "left open: %s" % left)
        ctx.count("read_ok_" + v["route"])
    fired = True
    if f:
        k = f["kind"]
        if k in ("eio", "intr", "emfile", "close"):
            want_op = {"eio": ("open", "read"), "intr": ("open", "read"), "emfile": ("open",), "close": ("close",)}[k]
            idx = [i for i, o in enumerate(ops) if o[0] in want_op]
            if std and (not idx or (f["at"] < .5 and k in ("eio", "intr"))):
                if k in ("emfile", "close"):
                    return
                sf = (k, int(f["at"] * 2 % 1 * len(data[None].encode("utf-8"))))
            elif idx:
                plan = {idx[int(f["at"] * 2 % 1 * len(idx))]: {"k": "eio" if k == "close" else k}}
            else:
                return
        with util.quiet(), source(sf, v["chunk"]), seams.disk_faults(plan, chunk_seed=v["chunk"]):
            exc = got = None
            try:
                got = read()
            except core.Budget:
                raise
            except BaseException as e:
                exc = e
            fired = bool(seams.disk.fired) if plan else (raw.fired if sf else True)
            left = sorted(set(map(str, seams.disk.open_files.values())))
            leaked = util.leaked_fds(ctx.scratch)
        ctx.evals += 1
        ctx.count("fault_%s%s" % (k, "" if fired else "_not_reached"))
        if exc is None:
            if must:
                return ctx.fail("silent", "%s: a circuit of %d elements was returned" % (
                    {"missing": "an included file is missing", "isdir": "an included file is a directory", "cut": "a subcircuit is cut short"}[k], len(got["elements"])))
            e = diff(got, want)
            if e:
                return ctx.fail("silent", "after a read fault (%s): %s" % (k, e))
            if fired and k == "intr":
                return ctx.fail("swallowed", "the interrupt did not reach the caller")
        else:
            if not fired:
                return ctx.fail("refused", "no fault, but %r" % exc)
            if k == "intr" and not isinstance(exc, KeyboardInterrupt):
                return ctx.fail("swallowed", "the interrupt became %r" % exc)
        if left or leaked:
            return ctx.fail("open", "left open after %s (%r): %s" % (k, exc, left or leaked))
        exc = None
        if not must:
            with util.quiet(), source(None, None):
                got = util.attempt(read)
            e = got.why if isinstance(got, util.Failed) else diff(got, want)
            if e:
                return ctx.fail("later", "reading again after %s: %s" % (k, e))
        else:
            with util.quiet():
                got = util.attempt(lambda: meaning(P.parse_circuit(rd)))
            e = got.why if isinstance(got, util.Failed) else diff(got, want)
            if e:
                return ctx.fail("later", "reading the plain deck after %s: %s" % (k, e))
            def tail():
                return ahkab.main(arg, "out", 0)
            with util.quiet(), source(None, v["chunk"]):
                r = util.attempt(tail)
            if not isinstance(r, util.Failed):
                return ctx.fail("silent", "main() returned %s for a broken deck (%s)" % (sorted(r), k))
    elif wres is not None:
        def go():
            with source(None, v["chunk"]), util.quiet(), seams.disk_faults({}, chunk_seed=v["chunk"]):
                r = util.attempt(ahkab.main, arg, "out", 0)
                return r.why if isinstance(r, util.Failed) else c10.snaps(r)
        os.mkdir(ctx.path("run")) if not std else None
        res = scen.in_child(go, cwd)
        ctx.evals += 1
        if res[0] != wres[0]:
            return ctx.fail("main", "status %s instead of %s" % (res[0], wres[0]))
        a, b = res[1], wres[1]
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return ctx.fail("main", "main: %s instead of %s" % (str(a)[:200], str(b)[:200]))
        else:
            if sorted(a) != sorted(b):
                return ctx.fail("main", "results %s instead of %s" % (sorted(a), sorted(b)))
            for k in sorted(a):
                e = scen.same(a[k], b[k])
                if e:
                    return ctx.fail("main", "%s: %s" % (k, e))
            ctx.count("main_same")
    ctx.nontrivial = True
    ctx.sig = [d, v, f]
    ctx.record([want["text"], f, fired])


def shrink(case):
    d, v, f = case["deck"], case["v"], case["fault"]
    if f is None or f["kind"] not in ("missing", "isdir"):
        for i in range(len(v["parts"])):
            yield dict(case, v=dict(v, parts=v["parts"][:i] + v["parts"][i + 1:]))
    for k, x in (("chunk", None), ("nl", "\n"), ("noise", False), ("split", 0), ("case", False), ("end", False), ("endnl", True),
                 ("route", "file"), ("cwd", "same"), ("abs", False), ("name", "deck.ckt"), ("incname", "part%d.inc"), ("run", False)):
        if v[k] != x:
            yield dict(case, v=dict(v, **{k: x}))
    if d["title"] != "t":
        yield dict(case, deck=dict(d, title="t"))
    b = d["blocks"]
    for i in range(len(b)):
        if len(b) > 2:
            yield dict(case, deck=dict(d, blocks=b[:i] + b[i + 1:]), v=dict(v, parts=[min(p, len(b) - 1) for p in v["parts"]]))
    for x, blk in enumerate(b):
        if len(blk) > 3:
            for j in range(1, len(blk) - 1):
                yield dict(case, deck=dict(d, blocks=b[:x] + [blk[:j] + blk[j + 1:]] + b[x + 1:]))
