"""C15: temporary files are gone after exit, and no other file is touched."""
import ctypes
import errno
import gc
import os
import pickle
import shutil
import sys
import tempfile
import traceback

from .. import circ as cm
from .. import core, decks, scen, seams, util

TIERS = {"quick": {"runs": 420, "wall": 110}, "thorough": {"runs": 40000, "wall": 3000}}
RULE = ("random sessions of analyses with and without a named output (run, queue, a request used twice, the analysis functions, "
        "main, the command line), some failing, interrupted or hit by file faults, with directory changes, forked children, "
        "dropped results and a temporary-file cleaner in between, ending by return, exception, exit or interrupt of a real "
        "interpreter shutdown; distinct by session")
REAL = "ahkab, numpy, scipy, tempfile, the interpreter's shutdown, a real file system"
STUB = "failing file operations, solver failures and device interrupts are injected; an audit hook watches file calls"
ASSUME = ["an interrupt between the creation of a temporary file and the next statement is not injected",
          "a file whose removal the operating system refuses may stay"]

DECOYS = {"work": ["r1", "r1.op.bak", "r10.dc", "r1.tran~", "notes.txt", "tmpab12cd.op", "deck.lis", "ahkab.log", "r2.opinfo.old",
                   "sub/r1", "sub/data.csv", "sub/tmpzz.tran"],
          "tmp": ["tmpq1w2e3.op", "tmpq1w2e3.opinfo", "other.tran", "tmp_dir/x.ac", "tmpa.symbolic", "tmpa.symbolic.tfs"],
          "home": [".ahkabrc", ".config/ahkab/options"]}


def gen(rng, tier):
    circs = [scen.gen_circ(rng, kind=rng.choice(["lin", "lin", "user", "dio"]), nmax=2) for _ in range(rng.choice([1, 1, 2]))]
    steps = []
    n = 0
    for k in range(rng.randint(2, 8)):
        o = rng.choice(["an"] * 10 + ["chdir", "reread", "fork", "tidy", "drop"])
        if o == "an":
            steps.append(gen_step(rng, circs, n))
            n += 1
        elif o == "chdir":
            steps.append(["chdir", rng.choice(["sub", ".", "..", "sub"])])
        elif o == "fork":
            steps.append(["fork", rng.choice(["idle", "idle", "an", "read"]), gen_step(rng, circs, 50 + n, plain=True)])
        elif o in ("tidy", "drop"):
            steps.append([o, rng.randrange(6)])
        else:
            steps.append([o])
    mk = {}
    if rng.random() < .15:
        mk[str(rng.randrange(6))] = rng.choice(["enospc", "emfile", "eacces"])
    rm = {}
    if rng.random() < .12:
        rm[str(rng.randrange(5))] = rng.choice(["eacces", "eio"])
    return {"circs": circs, "steps": steps, "exit": rng.choice(["return", "return", "exit", "exception", "interrupt"]),
            "mk": mk, "rm": rm, "old": sorted(rng.sample(["r0.op", "r0.opinfo", "r1.tran", "r1.dc", "r2.ac", "sub/r2.tran", "r0.tran"],
                                                         rng.choice([0, 0, 2, 4])))}


def gen_step(rng, circs, n, plain=False):
    ci = rng.randrange(len(circs))
    cj = circs[ci]
    route = rng.choice(["run"] * 5 + ["queue", "twice", "twice", "direct", "main", "cli"])
    if plain:
        route = "run"
    types = ["op", "op", "dc", "tran", "tran", "ac", "pss"]
    if route in ("main", "cli") and not all(decks.can(e) for e in cj["els"]):
        route = "run"
    if route == "direct":
        types = ["op", "dc", "tran", "ac", "symbolic"]
    elif route not in ("main", "cli"):
        types += ["pz", "symbolic", "symbolic", "pss"]
    t = rng.choice(types)
    if t in ("symbolic", "pz") and (len(cj["els"]) > 6 or cj["kind"] != "lin"):
        t = "op"
    an = scen.gen_an(rng, cj, [t])
    if t == "tran":
        an["x0"] = None
        an["use_step_control"] = rng.random() < .3
    if t == "ac":
        an["x0"] = rng.choice([None, "op"]) if route not in ("direct",) else None
    if route in ("main", "cli") and t == "dc":
        an["sweep_type"] = "LIN"
    an["vb"] = rng.choice([0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 6])
    out = None
    if rng.random() < .45:
        out = rng.choice(["r%d" % (n % 4), "r%d" % (n % 4), "sub/r%d" % n, "a b%d" % n, "r.%d" % n, "/work/r%d" % n, "nodir/r%d" % n, "r%d.op" % n])
    f = None
    if rng.random() < .4:
        f = rng.choice([["disk", rng.randrange(0, 14), rng.choice(["enospc", "eio", "intr", "eacces"]), rng.choice([0., .5])],
                        ["disk", rng.randrange(0, 60), rng.choice(["enospc", "eio", "intr"]), 0.],
                        ["solve", rng.randrange(0, 40), rng.choice(["singular", "intr", "nomem", "nan", "overflow"])],
                        ["solves", rng.randrange(0, 30), "singular"],
                        ["device", rng.randrange(0, 200), rng.choice(["intr", "boom"])],
                        ["function", rng.randrange(0, 200), rng.choice(["intr", "boom"])],
                        ["wrong", rng.choice(["source", "method", "points"])]])
    return ["an", ci, an, out, route, f]


class Boom(Exception):
    pass


def files_of(an, out, route):
    """Documented names of what an analysis with a named output may write."""
    if route in ("main", "cli"):
        b = out + "." + an["type"]
    elif route == "direct":
        b = out
    else:
        b = out + scen.ext(an)
    r = [b]
    if an["type"] == "op":
        r.append(b + "info")
    if an["type"] == "symbolic":
        r.append(b + ".tfs")
    return r


class Session(object):
    def __init__(self, case, top, fd):
        self.case, self.top, self.fd = case, top, fd
        self.here = os.path.join(top, "work")
        self.allowed = set()
        self.must = set()
        self.res = []            # [result, snapshot, temp file names, circuit]
        self.old = set()
        self.free = True         # the simulator's own file operations
        self.stats = {}
        self.mk = self.rmn = 0
        self.kept = set()

    def say(self, rule, msg):
        os.write(self.fd, (rule + "\t" + msg.replace("\n", " ") + "\n").encode())

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # -- the watch on file calls
    def hook(self, event, args):
        if event == "open":
            path, mode, flags = args
            if not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                return
            what = [path]
        elif event in ("os.remove", "os.rmdir", "os.truncate", "os.mkdir", "os.chmod", "os.chown", "os.utime"):
            what = args[:1]
        elif event in ("os.rename", "os.link", "os.symlink"):
            what = args[:2]
        else:
            return
        if self.free:
            return
        for p in what:
            if isinstance(p, int) or p is None:
                continue
            p = os.path.abspath(os.fsdecode(os.fspath(p)))
            if p.startswith("/dev/") and not p.startswith("/dev/shm"):
                continue
            if p in self.allowed:
                continue
            if not p.startswith(self.top + os.sep):
                self.say("outside", "%s of %s" % (event, p))
            elif p in self.old:
                self.say("foreign", "%s of the file %s" % (event, os.path.relpath(p, self.top)))

    def new_temps(self):
        d = os.path.join(self.top, "tmp")
        return set(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs) - self.old

    def result_of(self, r):
        if isinstance(r, dict):
            r = list(r.values())[-1] if r else None
        return r

    def where(self, out):
        if out is not None and out.startswith("/work/"):
            return os.path.join(self.top, out[1:])
        return out

    def an(self, st, main=True):
        import ahkab
        import ahkab.__main__ as front
        from ahkab import dc_analysis, transient, ac, symbolic
        _, ci, an, out, route, f = st
        cj = self.case["circs"][ci]
        o = self.where(out)
        if o is not None:
            self.allowed.update(os.path.abspath(x) for x in files_of(an, o, route))
        hook = fn = None
        sp, dp = {}, {}
        left = [f[1]] if f and f[0] in ("device", "function") else [0]
        if f:
            if f[0] == "disk":
                dp = {f[1]: {"k": f[2], "frac": f[3]}}
            elif f[0] == "solve":
                sp = {f[1]: f[2]}
            elif f[0] == "solves":
                sp = {i: f[2] for i in range(f[1], f[1] + 400)}

            def bad():
                left[0] -= 1
                if left[0] < 0:
                    self.count("fault_" + f[0] + "_" + f[2])
                    raise KeyboardInterrupt() if f[2] == "intr" else Boom("simulated")
            if f[0] == "device":
                hook = lambda *a: bad()
            elif f[0] == "function":
                def fn(e, g):
                    def h(t):
                        bad()
                        return g(t)
                    return h
        before = self.new_temps()
        c = None
        if route not in ("main", "cli"):
            c = cm.build(cj, hook=hook, fnwrap=fn)
        a2 = dict(an)
        vb = a2.pop("vb", 0)
        if f and f[0] == "wrong":
            if f[1] == "source":
                a2.update({k: "Vnope" for k in ("source", "input_source") if k in a2})
            elif f[1] == "method":
                a2.update({k: "NOPE" for k in ("method", "sweep_type") if k in a2})
            elif "points" in a2:
                a2["points"] = 0
        deck = os.path.join(self.top, "deck.ckt")
        if route in ("main", "cli"):
            self.free = True
            with seams.real["open"](deck, "w") as fp:
                fp.write("\n".join(decks.deck(cj, [an])) + "\n")
        self.free = False
        r = None
        err = None
        try:
            with seams.solver_faults(sp, budget=20000) as sv, seams.disk_faults(dp) as dk:
                try:
                    if route in ("run", "queue", "twice"):
                        q = scen.make(a2, o)
                        q["verbose"] = vb
                        if route == "run":
                            r = ahkab.run(c, q)
                        elif route == "queue":
                            ahkab.queue(q)
                            r = ahkab.run(c)
                        else:
                            r1 = self.result_of(ahkab.run(c, q))
                            if r1 is not None:
                                self.res.append([r1, self.shot(r1), self.new_temps() - before])
                            before = self.new_temps()
                            if o is not None:
                                self.res = []        # the second run rewrites the first one's file
                            r = ahkab.run(c, q)
                    elif route == "direct":
                        k = {} if o is None else {"outfile": o}
                        t = a2["type"]
                        if t == "op":
                            r = dc_analysis.op_analysis(c, verbose=vb, **k)
                        elif t == "dc":
                            r = dc_analysis.dc_analysis(c, a2["start"], a2["stop"], (a2["stop"] - a2["start"]) / a2["points"], a2["source"], verbose=vb, **k)
                        elif t == "tran":
                            r = transient.transient_analysis(c, 0.0, a2["tstep"], a2["tstop"], x0=None, verbose=vb, **k)
                        elif t == "ac":
                            r = ac.ac_analysis(c, a2["start"], a2["points"], a2["stop"], a2["sweep_type"], verbose=vb, **k)
                        else:
                            r = symbolic.symbolic_analysis(c, a2["source"], verbose=vb, **k)
                    elif route == "main":
                        r = ahkab.main(deck, *([] if o is None else [o]), verbose=vb)
                    else:
                        old = sys.argv
                        sys.argv = ["ahkab", "-v", str(vb)] + ([] if o is None else ["-o", o]) + [deck]
                        try:
                            front._cli()
                        finally:
                            sys.argv = old
                            ahkab.options.cli = False
                finally:
                    for x in sv.fired:
                        self.count("fault_solver_" + x[1])
                    for x in dk.fired:
                        self.count("fault_disk_" + x[1])
        except (Exception, SystemExit, KeyboardInterrupt, core.Budget) as e:
            err = e
        ended = type(err).__name__ if err is not None else "ok"
        err = None
        seams.disk.armed = False
        r = self.result_of(r)
        self.count("step_" + ("ok" if ended == "ok" else "raised"))
        if r is None or ended != "ok":
            return ended
        if o is not None and an["type"] != "symbolic" and route != "cli":
            self.must.add(os.path.abspath(files_of(an, o, route)[0]) + ("info" if an["type"] == "op" and False else ""))
        if route in ("run", "queue", "twice") and main:
            if o is not None:
                self.res = [x for x in self.res if x[2]]       # a rewritten file is the user's doing
            else:
                s = self.shot(r)
                self.res.append([r, s, self.new_temps() - before])
                self.count("unnamed_results")
        return ended

    def shot(self, r):
        if isinstance(r, tuple):
            r = r[0]
        try:
            return scen.snap(r)
        except Exception as e:
            self.count("unreadable_at_once"); traceback.print_exc()
            return None

    def reread(self, when):
        for r, s, t in self.res:
            if s is None or any(not os.path.exists(x) for x in t):
                if s is not None and not self.tidied.intersection(t):
                    gone = [x for x in t if not os.path.exists(x)]
                    # a result may live in memory only; what counts is that it can be read
                    self.count("file_gone")
                else:
                    continue
            try:
                n = scen.snap(r[0] if isinstance(r, tuple) else r)
            except BaseException as e:
                self.say("unreadable", "%s: a result without a named file cannot be read: %s: %s" % (when, type(e).__name__, e))
                continue
            d = scen.same(s, n)
            self.count("reread")
            if d:
                self.say("unreadable", "%s: a result without a named file reads differently: %s" % (when, d))

    def go(self):
        case = self.case
        for d, _, fs in os.walk(self.top):
            for f in fs:
                self.old.add(os.path.join(d, f))
        self.tidied = set()
        for i, st in enumerate(case["steps"]):
            self.free = True
            k = st[0]
            if k == "an":
                self.an(st)
            elif k == "chdir":
                self.here = os.path.normpath(os.path.join(self.top, "work", st[1]) if st[1] != ".." else os.path.join(self.top, "work"))
                os.chdir(self.here)
            elif k == "reread":
                self.free = False
                self.reread("step %d" % i)
            elif k == "tidy":
                t = sorted(set().union(*[x[2] for x in self.res]) if self.res else [])
                if t:
                    p = t[st[1] % len(t)]
                    if os.path.exists(p):
                        self.tidied.add(p)
                        os.remove(p)
                        self.count("tidied")
            elif k == "drop":
                if self.res:
                    self.res.pop(st[1] % len(self.res))
                    gc.collect()
            elif k == "fork":
                self.count("forked")
                pid = os.fork()
                if pid == 0:
                    try:
                        self.free = False
                        if st[1] == "an":
                            self.an(st[2], main=False)
                        elif st[1] == "read":
                            self.reread("step %d, in a forked child" % i)
                    except BaseException:
                        traceback.print_exc()
                    leave(self)
                os.waitpid(pid, 0)
                if st[1] == "an" and st[2][3]:
                    self.allowed.update(os.path.abspath(x) for x in files_of(st[2][2], self.where(st[2][3]), "run"))
            if os.getcwd() != self.here:
                self.say("cwd", "step %d left the working directory changed" % i)
                os.chdir(self.here)
        self.free = False
        self.reread("before exit")


def leave(s, code=0):
    """A real interpreter exit from the middle of everything."""
    s.free = False
    s.res = []
    seams.disarm()
    try:
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        pass
    ctypes.pythonapi.Py_Exit(code)


def patch(s, case):
    """Creation of temporary files and removals that fail."""
    ropen, rrm = os.open, os.remove
    tmp = os.path.join(s.top, "tmp") + os.sep

    def sopen(path, flags, *a, **k):
        if not s.free and flags & os.O_EXCL and isinstance(path, str) and os.path.abspath(path).startswith(tmp):
            i = s.mk
            s.mk += 1
            kind = case["mk"].get(str(i))
            if kind:
                s.count("fault_create_" + kind)
                e = {"enospc": errno.ENOSPC, "emfile": errno.EMFILE, "eacces": errno.EACCES}[kind]
                if kind == "eacces":
                    e = errno.EROFS
                raise OSError(e, os.strerror(e), path)
        return ropen(path, flags, *a, **k)

    def srm(path, *a, **k):
        if not s.free:
            i = s.rmn
            s.rmn += 1
            kind = case["rm"].get(str(i))
            if kind:
                e = {"eacces": errno.EACCES, "eio": errno.EIO}[kind]
                os.write(s.fd, ("kept\t%s\n" % os.path.abspath(path)).encode())
                raise OSError(e, os.strerror(e), path)
        return rrm(path, *a, **k)
    os.open = sopen
    os.remove = os.unlink = srm


def run(case, ctx):
    top = ctx.path("top")
    os.mkdir(top)
    want = {}
    for d, fs in DECOYS.items():
        for f in fs + (case["old"] if d == "work" else []):
            p = os.path.join(top, d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            data = ("precious %s\n" % f).encode() * 3
            with open(p, "wb") as fp:
                fp.write(data)
            want[os.path.join(d, f)] = data
    rep, val = ctx.path(".logrep"), ctx.path(".logval")
    fd = os.open(rep, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600)
    pid = os.fork()
    if pid == 0:
        s = None
        try:
            os.environ.update(TMPDIR=os.path.join(top, "tmp"), HOME=os.path.join(top, "home"))
            tempfile.tempdir = None
            tempfile.gettempdir()
            gc.freeze()
            os.chdir(os.path.join(top, "work"))
            sys.dont_write_bytecode = True
            s = Session(case, top, fd)
            patch(s, case)
            sys.addaudithook(s.hook)
            s.go()
            data = pickle.dumps((s.stats, sorted(s.allowed), sorted(s.must), sorted(s.kept), sorted(s.tidied)))
            s.free = True
            with seams.real["open"](val, "wb") as fp:
                fp.write(data)
            s.free = False
            # the way out: each of these ends in the same shutdown
            try:
                if case["exit"] == "exit":
                    sys.exit(3)
                elif case["exit"] == "exception":
                    raise Boom("the user's script fails")
                elif case["exit"] == "interrupt":
                    raise KeyboardInterrupt()
            except BaseException:
                traceback.print_exc()
        except BaseException:
            traceback.print_exc()
        leave(s, 0)
    _, status = os.waitpid(pid, 0)
    os.close(fd)
    if not os.path.exists(val):
        return ctx.fail("run", "the session ended with status %s" % status)
    with open(val, "rb") as fp:
        stats, allowed, must, kept, tidied = pickle.load(fp)
    for k, v in stats.items():
        ctx.count(k, v)
    ctx.nontrivial = bool(stats.get("step_ok"))
    ctx.sig = [case["circs"], case["steps"], case["exit"]]
    with open(rep, "rb") as fp:
        lines = fp.read().decode().splitlines()
    kept = set(l.split("\t")[1] for l in lines if l.startswith("kept\t"))
    if kept:
        ctx.count("fault_remove", len(kept))
    seen = set()
    for l in lines:
        rule, msg = l.split("\t", 1)
        if rule != "kept" and rule not in seen:
            seen.add(rule)
            ctx.fail(rule, msg)
    got = scen.listing(top)
    allow = set(os.path.relpath(p, top) for p in allowed) | {"deck.ckt"}
    ctx.count("files_checked", len(got))
    for p in sorted(set(got) | set(want)):
        ctx.evals += 1
        if p in allow:
            continue
        if p not in want:
            if os.path.join(top, p) in kept:
                continue
            ctx.fail("leftover", "after exit there is %s" % gone_name(p), key="leftover")
            break
        if got.get(p) != want[p]:
            ctx.fail("foreign", "the file %s was %s" % (p, "changed" if p in got else "removed"))
            break
    for p in must:
        if os.path.relpath(p, top) not in got:
            ctx.fail("missing", "the named file %s is not there after exit" % os.path.relpath(p, top))
            break
    # directories
    for d in ("work", "tmp", "home"):
        for r, ds, _ in os.walk(os.path.join(top, d)):
            for x in ds:
                q = os.path.relpath(os.path.join(r, x), top)
                if not any(w.startswith(q + os.sep) for w in want):
                    ctx.fail("leftover", "after exit there is the directory %s" % gone_name(q))
    ctx.record([sorted(gone_name(x) for x in got), sorted(stats.items())])


def gone_name(p):
    """Without the random part of a temporary name."""
    d, f = os.path.split(p)
    if d == "tmp" and f.startswith("tmp") and "." in f:
        f = "tmp*" + f[f.index("."):]
    return os.path.join(d, f)


def shrink(case):
    for s in cm.shrink_list(case["steps"]):
        yield dict(case, steps=s)
    for i, st in enumerate(case["steps"]):
        if st[0] == "an":
            for j, x in ((5, None), (4, "run"), (3, None)):
                if st[j] != x:
                    n = list(st)
                    n[j] = x
                    yield dict(case, steps=case["steps"][:i] + [n] + case["steps"][i + 1:])
    for k, x in (("exit", "return"), ("mk", {}), ("rm", {}), ("old", [])):
        if case[k] != x:
            yield dict(case, **{k: x})
