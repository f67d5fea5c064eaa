"""C18: a saved symbolic result is either the whole result or an error."""
import json
import os
import pickle
import subprocess
import sys

from .. import child18, core, scen, seams, util
from .. import circ as cm

TIERS = {"quick": {"runs": 104, "wall": 110}, "thorough": {"runs": 12000, "wall": 3000}}
CASE_WALL = 200
RULE = ("batches of saves of symbolic results (with and without transfer functions) through an analysis with a named output or through "
        "save(), over nothing or an older result, cut short by the death of the process at a file operation, by a power loss which "
        "leaves a file short or with blocks of zeros where nothing was synchronised, by a full disk, by I/O errors or an interrupt; "
        "then loads in other processes, with failing and short reads, and repair by saving again; distinct by batch")
REAL = "ahkab, sympy, pickle, a real file system; the later process is a fresh interpreter with another hash seed"
STUB = "the file layer below open() fails or kills at a chosen operation; power loss is simulated on the file left behind"
ASSUME = ["power loss damages only what was written since the last fsync of that file, in units of 512 or 4096 bytes"]


def gen(rng, tier):
    saves = []
    for i in range(rng.randint(2, 4)):
        while True:
            try:
                cj = scen.gen_circ(rng, kind="lin", nmax=rng.choice([2, 2, 3]), amp=rng.random() < .3)
            except IndexError:
                continue
            if len(cj["els"]) <= rng.choice([5, 6, 6]):
                break
        an = scen.gen_an(rng, cj, ["symbolic"])
        if rng.random() < .6:
            v = [e[1] for e in cj["els"] if e[0] in "VI"]
            an["source"] = rng.choice(v)
        subs = []
        rs = [e[1] for e in cj["els"] if e[0] == "R"]
        if len(rs) > 1 and rng.random() < .3:
            subs = [rs[:2]]
        s = {"circ": cj, "an": an, "subs": subs, "title": rng.choice(["t", "short title", "ünï", "a" * 300, "long " * 400, "word %d " % i * 900]),
             "how": rng.choice(["run", "run", "save"]), "older": rng.choice([None, None, "same", "other"]), "fault": None, "power": None, "read": None}
        r = rng.random()
        if r < .5:
            k = rng.choice(["kill", "kill", "enospc", "eio", "short", "intr"])
            s["fault"] = {"at": rng.randrange(0, rng.choice([4, 12])), "k": k, "frac": rng.choice([0., .1, .5, .9, 1.]), "sticky": k == "enospc"}
        if r > .35 and r < .85:
            s["power"] = {"k": rng.choice(["zeros", "zeros", "hole", "short", "old"]), "a": rng.random(), "b": rng.random(),
                          "unit": rng.choice([512, 512, 4096]), "which": rng.choice([0, 1])}
        if rng.random() < .35:
            s["read"] = {"at": rng.randrange(0, 4), "k": rng.choice(["eio", "short", "trunc", "emfile", "eacces", "intr"]), "frac": .3}
        s["wbuf"] = rng.choice([None, 16, 100, 1000])
        saves.append(s)
    return {"saves": saves, "hash": rng.randrange(1, 4 * 10 ** 9), "chunk": rng.randrange(10 ** 6)}


def work(s, k):
    """The names of the files of save k and a function that computes and saves."""
    import ahkab

    def compute(out):
        c = cm.build(s["circ"], title=s["title"])
        q = ahkab.new_symbolic(source=s["an"]["source"], ac_enable=s["an"]["ac_enable"],
                               subs={a: b for a, b in [tuple(x) for x in s["subs"]]} or None, outfile=out)
        r = ahkab.run(c, q)["symbolic"]
        return [x for x in (r if isinstance(r, tuple) else (r,)) if x is not None]
    return compute


def later(ctx, files, hseed, tag):
    """What another process gets from these files."""
    with open(ctx.path(".lin" + tag), "w") as fp:
        json.dump(files, fp)
    env = dict(os.environ, PYTHONHASHSEED=str(hseed))
    p = subprocess.run([sys.executable, "-m", "sim.child18", ctx.path(".lin" + tag), ctx.path(".lout" + tag)], env=env, cwd=ctx.scratch,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode:
        return None
    with open(ctx.path(".lout" + tag), "rb") as fp:
        return pickle.load(fp)


def same(d, w):
    """None if a description d is that of the result w (the time stamp and the file name set apart)."""
    for k in w:
        if k in ("stamp", "text"):
            continue
        if d.get(k) != w[k]:
            return "%s is %r instead of %r" % (k, str(d.get(k))[:200], str(w[k])[:200])
    return None


def damage(path, p, old):
    """Power loss: what was not synchronised is partly not there."""
    with seams.real["open"](path, "rb") as fp:
        d = fp.read()
    u = p["unit"]
    n = (len(d) + u - 1) // u
    a = int(p["a"] * n) * u
    if p["k"] == "short":
        d = d[:int(p["a"] * (len(d) + 1))]
    elif p["k"] == "zeros":
        d = d[:a] + b"\0" * (len(d) - len(d[:a]))
    elif p["k"] == "hole":
        b = min(len(d), a + max(1, int(p["b"] * 3)) * u)
        d = d[:a] + b"\0" * (b - a) + d[b:]
    elif p["k"] == "old" and old is not None:
        # some blocks still hold what was there before
        b = min(len(d), a + max(1, int(p["b"] * 3)) * u)
        o = old[a:b]
        d = d[:a] + o + b"\0" * (b - a - len(o)) + d[b:]
    else:
        return False
    with seams.real["open"](path, "wb") as fp:
        fp.write(d)
    return True


def run(case, ctx):
    solved = {}
    plan = []                 # (file, [acceptable descriptions], must it load)
    for k, s in enumerate(case["saves"]):
        compute = work(s, k)
        d = ctx.path("d%d" % k)
        os.mkdir(d)
        base = os.path.join(d, "res")
        names = [base + ".symbolic", base + ".symbolic.tfs"]
        olds = {}

        oldd = {}
        try:
            with util.quiet():
                q0 = compute(None)           # and sympy's caches are warm
        except Exception as e:
            ctx.count("not_solved")
            continue

        def older(q):
            """An older result is there already."""
            if s["older"]:
                for x, n in zip(q, names):
                    t = x.netlist_title
                    if s["older"] == "other":
                        x.netlist_title = "older " + t[:40]
                    x.filename = n
                    x.save()
                    oldd[n] = child18.describe(x)
                    x.netlist_title = t

        solved[k] = q0
        older(q0)
        for x, n in zip(q0, names):
            x.filename = n
        desc = [child18.describe(x) for x in q0]
        olds.update({n: scen.read(n) for n in oldd})

        def save():
            synced = {}
            rf = os.fsync

            def fsync(fd):
                try:
                    synced[os.readlink("/proc/self/fd/%d" % (fd if isinstance(fd, int) else fd.fileno()))] = len(seams.disk.trace)
                except OSError:
                    pass
                return rf(fd)
            os.fsync = os.fdatasync = fsync
            q = None
            fired = []
            f = s["fault"]
            seams.disk.root = ctx.scratch
            try:
                why = "ok"
                with seams.disk_faults({f["at"]: f} if f else {}, wbuf=s["wbuf"], chunk_seed=case["chunk"] if k % 2 else None) as dk:
                    dk.root = ctx.scratch
                    try:
                        if s["how"] == "save":
                            for x in q0:
                                x.save()
                        else:
                            q = compute(base)
                    except BaseException as e:
                        why = type(e).__name__
                    fired = [x[1] for x in dk.fired]
                    tr = list(dk.trace)
                last = {}
                for i, (op, rel, n) in enumerate(tr):
                    if op == "write":
                        last[os.path.join(ctx.scratch, rel)] = i
                return why, fired, [fn for fn in synced if synced[fn] > last.get(fn, -1)], last
            finally:
                os.fsync = rf
        code, v = scen.in_child(save, d)
        killed = code == 77
        if code not in (0, 77):
            return ctx.fail("run", "save %d: the process ended with status %s" % (k, code))
        why, fired, safe, last = v if v else ("killed", ["kill"], [], {})
        for x in fired:
            ctx.count("fault_" + x)
        ctx.count("save_" + ("ok" if why == "ok" else "killed" if killed else "reported"))
        ctx.nontrivial = True
        p = s["power"]
        hit = None
        if p and (killed or why == "ok"):
            t = names[p["which"]] if os.path.exists(names[p["which"]]) else names[0]
            if os.path.exists(t) and not any(os.path.realpath(t) == os.path.realpath(x) for x in safe) and scen.read(t) != olds.get(t):
                # a synchronised file that was renamed to its place is safe, too
                if not (safe and t not in last):
                    if damage(t, p, olds.get(t)):
                        hit = t
                        ctx.count("fault_power_" + p["k"])
        for x, n in zip(desc, names):
            ok = [x] + ([oldd[n]] if n in oldd and (why != "ok" or n == hit) else [])
            plan.append({"k": k, "f": n, "ok": ok, "must": why == "ok" and n != hit, "stamped": None, "s": s, "hit": n == hit})
    if not plan:
        return
    ctx.sig = [case["saves"]]
    got = later(ctx, [p["f"] for p in plan], case["hash"], "1")
    if got is None:
        return ctx.fail("run", "the later process failed")
    for p, (st, d) in zip(plan, got):
        ctx.evals += 1
        what = "save %d, %s" % (p["k"], os.path.basename(p["f"]))
        if st == "error":
            if p["must"]:
                return ctx.fail("lost", "%s: the save reported no error and the load fails: %s" % (what, d))
            ctx.count("load_reports")
            continue
        bad = [same(d, w) for w in p["ok"]]
        if all(bad):
            return ctx.fail("damaged", "%s%s: the load returns something else: %s" % (what, " after power loss" if p["hit"] else "", bad[0]))
        ctx.count("load_exact" if not bad[0] else "load_exact_older")
    # reads that fail
    from ahkab.results import symbolic_solution
    for p in plan:
        r = p["s"]["read"]
        if not r:
            continue

        def load():
            with seams.disk_faults({r["at"]: r}, chunk_seed=case["chunk"]) as dk:
                dk.root = ctx.scratch
                try:
                    q = symbolic_solution.load(p["f"])
                except BaseException as e:
                    return "error", type(e).__name__, [x[1] for x in dk.fired]
                dk.armed = False
                try:
                    return "ok", child18.describe(q), [x[1] for x in dk.fired]
                except Exception as e:
                    return "ok", {"kind": "%s cannot be described: %s" % (type(q).__name__, e)}, [x[1] for x in dk.fired]
        code, v = scen.in_child(load)
        if v is None:
            return ctx.fail("run", "a load ended with status %s" % code)
        st, d, fired = v
        for x in fired:
            ctx.count("read_fault_" + x)
        if st == "error":
            if not fired and p["must"]:
                return ctx.fail("lost", "save %d: a load with short reads fails: %s" % (p["k"], d))
            ctx.count("read_reported")
            continue
        bad = [same(d, w) for w in p["ok"]]
        if all(bad):
            return ctx.fail("damaged", "save %d: a load with a failing read (%s) returns something else: %s" % (p["k"], fired, bad[0]))
        ctx.count("read_exact")
    # saving again repairs
    again = []
    for k, s in enumerate(case["saves"]):
        mine = [p for p in plan if p["k"] == k]
        if not mine or (not s["fault"] and not s["power"]):
            continue
        base = os.path.join(ctx.path("d%d" % k), "res")

        def resave():
            if s["how"] == "run":
                q = work(s, k)(base)
            else:
                q = solved[k]
                for x in q:
                    x.save()
            return [child18.describe(x) for x in q]
        code, v = scen.in_child(resave, ctx.path("d%d" % k))
        if v is None:
            return ctx.fail("repair", "saving again after %s fails" % (s["fault"] or s["power"],))
        again += list(zip(mine, v))
    if again:
        code, got = scen.in_child(lambda: child18.load_all([p["f"] for p, _ in again]))
        if got is None:
            return ctx.fail("run", "the later process failed")
        for (p, w), (st, d) in zip(again, got):
            ctx.evals += 1
            bad = d if st == "error" else same(d, w) or (d["stamp"] != w["stamp"] and "the time stamp is another one") or \
                (d["text"] != w["text"] and "the report is another one")
            if bad:
                return ctx.fail("repair", "save %d, %s: after saving again the load gives: %s" % (p["k"], os.path.basename(p["f"]), bad))
            ctx.count("repaired")
    ctx.record([sorted(ctx.stats.items())])


def shrink(case):
    for s in cm.shrink_list(case["saves"]):
        if s:
            yield dict(case, saves=s)
    if len(case["saves"]) <= 2:
        for i, s in enumerate(case["saves"]):
            for k, x in (("fault", None), ("power", None), ("read", None), ("older", None), ("subs", []), ("how", "save"), ("wbuf", None), ("title", "t")):
                if s[k] != x:
                    yield dict(case, saves=case["saves"][:i] + [dict(s, **{k: x})] + case["saves"][i + 1:])
            keep = [s["an"]["source"]] if s["an"].get("source") else []
            for c in cm.shrink_circuit(s["circ"], keep=keep):
                yield dict(case, saves=case["saves"][:i] + [dict(s, circ=c)] + case["saves"][i + 1:])
