"""C07: a killed simulation leaves every accepted point, and only those, on disk."""
import hashlib
import os

import numpy as np

from .. import circ as cm
from .. import scen, seams, util

TIERS = {"quick": {"runs": 260, "wall": 90}, "thorough": {"runs": 20000, "wall": 3000}}
RULE = ("random circuits x lists of 1-3 file-writing analyses x stale files of the same name x buffer sizes; an undisturbed "
        "run is observed at every file operation, linear solve and source evaluation, then the run is killed at chosen ones "
        "of these (also with a torn final write) and repeated; non-trivial = at least one kill took place; distinct by "
        "circuit, requests, kill points and bytes left")
REAL = "ahkab (run, all analyses, result writer, csvlib), numpy, scipy, the io buffering layers, a real file system"
STUB = "raw file descriptors pass through the disk seam; numpy/scipy solvers and source time functions are observed through seams"
ASSUME = ["what reached write(2) before the process died is durable (no power loss)",
          "a point of a transient is accepted once the circuit is evaluated at another instant after it"]


def gen(rng, tier):
    cj = scen.gen_circ(rng)
    n = rng.choice([1, 1, 1, 2, 3])
    ans = []
    for i in range(n):
        an = scen.gen_an(rng, cj, ["tran", "tran", "dc", "ac"] if i or n == 1 else ["tran", "dc", "ac", "op"])
        if an.get("x0") == "op" and not any(a["type"] == "op" for a in ans):
            an["x0"] = None
        ans.append(an)
    kills = []
    for _ in range(rng.randint(1, 4)):
        w = rng.choice(["disk", "disk", "solve", "eval"])
        kills.append([w, rng.random(), rng.choice([0.0, 0.0, .3, .5, .9, 1.0])])
    return {"circ": cj, "ans": ans, "kills": kills, "stale": rng.choice(["none", "none", "old", "long", "torn", "empty", "readonly_dir_link"]),
            "wbuf": rng.choice([None, None, 16, 200]), "dml": rng.choice([400, 400, 0]), "seam_seed": rng.randrange(10 ** 9)}


class Long(BaseException):
    pass


def simulate(case, events=None, watch=None, kill=None):
    """One process: build, run the list with named outputs in the current directory.

    watch(kind, state) is called at every event; kill = (kind, index, frac)."""
    import ahkab
    util.set_options({"dense_matrix_limit": case["dml"]})
    n = {"solve": 0, "eval": 0}
    plan = {}
    if kill and kill[0] == "disk":
        plan = {kill[1]: {"k": "kill", "frac": kill[2]}}

    def event(kind, info):
        i = n[kind]
        n[kind] += 1
        if kill and kill[0] == kind and kill[1] == i:
            os._exit(77)
        if watch:
            watch(kind, info)

    def wrap(e, f):
        class Fn(object):
            _type, __str__ = getattr(f, "_type", "V"), f.__str__

            def __call__(self, t):
                event("eval", t)
                return f(t)

            def __deepcopy__(self, memo):
                return self
        return Fn()

    c = cm.build(case["circ"], fnwrap=wrap)
    ids = {e.part_id.lower(): e for e in c}
    cur = {"an": None, "ids": ids}
    names = []
    for i, an in enumerate(case["ans"]):
        names.append(scen.make(an, "o%d" % i))

    def where(name, a):
        event("solve", (name, a, ids))

    def obs(when, i, op, rel):
        if watch and when == "after":
            watch("disk", (i, op, rel))
    out = {}
    with util.quiet():
        with seams.disk_faults(plan, wbuf=case["wbuf"], observer=obs) as dk:
            with seams.solver_faults({}, budget=200000) as sol:
                sol.where = where
                try:
                    r = util.attempt(ahkab.run, c, names)
                finally:
                    sol.where = None
            ok = not isinstance(r, util.Failed) and all(v is not None for v in r.values())
            ndisk = dk.n
    return {"ok": ok, "n": dict(n, disk=ndisk), "why": repr(r) if not ok else ""}


def stale_files(case, ref, d, names):
    old = {}
    for nm in names:
        k = case["stale"]
        b = None
        if k == "old":
            b = b"#T\tVX\tVY\n" + b"".join(b"%d\t1.0\t2.0\n" % i for i in range(40))
        elif k == "long":
            b = (ref.get(nm) or b"#A\n") + b"9.0\t9.0\n" * 400
        elif k == "torn":
            b = (ref.get(nm) or b"#A\n")[:-7]
        elif k == "empty":
            b = b""
        elif k == "readonly_dir_link":
            os.mkdir(os.path.join(d, "sub" + nm))
            tgt = os.path.join(d, "sub" + nm, "data")
            with seams.real["open"](tgt, "wb") as fp:
                fp.write(b"#Q\n1.0\n2.0\n")
            os.symlink(os.path.join("sub" + nm, "data"), os.path.join(d, nm))
            old[nm] = b"#Q\n1.0\n2.0\n"
            continue
        if b is not None:
            with seams.real["open"](os.path.join(d, nm), "wb") as fp:
                fp.write(b)
            old[nm] = b
    return old


def run(case, ctx):
    ans = case["ans"]
    names = ["o%d%s" % (i, scen.ext(a)) for i, a in enumerate(ans)]
    stream = [nm for nm, a in zip(names, ans) if a["type"] in ("dc", "tran", "ac")]
    d0 = ctx.path("ref")
    os.mkdir(d0)

    def watched():
        seen = []           # (event, {name: content hash,size}, accepted knowledge)

        files = {}

        def content():
            for nm in stream:
                try:
                    q = os.stat(nm)
                except OSError:
                    continue
                sg = (q.st_size, q.st_mtime_ns, q.st_ino)
                if nm not in files or files[nm][0] != sg:
                    b = scen.read(nm)
                    files[nm] = (sg, (nm, len(b), hashlib.md5(b).hexdigest()))
            return tuple(sorted(v[1] for v in files.values()))

        def watch(kind, info):
            key = content()
            acc = None
            if len(seen) > 6000:
                raise Long()
            if kind == "eval":
                acc = ("t", float(info))
            elif kind == "solve":
                name, a, ids = info
                m = a[0]
                if np.iscomplexobj(m if not hasattr(m, "dtype") else np.zeros(0, m.dtype)):
                    acc = ("w", float(abs(m.imag).sum()))
                else:
                    acc = ("v", {k: float(e.dc_value) for k, e in ids.items() if hasattr(e, "dc_value") and e.dc_value is not None})
            seen.append((kind, acc, key))
        try:
            return simulate(case, watch=watch), seen
        except Long:
            return None, None
    code, v = scen.in_child(watched, d0)
    if code != 0 or v is None:
        return ctx.fail("run", "the undisturbed run ended the process with status %s" % code)
    r0, seen = v
    if r0 is None:
        ctx.count("skipped_long")
        return
    if not r0["ok"]:
        ctx.count("undisturbed_run_reports_failure")      # its files are judged all the same
    ref = {nm: scen.read(os.path.join(d0, nm)) for nm in names}
    ctx.record(sorted((k, v if k in stream else None) for k, v in ref.items()))
    if any(ref[nm] is None for nm in stream):
        if r0["ok"]:
            return ctx.fail("file-missing", "no result file for %s" % [nm for nm in stream if ref[nm] is None])
        stream = [nm for nm in stream if ref[nm] is not None]
    if not stream:
        return
    for a in ans:
        if a["type"] == "tran":
            ctx.sim_time += a["tstop"]

    def rows(b):
        return max(0, b.count(b"\n") - 1)
    # 1. the undisturbed run, at every event
    tabs = {}
    for nm, a in zip(names, ans):
        if nm in stream:
            b = ref[nm]
            lines = b.split(b"\n")
            if not b.endswith(b"\n") or not lines[0].startswith(b"#") or (r0["ok"] and rows(b) < 1):
                return ctx.fail("file-form", "%s is not a header and complete rows" % nm)
            cols = len(lines[0].split(b"\t"))
            if any(len(x.split(b"\t")) != cols for x in lines[1:-1]):
                return ctx.fail("file-form", "%s has rows of another width than its header" % nm)
            tabs[nm] = [float(x.split(b"\t")[0]) for x in lines[1:-1]]
    pref = {}
    where = {"i": 0, "w": None, "nw": 0, "sw": -1}
    kinds = {nm: a for nm, a in zip(names, ans)}
    cur = 0
    for kind, acc, key in seen:
        ctx.evals += 1
        size = {k: s for k, s, _ in key}
        for k, s, h in key:
            p = (k, s)
            if p not in pref:
                pref[p] = hashlib.md5(ref[k][:s]).hexdigest() if s <= len(ref[k]) else None
            if pref[p] != h:
                return ctx.fail("on-disk-prefix", "while running, %s held %d bytes which are not the beginning of the final file" % (k, s))
        # the analysis being run: the first whose file is not complete yet (an event after the last row belongs to no one)
        while cur < len(stream) and size.get(stream[cur], 0) == len(ref[stream[cur]]):
            cur += 1
        if cur >= len(stream):
            continue
        nm = stream[cur]
        a = kinds[nm]
        have = rows(ref[nm][:size.get(nm, 0)])
        st = where
        if st["i"] != cur:
            st.update(i=cur, w=None, nw=0, sw=-1)
        need_rows = 0
        if a["type"] == "dc" and acc and acc[0] == "v":
            v = acc[1].get(a["source"].lower())
            k = st["sw"] + 1
            if v is not None:
                if k < len(tabs[nm]) and v == tabs[nm][k]:
                    st["sw"] = k
                need_rows = max(0, st["sw"])
        elif a["type"] == "ac" and acc and acc[0] == "w":
            if st["w"] is None or abs(acc[1] - st["w"]) > 1e-9 * abs(st["w"]):
                st["w"] = acc[1]
                st["nw"] += 1
            need_rows = st["nw"] - 1
        if have < need_rows:
            return ctx.fail("row-late", "%s: point %d was accepted and the next one begun, but only %d rows are on disk" % (nm, need_rows, have))
    # transient: replay the evaluations, from the end, to know the last evaluation at each final instant
    ev = [(acc[1], dict((k, s) for k, s, _ in key)) for kind, acc, key in seen if acc and acc[0] == "t"]
    trans = [nm for nm in stream if kinds[nm]["type"] == "tran"]
    for nm in trans:
        ts = tabs[nm]
        full = len(ref[nm])
        mine = [(t, sz.get(nm, 0)) for t, sz in ev
                if all(sz.get(o, 0) == len(ref[o]) for o in stream[:stream.index(nm)])]
        lastix = {}
        for j, (t, s) in enumerate(mine):
            if s == full:
                break
            lastix[t] = j
        for k, tk in enumerate(ts):
            near = [t for t in lastix if abs(t - tk) <= 1e-12 * abs(tk)]
            if not near:
                continue
            j = max(lastix[t] for t in near)
            if j + 1 < len(mine) and mine[j + 1][1] < full:
                got = rows(ref[nm][:mine[j + 1][1]])
                # the header/first rows may still be due when another point precedes in time
                if mine[j + 1][0] > tk and got < k + 1:
                    return ctx.fail("row-late", "%s: t=%.9g was accepted and t=%.9g begun, but only %d of %d rows are on disk"
                                    % (nm, tk, mine[j + 1][0], got, k + 1))
    # 2. killed runs
    sigs = []
    for q, (kind, frac_ix, torn) in enumerate(case["kills"]):
        total = r0["n"][kind]
        if not total:
            continue
        idx = min(total - 1, int(frac_ix * total))
        d = ctx.path("k%d" % q)
        os.mkdir(d)
        old = stale_files(case, ref, d, stream)
        code, _ = scen.in_child(lambda: simulate(case, kill=(kind, idx, torn)), d)
        if code == 77:
            ctx.count("fault_kill_" + kind + ("_torn" if kind == "disk" and 0 < torn < 1 else ""))
            ctx.nontrivial = True
        elif code != 0:
            return ctx.fail("run", "a run killed at %s %d ended with status %s" % (kind, idx, code))
        for nm in stream:
            b = scen.read(os.path.join(d, nm))
            if b is None:
                if code == 0:
                    return ctx.fail("file-missing", "%s missing after a complete run" % nm)
                if nm in old:
                    return ctx.fail("stale-removed", "%s: the old file is gone and the new one not begun" % nm)
                continue
            if nm in old and b == old[nm]:
                if code == 0 and b != ref[nm]:
                    return ctx.fail("stale-kept", "%s still holds the old file after a complete run" % nm)
                continue
            if code == 0 and b != ref[nm]:
                return ctx.fail("not-repeatable", "%s differs from the undisturbed run" % nm)
            if ref[nm][:len(b)] != b:
                return ctx.fail("killed-prefix", "killed at %s %d/%d: the %d bytes of %s are not the beginning of the undisturbed file (stale: %s)"
                                % (kind, idx, total, len(b), nm, case["stale"]))
        sigs.append([kind, idx, torn, [len(scen.read(os.path.join(d, nm)) or b"") for nm in stream]])
        # 3. the same again, after the crash
        code, v = scen.in_child(lambda: simulate(case), d)
        if code != 0 or v["ok"] != r0["ok"]:
            return ctx.fail("rerun", "repeating the killed run failed: %s %s" % (code, v and v["why"]))
        for nm in stream:
            if scen.read(os.path.join(d, nm)) != ref[nm]:
                return ctx.fail("rerun", "%s differs from the undisturbed file after repeating the killed run" % nm)
        ctx.count("reruns_identical")
    ctx.record(sigs)
    ctx.sig = [case["circ"], ans, sigs, case["stale"]]


def shrink(case):
    for k in cm.shrink_list(case["kills"]):
        yield dict(case, kills=k)
    if len(case["ans"]) > 1:
        for a in cm.shrink_list(case["ans"]):
            if a and not any(x.get("x0") == "op" for x in a):
                yield dict(case, ans=a)
    for k, v in (("stale", "none"), ("wbuf", None), ("dml", 400)):
        if case[k] != v:
            yield dict(case, **{k: v})
    keep = [a["source"] for a in case["ans"] if "source" in a and a["source"]]
    for c in cm.shrink_circuit(case["circ"], keep=keep):
        yield dict(case, circ=c)
