"""A later process: loads saved symbolic results and says what it got.

   python -m sim.child18 <list file> <output file>"""
import json
import pickle
import sys


def describe(q):
    """Everything a saved result says, as plain text."""
    import sympy
    from sympy import srepr
    d = {"kind": type(q).__name__, "title": str(q.netlist_title), "netlist": str(q.netlist_file), "tf": bool(q.tf), "stamp": str(q.timestamp),
         "file": str(q.filename), "type": q.sol_type}
    d["subs"] = sorted((srepr(k) if isinstance(k, sympy.Basic) else repr(k), srepr(v) if isinstance(v, sympy.Basic) else repr(v))
                       for k, v in (q.substitutions or {}).items())
    ks = [str(k) for k in q.keys()]
    d["keys"] = sorted(ks)
    ex = []
    for k in sorted(ks):
        v = q[k]
        for spell in (k.upper(), k.lower()):
            if text(q[spell]) != text(v):
                ex.append("%s is not found as %s" % (k, spell))
        ex.append((k, text(v)))
    d["results"] = ex
    names = set()
    for k in ks:
        v = q[k]
        for e in ([v] if not isinstance(v, dict) else [v["gain"]]):
            names.update(s for s in e.atoms() if s.is_Symbol)
    d["symbols"] = sorted(srepr(s) for s in names)
    found = []
    vals = {}
    for s in sorted(names, key=lambda s: s.name):
        try:
            t = q.as_symbol(s.name)
        except AttributeError:           # as_symbol does not work on transfer functions
            t = s
        found.append((s.name, t == s, hash(t) == hash(s), srepr(t)))
        vals[t] = sympy.Rational(1 + sum(map(ord, s.name)) % 97, 7)
    d["found"] = found
    num = []
    for k in sorted(ks)[:6]:
        v = q[k]
        e = v["gain"] if isinstance(v, dict) else v
        num.append(str(e.subs(vals)))
    d["numbers"] = num
    d["text"] = str(q)
    return d


def text(v):
    from sympy import srepr
    if isinstance(v, dict):
        return sorted((str(k), [srepr(x) for x in x_] if isinstance(x_, (list, tuple)) else srepr(x_)) for k, x_ in v.items())
    return srepr(v)


def main():
    with open(sys.argv[1]) as fp:
        files = json.load(fp)
    out = load_all(files)
    with open(sys.argv[2], "wb") as fp:
        pickle.dump(out, fp)


def load_all(files):
    from ahkab.results import symbolic_solution
    out = []
    for f in files:
        try:
            out.append(("ok", describe(symbolic_solution.load(f))))
        except Exception as e:
            out.append(("error", type(e).__name__ + ": " + str(e)[:120]))
    return out


if __name__ == "__main__":
    main()
