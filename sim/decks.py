"""Netlist text for circuits of sim.circ: the plain deck a user would write."""
from . import circ as cm


def num(x):
    return repr(float(x))


def wave(fn, v):
    """Time function of a V (v='v') or I source."""
    if fn is None:
        return ""
    v = "v"
    k = fn[0]
    if k == "pulse":
        return " type=pulse %s1=%s %s2=%s td=%s tr=%s pw=%s tf=%s per=%s" % (
            v, num(fn[1]), v, num(fn[2]), num(fn[3]), num(fn[4]), num(fn[5]), num(fn[6]), num(fn[7]))
    if k == "sin":
        return " type=sin %so=%s %sa=%s freq=%s td=%s theta=%s" % (v, num(fn[1]), v, num(fn[2]), num(fn[3]), num(fn[4]), num(fn[5]))
    if k == "exp":
        return " type=exp %s1=%s %s2=%s td1=%s tau1=%s td2=%s tau2=%s" % (
            v, num(fn[1]), v, num(fn[2]), num(fn[3]), num(fn[4]), num(fn[5]), num(fn[6]))
    raise ValueError(k)


def can(e):
    """Elements that have a netlist form here."""
    return e[0] in "RCLVIEGFHKDMS" and not (e[0] in "VI" and e[6] is not None and e[6][0] == "pwl") \
        and not (e[0] in "VI" and isinstance(e[5], (list, tuple)))


def line(e, nd=lambda n: n, idp=lambda i: i):
    t = e[0]
    if t == "K":
        return "%s %s %s %s" % (idp(e[1]), idp(e[2]), idp(e[3]), num(e[4]))
    p = " ".join([idp(e[1])] + [nd(n) for n in cm.pins(e)])
    if t == "R":
        return "%s %s" % (p, num(e[4]))
    if t in "CL":
        return "%s %s" % (p, num(e[4])) + (" ic=%s" % num(e[5]) if e[5] is not None else "")
    if t in "VI":
        v = t.lower()
        s = "%s type=%sdc %sdc=%s" % (p, v, v, num(e[4]))
        if e[5]:
            s += " type=%sac %sac=%s" % (v, v, num(e[5]))
        return s + wave(e[6], v)
    if t in "EG":
        return "%s %s" % (p, num(e[6]))
    if t in "FH":
        return "%s %s %s" % (p, idp(e[4]), num(e[5]))
    if t == "D":
        return "%s %s" % (p, e[4]) + (" area=%s" % num(e[5]) if e[5] is not None else "") + (
            "".join(" %s=%s" % (k, num(v)) if k != "off" else " off" if e[1][-1] in "02468" else " off=yes"
                    for k, v in sorted(cm.dextra(e).items(), reverse=e[1][-1] in "147")))
    if t == "M":
        return "%s %s w=%s l=%s" % (p, e[8], num(e[6]), num(e[7]))
    if t == "S":
        return "%s %s" % (p, e[6])
    raise ValueError(t)


def models(cj):
    out = []
    for lab in sorted(cj.get("models", {})):
        typ, par = cj["models"][lab]
        out.append(".model %s %s %s" % (typ, lab, " ".join("%s=%s" % (k, v if isinstance(v, str) else num(v))
                                                           for k, v in sorted(par.items()) if v is not None)))
    return out


def directive(an):
    t = an["type"]
    if t == "op":
        return ".op"
    if t == "dc":
        step = (an["stop"] - an["start"]) / (an["points"] - 1)
        return ".dc source=%s start=%s stop=%s step=%s type=lin" % (an["source"], num(an["start"]), num(an["stop"]), num(step))
    if t == "tran":
        return ".tran tstart=%s tstop=%s tstep=%s uic=%s method=%s" % (
            num(an["tstart"]), num(an["tstop"]), num(an["tstep"]), 1 if an["x0"] == "op" else 0, an["method"].lower())
    if t == "ac":
        return ".ac start=%s stop=%s nsteps=%d type=%s" % (num(an["start"]), num(an["stop"]), an["points"], an["sweep_type"].lower())
    if t == "pss":
        return ".pss period=%s points=%d method=%s" % (num(an["period"]), an["points"], an["method"])
    raise ValueError(t)


def deck(cj, ans, title="deck"):
    return [title] + models(cj) + [line(e) for e in cj["els"]] + [directive(a) for a in ans] + [".end"]
