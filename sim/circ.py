"""Circuits as JSON: generation, construction through ahkab's public API, shrinking.

Element rows:
 ["R",id,n1,n2,val]           ["C",id,n1,n2,val,ic]     ["L",id,n1,n2,val,ic]
 ["V",id,n1,n2,dc,ac,fn]      ["I",id,n1,n2,dc,ac,fn]
 ["E",id,n1,n2,sn1,sn2,val]   ["G",id,n1,n2,sn1,sn2,val]
 ["F",id,n1,n2,src,val]       ["H",id,n1,n2,src,val]
 ["K",id,L1,L2,k]
 ["D",id,n1,n2,model,area(,ic,T,off)]    ["M",id,nd,ng,ns,nb,w,l,model]
 ["S",id,n1,n2,sn1,sn2,model,ic]
 ["N",id,n1,n2,law,params]    user-defined nonlinear conductance (harness class)
fn: ["pulse",v1,v2,td,tr,pw,tf,per] ["sin",vo,va,f,td,theta] ["exp",v1,v2,td1,tau1,td2,tau2]
    ["pwl",[t..],[v..]]
models: {label: [type, {params}]}
"""
import math

GND = "0"


# ------------------------------------------------------------- user element

class UserConductance(object):
    """A nonlinear two-terminal element supplied by the user of the library.

    It is ordinary ahkab usage (elements are duck-typed objects appended to the
    Circuit) and at the same time the simulator's fault point inside the device
    evaluation: `fault(n, v, time)` is called at every evaluation of the current.
    """
    is_nonlinear = True
    is_symbolic = True

    def __init__(self, part_id, n1, n2, law, params, hook=None):
        self.part_id = part_id
        self.n1, self.n2 = n1, n2
        self.ports = ((n1, n2),)
        self.law, self.params = law, params
        self.dc_guess = [0.1]
        self.hook = hook
        self.evals = 0

    def get_output_ports(self):
        return self.ports

    def get_drive_ports(self, op):
        return self.ports

    def __str__(self):
        return "user %s" % self.law

    def i(self, op_index, ports_v, time=0):
        self.evals += 1
        if self.hook is not None:
            self.hook(self, ports_v[0], time)
        return user_law(self.law, self.params, ports_v[0])[0]

    def g(self, op_index, ports_v, port_index, time=0):
        return user_law(self.law, self.params, ports_v[0])[1]

    def get_op_info(self, ports_v):
        v = float(ports_v[0][0])
        return ["Part ID", "V [V]"], [self.part_id.upper(), v]

    def get_netlist_elem_line(self, nodes_dict):
        return "%s %s %s" % (self.part_id, nodes_dict[self.n1], nodes_dict[self.n2])


def user_law(law, p, v):
    if law == "cubic":              # i = g v + a v^3
        return p[0] * v + p[1] * v ** 3, p[0] + 3 * p[1] * v * v
    if law == "tanh":               # i = I0 tanh(v/V0) + g v
        t = math.tanh(v / p[1])
        return p[0] * t + p[2] * v, p[0] / p[1] * (1 - t * t) + p[2]
    if law == "exp":                # i = IS (exp(v/VT) - 1), linearised above
        lim = 40.0
        u = v / p[1]
        if u > lim:
            e = math.exp(lim)
            return p[0] * (e * (1 + u - lim) - 1), p[0] / p[1] * e
        e = math.exp(max(u, -700.0))
        return p[0] * (e - 1), p[0] / p[1] * e
    raise ValueError(law)


# ------------------------------------------------------------- construction

def make_fn(fn):
    if fn is None:
        return None
    import ahkab.time_functions as tf
    k, a = fn[0], fn[1:]
    if k == "pulse":
        return tf.pulse(*a)
    if k == "sin":
        return tf.sin(*a)
    if k == "exp":
        return tf.exp(*a)
    if k == "pwl":
        return tf.pwl(a[0], a[1])
    raise ValueError(k)


def cval(x):
    return complex(x[0], x[1]) if isinstance(x, (list, tuple)) else x


def build(cj, title="sim", hook=None, fnwrap=None):
    """The circuit as ahkab sees it."""
    import ahkab
    c = ahkab.Circuit(title)
    for label in sorted(cj.get("models", {})):
        typ, par = cj["models"][label]
        c.add_model(typ, label, dict(par))
    for nname in cj.get("node_order", []):
        c.add_node(nname)
    for e in cj["els"]:
        add_elem(c, e, hook, fnwrap)
    return c


def dextra(e):
    return {k: v for k, v in zip(("ic", "T", "off"), e[6:]) if v is not None}


def add_elem(c, e, hook=None, fnwrap=None):
    import ahkab
    gnd = c.get_ground_node()

    def nd(n):
        return gnd if n == GND else n
    t = e[0]
    if t == "R":
        c.add_resistor(e[1], nd(e[2]), nd(e[3]), e[4])
    elif t == "C":
        c.add_capacitor(e[1], nd(e[2]), nd(e[3]), e[4], ic=e[5])
    elif t == "L":
        c.add_inductor(e[1], nd(e[2]), nd(e[3]), e[4], ic=e[5])
    elif t in "VI":
        f = make_fn(e[6])
        if f is not None and fnwrap is not None:
            f = fnwrap(e, f)
        add = c.add_vsource if t == "V" else c.add_isource
        add(e[1], nd(e[2]), nd(e[3]), e[4], cval(e[5]), f)
    elif t == "E":
        c.add_vcvs(e[1], nd(e[2]), nd(e[3]), nd(e[4]), nd(e[5]), e[6])
    elif t == "G":
        c.add_vccs(e[1], nd(e[2]), nd(e[3]), nd(e[4]), nd(e[5]), e[6])
    elif t == "F":
        c.add_cccs(e[1], nd(e[2]), nd(e[3]), e[4], e[5])
    elif t == "H":
        c.add_ccvs(e[1], nd(e[2]), nd(e[3]), e[4], e[5])
    elif t == "K":
        c.add_inductor_coupling(e[1], e[2], e[3], e[4])
    elif t == "D":
        c.add_diode(e[1], nd(e[2]), nd(e[3]), e[4], Area=e[5], **dextra(e))
    elif t == "M":
        c.add_mos(e[1], nd(e[2]), nd(e[3]), nd(e[4]), nd(e[5]), e[6], e[7], e[8])
    elif t == "S":
        c.add_switch(e[1], nd(e[2]), nd(e[3]), nd(e[4]), nd(e[5]), e[7], e[6])
    elif t == "N":
        n1, n2 = c.add_node(nd(e[2])), c.add_node(nd(e[3]))
        c.append(UserConductance(e[1], n1, n2, e[4], e[5], hook))
        if len(e) > 6:
            c[-1].dc_guess = e[6]
    else:
        raise ValueError(t)


NPINS = {"R": 2, "C": 2, "L": 2, "V": 2, "I": 2, "E": 4, "G": 4, "F": 2, "H": 2,
         "D": 2, "M": 4, "S": 4, "N": 2, "K": 0}


def pins(e):
    return e[2:2 + NPINS[e[0]]]


def nodes_of(cj):
    s = []
    for e in cj["els"]:
        for n in pins(e):
            if n != GND and n not in s:
                s.append(n)
    return s


def is_vdef(e):
    return e[0] in "VEHL"


# ------------------------------------------------------------- generation

def logu(rng, a, b):
    return float("%.3g" % math.exp(rng.uniform(math.log(a), math.log(b))))


def nice(rng, a, b):
    return float("%.4g" % rng.uniform(a, b))


LOOKALIKE = ["10", "1", "100", "11", "2", "21", "12", "20", "101", "3", "31", "22", "30"]
SUFFIXED = ["1b", "1", "1bx", "in", "2", "inp", "2a", "1x"]


class Gen(object):
    """Well-posed random circuits: a resistive spanning tree ties every node to
    ground; voltage-defined branches never close a loop among themselves."""

    def __init__(self, rng, nmin=1, nmax=6):
        self.rng = rng
        n = rng.randint(nmin, nmax)
        style = rng.random()
        num = LOOKALIKE if rng.random() < .25 else [str(i + 1) for i in range(99)]
        self.num = rng.choice([LOOKALIKE, SUFFIXED]) if rng.random() < .3 else None
        if style < 0.5:
            self.nodes = ["n" + num[i] for i in range(n)]
        elif style < 0.8:
            pool = ["in", "out", "a", "b", "x1", "mid", "vdd", "ref", "s", "q"]
            rng.shuffle(pool)
            self.nodes = pool[:n]
        else:
            self.nodes = num[:n]
        self.els = []
        self.models = {}
        self.cnt = {}
        self.uf = {x: x for x in self.nodes + [GND]}
        self.tree = []

    def name(self, t):
        self.cnt[t] = self.cnt.get(t, 0) + 1
        k = self.cnt[t]
        return t + (self.num[k - 1] if self.num and k <= len(self.num) else "%d" % (k + 200 * bool(self.num)))

    def find(self, x):
        while self.uf[x] != x:
            x = self.uf[x]
        return x

    def pair(self, distinct=True, gnd=0.35):
        r = self.rng
        a = r.choice(self.nodes)
        others = [x for x in self.nodes if x != a]
        b = GND if (r.random() < gnd or not others) else r.choice(others)
        return (a, b) if r.random() < 0.7 else (b, a)

    def vpair(self):
        """A pair for a voltage-defined branch closing no loop of such branches."""
        for _ in range(12):
            a, b = self.pair(gnd=0.6)
            ra, rb = self.find(a), self.find(b)
            if ra != rb:
                self.uf[ra] = rb
                return a, b
        return None

    def backbone(self, lo=50.0, hi=2e5):
        r = self.rng
        done = [GND]
        order = list(self.nodes)
        r.shuffle(order)
        for x in order:
            p = GND if r.random() < 0.3 else r.choice(done)
            a, b = (x, p) if r.random() < 0.7 else (p, x)
            self.els.append(["R", self.name("R"), a, b, logu(r, lo, hi)])
            done.append(x)
        return self

    def add(self, t, **k):
        r = self.rng
        if t == "R":
            a, b = self.pair()
            self.els.append(["R", self.name("R"), a, b, logu(r, k.get("lo", 50.0), k.get("hi", 2e5))])
        elif t == "C":
            a, b = self.pair()
            self.els.append(["C", self.name("C"), a, b, logu(r, k.get("lo", 1e-10), k.get("hi", 1e-7)), k.get("ic")])
        elif t == "L":
            p = self.vpair()
            if p is None:
                return None
            self.els.append(["L", self.name("L"), p[0], p[1], logu(r, k.get("lo", 1e-5), k.get("hi", 1e-2)), k.get("ic")])
        elif t == "V":
            p = self.vpair()
            if p is None:
                return None
            self.els.append(["V", self.name("V"), p[0], p[1], k.get("dc", nice(r, -10, 10)), k.get("ac", 0), k.get("fn")])
        elif t == "I":
            a, b = self.pair()
            self.els.append(["I", self.name("I"), a, b, k.get("dc", nice(r, -5e-3, 5e-3)), k.get("ac", 0), k.get("fn")])
        elif t == "E":
            p = self.vpair()
            if p is None:
                return None
            s = self.pair()
            self.els.append(["E", self.name("E"), p[0], p[1], s[0], s[1], nice(r, -3, 3)])
        elif t == "G":
            a, b = self.pair()
            s = self.pair()
            self.els.append(["G", self.name("G"), a, b, s[0], s[1], nice(r, -2e-4, 2e-4)])
        elif t in "FH":
            src = [e[1] for e in self.els if e[0] in ("V",)]
            if not src:
                return None
            if t == "F":
                a, b = self.pair()
                self.els.append(["F", self.name("F"), a, b, r.choice(src), nice(r, -2, 2)])
            else:
                p = self.vpair()
                if p is None:
                    return None
                self.els.append(["H", self.name("H"), p[0], p[1], r.choice(src), nice(r, -500, 500)])
        elif t == "K":
            ls = [e[1] for e in self.els if e[0] == "L"]
            used = set()
            for e in self.els:
                if e[0] == "K":
                    used.add(frozenset(e[2:4]))
            if len(ls) < 2:
                return None
            pr = r.sample(ls, 2)
            if frozenset(pr) in used:
                return None
            self.els.append(["K", self.name("K"), pr[0], pr[1], nice(r, 0.1, 0.5)])
        elif t == "D":
            a, b = self.pair()
            m = k.get("model") or self.model("D", **k)
            self.els.append(["D", self.name("D"), a, b, m, k.get("area")])
        elif t == "M":
            r_ = self.nodes + [GND]
            d, g, s = r.choice(self.nodes), r.choice(r_), r.choice(r_)
            if s == d:
                s = GND
            m = k.get("model") or self.model(r.choice(["MQ", "MQ", "ME"]))
            self.els.append(["M", self.name("M"), d, g, s, s, logu(r, 1e-6, 5e-5), logu(r, 1e-6, 5e-6), m])
        elif t == "S":
            a, b = self.pair()
            c, d = self.pair(gnd=0.8)
            self.els.append(["S", self.name("S"), a, b, c, d, k.get("model") or self.model("S"), None])
        elif t == "N":
            a, b = self.pair()
            law = r.choice(["cubic", "tanh", "exp"])
            par = {"cubic": [logu(r, 1e-5, 1e-3), logu(r, 1e-5, 1e-3)],
                   "tanh": [logu(r, 1e-5, 3e-3), logu(r, .05, 1.), logu(r, 1e-6, 1e-3)],
                   "exp": [logu(r, 1e-14, 1e-9), .0259]}[law]
            self.els.append(["N", self.name("Y"), a, b, law, par])
        return self.els[-1]

    def model(self, kind, **k):
        r = self.rng
        lab = "m%d" % (len(self.models) + 1)
        if kind == "D":
            p = {"IS": logu(r, 1e-16, 1e-11), "N": nice(r, 1.0, 1.8)}
            if r.random() < 0.25 and k.get("bv", True):
                p["BV"] = nice(r, 4, 30)
            if k.get("rs") and r.random() < 0.4:
                p["RS"] = logu(r, 1.0, 50.0)
            self.models[lab] = ["diode", p]
        elif kind == "MQ":
            pol = r.choice(["n", "p"])
            self.models[lab] = ["mosq", {"TYPE": pol, "KP": logu(r, 2e-5, 2e-4),
                                         "VTO": nice(r, .3, .9) * (1 if pol == "n" else -1),
                                         "LAMBDA": nice(r, .005, .1), "AVT": 7.1e-3 * 1e-6, "AKP": 1.8e-2 * 1e-6,
                                         "COX": .7e-3, "TOX": None}]
            self.models[lab][1] = {"TYPE": pol, "VTO": self.models[lab][1]["VTO"], "KP": self.models[lab][1]["KP"],
                                   "LAMBDA": self.models[lab][1]["LAMBDA"]}
        elif kind == "ME":
            pol = r.choice(["n", "p"])
            self.models[lab] = ["ekv", {"TYPE": pol, "VTO": nice(r, .3, .7) * (1 if pol == "n" else -1),
                                        "KP": logu(r, 1e-5, 1e-4)}]
        elif kind == "S":
            self.models[lab] = ["sw", {"VT": nice(r, -1, 2), "VH": 0.0, "RON": logu(r, 1, 100), "ROFF": logu(r, 1e5, 1e8)}]
        return lab

    def out(self):
        els = list(self.els)
        cj = {"els": els}
        if self.models:
            cj["models"] = self.models
        return cj


def guesses(rng, cj, p=.2):
    """Some of the diodes get an initial voltage, some of the user's elements
    suggest nothing to the guess of the operating point."""
    if any(e[0] in "DN" for e in cj["els"]) and rng.random() < p:
        same = rng.random() < .5
        for e in cj["els"]:
            if e[0] == "D" and len(e) == 6 and rng.random() < .6:
                e.append(nice(rng, -1.0, .4) if rng.random() < .7 else None)
                if rng.random() < .5:
                    e.append(nice(rng, 260., 380.) if rng.random() < .7 else None)
                    if rng.random() < .3:
                        e.append(True)
            elif e[0] == "N" and len(e) == 6 and (same or rng.random() < .5):
                e.append(None)
    return cj


def shuffled(rng, cj):
    """The same circuit, its elements in another order (K and F/H after what they name)."""
    els = list(cj["els"])
    rng.shuffle(els)
    late = [e for e in els if e[0] in "KFH"]
    return dict(cj, els=[e for e in els if e[0] not in "KFH"] + late)


# ------------------------------------------------------------- shrinking

def _refs(e):
    if e[0] in "FH":
        return [e[4]]
    if e[0] == "K":
        return [e[2], e[3]]
    return []


def valid(cj):
    ids = {e[1] for e in cj["els"]}
    for e in cj["els"]:
        if any(x not in ids for x in _refs(e)):
            return False
        if NPINS[e[0]] and e[0] not in "MS" and e[2] == e[3]:
            return False
    return bool(nodes_of(cj))


def shrink_circuit(cj, keep=()):
    """Smaller circuits: drop an element, merge a node into another."""
    els = cj["els"]
    for i in range(len(els) - 1, -1, -1):
        if els[i][1] in keep:
            continue
        gone = {els[i][1]}
        new = [e for e in els if e[1] not in gone and not (set(_refs(e)) & gone)]
        if any(k not in {e[1] for e in new} for k in keep):
            continue
        c = dict(cj, els=new)
        used = {e[4] if e[0] == "D" else e[8] if e[0] == "M" else e[6] for e in new if e[0] in "DMS"}
        if cj.get("models"):
            c["models"] = {m: v for m, v in cj["models"].items() if m in used}
            if not c["models"]:
                c.pop("models")
        if valid(c):
            yield c
    ns = nodes_of(cj)
    for n in ns:
        for tgt in [GND] + [x for x in ns if x < n]:
            new = []
            for e in els:
                e2 = list(e)
                for k in range(2, 2 + NPINS[e[0]]):
                    if e2[k] == n:
                        e2[k] = tgt
                if NPINS[e[0]] and e2[2] == e2[3]:
                    if e2[1] in keep:
                        break
                    continue
                new.append(e2)
            else:
                c = dict(cj, els=new)
                if valid(c) and nodes_of(c):
                    yield c
    for i, e in enumerate(els):
        if e[0] == "R" and e[4] != 1000.0:
            yield dict(cj, els=els[:i] + [e[:4] + [1000.0]] + els[i + 1:])
        if e[0] in "VI" and e[6] is not None and e[1] not in keep:
            yield dict(cj, els=els[:i] + [e[:6] + [None]] + els[i + 1:])


def shrink_list(xs):
    if len(xs) > 3:
        yield xs[:len(xs) // 2]
        yield xs[len(xs) // 2:]
    for i in range(len(xs)):
        yield xs[:i] + xs[i + 1:]


def shrink_dict(d):
    for k in sorted(d):
        e = dict(d)
        e.pop(k)
        yield e
