"""Reference model: modified nodal analysis assembled from the JSON circuit.

Independent of ahkab (own stamps, own numerics on the unpatched LAPACK calls);
only the MOS device equations are taken from the device objects, because device
laws are not what these checks judge.

Sign conventions are the documented ones: F(x) = A x + D x' + b(t) + i_nl(x) = 0;
a current source takes its current out of n1; I(V) flows from n1 to n2 through
the source.
"""
import math

import numpy as np

from . import circ as cm
from .seams import real

K_B = 1.3806503e-23
Q_E = 1.60217646e-19


def vth(T=300.0):
    return K_B * T / Q_E


def fn_value(fn, t):
    k, a = fn[0], fn[1:]
    if k == "sin":
        vo, va, f, td, th = a
        if t < td:
            return vo
        return vo + va * math.exp(-(t - td) * th) * math.sin(2 * math.pi * f * (t - td))
    if k == "pulse":
        v1, v2, td, tr, pw, tf, per = a
        if t < td:
            return v1
        tt = (t - td) % per if per else t - td
        if tt < tr:
            return v1 + (v2 - v1) * tt / tr
        if tt < tr + pw:
            return v2
        if tt < tr + pw + tf:
            return v2 + (v1 - v2) * (tt - tr - pw) / tf
        return v1
    if k == "exp":
        v1, v2, td1, t1, td2, t2 = a
        v = v1
        if t >= td1:
            v += (v2 - v1) * (1 - math.exp(-(t - td1) / t1))
        if t >= td2:
            v += (v1 - v2) * (1 - math.exp(-(t - td2) / t2))
        return v
    if k == "pwl":
        return float(np.interp(t, a[0], a[1]))
    raise ValueError(k)


def fn_breaks(fn, t0, t1):
    """Instants where the source or its slope jumps."""
    k, a = fn[0], fn[1:]
    out = []
    if k == "sin":
        out = [a[3]]
    elif k == "exp":
        out = [a[2], a[4]]
    elif k == "pwl":
        out = list(a[0])
    elif k == "pulse":
        v1, v2, td, tr, pw, tf, per = a
        n = 0
        while True:
            base = td + n * per
            if base > t1 or n > 10000:
                break
            out += [base, base + tr, base + tr + pw, base + tr + pw + tf]
            if not per:
                break
            n += 1
    return [t for t in out if t0 < t < t1]


class Sys(object):
    def __init__(self, cj, hsign=1.0, dev_circ=None, override=None):
        self.cj = cj
        self.nodes = cm.nodes_of(cj)
        self.nn = len(self.nodes)
        self.ni = {n: i for i, n in enumerate(self.nodes)}
        self.br = [e for e in cj["els"] if cm.is_vdef(e)]
        self.bi = {e[1]: self.nn + i for i, e in enumerate(self.br)}
        n = self.n = self.nn + len(self.br)
        self.names = ["V" + x for x in self.nodes] + ["I(%s)" % e[1] for e in self.br]
        A, D = np.zeros((n, n)), np.zeros((n, n))
        self.b0 = np.zeros(n)
        self.bac = np.zeros(n, dtype=complex)
        self.td = []
        self.nl = []
        self.override = override or {}
        dev = {}
        if any(e[0] == "M" for e in cj["els"]):
            c = dev_circ if dev_circ is not None else cm.build(cj)
            dev = {e.part_id: e for e in c}

        def ix(x):
            return -1 if x == cm.GND else self.ni[x]

        def at(M, i, j, v):
            if i >= 0 and j >= 0:
                M[i, j] += v
        for e in cj["els"]:
            t = e[0]
            p = [ix(x) for x in cm.pins(e)]
            if t in "RC":
                M, v = (A, 1.0 / e[4]) if t == "R" else (D, e[4])
                at(M, p[0], p[0], v), at(M, p[1], p[1], v)
                at(M, p[0], p[1], -v), at(M, p[1], p[0], -v)
            elif t == "I":
                dc = self.override.get(e[1], e[4])
                if p[0] >= 0:
                    self.b0[p[0]] += dc
                    self.bac[p[0]] += cm.cval(e[5])
                if p[1] >= 0:
                    self.b0[p[1]] -= dc
                    self.bac[p[1]] -= cm.cval(e[5])
                if e[6]:
                    self.td.append((e, p, None))
            elif t == "G":
                for k, s in ((0, 1), (1, -1)):
                    at(A, p[k], p[2], s * e[6])
                    at(A, p[k], p[3], -s * e[6])
            elif t == "F":
                j = self.bi[e[4]]
                at(A, p[0], j, e[5])
                at(A, p[1], j, -e[5])
            elif t == "K":
                l1 = [x for x in cj["els"] if x[1] == e[2]][0]
                l2 = [x for x in cj["els"] if x[1] == e[3]][0]
                m = e[4] * math.sqrt(l1[4] * l2[4])
                D[self.bi[e[2]], self.bi[e[3]]] -= m
                D[self.bi[e[3]], self.bi[e[2]]] -= m
            elif t == "D":
                par = cj["models"][e[4]][1]
                self.nl.append((p[0], p[1], [(p[0], p[1])], _diode(par, e[5], cm.dextra(e).get("T"))))
            elif t == "S":
                par = cj["models"][e[6]][1]
                self.nl.append((p[0], p[1], [(p[0], p[1]), (p[2], p[3])], _switch(par)))
            elif t == "N":
                self.nl.append((p[0], p[1], [(p[0], p[1])], _user(e[4], e[5])))
            elif t == "M":
                el = dev[e[1]]
                d, g, s, b = p
                self.nl.append((d, s, mos_ports(el, d, g, s, b), _mos(el)))
            if cm.is_vdef(e):
                j = self.bi[e[1]]
                at(A, p[0], j, 1.0), at(A, p[1], j, -1.0)
                at(A, j, p[0], 1.0), at(A, j, p[1], -1.0)
                if t == "V":
                    self.b0[j] -= self.override.get(e[1], e[4])
                    self.bac[j] -= cm.cval(e[5])
                    if e[6]:
                        self.td.append((e, p, j))
                elif t == "E":
                    at(A, j, p[2], -e[6]), at(A, j, p[3], e[6])
                elif t == "H":
                    A[j, self.bi[e[4]]] -= hsign * e[5]
                elif t == "L":
                    D[j, j] -= e[4]
        self.A, self.D = A, D

    # ---- pieces
    def b(self, t):
        """Source vector; t None: DC values."""
        b = self.b0
        if t is None or not self.td:
            return b
        b = b.copy()
        for e, p, j in self.td:
            dv = fn_value(e[6], t) - self.override.get(e[1], e[4])
            if j is not None:
                b[j] -= dv
            else:
                if p[0] >= 0:
                    b[p[0]] += dv
                if p[1] >= 0:
                    b[p[1]] -= dv
        return b

    def breaks(self, t0, t1):
        s = set()
        for e, _, _ in self.td:
            s.update(fn_breaks(e[6], t0, t1))
        return sorted(s)

    def inl(self, x):
        f = np.zeros(self.n)
        J = np.zeros((self.n, self.n))
        for n1, n2, ports, law in self.nl:
            v = [(x[a] if a >= 0 else 0.0) - (x[b] if b >= 0 else 0.0) for a, b in ports]
            i, g = law(v)
            for r, s in ((n1, 1.0), (n2, -1.0)):
                if r < 0:
                    continue
                f[r] += s * i
                for (a, b), gk in zip(ports, g):
                    if a >= 0:
                        J[r, a] += s * gk
                    if b >= 0:
                        J[r, b] -= s * gk
        return f, J

    def gmin(self, g):
        M = np.zeros((self.n, self.n))
        for i in range(self.nn):
            M[i, i] = g
        return M

    def gdev(self, g):
        """A conductance in parallel with every nonlinear device."""
        M = np.zeros((self.n, self.n))
        for n1, n2, _, _ in self.nl:
            for r, c, s in ((n1, n1, g), (n2, n2, g), (n1, n2, -g), (n2, n1, -g)):
                if r >= 0 and c >= 0:
                    M[r, c] += s
        return M

    def residual(self, x, A=None, b=None):
        A = self.A if A is None else A
        b = self.b0 if b is None else b
        f = A.dot(x) + b
        if self.nl:
            f = f + self.inl(x)[0]
        return f

    def newton(self, x, A=None, b=None, maxit=60, xtol=1e-13, damp=None):
        """Refine x. Returns (x*, converged)."""
        A = self.A if A is None else A
        b = self.b0 if b is None else b
        x = np.array(x, dtype=float).reshape(-1)
        last = []
        if not self.nl:
            try:
                return real["solve"](A, -b), True
            except np.linalg.LinAlgError:
                return x, False
        for it in range(maxit):
            f, J = self.inl(x)
            F = A.dot(x) + b + f
            try:
                dx = real["solve"](A + J, -F)
            except np.linalg.LinAlgError:
                return x, False
            if not np.all(np.isfinite(dx)):
                return x, False
            m = np.max(np.abs(dx[:self.nn])) if self.nn else 0.0
            if damp and m > damp:
                dx = dx * (damp / m)
            x = x + dx
            if np.max(np.abs(dx) / (1e-6 + np.abs(x))) < xtol ** 0.5 and \
               np.max(np.abs(dx)) < 1e-9 * (1.0 + np.max(np.abs(x))):
                return x, True
            last = (last + [np.max(np.abs(dx)) / (1.0 + np.max(np.abs(x)))])[-8:]
        # a device with its own inner solver answers with noise: hovering far below every
        # tolerance the circuit solver knows is as good as it gets
        return x, len(last) == 8 and max(last) < 1e-10

    def dc(self, x0=None, gmin=0.0, t=None):
        A = self.A + (self.gmin(gmin) if gmin else 0.0)
        b = self.b(t)
        x, ok = self.newton(np.zeros(self.n) if x0 is None else x0, A, b, 200)
        if ok or not self.nl:
            return x, ok
        x, ok = self.newton(np.zeros(self.n), A, b, 3000, damp=0.1)
        if ok:
            return x, ok
        x = np.zeros(self.n)
        for k in range(41):         # source ramp
            x, ok = self.newton(x, A, b * (k / 40.0), 800, damp=0.2)
        return x, ok

    def cond(self):
        try:
            return float(np.linalg.cond(self.A))
        except np.linalg.LinAlgError:
            return float("inf")

    def roundoff(self, x):
        """What rounding errors in the linear equations can do to each component of x."""
        try:
            J = self.A + self.inl(x)[1] if self.nl else self.A
            return 1e-15 * np.abs(np.linalg.inv(J)).dot(np.abs(J).dot(np.abs(x)))
        except (np.linalg.LinAlgError, OverflowError, ArithmeticError):
            return np.zeros(len(x))

    def vec(self, get):
        """Collect a vector in this system's order; get(name) -> value."""
        return np.array([get(n) for n in self.names])


# ---------------------------------------------------------------- device laws

def _sexp(x):
    return math.exp(x) if x < 70 else math.exp(70) + 10 * x


def _diode(par, area, T=None):
    IS, N = par.get("IS", 1e-14), par.get("N", 1.0)
    BV, RS = par.get("BV", float("inf")), par.get("RS", 0.0)
    NBV = par.get("NBV", 1.0)
    area = 1.0 if area is None else area
    T0 = 300.0
    T = T0 if T is None else T
    VT = vth(T)
    eg = 1.16 - .000702 * T0 ** 2 / (1108 + T0)            # of silicon, at T0
    IS *= (T / T0) ** (3.0 / N) * math.exp(-eg * (1 - T / T0) / (N * VT))

    def junction(v):
        ef = _sexp(v / (N * VT))
        er = _sexp(-(v + BV) / (NBV * VT)) if math.isfinite(BV) else 0.0
        i = IS * (ef - 1) - IS * (er - 1)
        g = IS / (N * VT) * ef + IS / (NBV * VT) * er
        return area * i, area * g
    if not RS:
        return lambda v: (lambda r: (r[0], [r[1]]))(junction(v[0]))

    def series(v):
        v = v[0]
        leak = 2 * RS * IS * area                     # the law has a current of IS at 0 V
        lo, hi = min(v, 0.0) - leak, max(v, 0.0) + leak     # junction voltage
        if v > 0:
            hi = min(hi, N * VT * math.log(1 + v / (RS * IS * area)) + 1e-9)
        for _ in range(64):
            m = 0.5 * (lo + hi)
            if (v - m) - RS * junction(m)[0] > 0:
                lo = m
            else:
                hi = m
        vj = 0.5 * (lo + hi)
        g = junction(vj)[1]
        return (v - vj) / RS, [g / (1 + RS * g)]
    return series


def _switch(par):
    VT, VH = par.get("VT", 0.0), par.get("VH", 0.0)
    RON, ROFF = par.get("RON", 1.0), par.get("ROFF", 1e12)
    A, B, S = (RON - ROFF) / 2.0, (RON + ROFF) / 2.0, 1e2
    assert VH == 0.0

    def law(v):
        th = math.tanh((v[1] - VT) * S)
        R = A * th + B
        dR = A * S * (1 - th * th)
        return v[0] / R, [1.0 / R, -v[0] / (R * R) * dR]
    return law


def _user(law, par):
    def f(v):
        i, g = cm.user_law(law, par, v[0])
        return i, [g]
    return f


def mos_ports(el, d, g, s, b):
    """The device's own choice of controlling voltages, as reference indices."""
    m = {}
    for k, v in ((el.n1, d), (el.ng, g), (el.n2, s), (el.nb, b)):
        m[k] = v
    return [(m[p], m[q]) for p, q in el.ports]


def _mos(el):
    def cur(v):
        if hasattr(el, "istamp"):
            return float(np.asarray(el.istamp(tuple(v), reduced=False)[1]).reshape(-1)[0])
        return float(el.i(0, tuple(v)))

    def f(v):
        v = [float(x) for x in v]
        g = []
        for k in range(3):
            h = 1e-6
            a, b = list(v), list(v)
            a[k] += h
            b[k] -= h
            g.append((cur(a) - cur(b)) / (2 * h))
        return cur(v), g
    return f
