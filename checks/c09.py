"""C09 dual numbers differentiate exactly."""
import math

import mpmath as mp
import numpy as np

from vf import ref
from vf.core import Check, main

from einsteinpy.geodesic.utils import _kerr, _kerrnewman, _sch
from einsteinpy.utils.dual import DualNumber, _deriv, _diff_g, _jacobian_g

CHECK = Check(
    "C09",
    "one case = one random program over dual and plain numbers (or one metric function and event), executed by the library and by a "
    "50-digit forward-mode model with a running rounding bound; distinct = operator/operand-kind combinations executed and metrics x wrt",
    ["the model's rounding bound (times 16) is the allowance; programs whose bound is no longer small are skipped"],
)

E = ref.EPS


class N:
    """value, derivative and rounding bounds of both"""
    __slots__ = ("v", "d", "ev", "ed")

    def __init__(self, v, d=0, ev=0.0, ed=0.0):
        self.v, self.d, self.ev, self.ed = mp.mpf(v), mp.mpf(d), float(ev), float(ed)


def add(a, b, s=1):
    v, d = a.v + s * b.v, a.d + s * b.d
    return N(v, d, a.ev + b.ev + E * abs(v), a.ed + b.ed + E * abs(d))


def mul(a, b):
    v = a.v * b.v
    d = a.d * b.v + a.v * b.d
    return N(v, d, abs(a.v) * b.ev + abs(b.v) * a.ev + E * abs(v),
             abs(a.d) * b.ev + abs(b.v) * a.ed + abs(a.v) * b.ed + abs(b.d) * a.ev
             + 3 * E * (abs(a.d * b.v) + abs(a.v * b.d)))


def div(a, b):
    v = a.v / b.v
    d = (a.d * b.v - a.v * b.d) / b.v ** 2
    b2 = b.v ** 2
    return N(v, d, (a.ev + abs(v) * b.ev) / abs(b.v) + E * abs(v),
             (abs(b.v) * a.ed + abs(a.d) * b.ev + abs(a.v) * b.ed + abs(b.d) * a.ev) / b2
             + 2 * (abs(a.d * b.v) + abs(a.v * b.d)) / b2 / abs(b.v) * b.ev
             + 5 * E * (abs(a.d * b.v) + abs(a.v * b.d)) / b2)


def chain(a, f, f1, f2, extra=2):
    d = f1 * a.d
    return N(f, d, abs(f1) * a.ev + extra * E * abs(f) + 1e-17 * E,
             abs(f1) * a.ed + abs(f2 * a.d) * a.ev + 4 * extra * E * abs(d))


def power(a, n):
    n_ = mp.mpf(n)
    if n == 0:
        return N(1, 0)
    f = a.v ** n_
    f1 = n_ * a.v ** (n_ - 1) if a.v or n >= 1 else mp.nan
    f2 = n_ * (n_ - 1) * a.v ** (n_ - 2) if a.v else mp.mpf(0)
    return chain(a, f, f1, f2, 2 + abs(float(n)))


def fsin(a):
    s, k = mp.sin(a.v), mp.cos(a.v)
    r = chain(a, s, k, s)
    r.ev += E * E
    r.ed += E * float(abs(a.d)) * 1e-3 * 0
    return r


def fcos(a):
    s, k = mp.sin(a.v), mp.cos(a.v)
    return chain(a, k, -s, k)


def ftan(a):
    t = mp.tan(a.v)
    q = 1 + t * t
    return chain(a, t, q, 2 * t * q, 8)


def flog(a):
    return chain(a, mp.log(a.v), 1 / a.v, 1 / a.v ** 2)


def fexp(a):
    e = mp.exp(a.v)
    return chain(a, e, e, e, 4)


FUN = dict(sin=(np.sin, fsin), cos=(np.cos, fcos), tan=(np.tan, ftan), log=(np.log, flog), exp=(np.exp, fexp))


def leaf(c, dual=None):
    """(library value, model, kind)"""
    v = c.pick([c.uni(-3, 3), c.uni(-3, 3), c.logu(1e-3, 1e3), -c.logu(1e-3, 1e3), float(c.rint(-3, 3))])
    k = c.pick(["dual", "dual", "dual", "const", "float", "int", "npf"]) if dual is None else dual
    if k == "dual":
        d = c.pick([1.0, 1.0, 0.0, c.uni(-2, 2)])
        return DualNumber(v, d), N(v, d), k
    if k == "const":
        return DualNumber(v, 0), N(v), "dual"
    if k == "int":
        v = c.rint(-4, 4)
        return v, N(v), k
    return (np.float64(v) if k == "npf" else v), N(v), k


def small(m):
    return abs(m.v) < 1e8 and abs(m.d) < 1e8 and m.ev < 1e-7 * max(1e-3, abs(m.v)) and m.ed < 1e-6 * max(1e-3, abs(m.d))


def step(c, pool):
    """apply one operation; None when its domain does not fit"""
    op = c.pick(["+", "-", "*", "/", "+", "-", "*", "/", "neg", "pow", "powf", "sin", "cos", "tan", "log", "exp"])
    (la, ma, ka) = c.pick(pool)
    if op in "+-*/":
        (lb, mb, kb) = c.pick(pool) if c.coin(0.6) else leaf(c)
        if ka != "dual" and kb != "dual":
            return None
        if c.coin():
            la, ma, ka, lb, mb, kb = lb, mb, kb, la, ma, ka
        if op == "/" and abs(mb.v) < 1e-4:
            return None
        r = {"+": lambda: (la + lb, add(ma, mb)), "-": lambda: (la - lb, add(ma, mb, -1)),
             "*": lambda: (la * lb, mul(ma, mb)), "/": lambda: (la / lb, div(ma, mb))}[op]()
        return (*r, f"{ka}{op}{kb}")
    if ka != "dual":
        return None
    if op == "neg":
        return -la, N(-ma.v, -ma.d, ma.ev, ma.ed), "neg"
    if op == "pow":
        n = c.pick([0, 1, 2, 2, 3, 4, -1, -2, -3, 2.0, 5])
        if abs(ma.v) < 1e-2 and n < 0 or abs(ma.v) > 30 or ma.v == 0 and ma.ev:
            return None
        return la ** n, power(ma, n), f"pow{n}"
    if op == "powf":
        n = c.pick([0.5, 1.5, -0.5, c.uni(-2, 3)])
        if ma.v < 1e-2 or ma.v > 1e3:
            return None
        return la ** n, power(ma, n), "powf"
    f, g = FUN[op]
    if op == "log" and ma.v < 1e-3 or op == "exp" and abs(ma.v) > 10 or op in ("sin", "cos", "tan") and abs(ma.v) > 100:
        return None
    if op == "tan" and abs(mp.cos(ma.v)) < 1e-3:
        return None
    if c.coin(0.3):
        r = getattr(la, op)()
    else:
        r = f(la)
    return r, g(ma), op


@CHECK.clause("programs", quick=18000, thorough=120000)
def programs(c):
    pool = [leaf(c, "dual")] + [leaf(c) for _ in range(c.rint(1, 3))]
    for (lv, m, k) in pool:
        if k == "dual":
            c.close([lv.val, lv.deriv], [float(m.v), float(m.d)], 0, 0, "constructor")
    trace = []
    want = c.rint(1, 25)
    tries = 0
    while len(trace) < want and tries < 100:
        tries += 1
        r = step(c, pool)
        if r is None:
            continue
        lib, m, name = r
        trace.append(name)
        if not isinstance(lib, DualNumber):
            c.ok(False, f"{name} returned {type(lib).__name__}, not a dual number", None, trace=trace)
            return
        tv = 16 * m.ev + 1e-300
        td = 16 * m.ed + 1e-300
        c.ok(abs(lib.val - m.v) <= tv, f"value of {name}: {lib.val!r} != {float(m.v)!r}", None, trace=trace)
        c.ok(abs(lib.deriv - m.d) <= td, f"derivative of {name}: {lib.deriv!r} != {float(m.d)!r}", None, trace=trace)
        c.seen(name)
        if small(m):
            pool.append((lib, m, "dual"))
    # operands are never changed
    for lv, m, k in pool:
        if k == "dual":
            c.ok(abs(lv.val - m.v) <= 16 * m.ev + 1e-300 and abs(lv.deriv - m.d) <= 16 * m.ed + 1e-300,
                 "an operand changed during later operations")
    c.note(trace=trace)


@CHECK.clause("discipline", quick=2400, thorough=6000)
def discipline(c):
    """equality is componentwise; x - x, x / x; 0/0 is the ratio of derivatives (l'Hopital)"""
    a, b, p, q = (c.pick([c.uni(-2, 2), 0.0, 1.0]) for _ in range(4))
    x, y = DualNumber(a, p), DualNumber(b, q)
    c.note(x=[a, p], y=[b, q])
    c.ok((x == y) == (a == b and p == q) and (x != y) == (not (a == b and p == q)), "equality")
    c.ok(x == DualNumber(a, p) and not (x != DualNumber(a, p)), "reflexive equality")
    for k in (b, int(b), np.float64(b)):  # a plain number is the dual number without derivative
        e = a == k and p == 0
        c.ok((x == k) == e and (x != k) == (not e) and (k == x) == e, "equality with a plain number", k=k)
    c.ok(not (x == None) and x != "x", "equality with something else")  # noqa: E711
    if a:
        z = x / x
        c.close([z.val, z.deriv], [1, 0], 0, 1e-14 * (1 + abs(p / a)), "x / x")
    z = x - x
    c.close([z.val, z.deriv], [0, 0], 0, 0, "x - x")
    if q:
        z = DualNumber(0.0, p) / DualNumber(0.0, q)
        c.close(z.val, p / q, 1e-15, 0, "0/0 is not the ratio of the derivatives")
    c.close([float(str(x).split("(")[1].split(",")[0])], [a], 0, 0, "str")
    c.seen(a == 0, b == 0, p == 0, q == 0)


FUNCS = [
    ("sin(x)*x**2", lambda x: np.sin(x) * x ** 2),
    ("x/(1+x**2)", lambda x: x / (1 + x ** 2)),
    ("exp(-x**2)", lambda x: np.exp(-(x ** 2))),
    ("log(1+x**2)", lambda x: np.log(1 + x ** 2)),
    ("tan(x/4)", lambda x: np.tan(x / 4)),
    ("2/x-x/2", lambda x: 2 / x - x / 2),
    ("(1-2/x)**-1", lambda x: (1 - 2 / x) ** -1),
    ("7", lambda x: 7.0),
    ("(x**2+3)**0.5", lambda x: (x ** 2 + 3) ** 0.5),
    ("3-x", lambda x: 3 - x),
    ("x*x*x", lambda x: x * x * x),
    ("cos(x)**3", lambda x: np.cos(x) ** 3),
]


@CHECK.clause("deriv", quick=3000, thorough=10000)
def deriv(c):
    """_deriv of a function of one variable, against an independent high-precision differentiation"""
    name, f = FUNCS[c.index % len(FUNCS)]
    x = c.uni(0.3, 1.7) * c.pick([1, -1]) if "2/x" not in name else c.uni(2.5, 9)
    ns = dict(sin=mp.sin, cos=mp.cos, tan=mp.tan, exp=mp.exp, log=mp.log)
    want = float(mp.diff(lambda t: eval(name.replace("0.5", "mp.mpf('0.5')"), dict(ns, x=t, mp=mp)), mp.mpf(x)))
    c.close(_deriv(f, x), want, 1e-13, 1e-13, f"derivative of {name}", x=x)
    c.note(function=name, x=x)
    c.seen(name)


LIB = dict(sch=(_sch, 0), kerr=(_kerr, 1), kn=(_kerrnewman, 2))


def spacetime(c):
    name = c.pick(list(LIB))
    a = 0.0 if name == "sch" else c.pick([0.0, 1.0, 0.9, c.uni(0, 1)])
    Q = 0.0 if name != "kn" else c.pick([0.0, c.uni(0, 1)]) * math.sqrt(max(0, 1 - a * a)) * c.pick([1, -1])
    rp = 1 + math.sqrt(max(0, 1 - a * a - Q * Q))
    reg = c.pick(["near", "mid", "far", "axis", "equator", "inside"])
    r, th = rp * c.uni(1.1, 6), math.acos(c.uni(-0.99, 0.99))
    if reg == "near":
        r = rp * (1 + c.logu(1e-2, 0.3))
    elif reg == "far":
        r = rp * c.logu(10, 1e4)
    elif reg == "axis":
        th = c.logu(1e-3, 0.1)
    elif reg == "equator":
        th = math.pi / 2
    elif reg == "inside":
        r = rp * c.uni(0.4, 0.8)
    x = [c.uni(-100, 100), r, th, c.uni(-3, 3)]
    prm = {"sch": (), "kerr": (a,), "kn": (a, Q)}[name]
    return name, LIB[name][0], prm, a, Q, reg, x


@CHECK.clause("metric_jacobian", quick=4500, thorough=20000)
def metric_jacobian(c):
    name, g, prm, a, Q, reg, x = spacetime(c)
    o = ref.kn_geo(a, Q, x)
    if not o["kappa"] < 1e8:
        c.skip("on a horizon or ergosurface to rounding")
    wrt = c.rint(0, 3)
    X = c.pick([list, np.array, tuple])(x)
    J = np.asarray(_jacobian_g(g, prm, X, wrt), dtype=float)
    c.ok(list(X) == x, "position modified")
    c.note(metric=name, a=a, Q=Q, x=x, wrt=wrt)
    c.ok(J.shape == (4, 4) and np.array_equal(J, J.T), "shape or symmetry")
    s = abs(math.sin(x[2]))
    scale = np.abs(o["ginv"]) * (1 / x[1] if wrt == 1 else (2 / s if wrt == 2 else 0))
    scale = np.maximum(scale, np.abs(o["dginv"][wrt]))
    t = 1e-13 * o["kappa"] ** 2 * scale * (1 + (1 / s ** 2 if name == "kn" else 0))
    if name == "kn" and wrt == 2:
        t[3, 3] += 1e-14 * o["kappa"] ** 2 / s ** 5 / x[1] ** 2
    if name == "kn":  # g^t_phi goes through a^2 - Delta + r^2
        t[0, 3] += 1e-13 * o["kappa"] ** 2 * abs(a) * (1 + x[1] ** 2) / (abs(o["delta"]) * o["sigma"]) * (
            1 / x[1] if wrt == 1 else 1 if wrt == 2 else 0)
        t[3, 0] = t[0, 3]
    # theta derivatives of r**2-dominated expressions
    if wrt == 2:
        t += 1e-15 * o["kappa"] ** 2 * np.abs(o["ginv"])
    c.close(J, o["dginv"][wrt], 0, t + 1e-300, f"d_{wrt} g^-1 of {name}", region=reg)
    i, j = c.rint(0, 3), c.rint(0, 3)
    d = _diff_g(g, prm, X, (i, j), wrt)
    c.close(d, o["dginv"][wrt][i, j], 0, t[i, j] + 1e-300, f"d_{wrt} g^{i}{j} of {name}")
    c.seen(name, reg, wrt, a == 0, Q == 0)


def user_metric(c):
    """metric function of all four coordinates from supported operations, and the same function for the model"""
    k = [c.uni(-1, 1) for _ in range(12)]
    off = c.rint(0, 9)

    def entry(i, j, x, sin, cos, exp, log):
        t, r, th, ph = x
        f = [
            lambda: k[0] * sin(th) ** 2 + r ** 2,
            lambda: k[1] * t * r + cos(ph + k[2]),
            lambda: 1 / (1 + r ** 2) - k[3] * exp(k[4] * t / 10),
            lambda: log(r) * cos(th) / 3 + 2,
            lambda: (r ** 2 + 1) ** 0.5 * k[5] - sin(ph),
            lambda: k[6] + 0 * r,
            lambda: -(t ** 2) + 3 / r - k[7],
            lambda: sin(t * k[8]) * cos(k[9] * r) / (2 + sin(ph)),
            lambda: 5,
            lambda: r * th * ph * k[10],
        ]
        return f[(3 * i + 5 * j + (i * j) + off) % len(f)]()

    def lib(x, *prm):
        g = np.zeros((4, 4), dtype=DualNumber)
        for i in range(4):
            for j in range(i, 4):
                g[i, j] = g[j, i] = entry(i, j, x, np.sin, np.cos, np.exp, np.log) * (prm[0] if prm else 1)
        return g
    return entry, lib


@CHECK.clause("user_metric_jacobian", quick=1800, thorough=6000)
def user_jacobian(c):
    entry, lib = user_metric(c)
    x = [c.uni(-2, 2), c.uni(0.3, 4), c.uni(0.2, 3), c.uni(-3, 3)]
    prm = c.pick([(), (c.uni(0.5, 2),)])
    wrt = c.rint(0, 3)
    J = np.asarray(_jacobian_g(lib, prm, x, wrt), dtype=float)
    W = np.zeros((4, 4))
    for i in range(4):
        for j in range(i, 4):
            def f(z):
                y = [mp.mpf(v) for v in x]
                y[wrt] = z
                return entry(i, j, y, mp.sin, mp.cos, mp.exp, mp.log) * (prm[0] if prm else 1)
            W[i, j] = W[j, i] = float(mp.diff(f, mp.mpf(x[wrt])))
    c.close(J, W, 1e-12, 1e-12, f"d_{wrt} of a user metric", x=x)
    bad = c.pick([4, -1, 7, None, "r", 1.5])
    c.raises(ValueError, lambda: _diff_g(lib, prm, x, (0, 1), bad), "bad wrt accepted", wrt=bad)
    c.raises(ValueError, lambda: _diff_g(lib, prm, x, c.pick([(1,), (0, 1, 2), ()]), wrt), "bad indices accepted")
    c.note(x=x, wrt=wrt)
    c.seen("user", wrt, bool(prm))


if __name__ == "__main__":
    main(CHECK)
