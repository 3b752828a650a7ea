"""C10 geodesic metrics and initial momenta are consistent."""
import math

import numpy as np

from checks.c09 import LIB, spacetime
from vf import ref
from vf.core import Check, main

from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.geodesic.utils import _P, delta, sigma

CHECK = Check(
    "C10",
    "one case = one geometry (Schwarzschild, Kerr, Kerr-Newman, or a random user metric with cross terms), one event and one momentum; "
    "distinct = (metric, region, particle kind, momentum class)",
    ["inverse metrics in 50 digits, c = G = M = k_e = 1, signature (-,+,+,+)"],
)


def tol_inv(o, name, a, x):
    k = o["kappa"]
    s2 = math.sin(x[2]) ** 2
    t = (1e-14 * k + 1e-13) * np.abs(o["ginv"])
    t = t * (1 + (10 / s2 if name == "kn" else 0)) if name == "kn" else t
    if name == "kn":
        t[0, 3] += 1e-14 * abs(a) * (1 + x[1] ** 2) / (abs(o["delta"]) * o["sigma"]) * 4
        t[3, 0] = t[0, 3]
        t[3, 3] += 1e-14 * k / x[1] ** 2 / s2 ** 2
    return t + 1e-300


@CHECK.clause("inverse_metric", quick=10000, thorough=60000)
def inverse_metric(c):
    name, g, prm, a, Q, reg, x = spacetime(c)
    o = ref.kn_geo(a, Q, x)
    if not o["kappa"] < 1e8:
        c.skip("on a horizon or ergosurface to rounding")
    X = c.pick([list, np.array, tuple])(x)
    G = np.asarray(g(X, *prm), dtype=float)
    c.note(metric=name, a=a, Q=Q, x=x)
    c.ok(list(X) == x, "position modified")
    c.close(G, o["ginv"], 0, tol_inv(o, name, a, x), f"inverse {name} metric", region=reg)
    c.ok(np.array_equal(G, G.T), "not symmetric")
    r, th = x[1], x[2]
    c.close(sigma(r, th, a), o["sigma"], 1e-14, 0, "Sigma")
    c.close(delta(r, a, Q), o["delta"], 0, 1e-14 * (r * r + 2 * r + 2), "Delta")
    c.close(delta(r, a), o["delta"] - Q * Q, 0, 1e-14 * (r * r + 2 * r + 2), "Delta without charge")
    if name != "sch" and c.coin(0.3):  # limits
        H = np.asarray(LIB["kn"][0](X, a, 0.0), dtype=float)
        K = np.asarray(LIB["kerr"][0](X, a), dtype=float)
        o2 = ref.kn_geo(a, 0.0, x)
        if o2["kappa"] < 1e8:
            c.close(H, K, 0, 2 * tol_inv(o2, "kn", a, x), "Kerr-Newman without charge is not Kerr")
    c.seen(name, reg, a == 0, a == 1, Q == 0)


def momentum(c, o):
    s = 1 / np.sqrt(np.abs(np.diag(o["ginv"]))[1:])
    k = c.pick(["generic", "generic", "generic", "radial", "polar", "azimuthal", "rest", "fast"])
    p = c.rng.normal(size=3) * s
    if k == "radial":
        p[1:] = 0
    elif k == "polar":
        p[[0, 2]] = 0
    elif k == "azimuthal":
        p[:2] = 0
    elif k == "rest":
        p[:] = 0
    elif k == "fast":
        p *= 1e3
    return k, p


def norm_ok(c, G, P, mu, rel, what):
    n = float(P @ G @ P)
    size = float(np.abs(P) @ np.abs(G) @ np.abs(P)) + 1
    c.close(n, -mu, 0, rel * size, f"g(p,p) {what}")
    c.ok(float(G[0] @ P) > -rel * float(np.abs(G[0]) @ np.abs(P)), f"past-directed momentum ({what})", None, P=P)


@CHECK.clause("momentum", quick=10000, thorough=60000)
def momentum_norm(c):
    name, g, prm, a, Q, reg, x = spacetime(c)
    if reg == "inside":
        x[1] = (1 + math.sqrt(max(0, 1 - a * a - Q * Q))) * c.uni(1.05, 2)
    o = ref.kn_geo(a, Q, x)
    if not o["kappa"] < 1e6:
        c.skip("on a horizon or ergosurface to rounding")
    k, p = momentum(c, o)
    tl = c.coin()
    if k == "rest" and not tl:
        k, p = "radial", np.array([1.0, 0, 0])
    keep = p.copy()
    P = np.asarray(_P(g, prm, x, p, tl), dtype=float)
    c.note(metric=name, a=a, Q=Q, x=x, p=p, time_like=tl)
    c.ok(np.array_equal(p, keep), "momentum modified")
    c.ok(P.shape == (4,) and np.array_equal(P[1:], p), "spatial momentum not kept", None, P=P)
    rel = 1e-13 * o["kappa"] * (1 + (10 / math.sin(x[2]) ** 2 if name == "kn" else 0)) + (1e-13 * x[1] if name == "kn" else 0)
    norm_ok(c, o["ginv"], P, int(tl), rel, f"of the initial momentum in {name}")
    c.seen(name, reg, tl, k, a == 0)


@CHECK.clause("user_metric", quick=5000, thorough=30000)
def user_metric(c):
    """random Lorentzian inverse metrics with every off-diagonal term, time and azimuth dependence included"""
    L = np.eye(4) + c.rng.normal(size=(4, 4)) * c.pick([0.1, 0.2, 0.25])
    base = L @ np.diag([-1.0, 1, 1, 1]) @ L.T
    w = np.linalg.eigvalsh(base)
    if base[0, 0] > -0.05 or not (w[0] < 0 < w[1]):
        c.skip("not Lorentzian with a time-like first coordinate")
    k = c.uni(0.1, 1)

    def g(q, *prm):
        f = (prm[0] if prm else 1.0) * (2 + np.sin(k * q[0]) * np.cos(q[3])) / (1 + q[1] * q[1])
        return base * f
    x = [0.0, *c.rng.uniform(0.2, 2, size=3)]
    prm = c.pick([(), (c.uni(0.5, 2),)])
    p = c.rng.normal(size=3)
    tl = c.coin()
    P = np.asarray(_P(g, prm, np.array(x), p, tl), dtype=float)
    G = g(x, *prm)
    c.note(base=base, x=x, p=p, time_like=tl)
    c.ok(np.array_equal(P[1:], p), "spatial momentum not kept")
    A, B = G[0, 0], 2 * G[0, 1:] @ p
    C = p @ G[1:, 1:] @ p + tl
    if B * B - 4 * A * C < 1e-6 * (B * B + abs(A * C)):
        c.skip("no real momentum")
    norm_ok(c, G, P, int(tl), 1e-12, "of the initial momentum in a user metric")
    c.seen("user", tl, bool(prm))


@CHECK.clause("user_geodesic", quick=500, thorough=3000)
def user_geodesic(c):
    """a geodesic in a user metric without any symmetry, at positions with components of every sign"""
    L = np.eye(4) + c.rng.normal(size=(4, 4)) * 0.15
    base = L @ np.diag([-1.0, 1, 1, 1]) @ L.T
    if base[0, 0] > -0.1:
        c.skip("no time-like first coordinate")
    k = c.rng.normal(size=4) * 0.3

    def g(q, *prm):
        s = k[0] * q[0] + k[1] * q[1] + k[2] * q[2] + k[3] * q[3] * prm[0]
        return base * (1.5 + np.sin(s))
    pos, p = list(c.rng.uniform(-3, 3, size=3)), list(c.rng.normal(size=3) * c.pick([1.0, 0.01]))
    if c.coin(0.2):
        pos[c.rint(0, 2)] = 0.0
    prm = (c.uni(0.5, 2),)
    cls = c.pick([Timelike, Nulllike])
    tl = cls is Timelike
    G = np.asarray(g([0.0, *pos], *prm), dtype=float)
    q_ = np.array(p)
    A, B, C = G[0, 0], 2 * G[0, 1:] @ q_, q_ @ G[1:, 1:] @ q_ + tl
    if B * B - 4 * A * C < 1e-6 * (B * B + abs(A * C)):
        c.skip("no real momentum")
    geo = cls(metric=g, metric_params=prm, position=pos, momentum=p, steps=1, delta=1e-6, suppress_warnings=True,
              return_cartesian=False)
    c.note(base=base, k=k, position=pos, p=p, cls=cls.__name__)
    c.close(geo.position, [0.0, *pos], 0, 0, "initial 4-position in a user metric")
    P = np.asarray(geo.momentum, dtype=float)
    c.close(P[1:], p, 0, 0, "spatial momentum in a user metric")
    norm_ok(c, G, P, int(tl), 1e-12, "of the initial momentum of a geodesic in a user metric")
    st = np.asarray(geo.trajectory[1][0])
    v = G @ P
    c.close(st[:4], geo.position + 1e-6 * v, 0, 1e-10 * (1 + np.abs(v).max() ** 2), "first step leaves along the 4-momentum")
    c.seen("user", tl, *[x < 0 for x in pos])


@CHECK.clause("geodesic_object", quick=1000, thorough=4000)
def geodesic_object(c):
    """Geodesic, Timelike and Nulllike start from that momentum and report what they were given"""
    name, g, prm, a, Q, reg, x = spacetime(c)
    x[0] = 0.0
    x[1] = c.uni(4, 30)
    o = ref.kn_geo(a, Q, x)
    s2 = math.sin(x[2]) ** 2
    if s2 < 1e-3:
        c.skip("near the axis")
    k, p = momentum(c, o)
    p = p * 0.3 if k != "rest" else p + np.array([0.1, 0, 0])
    full = {"sch": "Schwarzschild", "kerr": "Kerr", "kn": "KerrNewman"}[name]
    cls = c.pick([Geodesic, Timelike, Nulllike])
    tl = {Timelike: True, Nulllike: False}.get(cls, c.coin())
    kw = dict(steps=1, delta=1e-3, suppress_warnings=True)
    if cls is Geodesic:
        kw["time_like"] = tl
    user = c.coin(0.25)
    metric = g if user else full
    pos, mom = list(x[1:]), list(p)
    geo = cls(metric, prm, pos, mom, **kw)
    c.note(cls=cls.__name__, metric=name, a=a, Q=Q, x=x, p=p)
    c.ok(pos == list(x[1:]) and mom == list(p), "arguments modified")
    c.close(geo.position, x, 0, 0, "initial 4-position")
    c.close(geo.momentum[1:], p, 0, 0, "spatial momentum")
    norm_ok(c, o["ginv"], np.asarray(geo.momentum, dtype=float), int(tl), 1e-11 / s2, f"of {cls.__name__}")
    c.ok(geo.time_like is tl or geo.time_like == tl, "time_like flag")
    c.ok(geo.kind == ("Time-like" if tl else "Null-like"), "kind")
    c.ok(user or geo.metric_name == full, "metric name", None, name=geo.metric_name)
    t = geo.trajectory
    c.ok(len(t) == 2 and len(t[0]) == 1 and np.shape(t[1]) == (1, 8), "trajectory shape")
    st = np.asarray(t[1][0])
    r, th, ph = x[1:]
    cart = np.array([0, r * math.sin(th) * math.cos(ph), r * math.sin(th) * math.sin(ph), r * math.cos(th)])
    v = o["ginv"] @ geo.momentum
    c.close(st[:4], cart, 0, 1e-2 * (1 + np.abs(v).max() * r), "first state is nowhere near the start")
    bad = c.pick(["Schwarzchild", "", "kerr", None, 3, "Kerr-Newman"])
    c.raises(NotImplementedError, lambda: Geodesic(bad, prm, pos, mom, steps=1), "unknown metric accepted", name=bad)
    c.seen(cls.__name__, name, tl, user)


if __name__ == "__main__":
    main(CHECK)
