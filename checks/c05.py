"""C05 the numeric metrics are the Schwarzschild / Kerr / Kerr-Newman line elements."""
import math

import numpy as np
from astropy import units as u

from vf import gen, ref
from vf.core import Check, main
from vf.ref import gamma_tol

from einsteinpy.coordinates import (
    BoyerLindquist, BoyerLindquistDifferential, Cartesian, Spherical, SphericalDifferential,
)
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild

CHECK = Check(
    "C05",
    "one case = one black hole (mass 1e-2..1e40 kg, spin 0..1, charge of either sign up to extremal and beyond) and "
    "one event (near horizon, ergosphere, between the horizons, near axis, equator, far); distinct = (metric, region, "
    "spin class, charge class, mass class)",
    ["the textbook line element evaluated with 34 digits is the reference",
     "rounding amplified by the distance to a coordinate singularity is allowed for"],
)


def hole(c, kind=None):
    kind = kind or ["S", "K", "KN", "KN"][c.index % 4]
    M = gen.mass(c)
    a = 0.0 if kind == "S" else gen.spin(c)
    Q = gen.charge(c, M, a) if kind == "KN" else 0.0
    if kind == "KN" and c.coin(0.1):
        Q = Q * 5  # naked singularities are still solutions
    return kind, M, a, Q


REG = ["near", "ergo", "mid", "far", "between", "inside", "axis", "equator"]


def event(c, M, a, Q, outside=False):
    rp = gen.rplus(M, a, Q)
    m = ref.G * M / ref.C ** 2
    rm = max(2 * m - rp, 0.0)
    k = c.pick(REG[:4] + ["axis", "equator"] if outside else REG)
    r, th = rp * c.uni(1.2, 10), gen.theta(c)
    if k == "near":
        r = rp * (1 + c.logu(1e-4, 0.2))
    elif k == "ergo":
        ro = m + math.sqrt(max(m * m - (m * a * math.cos(th)) ** 2 - ref.rq_of(Q) ** 2, 0))
        r = rp + (ro - rp) * c.uni(0.05, 0.95) if ro > rp * 1.0001 else rp * 1.1
    elif k == "far":
        r = rp * c.logu(10, 1e8)
    elif k == "between":
        r = rm + (rp - rm) * c.uni(0.1, 0.9) if rp - rm > 1e-3 * rp else rp * 1.5
    elif k == "inside":
        r = max(rm, 0.2 * m) * c.uni(0.2, 0.9)
    elif k == "axis":
        th = c.pick([1, -1]) * 0 + c.logu(1e-6, 1e-2)
        th = th if c.coin() else math.pi - th
    elif k == "equator":
        th = math.pi / 2
    if c.coin(0.08):  # integrators hand over angles outside their range: polar orbits, many revolutions
        th = c.pick([-th, 2 * math.pi - th, math.pi + th])
    t = c.pick([c.uni(-1e3, 1e3), c.uni(-1e3, 1e3), 0.0, c.pick([1, -1]) * c.logu(1e6, 1e15)])
    return k, [t, r, th, c.pick([c.uni(-3.1, 3.1), c.uni(-3.1, 3.1), 0.0, c.uni(-400, 400)])]


def build(c, kind, M, a, Q, q=None):
    s = kind == "S"
    if c.coin():
        co = (Spherical if s else BoyerLindquist)(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad)
    else:
        co = (SphericalDifferential if s else BoyerLindquistDifferential)(
            0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
    if s:
        return Schwarzschild(coords=co, M=M * u.kg)
    if kind == "K":
        return Kerr(coords=co, M=M * u.kg, a=a * u.one)
    kw = {} if q is None else dict(q=q * u.C / u.kg)
    return KerrNewman(coords=co, M=M * u.kg, a=a * u.one, Q=Q * u.C, **kw)


def vec(c, x):
    return c.pick([np.array(x), list(x), tuple(x), np.array(x)])


def classes(kind, a, Q, reg):
    return (kind, reg, "a=0" if a == 0 else "a=1" if a == 1 else "a", "Q=0" if Q == 0 else "Q+" if Q > 0 else "Q-")


def rtol_g(o, r):
    """relative rounding allowance per component: near a coordinate singularity kappa grows; the
    frame-dragging term is r_s r - r_Q^2, in Kerr-Newman a difference of r^2 + alpha^2 and Delta"""
    t = np.full((4, 4), 4e-15 * o["kappa"] + 1e-13)
    num = abs(o["rs"] * r - o["rq2"])
    e = 2e-15 * (r * r + o["alpha"] ** 2 + o["rs"] * r + o["rq2"]) / num if num else 1.0
    t[0, 3] += e
    t[3, 0] += e
    return t


def too_singular(o):
    return not (o["kappa"] < 1e9)


@CHECK.clause("line_element", quick=2500, thorough=40000)
def line_element(c):
    kind, M, a, Q = hole(c)
    reg, x = event(c, M, a, Q)
    o = ref.kn(M, a, Q, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    met = build(c, kind, M, a, Q)
    c.note(kind=kind, M=M, a=a, Q=Q, region=reg, x=x)
    X = vec(c, x)
    before = list(X)
    g = np.asarray(met.metric_covariant(X))
    c.ok(g.shape == (4, 4), "shape of the metric")
    c.ok(list(X) == before, "the position vector was modified")
    c.ok(np.array_equal(g, g.T), "metric not symmetric", g=g)
    want = o["g"]
    rt = rtol_g(o, x[1])
    for i in range(4):
        for j in range(4):
            if want[i, j] == 0:
                c.ok(g[i, j] == 0, "zero component is not zero", ij=(i, j), value=g[i, j])
            else:
                c.close(g[i, j], want[i, j], rt[i, j], 0, f"g[{i},{j}] of {kind}", region=reg)
    c.ok(np.array_equal(np.asarray(met.metric_cov(X)), g), "metric_cov and metric_covariant disagree")
    x2 = [x[0] + 17.0, x[1], x[2], x[3] - 2.0]
    c.ok(np.array_equal(np.asarray(met.metric_covariant(x2)), g), "metric depends on t or phi")
    c.close(met.metric_covariant([x[0], x[1], math.pi - x[2], x[3]]), g, 0,
            np.abs(g) * 1e-7 + 3 * rt * np.abs(g), "metric not reflection symmetric")
    c.close(met.sch_rad, o["rs"], 1e-14, 0, "Schwarzschild radius")
    c.seen(*classes(kind, a, Q, reg))


@CHECK.clause("inverse", quick=2000, thorough=30000)
def inverse(c):
    kind, M, a, Q = hole(c)
    reg, x = event(c, M, a, Q)
    o = ref.kn(M, a, Q, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    met = build(c, kind, M, a, Q)
    c.note(kind=kind, M=M, a=a, Q=Q, region=reg, x=x)
    X = vec(c, x)
    gi = np.asarray(met.metric_contravariant(X))
    g = np.asarray(met.metric_covariant(X))
    w = o["ginv"]
    # natural size of an entry: sqrt(|g^ii g^jj|)
    d = np.sqrt(np.abs(np.diag(w)))
    size = np.outer(d, d)
    d2 = np.sqrt(np.abs(np.diag(o["g"])))
    amp = max(1.0, np.max(np.abs(w) / size), np.max(np.abs(o["g"]) / np.outer(d2, d2)))
    if reg == "axis":
        size = size + np.abs(w)
    tol = (1e-14 * o["kappa"] + 1e-13) * amp * (size + np.abs(w))
    c.close(gi, w, 0, tol, f"inverse metric of {kind}", region=reg)
    c.close(gi, gi.T, 0, 1e-13 * amp * (size + np.abs(w)), "inverse metric not symmetric")
    P = g @ gi
    S = (np.abs(g) + np.outer(d2, d2)) @ (np.abs(gi) + size)
    c.close(P, np.eye(4), 0, 1e-13 * amp * S + 1e-300, "metric times inverse is not the identity")
    c.seen(*classes(kind, a, Q, reg))


@CHECK.clause("limits", quick=800, thorough=8000)
def limits(c):
    """Kerr-Newman(Q=0) = Kerr, Kerr(a=0) = Schwarzschild; dependence on Q^2 only"""
    M = gen.mass(c)
    a = gen.spin(c)
    Q = gen.charge(c, M, a, c.uni(0.1, 1))
    reg, x = event(c, M, a, 0.0)
    o = ref.kn(M, a, 0.0, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    rt = 3 * rtol_g(o, x[1])
    K, N = build(c, "K", M, a, 0.0), build(c, "KN", M, a, 0.0)
    c.close(N.metric_covariant(x), K.metric_covariant(x), rt, 0, "Kerr-Newman with Q=0 is not Kerr", a=a)
    P, R = build(c, "KN", M, a, Q), build(c, "KN", M, a, -Q)
    c.ok(np.array_equal(P.metric_covariant(x), R.metric_covariant(x)), "metric depends on the sign of Q")
    reg0, x0 = event(c, M, 0.0, 0.0)
    o0 = ref.kn(M, 0.0, 0.0, x0)
    if not too_singular(o0):
        S, K0 = build(c, "S", M, 0.0, 0.0), build(c, "K", M, 0.0, 0.0)
        N0 = build(c, "KN", M, 0.0, 0.0)
        rt = 3 * rtol_g(o0, x0[1])
        c.close(K0.metric_covariant(x0), S.metric_covariant(x0), rt, 0, "Kerr with a=0 is not Schwarzschild")
        c.close(N0.metric_covariant(x0), S.metric_covariant(x0), rt, 0, "Kerr-Newman with a=Q=0 is not Schwarzschild")
        tol = gamma_tol(o0, x0)
        c.close(K0.christoffels(x0), S.christoffels(x0), 0, tol, "Kerr(a=0) connection is not Schwarzschild's")
    c.note(M=M, a=a, Q=Q, x=x)
    c.seen(reg, a == 0, reg0)


@CHECK.clause("asymptotics", quick=300, thorough=3000)
def asymptotics(c):
    """far away every metric is flat space in its coordinates with the right mass and spin terms"""
    kind, M, a, Q = hole(c)
    rs, al = ref.rs_of(M), ref.alpha_of(M, a)
    r, th = rs * c.logu(1e4, 1e7), c.uni(0.1, 3)
    g = np.asarray(build(c, kind, M, a, Q).metric_covariant([0.0, r, th, 0.0]))
    e = rs / r
    s = math.sin(th)
    c.close(g[0, 0] / ref.C ** 2, 1 - e, 0, 30 * e * e + 1e-15, "g_tt asymptotics")
    c.close(-g[1, 1], 1 + e, 0, 30 * e * e + 1e-15, "g_rr asymptotics")
    c.close(-g[2, 2] / r ** 2, 1, 0, e * e + 1e-15, "g_thth asymptotics")
    c.close(-g[3, 3] / (r * s) ** 2, 1, 0, 2 * e * e + 1e-15, "g_phph asymptotics")
    c.close(g[0, 3] / (ref.C * rs * s * s), al / r, 30 * e, 1e-300, "frame dragging: J = M alpha c")
    c.note(kind=kind, M=M, a=a, r=r / rs)
    c.seen(kind, a == 0, Q == 0)


@CHECK.clause("perturbation", quick=400, thorough=4000)
def perturbation(c):
    """user metrics: covariant = metric_cov + perturbation, contravariant = its inverse"""
    n = 4
    A = c.rng.normal(size=(n, n)) * 0.1
    base = np.diag([1.0, -1, -1, -1]) + 0.5 * (A + A.T)
    if c.coin(0.2):  # null coordinates: zeros on the diagonal
        base[:2, :2] = [[0.0, 1.0], [1.0, 0.0]]
    B = c.rng.normal(size=(n, n)) * 0.05
    p = 0.5 * (B + B.T)
    sc = np.diag(10.0 ** c.rng.uniform(-3, 8, size=n)) if c.coin() else np.eye(n)
    base, p = sc @ base @ sc, sc @ p @ sc
    calls = []

    def cov(x):
        calls.append(("m", tuple(x)))
        return base * (1 + 0.1 * x[1])

    def per(x):
        calls.append(("p", tuple(x)))
        return p * math.cos(x[2])

    x = [float(w) for w in c.rng.uniform(0.1, 2, 4)]
    co = Cartesian(0 * u.s, 1 * u.m, 1 * u.m, 1 * u.m)
    use = c.pick(["none", "some", "some"])
    met = BaseMetric(coords=co, M=1 * u.kg, metric_cov=cov, perturbation=per if use == "some" else None)
    want = base * (1 + 0.1 * x[1]) + (p * math.cos(x[2]) if use == "some" else 0)
    got = met.metric_covariant(x)
    c.close(got, want, 1e-14, 1e-16 * np.abs(want), "covariant metric is not metric_cov + perturbation")
    c.close(met.metric_cov(x), base * (1 + 0.1 * x[1]), 1e-15, 0, "metric_cov altered by the perturbation")
    c.ok(calls and all(k[1] == tuple(x) for k in calls), "user functions called at another event")
    gi = met.metric_contravariant(x)
    d = 1 / np.diag(sc)
    amp = np.linalg.cond(np.outer(d, d) * want)
    big = np.linalg.norm(np.linalg.inv(np.outer(d, d) * want))
    c.close(gi, np.linalg.inv(np.outer(d, d) * want) * np.outer(d, d), 0, 1e-10 * amp * amp * big * np.outer(d, d),
            "contravariant metric is not the inverse of the perturbed metric")
    c.note(perturbed=use, x=x)
    c.seen(use, bool(base[0, 0] == 0), bool(np.any(sc != np.eye(4))))


if __name__ == "__main__":
    main(CHECK)
