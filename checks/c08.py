"""C08 horizons and ergospheres are where the metric says they are."""
import math

import mpmath as mp
import numpy as np
from astropy import units as u

from checks.c05 import build, classes, hole
from vf import gen, ref
from vf.core import Check, main

from einsteinpy.coordinates import BoyerLindquist, Cartesian, CartesianDifferential, Spherical
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
from einsteinpy.utils import CoordinateError

CHECK = Check(
    "C08",
    "one case = one hole and one set of polar angles (scalar or array): surfaces are compared with 50-digit roots and the library's own "
    "metric is evaluated just inside and outside them; distinct = (metric, spin class, charge class, angle class)",
    ["roots of r^2 - r_s r + alpha^2 + r_Q^2 and of r^2 - r_s r + alpha^2 cos^2 theta + r_Q^2 in 50 digits"],
)


def roots(M, a, Q, cos2=1):
    M, a, Q = map(mp.mpf, (M, a, Q))
    c, Gn, ke = mp.mpf(ref.C), mp.mpf(ref.G), 1 / (4 * mp.pi * mp.mpf(ref.EPS0))
    m, al = Gn * M / c ** 2, a * Gn * M / c ** 2
    d = m * m - al * al * cos2 - Q * Q * Gn * ke / c ** 4
    s = mp.sqrt(d) if d > 0 else mp.mpf(0)
    return float(m - s), float(m + s), float(m), float(d / (m * m))


def tol(m, d):
    """a double root moves by sqrt(eps)"""
    e = 1e-14
    return m * (10 * e + (e / math.sqrt(d) if d > e else math.sqrt(e)))


@CHECK.clause("surfaces", quick=7500, thorough=40000)
def surfaces(c):
    kind, M, a, Q = hole(c)
    if kind != "S" and a == 1.0 and Q == 0 and c.coin(0.7):
        a = 0.5
    rq2 = ref.rq_of(Q) ** 2
    m = ref.G * M / ref.C ** 2
    if a * a + rq2 / m ** 2 > 1 - 1e-9:
        if rq2 > 0 or kind == "KN":
            Q *= 0.1 if a < 0.999 else 0.0
            if a >= 0.999:
                a = 0.99
    met = build(c, kind, M, a, Q)
    s = met.singularities()
    c.note(kind=kind, M=M, a=a, Q=Q)
    c.ok(set(s) == {"inner_ergosphere", "inner_horizon", "outer_horizon", "outer_ergosphere"}, "keys", None, keys=list(s))
    if kind == "S":
        c.close([s["inner_ergosphere"], s["inner_horizon"]], [0, 0], 0, 0, "Schwarzschild centre")
        c.close([s["outer_horizon"], s["outer_ergosphere"]], [2 * m] * 2, 1e-14, 0, "Schwarzschild radius")
        rs = s["outer_horizon"]
        for f in (1e-6, 1e-3):
            lo, hi = (np.asarray(met.metric_covariant([0, rs * (1 + k * f), 1.0, 0])) for k in (-1, 1))
            c.ok(lo[0, 0] < 0 < hi[0, 0] and lo[1, 1] > 0 > hi[1, 1], "g_tt and g_rr do not change sign at r_s")
        c.seen("S", gen.__name__)
        return
    rm, rp, _, d = roots(M, a, Q)
    t = tol(m, d)
    if a == 1.0 and Q == 0:
        t = 1e-7 * m
        with np.errstate(all="ignore"):
            h = np.array([s["inner_horizon"], s["outer_horizon"]], dtype=float)
        if np.isnan(h).any():  # rounding may push the discriminant of the extremal hole below zero
            c.count("extremal discriminant rounded below zero")
        else:
            c.close(h, [m, m], 0, t, "extremal horizons")
        c.seen(kind, "extremal")
        return
    h = [s["inner_horizon"], s["outer_horizon"]]
    c.close(h, [rm, rp], 0, t, "horizons")
    k = c.pick(["scalar", "array", "equator", "axis", "matrix"])
    th = dict(scalar=c.uni(0, math.pi), array=np.array([c.uni(0, math.pi) for _ in range(c.rint(1, 7))]),
              equator=math.pi / 2, axis=c.pick([0.0, math.pi]),
              matrix=np.array([[c.uni(0, math.pi), 1.0], [0.3, c.uni(0, math.pi)]]))[k]
    keep = np.array(th, copy=True)
    ei, eo = np.asarray(s["inner_ergosphere"](th)), np.asarray(s["outer_ergosphere"](th))
    c.ok(np.array_equal(keep, th), "theta modified")
    c.ok(ei.shape == np.shape(th) and eo.shape == np.shape(th), "ergosphere shape")
    for x, gi, go in zip(np.ravel(th), np.ravel(ei), np.ravel(eo)):
        x = float(x)
        wi, wo, _, de = roots(M, a, Q, mp.cos(mp.mpf(x)) ** 2)
        te = tol(m, de)
        c.close([gi, go], [wi, wo], 0, te, "ergospheres", theta=x)
        c.ok(gi <= h[0] + t + te and h[0] <= h[1] and h[1] <= go + t + te, "order", None, surfaces=[gi, *h, go])
        if abs(math.sin(x)) < 1e-12:
            c.close([gi, go], h, 0, t + te, "ergosphere does not touch the horizon on the axis")
        # the library's own metric on both sides of the surface
        f = max(1e-5, 100 * te / go)
        lo, hi = (np.asarray(met.metric_covariant([0, go * (1 + j * f), x, 0]))[0, 0] for j in (-1, 1))
        if go * (1 - f) > gi * (1 + f):
            c.ok(lo < 0 < hi, "g_tt does not change sign at the outer ergosphere", None, theta=x, values=[lo, hi])
        if gi > 1e-3 * m and gi * (1 + f) < go * (1 - f):
            lo, hi = (np.asarray(met.metric_covariant([0, gi * (1 + j * f), x, 0]))[0, 0] for j in (-1, 1))
            c.ok(lo > 0 > hi, "g_tt does not change sign at the inner ergosphere", None, theta=x, values=[lo, hi])
    f = max(1e-5, 100 * t / h[1])
    lo, hi = (np.asarray(met.metric_covariant([0, h[1] * (1 + j * f), 1.0, 0]))[1, 1] for j in (-1, 1))
    if h[1] * (1 - f) > h[0] * (1 + f):
        c.ok(lo > 0 > hi, "g_rr does not change sign at the outer horizon", None, values=[lo, hi])
        if h[0] > 1e-3 * m:
            lo, hi = (np.asarray(met.metric_covariant([0, h[0] * (1 + j * f), 1.0, 0]))[1, 1] for j in (-1, 1))
            c.ok(lo < 0 < hi, "g_rr does not change sign at the inner horizon", None, values=[lo, hi])
    c.seen(*classes(kind, a, Q, k))


@CHECK.clause("helpers", quick=4500, thorough=20000)
def helpers(c):
    """Schwarzschild radius, alpha, Sigma, rho, Delta and geometrised charge; floats, arrays and quantities"""
    M, a = gen.mass(c), gen.spin(c)
    Q = gen.charge(c, M, a)
    m = ref.G * M / ref.C ** 2
    arr = c.coin(0.3)
    r = np.array([m * c.logu(0.1, 1e4) for _ in range(4)]) if arr else m * c.logu(0.1, 1e4)
    th = np.array([c.uni(0, math.pi) for _ in range(4)]) if arr else c.uni(0, math.pi)
    al, rs, rq = a * m, 2 * m, ref.rq_of(Q)
    sg = r ** 2 + (al * np.cos(th)) ** 2
    dl = r ** 2 - rs * r + al ** 2 + rq ** 2
    dt = 1e-14 * (r ** 2 + rs * r + al ** 2 + rq ** 2)
    c.note(M=M, a=a, Q=Q, r=r, theta=th)
    variants = [("float", r, th, M, a, Q)]
    if not arr:
        variants.append(("quantity", (r * u.m).to(c.pick(gen.LEN)), (th * u.rad).to(c.pick(gen.ANG)), gen.q(c, M, gen.MASS, u.kg),
                         a * u.one, gen.q(c, Q, gen.CHARGE, u.C)))
    B = c.pick([BaseMetric, Kerr, KerrNewman, Schwarzschild])
    for n, r_, t_, M_, a_, Q_ in variants:
        c.close(B.schwarzschild_radius(M_), rs, 1e-13, 0, f"Schwarzschild radius ({n})")
        c.close(B.alpha(M_, a_), al, 1e-13, 0, f"alpha ({n})")
        c.close(B.sigma(r_, t_, M_, a_), sg, 1e-13, 0, f"Sigma ({n})")
        c.close(B.rho(r_, t_, M_, a_), np.sqrt(sg), 1e-13, 0, f"rho ({n})")
        c.close(B.delta(r_, M_, a_, Q_), dl, 0, dt * 10, f"Delta ({n})")
        c.close(B.delta(r_, M_, a_), dl - rq ** 2, 0, dt * 10, f"Delta without charge ({n})")
        c.seen(n, B.__name__, arr, a == 0, a == 1)
    bad = c.pick([-1e-9, 1 + 1e-9, -1.0, 2.0, c.uni(1.001, 1e3), -c.uni(0, 1e3) - 1e-3])
    c.raises(ValueError, lambda: B.alpha(M, bad), "spin outside [0, 1] accepted", a=bad)
    c.raises(ValueError, lambda: B.sigma(1.0, 1.0, M, bad), "spin outside [0, 1] accepted by Sigma", a=bad)
    c.raises(ValueError, lambda: B.delta(1.0, M, bad), "spin outside [0, 1] accepted by Delta", a=bad)


@CHECK.clause("coordinate_gate", quick=600, thorough=1500)
def coordinate_gate(c):
    """surfaces are refused in coordinates they are not known in"""
    M, a = gen.mass(c), c.uni(0, 1)
    kind = c.pick(["S", "K", "KN"])
    cart = c.pick([Cartesian(1 * u.s, 1 * u.m, 1 * u.m, 1 * u.m),
                   CartesianDifferential(1 * u.s, 1 * u.m, 1 * u.m, 1 * u.m, *[0 * u.m / u.s] * 3)])
    sph = Spherical(1 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad)
    bl = BoyerLindquist(1 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad)
    co = c.pick([cart, bl]) if kind == "S" else c.pick([cart, sph])
    met = {"S": lambda: Schwarzschild(coords=co, M=M * u.kg), "K": lambda: Kerr(coords=co, M=M * u.kg, a=a * u.one),
           "KN": lambda: KerrNewman(coords=co, M=M * u.kg, a=a * u.one, Q=0 * u.C)}[kind]()
    c.note(kind=kind, system=co.system)
    c.raises(CoordinateError, met.singularities, "surfaces in the wrong coordinates")
    c.seen(kind, co.system)


if __name__ == "__main__":
    main(CHECK)
