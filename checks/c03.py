"""C03 four-velocities are normalised: g(v, v) = c^2 in the metric they are asked for."""
import math

import mpmath as mp
import numpy as np
from astropy import units as u

from vf import gen, ref
from vf.core import Check, main

from einsteinpy.coordinates import (
    BoyerLindquist, BoyerLindquistDifferential, Cartesian, CartesianDifferential, Spherical,
    SphericalDifferential,
)
from einsteinpy.coordinates.utils import lorentz_factor
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
from einsteinpy.utils import CoordinateError

CHECK = Check(
    "C03",
    "one case = one body, one event and one 3-velocity whose 4-velocity is requested in a library metric "
    "(Schwarzschild, Kerr, Kerr-Newman, in and out of the ergosphere) or a user metric with every off-diagonal "
    "entry, possibly time dependent and perturbed; distinct = (metric, coordinates, class)",
    ["the metric matrix used by the oracle is the textbook one (library metrics) or the one the user supplied"],
    prewarm=4,
)
mp.mp.dps = 40
SYS = {"Cartesian": CartesianDifferential, "Spherical": SphericalDifferential,
       "BoyerLindquist": BoyerLindquistDifferential}


def mk(system, t, x, v):
    if system == "Cartesian":
        return CartesianDifferential(t * u.s, *[w * u.m for w in x], *[w * u.m / u.s for w in v])
    return SYS[system](t * u.s, x[0] * u.m, x[1] * u.rad, x[2] * u.rad, v[0] * u.m / u.s, v[1] * u.rad / u.s,
                       v[2] * u.rad / u.s)


def check_norm(c, obj, met, g, v, label, future):
    vel = obj.velocity(met)
    c.ok(len(vel) == 4, f"{label}: four components")
    c.close(vel[1:], v, 1e-14, 0.0, f"{label}: spatial components altered")
    V = np.array([float(w) for w in vel])
    terms = g * np.outer(V, V)
    c.close(terms.sum(), ref.C ** 2, 0, 3e-13 * (np.abs(terms).sum() + ref.C ** 2),
            f"{label}: g(v,v) != c^2", v=V, g=g)
    if future and g[0, 0] > 0:
        c.ok(V[0] > 0, f"{label}: 4-velocity not future directed", v=V)
    vt = obj.v_t
    c.ok(u.Quantity(vt).unit.is_equivalent(u.m / u.s), f"{label}: v_t unit")
    c.close(vt.to_value(u.m / u.s), V[0], 1e-15, 0, f"{label}: v_t differs from velocity()[0]")
    return V


@CHECK.clause("library_metrics", quick=1500, thorough=20000)
def library_metrics(c):
    M = gen.mass(c)
    kind = ["S", "K", "KN"][c.index % 3]
    a = 0.0 if kind == "S" else gen.spin(c)
    Q = gen.charge(c, M, a) if kind == "KN" else 0.0
    rp = gen.rplus(M, a, Q)
    r, th, ph = gen.radius(c, rp, 1.02), gen.theta(c), c.uni(-3, 3)
    if c.coin(0.15) and a > 0.3:  # inside the ergosphere
        r, th = rp * c.uni(1.001, 1.05), c.uni(1.2, 1.9)
    t = gen.time(c)
    ergo = False
    o = ref.kn(M, a, Q, [t, r, th, ph])
    g = o["g"]
    ergo = g[0, 0] <= 0
    V = c.logu(1e-6, 10) * ref.C * c.pick([1, 1, 1e-4, 1e-12])
    n = gen.unit_vec(c) * V
    v = [n[0] / math.sqrt(-g[1, 1]), n[1] / math.sqrt(-g[2, 2]), n[2] / math.sqrt(-g[3, 3])]
    if c.coin(0.1):
        v = [0.0, 0.0, 0.0]
    if c.coin(0.1):
        v = [v[0], 0.0, 0.0]
    if c.coin(0.15):
        v[c.rint(0, 2)] = 0.0
    v = [float(w) for w in v]
    if ergo:  # need a real root: rotate with the hole inside the light cone
        w0, wr = -g[0, 3] / g[3, 3], math.sqrt(max(g[0, 3] ** 2 - g[0, 0] * g[3, 3], 0)) / -g[3, 3]
        v = [0.0, 0.0, 0.0]
        v[2] = float((w0 + c.uni(-.9, .9) * wr) * c.logu(1.0, 3))
    B = 2 * g[0, 3] * v[2]
    D = B * B - 4 * g[0, 0] * (g[1, 1] * v[0] ** 2 + g[2, 2] * v[1] ** 2 + g[3, 3] * v[2] ** 2 - ref.C ** 2)
    if D <= 1e-9 * (B * B + abs(g[0, 0]) * ref.C ** 2):
        c.skip("no real time component")
    system = "Spherical" if kind == "S" else "BoyerLindquist"
    obj = mk(system, t, (r, th, ph), v)
    pos = (Spherical if kind == "S" else BoyerLindquist)(t * u.s, r * u.m, th * u.rad, ph * u.rad)
    coords = obj if c.coin() else pos
    met = (Schwarzschild(coords=coords, M=M * u.kg) if kind == "S" else
           Kerr(coords=coords, M=M * u.kg, a=a * u.one) if kind == "K" else
           KerrNewman(coords=coords, M=M * u.kg, a=a * u.one, Q=Q * u.C))
    c.note(kind=kind, M=M, a=a, Q=Q, pos=(r / rp, th), v=v)
    # reference g is accurate; the metric itself carries kappa*eps of rounding
    vel = obj.velocity(met)
    W = np.array([float(x) for x in vel])
    terms = g * np.outer(W, W)
    kap = o["kappa"]
    c.close(vel[1:], v, 1e-14, 0.0, "spatial components altered")
    c.close(terms.sum(), ref.C ** 2, 0, 2e-14 * kap * (np.abs(terms).sum() + ref.C ** 2),
            "g(v,v) != c^2", v=W, kind=kind)
    if not ergo:
        c.ok(W[0] > 0, "4-velocity not future directed", v=W)
    c.close(obj.v_t.to_value(u.m / u.s), W[0], 1e-15, 0, "v_t differs from velocity()[0]")
    c.seen(kind, "ergo" if ergo else "outside", "rest" if not any(v) else "moving", a == 0, Q == 0,
           r / rp < 1.5)


@CHECK.clause("user_metrics", quick=1500, thorough=20000)
def user_metrics(c):
    """metrics with all off-diagonal terms, depending on every coordinate incl. c*t"""
    system = list(SYS)[c.index % 3]
    L = c.rng.uniform(-0.25, 0.25, size=(4, 4))
    S = 0.5 * (L + L.T)
    base = np.diag([1.0, -1, -1, -1])
    k = c.rng.uniform(0.5, 2, size=4)
    amp = 0.05

    def g_of(x):
        x = np.asarray(x, dtype=float)
        f = amp * np.sin(k * x / np.array([ref.C, 1.0, 1.0, 1.0]))
        g = base + S + np.diag(f)
        sc = np.array([ref.C, 1, 1, 1])
        return g * np.outer(sc, sc)

    def pert(x):
        p = np.zeros((4, 4))
        p[0, 2] = p[2, 0] = 0.1 * ref.C * math.cos(x[3])
        p[1, 2] = p[2, 1] = 0.07
        p[0, 0] = 0.05 * ref.C ** 2 * math.sin(x[0] / ref.C)
        return p

    use_p = c.coin(0.4)
    t = c.pick([c.uni(-5, 5), c.uni(-5, 5), 0.0, 1e-9])
    x = [float(w) for w in c.rng.uniform(0.3, 2.5, 3)]
    v = [float(w) for w in gen.unit_vec(c) * c.logu(1, 0.6 * ref.C)]
    obj = mk(system, t, x, v)
    met = BaseMetric(coords=obj, M=1 * u.kg, metric_cov=g_of, perturbation=pert if use_p else None)
    X = [ref.C * t, *x]
    g = g_of(X) + (pert(X) if use_p else 0)
    if g[0, 0] <= 0:
        c.skip("g00<=0")
    c.note(system=system, x=X, v=v, perturbed=use_p)
    check_norm(c, obj, met, g, v, "user metric", True)
    # the same object asked again in another metric is re-normalised, not cached
    g2f = lambda y: g_of(y) * 1.7  # noqa: E731
    met2 = BaseMetric(coords=obj, M=1 * u.kg, metric_cov=g2f)
    check_norm(c, obj, met2, g_of(X) * 1.7, v, "second metric", True)
    obj.v_t = (met,)
    first = obj.v_t.value
    c.close(obj.velocity(met)[0], first, 1e-15, 0, "setting v_t and asking velocity disagree")
    c.seen(system, use_p)


@CHECK.clause("coordinate_mismatch", quick=200, thorough=2000)
def coordinate_mismatch(c):
    """a 4-velocity is refused in a metric living in other coordinates"""
    systems = list(SYS)
    s1 = systems[c.index % 3]
    s2 = systems[(c.index // 3) % 3]
    M = gen.mass(c)
    o1 = mk(s1, 1.0, (10.0, 1.0, 1.0), (1.0, 0.1, 0.1))
    o2 = mk(s2, 1.0, (10.0, 1.0, 1.0), (1.0, 0.1, 0.1))
    kind = c.pick(["base", "S", "K", "KN"])
    flat = lambda x: np.diag([ref.C ** 2, -1.0, -1.0, -1.0])  # noqa: E731
    met = {"base": lambda: BaseMetric(coords=o2, M=M * u.kg, metric_cov=flat),
           "S": lambda: Schwarzschild(coords=o2, M=M * u.kg),
           "K": lambda: Kerr(coords=o2, M=M * u.kg, a=.5 * u.one),
           "KN": lambda: KerrNewman(coords=o2, M=M * u.kg, a=.5 * u.one, Q=0 * u.C)}[kind]()
    good = {"base": s1 == s2, "S": s1 == s2 == "Spherical", "K": s1 == s2 == "BoyerLindquist",
            "KN": s1 == s2 == "BoyerLindquist"}[kind]
    c.note(velocity=s1, metric=kind, metric_coords=s2)
    if good:
        if kind == "base":
            c.ok(len(o1.velocity(met)) == 4, "velocity available when systems match")
        else:
            c.ok(True, "")
        c.seen("match", kind)
        return
    c.raises(CoordinateError, lambda: o1.velocity(met), f"velocity of {s1} in {kind} metric on {s2}")

    def setter():
        o1.v_t = (met,)
    c.raises(CoordinateError, setter, f"v_t of {s1} in {kind} metric on {s2}")
    c.seen(s1, s2, kind)


@CHECK.clause("metric_coordinate_gate", quick=200, thorough=1000)
def metric_coordinate_gate(c):
    """library metrics refuse to evaluate in coordinates they are not written in"""
    systems = list(SYS)
    s = systems[c.index % 3]
    kind = ["S", "K", "KN"][(c.index // 3) % 3]
    M = gen.mass(c)
    if c.coin():
        o = mk(s, 0.0, (10.0, 1.0, 1.0), (1.0, 0.1, 0.1))
    else:
        o = {"Cartesian": Cartesian, "Spherical": Spherical, "BoyerLindquist": BoyerLindquist}[s](
            0 * u.s, 10 * u.m, *([10 * u.m] * 2 if s == "Cartesian" else [1 * u.rad] * 2))
    met = (Schwarzschild(coords=o, M=M * u.kg) if kind == "S" else Kerr(coords=o, M=M * u.kg, a=.4 * u.one)
           if kind == "K" else KerrNewman(coords=o, M=M * u.kg, a=.4 * u.one, Q=0 * u.C))
    rs = ref.rs_of(M)
    x = np.array([0.0, 5 * rs, 1.0, 1.0])
    y = np.concatenate([x, [1.1, 0.01, 0.001 / rs, 0.002 / rs]])
    good = s == ("Spherical" if kind == "S" else "BoyerLindquist")
    calls = {"metric": lambda: met.metric_covariant(x), "inverse": lambda: met.metric_contravariant(x),
             "christoffels": lambda: met.christoffels(x), "f_vec": lambda: met.f_vec(0.0, y),
             "singularities": lambda: met.singularities()}
    for n, f in calls.items():
        if good:
            c.ok(f() is not None, f"{n} available")
        elif not (kind == "S" and n == "singularities" and s == "Spherical"):
            c.raises(CoordinateError, f, f"{kind}.{n} in {s} coordinates")
    c.note(kind=kind, coords=s)
    c.seen(kind, s, type(o).__name__)


@CHECK.clause("lorentz_factor", quick=300, thorough=3000)
def lorentz(c):
    b = c.pick([c.uni(0, 0.999), c.logu(1e-8, 0.1), 1 - c.logu(1e-9, 1e-2), 0.0])
    v = gen.unit_vec(c) * b * ref.C
    if c.coin(0.2):
        v[c.rint(0, 2)] = 0.0
    v = [float(w) for w in v]
    b2 = sum(mp.mpf(w) ** 2 for w in v) / mp.mpf(ref.C) ** 2
    want = 1 / mp.sqrt(1 - b2)
    c.note(beta=b, v=v)
    c.close(lorentz_factor(*v), float(want), 1e-15 + 5e-16 * float(want) ** 2, 0, "lorentz factor", v=v)
    c.seen("beta", round(b, 1), b > .99)


if __name__ == "__main__":
    main(CHECK)
