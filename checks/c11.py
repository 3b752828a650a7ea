"""C11 geodesic trajectories conserve what the spacetime conserves."""
import math
import re
import warnings

import numpy as np

from vf import orbit
from vf.core import Check, main

from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.geodesic.utils import _kerr, _kerrnewman, _sch
from einsteinpy.integrators import GeodesicIntegrator

METRICS = {"Schwarzschild": _sch, "Kerr": _kerr, "KerrNewman": _kerrnewman}

CHECK = Check(
    "C11",
    "one case = one geodesic (bound, inclined, scattering, plunging, radial, photon; Schwarzschild, Kerr, Kerr-Newman or user metric) "
    "integrated step by step, every state of the trajectory is observed; distinct = (metric, orbit kind, order, omega, clause)",
    ["an allowed drift is four times the drift of an independent implementation of the documented integrator on the same orbit; orbits "
     "on which that algorithm itself is unstable are replaced"],
)


def workload(c, orders=(2, 2, 4, 4, 6, 8), maxdrift=1e-2, kinds=None, cost=600):
    """a geodesic on which the documented algorithm is stable"""
    for _ in range(40):
        kw = {} if kinds is None else dict(kinds=kinds)
        name, prm, a, Q, y0, mu, kind = orbit.sample(c, **kw)
        if y0 is None:
            continue
        order = c.pick(orders)
        w = {2: 1, 4: 3, 6: 9, 8: 27}[order]
        N = c.rint(5, max(6, min(60, cost // w)))
        if order == 2 and cost >= 600 and c.coin(0.05):
            N = c.rint(120, 400)
        d = c.pick([0.5, 0.1, 0.05, c.logu(0.02, 1.0), c.logu(1e-6, 0.02), 1]) * (1 if y0[1] < 25 or c.coin(0.3) else c.rint(2, 1 + int(y0[1] / 6)))
        om = c.pick([1.0, 1.0, 0.1, 0.01])
        M = orbit.fantasy(order, d, om, N, y0, a, Q)
        if M is None or np.min(np.sin(M[:, 2])) < 0.15 or M[:, 1].min() < 2.2 * (1 + math.sqrt(1 - a * a - Q * Q + 1e-15)):
            continue
        dr = drifts(M, y0, a, Q, mu)
        if max(v.max() for v in dr.values()) > maxdrift:
            continue
        c.note(metric=name, a=a, Q=Q, y0=y0, kind=kind, order=order, N=N, delta=d, omega=om)
        return name, prm, a, Q, y0, mu, kind, order, N, d, om, M, dr
    c.skip("no stable orbit found")


def run(name, prm, y0, mu, order, N, d, om, **kw):
    cls = Timelike if mu else Nulllike
    k = dict(steps=N, delta=d, order=order, omega=om, return_cartesian=False, suppress_warnings=True)
    k.update(kw)
    g = cls(name, prm, list(y0[1:4]), list(y0[5:]), **k)
    return g, np.asarray(g.trajectory[1])


def drifts(Y, y0, a, Q, mu):
    E, L = abs(y0[4]), max(abs(y0[7]), abs(y0[6]), 1.0)
    K0, K = orbit.carter(y0, a, Q, mu), None
    K = np.array([orbit.carter(y, a, Q, mu) for y in Y])
    H = np.array([orbit.ham(y, a, Q) for y in Y])
    return dict(energy=np.abs(Y[:, 4] - y0[4]) / E, angular_momentum=np.abs(Y[:, 7] - y0[7]) / L,
                hamiltonian=np.abs(H + mu) / max(1.0, E * E), carter=np.abs(K - K0) / (L * L + E * E))


@CHECK.clause("conserved", quick=260, thorough=2500, timeout=120)
def conserved(c):
    name, prm, a, Q, y0, mu, kind, order, N, d, om, M, md = workload(c)
    g, Y = run(name, prm, y0, mu, order, N, d, om)
    c.ok(Y.shape == (N, 8) and np.isfinite(Y).all(), "trajectory shape or not finite", None, shape=Y.shape)
    ld = drifts(Y, y0, a, Q, mu)
    for q, v in ld.items():
        lim = 4 * np.maximum.accumulate(md[q]) + 1e-11
        c.obs += N - 1
        bad = ~(v <= lim)
        k = int(np.argmax(bad))
        c.ok(not bad.any(), f"{q} drifts by {v[k]:.3e} at step {k + 1} (allowed {lim[k]:.1e})", None, drift=v[:30])
    c.count("states", N)
    c.seen(name, kind, order, om, a == 0)


@CHECK.clause("symmetric_motion", quick=120, thorough=1200, timeout=120)
def symmetric_motion(c):
    """equatorial stays equatorial, radial stays radial, rotated / mirrored starts give rotated / mirrored orbits, reversing spin and
    angular momentum mirrors the orbit"""
    name, prm, a, Q, y0, mu, kind, order, N, d, om, M, md = workload(c, orders=(2, 2, 4), cost=240)
    g, Y = run(name, prm, y0, mu, order, N, d, om)
    sc = orbit.scales(M, y0)
    amp = 1e-11
    if y0[2] == math.pi / 2 and y0[6] == 0:
        c.close(Y[:, 2], np.full(N, math.pi / 2), 0, 1e-9, "equatorial orbit leaves the plane")
        c.close(Y[:, 6], np.zeros(N), 0, 1e-9 * sc[6], "equatorial orbit gains polar momentum")
        c.seen("equatorial")
    if y0[7] == 0 and y0[6] == 0 and name == "Schwarzschild":
        c.close(Y[:, 3], np.full(N, y0[3]), 0, 1e-12, "radial orbit turns")
        c.seen("radial")
    k = c.pick(["rotate", "mirror", "spin", "toy"])
    z = y0.copy()
    sgn = np.ones(8)
    off = np.zeros(8)
    p2 = prm
    if k == "rotate":
        off[3] = c.uni(-2, 2)
    elif k == "mirror":
        sgn[[2, 6]] = -1
        off[2] = math.pi
    elif k == "spin":
        sgn[[3, 7]] = -1
        p2 = (-prm[0], *prm[1:]) if prm else prm
    else:
        sgn[[3, 7]] = -1
        if name != "Schwarzschild" and a != 0:
            c.seen("skipped toy")
            return
    z = sgn * y0 + off
    _, Z = run(name, p2, z, mu, order, N, d, om)
    c.close((Z - (sgn * Y + off)) / sc, np.zeros((N, 8)), 0, amp * (1 + 100 * d * N), f"symmetry {k} is broken")
    c.seen(k, name, kind, order)


@CHECK.clause("warnings", quick=300, thorough=3000, timeout=120)
def warn(c):
    """a warning for exactly the steps whose Hamiltonian leaves the requested tolerance"""
    name, prm, a, Q, y0, mu, kind = None, None, 0, 0, None, 0, None
    off = c.coin(0.2)
    for _ in range(30):
        name, prm, a, Q, y0, mu, kind = orbit.sample(c)
        if y0 is None:
            continue
        if off:  # a momentum that was never on the mass shell, given to the integrator directly
            y0 = np.array(y0, dtype=float)
            y0[4] *= c.uni(0.8, 1.3)
            y0[0] = c.uni(-50, 50)
        order, N = c.pick([2, 2, 4]), c.rint(3, 20)
        d, om = c.pick([0.5, 1.0, c.logu(0.05, 5)]), c.pick([1.0, 0.1, 0.01])
        M = orbit.fantasy(order, d, om, N, y0, a, Q)
        if M is None:
            continue
        H = np.array([orbit.ham(y, a, Q) for y in M]) + mu
        if np.abs(H).max() > 1e-9 and np.isfinite(H).all():
            break
    else:
        c.skip("no orbit with a visible error")
    e = np.sort(np.abs(H))
    lim = c.pick([1e-2, 1e-2, float(np.sqrt(e[N // 2] * e[-1])), float(e[-1] * 2), float(e[0] / 2 + 1e-12), float(e[N // 3] * 1.001)])
    atol = lim if c.coin() else lim * c.uni(0.01, 0.9)
    rtol = (lim - atol) if mu else c.pick([0.0, 1e-2, 1.0])
    tol = atol + rtol * mu
    kw = {}
    suppress = c.coin(0.15)
    if suppress or c.coin():
        kw["suppress_warnings"] = suppress
    if not (atol == rtol == 1e-2):
        kw.update(atol=atol, rtol=rtol)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if off:
            g = GeodesicIntegrator(METRICS[name], prm or (0.0,), np.array(y0[:4]), np.array(y0[4:]), time_like=bool(mu),
                                   steps=N, delta=d, order=order, omega=om, **kw)
            for _ in range(N):
                g.step()
            Y = np.array([np.concatenate([r[0], r[1]]) for r in g.results], dtype=float)
        else:
            cls = Timelike if mu else Nulllike
            g = cls(name, prm, list(y0[1:4]), list(y0[5:]), steps=N, delta=d, order=order, omega=om, return_cartesian=False, **kw)
            Y = np.asarray(g.trajectory[1])
    H = np.array([orbit.ham(y, a, Q) for y in Y]) + mu
    got = []
    for x in w:
        m = re.findall(r"step\s*=?\s*(\d+)", str(x.message))
        if m:
            c.ok(issubclass(x.category, RuntimeWarning), "category")
            got.append(int(m[-1]))
    c.note(metric=name, kind=kind, y0=y0, off_shell=off, N=N, delta=d, atol=atol, rtol=rtol, mu=mu, suppress=suppress)
    if suppress:
        c.ok(not got, "warnings although suppressed", None, steps=got)
        c.seen("suppressed", name)
        return
    for i in range(N):
        h = abs(H[i])
        slack = 1e-10 * max(1.0, float(y0[4]) ** 2, h)
        if h > tol + slack or not math.isfinite(h):
            c.ok(got.count(i + 1) == 1, f"no warning at step {i + 1}: |H| = {h:.3e} > {tol:.3e}", None, warned=got)
            c.count("steps outside tolerance")
        elif h < tol - slack:
            c.ok(got.count(i + 1) == 0, f"warning at step {i + 1} although |H| = {h:.3e} < {tol:.3e}", None, warned=got)
            c.count("steps inside tolerance")
    c.ok(all(1 <= k <= N for k in got), "warning for a step that does not exist", None, warned=got)
    c.seen(name, kind, off, bool(got), len(got) == N, mu)


@CHECK.clause("other_spacetimes", quick=120, thorough=1200, timeout=120)
def other(c):
    """user-supplied metrics with known motion: flat space (straight lines) and an expanding universe (constant comoving
    momenta, exact energy)"""
    k = c.pick(["flat", "frw", "wave"])
    mu = c.pick([0, 1])
    x, p = c.rng.uniform(-3, 3, 3), c.rng.normal(size=3)
    N, d, order = c.rint(5, 30), c.uni(0.01, 0.05), c.pick([2, 4])
    n = c.pick([0.5, 2 / 3, 1.0])
    om = c.pick([1.0, 0.1])

    def flat(q, *_):
        return np.diag([-1.0, 1, 1, 1])

    def frw(q, *prm):
        g = np.zeros((4, 4), dtype=object)
        s = (1 + q[0] * prm[0]) ** (-2 * n)
        g[0, 0] = -1.0
        g[1, 1] = g[2, 2] = g[3, 3] = s
        return g

    def wave(q, *prm):  # depends on x and y, static
        g = np.zeros((4, 4), dtype=object)
        f = 1 + prm[0] * np.sin(q[1]) * np.cos(q[2])
        g[0, 0] = -1.0 * f
        g[1, 1] = g[2, 2] = 1 / f
        g[3, 3] = f * f
        g[0, 3] = g[3, 0] = prm[0] * np.cos(q[1]) * 0.1
        return g
    fn = dict(flat=flat, frw=frw, wave=wave)[k]
    prm = () if k == "flat" else (c.uni(0.05, 0.3),)
    g = Geodesic(fn, prm, list(x), list(p), time_like=bool(mu), steps=N, delta=d, order=order, omega=om,
                 return_cartesian=False, suppress_warnings=True)
    P = np.asarray(g.momentum, dtype=float)
    Y = np.asarray(g.trajectory[1])
    lam = d * np.arange(1, N + 1)
    c.note(metric=k, x=x, p=p, mu=mu, N=N, delta=d, order=order)
    H = np.array([float(np.asarray(fn(y[:4], *prm), dtype=float) @ y[4:] @ y[4:]) for y in Y])
    S = 1 + float(P @ P)
    tol = 1e-12 if k == "flat" else 4 * (lam[-1] + d) * d * d * S if order == 2 else 20 * d ** 4 * (1 + lam[-1]) * S
    c.close(H, np.full(N, -float(mu)), 0, tol * S, f"Hamiltonian drifts in {k}")
    if k == "flat":
        v = np.array([-P[0], *p])
        c.close(Y[:, :4], np.array([0, *x]) + lam[:, None] * v, 0, 1e-11 * (1 + np.abs(v).max()), "free motion is not straight")
        c.close(Y[:, 4:], np.tile(P, (N, 1)), 0, 1e-11 * (1 + np.abs(v).max()), "free motion changes momentum")
    elif k == "frw":
        c.close(Y[:, 5:], np.tile(p, (N, 1)), 0, tol, "comoving momentum changes")
        s = (1 + Y[:, 0] * prm[0]) ** (-2 * n)
        c.close(Y[:, 4], -np.sqrt(s * (p @ p) + mu), 0, tol * 4, "redshift of the energy")
    else:
        c.close(Y[:, [4, 7]], np.tile(P[[0, 3]], (N, 1)), 0, tol, "energy or cyclic momentum changes")
    c.seen(k, mu, order)


if __name__ == "__main__":
    main(CHECK)
