"""C12 the symplectic integrator converges at its order and keeps its books."""
import math

import numpy as np
from scipy.integrate import solve_ivp

from checks.c11 import run, workload
from vf import orbit
from vf.core import Check, main

from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.integrators import GeodesicIntegrator

CHECK = Check(
    "C12",
    "one case = one geodesic integrated twice (n and 2n steps), there and back, with different output options, or with a user-supplied "
    "copy of the metric; errors are taken against DOP853 at 1e-12; distinct = (metric, orbit kind, order, omega, clause)",
    ["reference trajectories: scipy DOP853 on independently derived Hamilton equations",
     "convergence is judged on orbits and steps for which an independent implementation of the documented algorithm shows its nominal order"],
)


@CHECK.clause("order", quick=160, thorough=1500, timeout=200)
def order(c):
    p = [2, 4, 6, 8][c.index % 4]
    for _ in range(60):
        name, prm, a, Q, y0, mu, kind = orbit.sample(c)
        if y0 is None:
            continue
        n = c.rint(2, {2: 12, 4: 8, 6: 5, 8: 3}[p])
        T = c.uni(0.3, 8) * max(1.0, y0[1] / 25)
        om = c.pick([1.0, 0.3, 0.1, 0.01])
        R = orbit.solve(y0, a, Q, T * np.arange(1, 2 * n + 1) / (2 * n))
        if R is None:
            continue
        sc = orbit.scales(R, y0)
        e = []
        for k in (n, 2 * n):
            M = orbit.fantasy(p, T / k, om, k, y0, a, Q)
            e.append(math.inf if M is None else float(np.max(np.abs(M[-1] - R[-1]) / sc)))
        if not (3e-10 < e[1] < math.inf and e[0] < 0.1):
            continue
        s = math.log2(e[0] / e[1])
        if abs(s - p) < 0.35:
            break
    else:
        c.skip("no orbit in the asymptotic regime")
    c.note(metric=name, a=a, Q=Q, y0=y0, kind=kind, order=p, n=n, T=T, omega=om, model_error=e)
    got = []
    for k in (n, 2 * n):
        _, Y = run(name, prm, y0, mu, p, k, T / k, om)
        got.append(float(np.max(np.abs(Y[-1] - R[-1]) / sc)))
    c.ok(got[1] <= 3 * e[1] + 1e-10, f"error {got[1]:.3e} after {2 * n} steps, expected about {e[1]:.1e}", None, errors=got)
    c.ok(got[0] <= 3 * e[0] + 1e-10, f"error {got[0]:.3e} after {n} steps, expected about {e[0]:.1e}", None, errors=got)
    sl = math.log2(got[0] / max(got[1], 1e-300)) if got[0] > 0 else -1
    c.ok(sl > p - 0.8 or got[0] < 1e-9, f"order {sl:.2f} instead of {p}", None, errors=got)
    c.count(f"slopes of order {p}")
    c.seen(p, name, kind, om)


@CHECK.clause("reversible", quick=80, thorough=800, timeout=150)
def reversible(c):
    """N steps forward and N steps back end at the start"""
    name, prm, a, Q, y0, mu, kind, p, N, d, om, M, _ = workload(c, orders=(2, 4), maxdrift=1e-3, cost=120)
    def leg(y, h):
        s = orbit.fantasy(p, h, om, N, y, a, Q)
        return None if s is None else s
    back = leg(M[-1], -d)
    if back is None:
        c.skip("reference algorithm fails on the way back")
    sc = orbit.scales(M, y0)
    want = float(np.max(np.abs(back[-1] - y0) / sc))
    if want > 1e-2:
        c.skip("reference algorithm does not return")
    _, Y = run(name, prm, y0, mu, p, N, d, om)
    y = Y[-1]
    gi = GeodesicIntegrator(metric=_callable(name), metric_params=prm, q0=y[:4].copy(), p0=y[4:].copy(), time_like=bool(mu),
                            steps=N, delta=-d, order=p, omega=om, suppress_warnings=True)
    for _ in range(N):
        gi.step()
    z = np.concatenate([gi.results[-1][0], gi.results[-1][1]]).astype(float)
    e = float(np.max(np.abs(z - y0) / sc))
    c.ok(e <= 4 * want + 1e-9, f"returns to within {e:.2e} only (expected {want:.1e})", None, state=z)
    c.seen(name, kind, p, om)


def wavy(c):
    """a smooth metric without any symmetry: every component depends on all four coordinates"""
    eta = np.diag([-1.0, 1.0, 1.0, 1.0])
    w = c.rng.normal(size=(4, 4)) * 0.08
    w = w + w.T
    if c.coin(0.3):
        w *= c.rng.random((4, 4)) < 0.5
        w = (w + w.T) / 2
    k = c.rng.normal(size=(4, 4, 4)) * 0.5
    k = k + k.transpose(1, 0, 2)
    ph = c.rng.uniform(0, 6, (4, 4))
    ph = ph + ph.T

    def g(x, *prm):
        m = np.zeros((4, 4), dtype=object)
        for i in range(4):
            for j in range(i, 4):
                u = ph[i, j]
                for n in range(4):
                    u = u + x[n] * k[i, j, n]
                m[i, j] = m[j, i] = eta[i, j] + np.sin(u) * w[i, j] * prm[0]
        return m

    def fast(x, s):
        a = ph + k @ x
        return eta + s * w * np.sin(a), s * (w * np.cos(a))[:, :, None] * k
    return g, fast


@CHECK.clause("any_metric", quick=120, thorough=1200, timeout=200)
def any_metric(c):
    """a user metric that depends on time and space in every component: error no larger than that of the documented algorithm"""
    g, fast = wavy(c)
    p = [2, 2, 4, 4, 6, 8][c.index % 6]
    s, mu = c.uni(0.5, 1.5), c.pick([0, 1])
    x, q = c.rng.uniform(-2, 2, 3), c.rng.normal(size=3)
    om = c.pick([1.0, 0.3, 0.1, 2.0])
    n = c.rint(2, {2: 16, 4: 8, 6: 4, 8: 2}[p])
    h = c.uni(0.05, 0.4)
    direct = c.coin(0.4)
    if direct:  # the integrator itself: any initial time, momentum of any time direction, on shell or not, either direction
        h *= c.pick([1, -1])
        y0 = np.array([c.pick([0.0, c.uni(-9, 9), c.uni(-9, 9)]), *x, c.pick([1, -1]) * c.uni(0, 2), *q])
        z0 = y0.copy()
        gi = GeodesicIntegrator(metric=g, metric_params=(s,), q0=y0[:4], p0=y0[4:], time_like=bool(mu), steps=n, delta=h, order=p,
                                omega=om, suppress_warnings=True)
        for _ in range(n):
            gi.step()
        Y = np.array([np.concatenate([r[0], r[1]]) for r in gi.results], dtype=float)
        c.ok(np.array_equal(y0, z0), "initial state modified")
        c.note(s=s, y0=y0, mu=mu, order=p, n=n, delta=h, omega=om)
    else:
        geo = Geodesic(g, (s,), list(x), list(q), time_like=bool(mu), steps=n, delta=h, order=p, omega=om, return_cartesian=False,
                       suppress_warnings=True)
        Y = np.asarray(geo.trajectory[1], dtype=float)
        P = np.asarray(geo.momentum, dtype=float)
        y0 = np.array([0.0, *x, *P])
        c.note(s=s, x=x, p=q, mu=mu, order=p, n=n, delta=h, omega=om)
        G, _ = fast(y0[:4], s)
        c.close(float(P @ G @ P), -float(mu), 0, 1e-9 * (1 + P @ P), "initial momentum is not on the mass shell")
        c.close(P[1:], q, 0, 1e-12, "spatial momentum changed")

    def half(a, b):
        M, D = fast(a, s)
        return M @ b, -0.5 * np.einsum("ijk,i,j->k", D, b, b)

    def rhs(_, y):
        return np.concatenate(half(y[:4], y[4:]))
    lam = h * np.arange(1, n + 1)
    sol = solve_ivp(rhs, (0, lam[-1]), y0, method="DOP853", t_eval=lam, rtol=1e-12, atol=1e-13)
    if not sol.success:
        c.skip("no reference orbit")
    R = sol.y.T

    def s2(z, h):
        q1, p1, q2, p2 = z
        dq, dp = half(q1, p2)
        q2, p1 = q2 + h / 2 * dq, p1 + h / 2 * dp
        dq, dp = half(q2, p1)
        q1, p2 = q1 + h / 2 * dq, p2 + h / 2 * dp
        co, si = math.cos(2 * om * h), math.sin(2 * om * h)
        a, b, d, e = q1 + q2, q1 - q2, p1 + p2, p1 - p2
        b, e = b * co + e * si, e * co - b * si
        q1, q2, p1, p2 = (a + b) / 2, (a - b) / 2, (d + e) / 2, (d - e) / 2
        dq, dp = half(q2, p1)
        q1, p2 = q1 + h / 2 * dq, p2 + h / 2 * dp
        dq, dp = half(q1, p2)
        return q1, p1 + h / 2 * dp, q2 + h / 2 * dq, p2

    def sn(k, z, h):
        if k == 2:
            return s2(z, h)
        r = 2 ** (1 / (k - 1))
        for w in (1 / (2 - r), -r / (2 - r), 1 / (2 - r)):
            z = sn(k - 2, z, h * w)
        return z
    z, model = (y0[:4], y0[4:], y0[:4], y0[4:]), []
    for _ in range(n):
        z = sn(p, z, h)
        model.append(np.concatenate(z[:2]))
    me = np.maximum.accumulate(np.abs(np.array(model) - R).max(axis=1))
    if not me[-1] < 0.3:
        c.skip("step too large")
    c.ok(Y.shape == (n, 8), "one state per step", None, shape=Y.shape)
    e = np.abs(Y - R).max(axis=1)
    c.obs += n
    k = int(np.argmax(e - 3 * me))
    c.ok(bool((e <= 3 * me + 1e-10).all()), f"error {e[k]:.2e} after {k + 1} steps, expected about {me[k]:.1e}", None)
    c.count("states", n)
    c.seen(p, mu, om, direct, h < 0)


def _callable(name, a=None):
    def g(x, *prm):
        """contravariant Kerr-Newman written another way; works on numbers that can be differentiated"""
        a_ = prm[0] if prm and name != "Schwarzschild" else 0.0
        q_ = prm[1] if len(prm) > 1 else 0.0
        r, th = x[1], x[2]
        s2 = np.sin(th) * np.sin(th)
        S = r * r + a_ * a_ * (1 - s2)
        D = r * (r - 2) + (a_ * a_ + q_ * q_)
        b = r * r + a_ * a_
        m = np.zeros((4, 4), dtype=object)
        m[0, 0] = (a_ * a_ * D * s2 - b * b) / (S * D)
        m[0, 3] = m[3, 0] = -a_ * (2 * r - q_ * q_) / (S * D)
        m[3, 3] = (D - a_ * a_ * s2) / (S * D * s2)
        m[1, 1] = D / S
        m[2, 2] = 1 / S
        return m
    return g


@CHECK.clause("books", quick=150, thorough=1500, timeout=120)
def books(c):
    """one state per requested step, Cartesian output, user-supplied copy of a metric, determinism, defaults"""
    name, prm, a, Q, y0, mu, kind, p, N, d, om, M, _ = workload(c, orders=(2, 2, 4), cost=90)
    sc = orbit.scales(M, y0)
    g, Y = run(name, prm, y0, mu, p, N, d, om)
    steps = np.asarray(g.trajectory[0])
    c.ok(steps.shape == (N,) and np.array_equal(steps, np.arange(N)), "step indices", None, steps=steps)
    c.ok(Y.shape == (N, 8), "one state per step", None, shape=Y.shape)
    if c.index % 5 == 0:  # asked again, for other steps first
        for m in (c.rint(1, N), N):
            again = g.calculate_trajectory(steps=m, delta=d, order=p, omega=om, return_cartesian=False, suppress_warnings=True)
            Z = np.asarray(again[1])
            c.ok(Z.shape == (m, 8) and np.array_equal(Z, Y[:m], equal_nan=True), "calculate_trajectory does not start from the initial position and momentum")
    k = ["cartesian", "callable", "prefix", "generic", "defaults", "integrator", "uncoupled"][c.index % 7]
    if k == "cartesian":
        kw = {} if c.coin() else dict(return_cartesian=True)
        cls = Timelike if mu else Nulllike
        g2 = cls(name, prm, list(y0[1:4]), list(y0[5:]), steps=N, delta=d, order=p, omega=om, suppress_warnings=True, **kw)
        Z = np.asarray(g2.trajectory[1])
        t, r, th, ph = Y[:, :4].T
        W = np.column_stack([t, r * np.sin(th) * np.cos(ph), r * np.sin(th) * np.sin(ph), r * np.cos(th), Y[:, 4:]])
        c.close(Z, W, 1e-12, 1e-12 * (1 + np.abs(r).max()), "Cartesian output is not the spherical trajectory")
        c.ok(g2.coords == "Cartesian" and g.coords == "Spherical Polar", "coordinate label")
    elif k == "callable":
        _, Z = run(_callable(name), prm, y0, mu, p, N, d, om)
        c.close((Z - Y) / sc, np.zeros_like(Y), 0, 1e-9 * (1 + d * N), "user-supplied copy of the metric gives another orbit")
    elif k == "prefix":
        m = c.rint(1, N)
        _, Z = run(name, prm, y0, mu, p, m, d, om)
        c.close((Z - Y[:m]) / sc, np.zeros((m, 8)), 0, 1e-12, "a shorter run is not a prefix of a longer one")
    elif k == "generic":
        g2 = Geodesic(name, prm, tuple(y0[1:4]), np.array(y0[5:]), time_like=bool(mu), return_cartesian=False, steps=N,
                      delta=d, order=p, omega=om, suppress_warnings=True)
        c.close((np.asarray(g2.trajectory[1]) - Y) / sc, np.zeros_like(Y), 0, 1e-12, "Geodesic differs from Timelike/Nulllike")
    elif k == "defaults":
        g2 = (Timelike if mu else Nulllike)(name, prm, list(y0[1:4]), list(y0[5:]), return_cartesian=False)
        g3, Z = run(name, prm, y0, mu, 2, 50, 0.5, 1.0)
        D = np.asarray(g2.trajectory[1])
        ok = np.isfinite(Z).all() and np.abs(Z / sc).max() < 1e3
        c.ok(D.shape == (50, 8), "default number of steps", None, shape=D.shape)
        if ok:
            c.close((D - Z) / sc, np.zeros_like(Z), 0, 1e-9, "defaults are not steps=50, delta=0.5, order=2, omega=1")
    elif k == "uncoupled":  # omega = 0 is the limit of small couplings
        _, Z = run(name, prm, y0, mu, p, N, d, c.pick([0.0, 0, -0.0]))
        _, E = run(name, prm, y0, mu, p, N, d, 1e-10)
        if np.isfinite(E).all() and np.abs(E / sc).max() < 100:
            c.close((Z - E) / sc, np.zeros_like(E), 0, 1e-6, "omega = 0 is not the limit of small omega")
    else:
        q0, p0 = y0[:4].copy(), y0[4:].copy()
        gi = GeodesicIntegrator(metric=_callable(name), metric_params=prm, q0=q0, p0=p0, time_like=bool(mu), steps=N, delta=d,
                                order=p, omega=om, suppress_warnings=True)
        for i in range(N):
            gi.step()
            c.ok(gi.step_num == i + 1 and len(gi.results) == i + 1, "step count")
        Z = np.array([np.concatenate([r[0], r[1]]) for r in gi.results], dtype=float)
        c.close((Z - Y) / sc, np.zeros_like(Y), 0, 1e-9 * (1 + d * N), "integrator and geodesic disagree")
        c.ok(np.array_equal(q0, y0[:4]) and np.array_equal(p0, y0[4:]), "initial state modified")
        dup = max(float(np.max(np.abs((np.concatenate([r[2], r[3]]).astype(float) - z) / sc))) for r, z in zip(gi.results, Z))
        c.count("largest copy distance > 1e-2", int(dup > 1e-2))
    bad = c.pick([0, 1, 3, 5, 7, 9, 10, -2, 16, 2.5])
    c.raises(NotImplementedError, lambda: run(name, prm, y0, mu, bad, 1, d, om), "unsupported order accepted", order=bad)
    c.seen(k, name, kind, p)


@CHECK.clause("example", quick=1, thorough=1, timeout=300)
def example(c):
    """the documented example shows the apsidal precession of its orbit"""
    from einsteinpy.examples import precession
    g = precession()
    lam, Y = g.trajectory
    Y = np.asarray(Y, float)
    n = len(Y)
    c.ok(g.kind == "Time-like" and g.metric_name == "Schwarzschild" and n == 5500 and Y.shape == (n, 8) and np.array_equal(lam, np.arange(n)), "shape of the example")
    r0, L = 40.0, 3.83405
    E = math.sqrt((1 - 2 / r0) * (1 + L * L / r0 ** 2))

    def rhs(s, y):
        r, pr = y[1], y[3]
        f = 1 - 2 / r
        return [E / f, f * pr, L / r ** 2, -(E * E / f ** 2 + pr * pr) / r ** 2 + L * L / r ** 3]
    R = solve_ivp(rhs, (0, n), [0, r0, 0, 0], t_eval=np.arange(1, n + 1), rtol=1e-11, atol=1e-12, method="DOP853").y
    r, ph = np.hypot(Y[:, 1], Y[:, 2]), np.unwrap(np.arctan2(Y[:, 2], Y[:, 1]))
    c.close(Y[:, 3], np.zeros(n), 0, 1e-9, "the orbit leaves the equatorial plane")
    for what, got, want, tol in (("radius", r, R[1], 0.02), ("azimuth", ph, R[2], 0.04), ("time", Y[:, 0], R[0], 0.15),
                                 ("energy", Y[:, 4], np.full(n, -E), 1e-3), ("angular momentum", Y[:, 7], np.full(n, L), 1e-3)):
        c.ok(float(np.max(np.abs(got - want))) <= tol, f"{what} of the example orbit", got=got[-3:].tolist(), want=np.asarray(want)[-3:].tolist())

    def peri(q):
        return [k for k in range(1, n - 1) if q[k] < q[k - 1] and q[k] < q[k + 1]]
    i, j = peri(r), peri(R[1])
    if c.ok(len(i) == len(j) == 7, "number of periapsis passages", got=i, want=j):
        c.close(np.diff(ph[i]), np.diff(R[2][j]), 0, 0.01, "apsidal precession")
    c.count("steps of the documented example", n)
    c.seen("example")


if __name__ == "__main__":
    main(CHECK)
