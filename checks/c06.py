"""C06 Christoffel symbols and geodesic right-hand sides are those of the metric's Levi-Civita connection."""
import math

import numpy as np
from astropy import units as u

from checks.c05 import build, classes, event, hole, too_singular, vec
from vf import gen, ref
from vf.core import Check, main
from vf.ref import gamma_tol

from einsteinpy.coordinates import Cartesian
from einsteinpy.metric import BaseMetric

CHECK = Check(
    "C06",
    "one case = one black hole, one event and one 4-velocity; all 64 connection components, or all 8 components of the "
    "geodesic right-hand side, are compared; distinct = (metric, region, spin class, charge class[, velocity class])",
    ["reference connection: exact derivatives of the textbook line element evaluated with 34 digits",
     "the electromagnetic force uses the library's own field tensor (its normalisation is property C07)"],
)


@CHECK.clause("connection", quick=2000, thorough=30000)
def connection(c):
    kind, M, a, Q = hole(c)
    reg, x = event(c, M, a, Q)
    o = ref.kn(M, a, Q, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    met = build(c, kind, M, a, Q)
    c.note(kind=kind, M=M, a=a, Q=Q, region=reg, x=x)
    X = vec(c, x)
    before = list(X)
    G = np.asarray(met.christoffels(X))
    c.ok(G.shape == (4, 4, 4), "shape")
    c.ok(list(X) == before, "position vector modified")
    c.close(G, o["gamma"], 0, gamma_tol(o, x), f"Christoffel symbols of {kind}", region=reg)
    c.ok(np.array_equal(G, np.transpose(G, (0, 2, 1))), "not symmetric in the lower indices")
    z = o["gamma"] == 0
    c.ok(not np.any(G[z]), "vanishing symbols are not zero")
    c.seen(*classes(kind, a, Q, reg))


def four_velocity(c, o):
    g = o["g"]
    d = 1 / np.sqrt(np.abs(np.diag(g)))
    d[~np.isfinite(d)] = 1.0
    k = c.pick(["generic", "generic", "generic", "static", "radial", "polar", "azimuthal", "zero"])
    w = c.rng.normal(size=4)
    w[0] = abs(w[0]) + 1
    if k == "static":
        w[1:] = 0
    elif k == "radial":
        w[2:] = 0
    elif k == "polar":
        w[[1, 3]] = 0
    elif k == "azimuthal":
        w[[1, 2]] = 0
    elif k == "zero":
        w[:] = 0
    return k, w * d * c.logu(0.1, 10)


@CHECK.clause("geodesic_rhs", quick=2000, thorough=30000)
def geodesic_rhs(c):
    kind, M, a, Q = hole(c)
    reg, x = event(c, M, a, Q)
    o = ref.kn(M, a, Q, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    met = build(c, kind, M, a, Q)
    vk, v = four_velocity(c, o)
    y = np.concatenate([x, v])
    y0 = y.copy()
    f = np.asarray(met.f_vec(c.uni(-5, 5), y))
    c.note(kind=kind, M=M, a=a, Q=Q, region=reg, x=x, u=v)
    c.ok(np.array_equal(y, y0), "state vector modified")
    c.ok(f.shape == (8,), "shape")
    c.ok(np.array_equal(f[:4], v), "dx/dlambda is not the velocity")
    acc = -np.einsum("ijk,j,k->i", o["gamma"], v, v)
    t = np.einsum("ijk,j,k->i", gamma_tol(o, x), np.abs(v), np.abs(v))
    t = t + 1e-14 * np.einsum("ijk,j,k->i", np.abs(o["gamma"]), np.abs(v), np.abs(v))
    c.close(f[4:], acc, 0, t + 1e-300, f"du/dlambda of {kind} is not -Gamma u u", region=reg, velocity=vk)
    f2 = np.asarray(met.f_vec(c.uni(-5, 5), y))
    c.ok(np.array_equal(f, f2), "right-hand side depends on the parameter lambda")
    c.seen(*classes(kind, a, Q, reg), vk)


@CHECK.clause("lorentz_force", quick=1500, thorough=20000)
def lorentz_force(c):
    """Kerr-Newman, charged test particle: du = -Gamma u u + q F^mu_nu u^nu with the library's own F, which is
    linear in q, orthogonal to u and absent for q = 0"""
    _, M, a, Q = hole(c, "KN")
    if Q == 0:
        Q = gen.charge(c, M, a, 0.5)
    if abs(Q) < 1e-30 * M:
        c.skip("no charge")
    reg, x = event(c, M, a, Q, outside=True)
    o = ref.kn(M, a, Q, x)
    if not o["kappa"] < 1e5:
        c.skip("too close to the horizon to separate the force from rounding")
    vk, v = four_velocity(c, o)
    base = build(c, "KN", M, a, Q)
    y = np.concatenate([x, v])
    F = np.asarray(base.em_tensor_covariant(np.array(x)))
    gi, g = o["ginv"], o["g"]
    FU = gi @ F @ v  # F^mu_nu u^nu
    # rounding allowance: the library may raise, lower and contract in any order, and the natural size of its
    # g_t_phi is that before cancellation
    ge, s = np.abs(g), math.sin(x[2])
    ge[0, 3] = ge[3, 0] = max(ge[0, 3], ref.C * o["alpha"] * s * s * (x[1] ** 2 + o["alpha"] ** 2) / o["sigma"])
    gie = np.abs(gi)
    gie[0, 3] = gie[3, 0] = max(gie[0, 3], gie[0, 0] * ge[0, 3] * gie[3, 3])
    size = gie @ np.abs(F) @ (np.abs(v) + gie @ ge @ np.abs(v))
    g0 = np.asarray(base.f_vec(0.0, y))[4:]
    gsz = np.einsum("ijk,j,k->i", np.abs(o["gamma"]), np.abs(v), np.abs(v)) + np.einsum(
        "ijk,j,k->i", gamma_tol(o, x), np.abs(v), np.abs(v))
    act = size > 0
    if not act.any():
        c.skip("no force")
    # pick q so that the force dominates the geodesic part
    q = c.pick([1, -1]) * c.logu(10, 1e4) * max(np.max(gsz[act] / size[act]), 1e-30)
    met = build(c, "KN", M, a, Q, q=q)
    f = np.asarray(met.f_vec(0.0, y))
    force = f[4:] - g0
    tol = 1e-12 * o["kappa"] * (abs(q) * size + gsz)
    c.note(M=M, a=a, Q=Q, q=q, x=x, u=v)
    c.ok(np.array_equal(f[:4], v), "dx/dlambda is not the velocity")
    c.close(force, q * FU, 0, tol, "force is not q F^mu_nu u^nu", region=reg, velocity=vk)
    dot = v @ g @ force
    c.close(dot, 0.0, 0, float(np.abs(v) @ np.abs(g) @ (tol + 1e-14 * np.abs(force))), "force not orthogonal to u")
    met2 = build(c, "KN", M, a, Q, q=-q)
    f2 = np.asarray(met2.f_vec(0.0, y))[4:] - g0
    c.close(f2, -force, 0, tol, "force is not odd in q")
    c.seen(*classes("KN", a, Q, reg), vk, q > 0)


@CHECK.clause("nonzero_list", quick=30, thorough=300)
def nonzero_list(c):
    """the published list of non-vanishing symbols of the rotating hole is the one observed"""
    from einsteinpy.metric import Kerr
    M, a = c.logu(1e25, 1e35), c.uni(0.2, 0.95)
    met = build(c, "Kerr", M, a, 0.0)
    lst = (Kerr if c.coin() or not isinstance(met, Kerr) else met).nonzero_christoffels()
    c.ok(len(set(lst)) == len(lst) and all(len(t) == 3 for t in lst), "list of distinct index triples")
    rs = ref.RS(M) if hasattr(ref, "RS") else 2 * 6.6743e-11 * M / 299792458.0 ** 2
    seen = np.zeros((4, 4, 4), dtype=bool)
    for _ in range(4):
        o = np.array([c.uni(-5, 5), rs * c.uni(2, 8), c.uni(0.3, 1.3), c.uni(-3, 3)])
        seen |= np.asarray(met.christoffels(o)) != 0
    got = {tuple(int(i) for i in t) for t in np.argwhere(seen)}
    c.ok(got == {tuple(int(i) for i in t) for t in lst}, "non-vanishing symbols", got=sorted(got ^ set(map(tuple, lst)))[:6])
    c.note(M=M, a=a)
    c.seen("nonzero list", round(a, 1))


@CHECK.clause("state_types", quick=200, thorough=2000)
def state_types(c):
    """the right-hand side is the same whatever numbers the state is written with: integers or floats"""
    kind, M, a, Q = hole(c)
    M, M0 = 10.0 ** c.rint(27, 30), M
    Q *= M / M0
    x = [c.rint(-5, 5), c.rint(3, 40) * round(ref.G * M / ref.C ** 2 + 1), c.rint(1, 3), c.rint(-3, 3)]
    v = [c.rint(1, 5), c.rint(-1000, 1000), c.rint(-3, 3), c.rint(-3, 3)]
    met = build(c, kind, M, a, Q)
    y = np.array(x + v, dtype=float)
    want = np.asarray(met.f_vec(0.0, y))
    for dt in (np.int64,):
        z = y.astype(dt)
        got = np.asarray(met.f_vec(0, z))
        c.close(got, want, 1e-12, 0, f"right-hand side of a state of {dt.__name__}", state=x + v)
        c.ok(z.dtype == dt and np.array_equal(z, y), "state modified")
        g = np.asarray(met.christoffels(z[:4])), np.asarray(met.metric_covariant(z[:4])), np.asarray(met.metric_contravariant(z[:4]))
        w = met.christoffels(y[:4]), met.metric_covariant(y[:4]), met.metric_contravariant(y[:4])
        for p, q, n in zip(g, w, ("christoffels", "covariant", "contravariant")):
            c.close(p, q, 1e-12, 0, f"{n} at an event of {dt.__name__}", event=x)
    c.note(kind=kind, M=M, a=a, Q=Q, state=x + v)
    c.seen(kind, a == 0, a == 1, v[1] == 0, v[2] == 0, v[3] == 0)


@CHECK.clause("norm_preserved", quick=1000, thorough=15000)
def norm_preserved(c):
    """along the flow of the right-hand side g(u,u), E and L_z are constant: their exact derivative
    (reference metric gradient, library acceleration) vanishes"""
    kind, M, a, Q = hole(c)
    reg, x = event(c, M, a, Q)
    o = ref.kn(M, a, Q, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    vk, v = four_velocity(c, o)
    met = build(c, kind, M, a, Q)
    f = np.asarray(met.f_vec(0.0, np.concatenate([x, v])))
    acc = f[4:]
    g, dg = o["g"], o["dg"]
    da = np.einsum("ijk,j,k->i", gamma_tol(o, x), np.abs(v), np.abs(v)) + 1e-14 * np.abs(acc)
    dN = np.einsum("ijk,i,j,k->", dg, v, v, v) + 2 * v @ g @ acc
    tN = 2 * np.abs(v) @ np.abs(g) @ da + 1e-12 * np.einsum("ijk,i,j,k->", np.abs(dg), *[np.abs(v)] * 3)
    c.close(dN, 0, 0, tN + 1e-300, "d g(u,u)/dlambda != 0")
    for i, n in ((0, "energy"), (3, "angular momentum")):
        d = np.einsum("jk,j,k->", dg[i], v, v) + g[i] @ acc
        t = np.abs(g[i]) @ da + 1e-12 * np.einsum("jk,j,k->", np.abs(dg[i]), np.abs(v), np.abs(v))
        c.close(d, 0, 0, t + 1e-300, f"d({n})/dlambda != 0")
    c.note(kind=kind, M=M, a=a, Q=Q, x=x, u=v)
    c.seen(*classes(kind, a, Q, reg), vk)


@CHECK.clause("user_supplied", quick=50, thorough=300)
def user_supplied(c):
    """callables handed to the base metric are used as given"""
    G = c.rng.normal(size=(4, 4, 4))
    met = BaseMetric(coords=Cartesian(0 * u.s, 1 * u.m, 1 * u.m, 1 * u.m), M=1 * u.kg, metric_cov=lambda x: np.eye(4),
                     christoffels=lambda x: G * x[0], f_vec=lambda l, v: v * l)
    c.close(met.christoffels([2.0, 0, 0, 0]), 2 * G, 1e-15, 0, "user Christoffel symbols")
    c.close(met.f_vec(3.0, np.ones(8)), 3 * np.ones(8), 0, 0, "user f_vec")
    c.note(shape=G.shape)
    c.seen("user")


if __name__ == "__main__":
    main(CHECK)
