"""C21 the Schwarzschild embedding has the geometry of the equatorial slice (optical reference geometry)."""
import mpmath as mp
import numpy as np
from astropy import units as u

from vf.core import Check, main

from einsteinpy.hypersurface import SchwarzschildEmbedding

CHECK = Check(
    "C21",
    "one case = one mass (random mass unit) with random radii or a random step parameter; distinct = (decade of mass, unit, branch of "
    "the embedding, step count decade)",
    ["the geometry is the conformally rescaled spatial metric the class documents through radial_coord: R = r/sqrt(1-2M/r)"],
)
NUM = 10e22
UNITS = [(u.kg, 1.0), (u.g, 1e-3), (u.tonne, 1e3), (u.Mg, 1e3)]


def make(c):
    m = c.logu(1e-1, c.pick([1e8, 1e18]))  # mass in units of 10e22 kg
    unit, f = c.pick(UNITS)
    q = (m * NUM / f) * unit
    c.note(m=m, unit=str(unit))
    c.seen("mass", int(np.floor(np.log10(m))), unit)
    return m, q, SchwarzschildEmbedding(q)


def R_of(m, r):
    return r / np.sqrt(1 - 2 * m / r)


def slope(m, r):
    """dz/dr of the surface with radius R(r) and proper length dr/(1-2m/r): from the metric, in multiprecision"""
    with mp.workdps(40):
        m, r = mp.mpf(m), mp.mpf(r)
        R = lambda s: s / mp.sqrt(1 - 2 * m / s)
        dR = mp.diff(R, r)
        dl = 1 / (1 - 2 * m / r)
        return float(mp.sqrt(dl ** 2 - dR ** 2))


@CHECK.clause(quick=6400, thorough=20000)
def radial(c):
    m, q, e = make(c)
    r = m * np.array([c.logu(2 + 1e-9, 2.1) if c.coin() else c.logu(2.0001, 1e6) for _ in range(6)])
    c.close([e.radial_coord(float(x)) for x in r], R_of(m, r), 1e-9, 0, "radial coordinate of the embedding")
    c.close(e.radial_coord(r), R_of(m, r), 1e-9, 0, "radial coordinate of the embedding (array)")
    k = c.logu(1e-3, 1e3)
    e2 = SchwarzschildEmbedding(k * q)
    c.close(e2.radial_coord(k * r), k * np.asarray(e.radial_coord(r)), 1e-9, 0, "radial coordinate scales with the mass")
    # the throat of the surface is at r = 3m with radius 3 sqrt(3) m
    c.ok(np.all(np.asarray(e.radial_coord(r)) >= 3 * np.sqrt(3) * m * (1 - 1e-12)), "no circle smaller than the throat")
    c.ok(abs(e.radial_coord(3 * m) / m - 3 * np.sqrt(3)) < 1e-12, "throat radius is 3 sqrt(3) M")


@CHECK.clause(quick=6400, thorough=20000)
def gradient(c):
    """|dz/dr| makes the surface isometric to the slice; dz/dr keeps the sign of r - 3m"""
    m, q, e = make(c)
    branch = c.pick(["inside", "outside", "near", "far"])
    r = m * {"inside": c.uni(2.2501, 2.99), "outside": c.uni(3.01, 9), "near": 3 + c.pick([-1, 1]) * c.logu(1e-5, 1e-2),
             "far": c.logu(9, 1e5)}[branch]
    c.seen("gradient", branch, int(np.floor(np.log10(m))))
    c.note(r=r, branch=branch)
    g = float(e.gradient(r))
    want = slope(m, r) * np.sign(r - 3 * m)
    if abs(g - want) <= 1e-7 * abs(want):
        c.ok(True, "slope")
    else:
        spurious = want * np.sqrt(R_of(m, r))
        known = abs(g - spurious) <= 1e-7 * abs(spurious)
        c.ok(False, f"gradient {g!r} is not dz/dr = {want!r} of the embedding", "gradient-factor" if known else None)
    if c.index % 16 == 0:  # many radii at once, on either side of the throat
        rr = m * np.array([c.pick([c.uni(2.3, 2.99), c.uni(3.01, 9)]) for _ in range(c.rint(2, 6))])
        c.close(np.asarray(e.gradient(rr), float), [float(e.gradient(float(x))) for x in rr], 1e-12, 0, "slopes at an array of radii")
        c.close(np.asarray(e.radial_coord(rr), float), [float(e.radial_coord(float(x))) for x in rr], 1e-12, 0, "radii of an array")
    # the marginal radius: the surface becomes horizontal at 9m/4 and cannot be embedded below it
    with np.errstate(all="ignore"):
        c.ok(np.isnan(e.gradient(m * c.uni(2.01, 2.2499))), "no real slope below 9m/4")


@CHECK.clause(quick=1200, thorough=4000)
def profile(c):
    """get_values lists the profile curve of both branches, consistently with radial_coord and gradient"""
    m, q, e = make(c)
    alpha = c.pick([100, c.rint(5, 60), c.uni(3, 40), c.rint(100, 400)])
    c.note(alpha=alpha)
    xs, zs = e.get_values(alpha)
    xs, zs = np.asarray(xs, float), np.asarray(zs, float)
    c.ok(xs.ndim == 1 and xs.shape == zs.shape and len(xs) > 2, "one height per radius")
    r0 = float(e.r_init.value)
    c.ok(0 < r0 - 3 * m <= max(1.01e-4, 1e-6 * m), "starts just outside the throat")
    step = m / alpha
    starts = np.flatnonzero(zs == 0)
    c.ok(len(starts) >= 2 and starts[0] == 0, "two branches, both starting at height 0", None, starts=starts)
    if len(starts) < 2:
        return
    k = int(starts[1])
    c.seen("profile", int(np.log2(max(len(xs), 1))))
    def count(k, span, what):
        q = span / step
        n = int(np.ceil(q * (1 - 1e-12)))
        # the walk in steps may land on either side of a bound that is a whole number of steps away
        slack = 1 if abs(q - round(q)) < 1e-6 * max(1, q) else 0
        c.ok(abs(k - n) <= slack, f"{what}: {k} points, expected {n}")

    count(k, 9 * m - r0, "outer branch ends at 9m")
    ro = r0 + step * np.arange(k)
    count(len(xs) - k, r0 - 2.25 * m, "inner branch ends at 9m/4")
    ri = r0 - step * np.arange(len(xs) - k)
    c.close(xs[:k], R_of(m, ro), 1e-9, 0, "radii of the outer branch")
    c.close(xs[k:], R_of(m, ri), 1e-7, 0, "radii of the inner branch")
    # heights: the surface passes a step's slope at a time (Euler), slopes as reported by gradient()
    zo = np.concatenate([[0], np.cumsum([e.gradient(float(x)) * step for x in ro[:-1]])])
    zi = np.concatenate([[0], np.cumsum([e.gradient(float(x)) * step for x in ri[:-1]])])
    s = max(np.abs(zo).max(), np.abs(zi).max())
    c.close(zs[:k], zo, 1e-6, 1e-9 * s, "heights of the outer branch")
    c.close(zs[k:], zi, 1e-5, 1e-7 * s, "heights of the inner branch")
    c.ok(np.all(np.diff(zs[:k]) > 0), "height increases outwards")
    c.ok(np.all(np.diff(xs[:k]) > 0), "radius increases outwards")
    c.ok(np.all(np.diff(zs[k + 1:]) < 0), "height decreases inwards of the throat")


@CHECK.clause(quick=480, thorough=1500)
def surface(c):
    m, q, e = make(c)
    alpha = c.pick([c.rint(2, 30), c.uni(2, 20), 100])
    c.note(alpha=alpha)
    X, Y, Z = (np.asarray(v, float) for v in e.get_values_surface(alpha))
    c.ok(X.ndim == 2 and X.shape == Y.shape, "a grid of points")
    c.ok(Z.size == X.size, "one height per point")
    Zg = Z.reshape(X.shape)
    step = m / alpha
    r0 = float(e.r_init.value)
    r = r0 + step * np.arange(X.shape[1])
    q_ = (20 * m - r0) / step
    n = int(np.ceil(q_ * (1 - 1e-12)))
    c.ok(abs(X.shape[1] - n) <= (abs(q_ - round(q_)) < 1e-6 * q_), f"surface ends at 20m: {X.shape[1]} circles, expected {n}")
    c.seen("surface", X.shape[0], int(np.log2(X.shape[1])))
    rho = np.hypot(X, Y)
    c.close(rho, np.broadcast_to(R_of(m, r), X.shape), 1e-9, 0, "every circle has radius R(r)")
    z = np.concatenate([[0], np.cumsum([e.gradient(float(x)) * step for x in r[:-1]])])
    c.close(Zg, np.broadcast_to(z, X.shape), 1e-6, 1e-9 * z.max(), "height depends on the radius only")
    phi = np.unwrap(np.arctan2(Y[:, -1], X[:, -1]))
    c.ok(abs(phi[-1] - phi[0] - 2 * np.pi) < 1e-9, "the surface closes after one turn")
    c.ok(np.all(np.diff(phi) > 0) and np.diff(phi).max() < 0.2, "angles go round evenly")
    for j in (0, X.shape[1] // 2):
        p = np.unwrap(np.arctan2(Y[:, j], X[:, j]))
        c.close(p, phi - phi[0] + p[0], 1e-9, 1e-9, "same angle on every circle")
    # same profile as get_values
    xs, zs = e.get_values(alpha)
    k = min(int(np.flatnonzero(np.asarray(zs) == 0)[1]), X.shape[1])
    c.close(rho[0, :k], xs[:k], 1e-9, 0, "surface and profile agree on radii")
    c.close(Zg[0, :k], zs[:k], 1e-9, 0, "surface and profile agree on heights")


@CHECK.clause(quick=2400, thorough=4000)
def units(c):
    """the same mass in another unit gives the same embedding"""
    m, q, e = make(c)
    unit, f = c.pick(UNITS)
    e2 = SchwarzschildEmbedding(q.to(unit))
    c.close(e2.M.to(u.kg).value, q.to(u.kg).value, 1e-12, 0, "mass is kept")
    c.close(e.M.to(u.kg).value, q.to(u.kg).value, 1e-12, 0, "mass is kept")
    r = m * c.logu(2.3, 100)
    c.close(e2.radial_coord(r), e.radial_coord(r), 1e-9, 0, "radius independent of the mass unit")
    c.close(e2.gradient(r), e.gradient(r), 1e-6, 0, "slope independent of the mass unit")
    c.close(e2.r_init.value, e.r_init.value, 1e-12, 0, "start independent of the mass unit")
    c.raises((u.UnitsError, TypeError, AttributeError), lambda: SchwarzschildEmbedding(c.pick([3 * u.m, 2.0, 1 / u.s])), "refuses what is no mass")


if __name__ == "__main__":
    main(CHECK)
