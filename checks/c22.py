"""C22 shadow rays have the right turning points and intensities."""
import numpy as np
from astropy import units as u
from scipy.interpolate import make_interp_spline

from vf.core import Check, main

from einsteinpy.rays import Shadow

CHECK = Check(
    "C22",
    "one case = one hole (mass, field of view, number of rays, limit, random units); distinct = (decade of mass, ratio of the field of "
    "view to the critical impact parameter, number of rays, unit)",
    ["mass values are lengths, as the class documents by its horizon 2M; the integrals are the five-point Gauss-Legendre sums the class uses"],
)
X5, W5 = np.polynomial.legendre.leggauss(5)
S3 = np.sqrt(3.0)


def gl(f, a, b):
    return 0.5 * (b - a) * np.sum(W5 * f(0.5 * (b - a) * (X5 + 1) + a))


def turning(M, b):
    """largest root of r^3 - b^2 (r - 2M) = 0"""
    return 2 * b / S3 * np.cos(np.arccos(-3 * S3 * M / b) / 3)


def emission(M, b, sign):
    """g^3 k_t / (k^r r^2) along a ray of impact parameter b for radially free-falling emitters"""
    def f(r):
        h = 1 - 2 * M / r
        s = np.sqrt(1 - b * b * h / r ** 2)
        g = h / (1 + sign * s * np.sqrt(2 * M / r))
        return g ** 3 / (r ** 2 * s)
    return f


def make(c, rays=(2, 200)):
    M = c.pick([1.0, c.logu(1e-3, 1e12), c.logu(1e-9, 1e32), c.uni(0.5, 50)])
    bc = 3 * S3 * M
    ratio = c.pick([c.uni(1.01, 3), c.logu(1.5, 100), c.uni(5, 10)])
    fov = bc * ratio
    n = c.rint(*rays)
    if c.index % 40 == 7:
        n = c.rint(300, 700)
    mu, fm = c.pick([(u.kg, 1), (u.kg, 1), (u.g, 1e-3), (u.tonne, 1e3)])
    fu, ff = c.pick([(u.km, 1), (u.km, 1), (u.m, 1e-3), (u.Mm, 1e3)])
    limit = c.pick([None, 0.001, c.uni(0.001, 0.5) * M])
    kw = {} if limit is None else dict(limit=limit)
    limit = 0.001 if limit is None else limit
    if limit > 0.9 * bc:
        kw, limit = dict(limit=0.1 * bc), 0.1 * bc
    c.note(M=M, ratio=ratio, n=n, limit=limit, units=f"{mu},{fu}")
    c.seen(int(np.floor(np.log10(M))), int(4 * np.log2(ratio)), mu, fu)
    return M, bc, fov, n, limit, dict(mass=M / fm * mu, n_rays=n, fov=fov / ff * fu, **kw)


@CHECK.clause(quick=1600, thorough=8000)
def rays(c):
    M, bc, fov, n, limit, kw = make(c)
    s = Shadow(**kw)
    c.close(s.b_crit.value if hasattr(s.b_crit, "value") else s.b_crit, bc, 1e-12, 0, "critical impact parameter")
    c.close(s.horizon, 2 * M, 1e-12, 0, "horizon")
    b = np.linspace(bc, fov, n)
    c.close(s.b, b, 1e-12, 0, "impact parameters sample the field of view evenly from the critical one")
    z = np.asarray(s.z, float)
    want = b[1:]  # the critical ray itself never returns
    if len(z) == n and abs(z[0, 0] - bc) < 1e-12 * bc:
        c.ok(True, "rounding put the critical ray outside")
        z = z[1:]
    if not c.ok(len(z) == n - 1, f"{len(z)} of {n - 1} rays beyond the critical impact parameter have a turning point"):
        return
    c.close(z[:, 0], want, 1e-12, 0, "turning points belong to the rays, in order")
    rt = turning(M, want)
    near = want / bc - 1  # the root is double at the critical parameter
    c.close(z[:, 1], rt, 0, 1e-7 * rt + 3e-8 * M + 1e-9 * M / np.sqrt(near), "turning radius solves r^3 = b^2 (r - 2M)")
    c.ok(np.all(z[:, 1] > 3 * M * (1 - 1e-6)) and np.all(z[:, 1] < want), "rays turn between the photon sphere and b")
    c.ok(np.all(np.diff(z[:, 1]) > 0), "larger impact parameters turn further out")
    c.close(np.asarray(s.bfin, float)[-(n - 1):], want, 1e-12, 0, "escaping rays")
    c.count("rays", len(z))


@CHECK.clause(quick=1200, thorough=6000)
def intensity(c):
    M, bc, fov, n, limit, kw = make(c, (2, 60))
    s = Shadow(**kw)
    z = np.asarray(s.z, float)
    b, I = np.asarray(s.fb1, float), np.asarray(s.intensity, float)
    m = len(z)
    c.ok(b.shape == I.shape == (2 * m,), f"one intensity per impact parameter ({b.shape}, {I.shape}, {m} rays)")
    if b.shape != I.shape or len(b) != 2 * m:
        return
    bi = np.linspace(limit, bc, m)
    c.close(b[:m], bi, 1e-12, 0, "captured rays sample the disk below the critical impact parameter")
    c.close(b[m:], z[:, 0], 1e-12, 0, "then the escaping rays")
    c.close(np.asarray(s.fb2, float), -b, 1e-15, 0, "the image is symmetric about the hole")
    inner = [gl(emission(M, x, +1), 2 * M, fov) for x in bi]
    c.close(I[:m], inner, 1e-8, 0, "intensity of captured rays")
    outer = []
    for x in z[:, 0]:
        rt = turning(M, x)
        outer.append(gl(emission(M, x, -1), rt, fov) + gl(emission(M, x, +1), rt, fov))
    near = np.abs(z[:, 0] / fov - 1)
    c.close(I[m:], outer, 0, np.abs(outer) * 1e-5 + 1e-8 * np.max(np.abs(outer)), "intensity of escaping rays")
    c.ok(np.all(I[:m] > 0) and np.all(I[m:-1] > 0), "intensities are positive")


@CHECK.clause(quick=600, thorough=3000)
def scaling(c):
    M, bc, fov, n, limit, kw = make(c, (3, 40))
    k = c.logu(1e-2, 1e3)
    s1 = Shadow(**dict(kw, limit=limit))
    s2 = Shadow(**dict(kw, limit=k * limit, mass=k * kw["mass"], fov=k * kw["fov"]))
    if len(s1.fb1) != len(s2.fb1):  # rounding of b_crit
        c.ok(abs(len(s1.fb1) - len(s2.fb1)) == 2, "same rays at any scale")
        return
    c.close(np.asarray(s2.fb1, float), k * np.asarray(s1.fb1, float), 1e-9, 0, "impact parameters scale with the mass")
    I1, I2 = np.asarray(s1.intensity, float), np.asarray(s2.intensity, float)
    c.close(I2 * k, I1, 1e-5, 1e-8 * I1.max() if len(I1) else 0, "intensities scale with 1/mass")
    # other units for the same thing
    s3 = Shadow(**dict(kw, limit=limit, mass=kw["mass"].to(u.g), fov=kw["fov"].to(u.m)))
    if len(s3.fb1) == len(s1.fb1):
        c.close(np.asarray(s3.intensity, float), I1, 1e-5, 1e-8 * I1.max() if len(I1) else 0, "intensities do not depend on the units")


@CHECK.clause(quick=600, thorough=3000)
def smoothing(c):
    M, bc, fov, n, limit, kw = make(c, (4, 60))
    s = Shadow(**kw)
    b, I = np.array(s.fb1, float), np.array(s.intensity, float)
    if len(b) < 4 or np.any(np.diff(b) <= 0):
        c.skip("repeated critical ray")
    p = c.pick([500, c.rint(2, 300), c.rint(501, 8000)])
    c.note(points=p)
    if p == 500 and c.coin():
        s.smoothen()
    else:
        s.smoothen(points=p)
    g = np.linspace(b.min(), b.max(), p)
    c.close(np.asarray(s.fb1, float), g, 1e-12, 0, "even grid over the same range")
    c.close(np.asarray(s.fb2, float), -g, 1e-12, 0, "still symmetric")
    want = make_interp_spline(b, I, k=3)(np.clip(g, b[0], b[-1]))
    c.close(np.asarray(s.intensity, float), want, 1e-6, 1e-7 * np.abs(want).max(), "cubic interpolation through the computed intensities")


@CHECK.clause(quick=400, thorough=1000)
def refusals(c):
    M, bc, fov, n, limit, kw = make(c, (2, 10))
    bad = c.pick([dict(mass=3 * u.m), dict(mass=2.0), dict(fov=3 * u.kg), dict(fov=10.0), dict(fov=5 * u.s)])
    c.seen("bad", *bad)
    c.raises((u.UnitsError, TypeError), lambda: Shadow(**dict(kw, **bad)), f"refuses {bad}")
    # nothing escapes if the field of view ends inside the critical impact parameter
    s = Shadow(**dict(kw, fov=kw["fov"] * (bc / fov) * c.uni(0.5, 0.99)))
    c.ok(len(s.z) == 0 and len(s.bfin) == 0, "no ray escapes inside the critical impact parameter")


if __name__ == "__main__":
    main(CHECK)
