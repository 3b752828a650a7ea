"""C01 position conversions are the geometric maps and invert each other."""
import math

import mpmath as mp
import numpy as np
from astropy import units as u

from vf import gen, ref
from vf.core import Check, main

from einsteinpy.coordinates import (
    BoyerLindquist, BoyerLindquistConversion, BoyerLindquistDifferential, Cartesian,
    CartesianConversion, CartesianDifferential, Spherical, SphericalConversion,
    SphericalDifferential,
)
from einsteinpy.coordinates.utils import (
    bl_to_cartesian_fast, cartesian_to_bl_fast, cartesian_to_spherical_fast,
    spherical_to_cartesian_fast,
)

CHECK = Check(
    "C01",
    "one case = one point (hostile class: octant, coordinate plane, axis, poles, equator, near-axis, "
    "r<<alpha, r>>alpha, 1e-6..1e26 m) pushed through one conversion path of one front end "
    "(core classes, conversion classes, low-level functions, differentials); distinct = "
    "(path, front end, point class, spin class)",
    ["mpmath 50-digit arithmetic and the textbook oblate-spheroidal map are the reference",
     "points on the disk r=0 of Boyer-Lindquist coordinates are out of scope (coordinate singularity)"],
    prewarm=12,
)
mp.mp.dps = 50

CLS = ["octant", "xzero", "yzero", "zzero", "xaxis", "yaxis", "zaxis+", "zaxis-", "nearaxis",
       "negx", "nearplane", "inner", "far", "negzero"]


def bh(c):
    M = gen.mass(c)
    a = c.pick([0.0, 1.0, 0.998, c.uni(0, 1), c.uni(0, 1), 1e-3])
    return M, a, ref.alpha_of(M, a)


def cart_point(c, al, scale):
    k = CLS[c.index % len(CLS)]
    R = scale * c.logu(0.3, 1e3)
    if k == "inner":
        R = scale * c.logu(0.05, 1.5)
    if k == "far":
        R = scale * c.logu(1e3, 1e8)
    v = gen.unit_vec(c) * R
    x, y, z = map(float, v)
    if k == "xzero":
        x = c.pick([0.0, -0.0])
    elif k == "yzero":
        y = c.pick([0.0, -0.0])
    elif k == "zzero":
        z = 0.0
        if math.hypot(x, y) <= 1.05 * al:
            s = 1.5 * al / math.hypot(x, y)
            x, y = x * s, y * s
    elif k == "xaxis":
        y = 0.0
        x = x or 1.0
    elif k == "yaxis":
        x = 0.0
    elif k.startswith("zaxis"):
        x = y = 0.0
        z = abs(R) * (1 if k[-1] == "+" else -1)
    elif k == "nearaxis":
        e = c.logu(1e-9, 1e-3)
        x, y = x * e, y * e
    elif k == "negx":
        x = -abs(x)
        y *= c.pick([1, -1, 1e-6])
    elif k == "nearplane":
        z *= c.logu(1e-6, 1e-2)
        if math.hypot(x, y) <= 1.2 * al:
            s = 2 * al / math.hypot(x, y)
            x, y = x * s, y * s
    elif k == "negzero":
        x, y = -0.0, -abs(y)
    if x == 0 and y == 0 and z == 0:
        z = R
    return k, x, y, z


def ang_point(c, scale):
    k = c.pick(["generic", "generic", "north", "south", "equator", "nearnorth", "nearsouth", "branch",
                "small", "far", "wild"])
    r = scale * c.logu(0.2, 1e3)
    th, ph = math.acos(c.uni(-1, 1)), c.uni(-math.pi, math.pi)
    if k == "north":
        th = 0.0
    elif k == "south":
        th = math.pi
    elif k == "equator":
        th = math.pi / 2
    elif k == "nearnorth":
        th = c.logu(1e-9, 1e-3)
    elif k == "nearsouth":
        th = math.pi - c.logu(1e-6, 1e-3)
    elif k == "branch":
        ph = c.pick([math.pi, -math.pi, math.pi / 2, -math.pi / 2, 0.0, 3.5, 6.0, -5.0])
    elif k == "small":
        r = scale * c.logu(0.02, 0.5)
    elif k == "far":
        r = scale * c.logu(1e3, 1e8)
    elif k == "wild":  # the same points under other names: angles beyond their canonical ranges
        th, ph = c.pick([th, -th, th + math.pi, 2 * math.pi - th]), c.uni(-12, 12)
    return k, r, th, ph


def scale_of(c, al):
    return al if al and c.coin(0.8) else c.logu(1e-3, 1e20)


FRONT = ["core", "conv", "fast", "diff"]


def cart_from(front, sysname, q, M, a, al, t):
    """Cartesian image of a spherical / BL point through one front end -> (t, x, y, z)"""
    bl = sysname == "bl"
    kw = dict(M=M * u.kg, a=a * u.one) if bl else {}
    if front == "core":
        o = (BoyerLindquist if bl else Spherical)(t * u.s, q[0] * u.m, q[1] * u.rad, q[2] * u.rad)
        p = o.to_cartesian(**kw)
        assert type(p) is Cartesian and p.system == "Cartesian"
        return tuple(float(v.si.value) for v in (p.t, p.x, p.y, p.z))
    if front == "conv":
        o = (BoyerLindquistConversion if bl else SphericalConversion)(t, *q)
        return o.convert_cartesian(**(dict(M=M, a=a) if bl else {}))
    if front == "fast":
        return bl_to_cartesian_fast(t, *q, al) if bl else spherical_to_cartesian_fast(t, *q)
    z = 0.0
    o = (BoyerLindquistDifferential if bl else SphericalDifferential)(
        t * u.s, q[0] * u.m, q[1] * u.rad, q[2] * u.rad, z * u.m / u.s, z * u.rad / u.s, z * u.rad / u.s)
    p = o.cartesian_differential(**kw)
    assert type(p) is CartesianDifferential and p.system == "Cartesian"
    return tuple(float(v.si.value) for v in (p.t, p.x, p.y, p.z))


def ang_from(front, sysname, x, M, a, al, t):
    """spherical / BL image of a Cartesian point -> (t, r, th, ph)"""
    bl = sysname == "bl"
    kw = dict(M=M * u.kg, a=a * u.one) if bl else {}
    if front == "core":
        o = Cartesian(t * u.s, *[v * u.m for v in x])
        p = o.to_bl(**kw) if bl else o.to_spherical()
        assert type(p) is (BoyerLindquist if bl else Spherical)
        return tuple(float(v.si.value) for v in (p.t, p.r, p.theta, p.phi))
    if front == "conv":
        o = CartesianConversion(t, *x)
        return o.convert_bl(M=M, a=a) if bl else o.convert_spherical()
    if front == "fast":
        return cartesian_to_bl_fast(t, *x, al) if bl else cartesian_to_spherical_fast(t, *x)
    o = CartesianDifferential(t * u.s, *[v * u.m for v in x], *[0.0 * u.m / u.s] * 3)
    p = o.bl_differential(**kw) if bl else o.spherical_differential()
    assert type(p) is (BoyerLindquistDifferential if bl else SphericalDifferential)
    return tuple(float(v.si.value) for v in (p.t, p.r, p.theta, p.phi))


def tols(R2, al, r):
    """absolute errors (r, theta) double arithmetic may leave in Cartesian -> BL"""
    k = (R2 + al * al) / (r * r)
    return 1e-14 * k * r + 4e-15 * r, 1e-14 * k + 2e-15


@CHECK.clause("to_cartesian", quick=4000, thorough=60000)
def to_cartesian(c):
    M, a, al = bh(c)
    t = gen.time(c)
    sysname = c.pick(["bl", "sph"])
    al = al if sysname == "bl" else 0.0
    cls, r, th, ph = ang_point(c, scale_of(c, al))
    front = FRONT[c.index % 4]
    got = cart_from(front, sysname, (r, th, ph), M, a, al, t)
    X = [float(v) for v in ref.bl_pos(r, th, ph, al)]
    S = math.hypot(r, al)
    c.note(front=front, system=sysname, point=(r, th, ph), a=a, M=M)
    c.ok(len(got) == 4 and got[0] == t, "coordinate time changed", got=got[0], t=t)
    # relative precision per component up to the conditioning of sin/cos at the float angles
    c.close(got[1:4], X, 1e-13, 1e-15 * S, f"{sysname}->cartesian position", point=(r, th, ph), alpha=al)
    # geometric invariants: confocal spheroid and azimuth
    x, y, z = got[1:4]
    c.close(math.hypot(x, y), S * abs(math.sin(th)), 1e-13, 1e-15 * S, "distance to the axis")
    c.seen(sysname, front, cls, "a0" if a == 0 else "a1" if a == 1 else "a")


@CHECK.clause("from_cartesian", quick=4000, thorough=60000)
def from_cartesian(c):
    M, a, al = bh(c)
    t = gen.time(c)
    sysname = c.pick(["bl", "sph"])
    al = al if sysname == "bl" else 0.0
    cls, x, y, z = cart_point(c, al, scale_of(c, al))
    front = FRONT[(c.index // len(CLS)) % 4]
    if front == "diff" and x == 0 and y == 0:
        front = "core"  # velocities are singular on the axis
    r, th, ph = ref.bl_inv(x, y, z, al)
    R2 = x * x + y * y + z * z
    if r < 1e-4 * al:
        c.skip("on the disk r=0")
    er, eth = tols(R2, al, float(r))
    got = ang_from(front, sysname, (x, y, z), M, a, al, t)
    c.note(front=front, system=sysname, point=(x, y, z), a=a, M=M)
    c.ok(len(got) == 4 and got[0] == t, "coordinate time changed", got=got[0], t=t)
    c.close(got[1], float(r), 0, er, f"cartesian->{sysname} r", point=(x, y, z), alpha=al)
    c.close(got[2], float(th), 1e-14, min(eth, 1.0), f"cartesian->{sysname} theta", point=(x, y, z), alpha=al)
    c.ok(-1e-15 <= got[2] <= math.pi + 1e-15, "theta outside [0, pi]", got=got[2])
    c.ok(-math.pi <= got[3] <= math.pi, "phi outside [-pi, pi]", got=got[3])
    if x != 0 or y != 0:
        c.close(ref.wrap(got[3] - float(ph)), 0.0, 0, 2e-15, f"cartesian->{sysname} phi", point=(x, y, z),
                phi=got[3])
    else:
        c.ok(math.isfinite(got[3]), "phi not finite on the axis", got=got[3])
    c.seen(sysname, front, cls, "a0" if a == 0 else "a1" if a == 1 else "a")


@CHECK.clause("round_trip", quick=3000, thorough=40000)
def round_trip(c):
    """chains of 2..6 conversions between the three systems end where they started"""
    M, a, al = bh(c)
    Mq, aq = M * u.kg, a * u.one
    t = gen.time(c)
    cls, x, y, z = cart_point(c, al, scale_of(c, al))
    r, th, ph = ref.bl_inv(x, y, z, al)
    if r < 1e-2 * al:
        c.skip("too close to the disk r=0 for a chain")
    cur = Cartesian(t * u.s, x * u.m, y * u.m, z * u.m)
    R2 = x * x + y * y + z * z
    path = ["Cartesian"]
    for _ in range(c.rint(2, 6)):
        opts = {"Cartesian": ["to_spherical", "to_bl"], "Spherical": ["to_cartesian", "to_bl"],
                "BoyerLindquist": ["to_cartesian", "to_spherical"]}[cur.system]
        m = c.pick(opts)
        kw = dict(M=Mq, a=aq) if "bl" in m or cur.system == "BoyerLindquist" else {}
        if not kw and c.coin(0.3):
            kw = dict(M=Mq, a=aq)  # ignored extras are allowed
        cur = getattr(cur, m)(**kw)
        path.append(cur.system)
        want = {"to_spherical": Spherical, "to_bl": BoyerLindquist, "to_cartesian": Cartesian}[m]
        c.ok(type(cur) is want and cur.system == want.__name__, "wrong class after conversion", path=path)
    end = cur if cur.system == "Cartesian" else (
        cur.to_cartesian(M=Mq, a=aq) if cur.system == "BoyerLindquist" else cur.to_cartesian())
    k = (R2 + al * al) / float(r) ** 2
    tol = len(path) * 3e-14 * k * (math.sqrt(R2) + al)
    c.note(path=path, point=(x, y, z), a=a, M=M)
    c.close([end.x.si.value, end.y.si.value, end.z.si.value], [x, y, z], 0, tol,
            "round trip does not return to the starting point", path=path)
    c.ok(end.t.si.value == t, "time changed", path=path)
    c.seen(cls, ">".join(p[0] for p in path))


@CHECK.clause("bl_sph", quick=2000, thorough=30000)
def bl_sph(c):
    """direct BL <-> spherical conversions agree with the composed map"""
    M, a, al = bh(c)
    t = gen.time(c)
    cls, r, th, ph = ang_point(c, al or c.logu(1e-3, 1e20))
    to_bl = c.coin()
    front = c.pick(["core", "conv", "diff"])
    c.note(front=front, to_bl=to_bl, point=(r, th, ph), a=a, M=M)
    src = (Spherical, SphericalConversion, SphericalDifferential) if to_bl else (
        BoyerLindquist, BoyerLindquistConversion, BoyerLindquistDifferential)
    if front == "diff" and (th in (0.0, math.pi)):
        front = "core"
    x, y, z = ref.bl_pos(r, th, ph, 0.0 if to_bl else al)
    R, T, P = ref.bl_inv(x, y, z, al if to_bl else 0.0)
    R2 = float(x * x + y * y + z * z)
    if R < 1e-3 * al:
        c.skip("on the disk r=0")
    er, eth = tols(R2, al, float(R))
    if front == "core":
        o = src[0](t * u.s, r * u.m, th * u.rad, ph * u.rad)
        p = (o.to_bl if to_bl else o.to_spherical)(M=M * u.kg, a=a * u.one)
        got = tuple(float(v.si.value) for v in (p.t, p.r, p.theta, p.phi))
    elif front == "conv":
        o = src[1](t, r, th, ph)
        got = (o.convert_bl if to_bl else o.convert_spherical)(M=M, a=a)
    else:
        o = src[2](t * u.s, r * u.m, th * u.rad, ph * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
        p = (o.bl_differential if to_bl else o.spherical_differential)(M=M * u.kg, a=a * u.one)
        got = tuple(float(v.si.value) for v in (p.t, p.r, p.theta, p.phi))
    c.ok(got[0] == t, "time changed")
    c.close(got[1], float(R), 0, 4 * er, "r")
    c.close(got[2], float(T), 1e-13, min(1.0, 4 * eth), "theta")
    c.ok(-1e-15 <= got[2] <= math.pi + 1e-15 and -math.pi <= got[3] <= math.pi,
         "angles outside their canonical ranges", theta=got[2], phi=got[3], point=(r, th, ph))
    if th not in (0.0, math.pi):
        c.close(ref.wrap(got[3] - float(P)), 0.0, 0, 2e-14, "azimuth not preserved", phi=ph, got=got[3])
    c.seen(front, to_bl, cls, a == 0)


@CHECK.clause("missing_parameters", quick=60, thorough=200)
def missing_parameters(c):
    """conversions that involve BL coordinates refuse to guess M and a; invalid spins are rejected"""
    M, a, al = bh(c)
    t, r, th, ph = 0 * u.s, 10.0 * u.m, 1.0 * u.rad, 1.0 * u.rad
    z3 = (0 * u.m / u.s, 0 * u.rad / u.s, 0 * u.rad / u.s)
    objs = [
        (Cartesian(t, r, r, r), "to_bl"), (Spherical(t, r, th, ph), "to_bl"),
        (BoyerLindquist(t, r, th, ph), "to_cartesian"), (BoyerLindquist(t, r, th, ph), "to_spherical"),
        (CartesianConversion(0., 1., 2., 3.), "convert_bl"), (SphericalConversion(0., 1., 2., 3.), "convert_bl"),
        (BoyerLindquistConversion(0., 1., 2., 3.), "convert_cartesian"),
        (BoyerLindquistConversion(0., 1., 2., 3.), "convert_spherical"),
        (SphericalDifferential(t, r, th, ph, *z3), "bl_differential"),
        (BoyerLindquistDifferential(t, r, th, ph, *z3), "cartesian_differential"),
        (BoyerLindquistDifferential(t, r, th, ph, *z3), "spherical_differential"),
    ]
    o, m = objs[c.index % len(objs)]
    for kw in ({}, {"M": M * u.kg}, {"a": a * u.one}):
        c.raises(KeyError, lambda: getattr(o, m)(**kw), f"{type(o).__name__}.{m} without {set('Ma') - set(kw)}")
    bad = c.pick([-1e-9, -0.5, 1.0000001, 2.0, 1e3])
    c.raises(ValueError, lambda: getattr(o, m)(M=M * u.kg, a=bad * u.one), f"{m} with a={bad}")
    c.note(method=m, bad_spin=bad)
    c.seen(type(o).__name__, m)


if __name__ == "__main__":
    main(CHECK)
