"""C02 velocities transform with the Jacobian of the position map."""
import math

import mpmath as mp
import numpy as np
from astropy import units as u

from checks.c01 import bh
from vf import gen, ref
from vf.core import Check, main

from einsteinpy.coordinates import (
    BoyerLindquistConversion, BoyerLindquistDifferential, CartesianConversion,
    CartesianDifferential, SphericalConversion, SphericalDifferential,
)
from einsteinpy.coordinates.utils import (
    bl_to_cartesian_fast, cartesian_to_bl_fast, cartesian_to_spherical_fast,
    spherical_to_cartesian_fast,
)

CHECK = Check(
    "C02",
    "one case = one position (octant, coordinate planes, near axis, r~alpha, far) and one velocity (generic, "
    "purely radial/polar/azimuthal, zero, fast) through one conversion path of one front end; distinct = "
    "(path, front end, position class, velocity class)",
    ["the reference is the exact Jacobian of the oblate-spheroidal map in 50-digit arithmetic",
     "points on the polar axis (where theta, phi velocities are singular) and within r<0.05 alpha are out of scope"],
    prewarm=12,
)
mp.mp.dps = 50

POS = ["octant", "yz", "xz", "xy", "negx", "nearaxis", "small", "far", "equator-", "branch"]
VEL = ["generic", "generic", "radial", "polar", "azimuth", "zero", "slow", "single"]


def point(c, al, lo=0.05):
    k = POS[c.index % len(POS)]
    base = al if al else c.logu(1e-2, 1e20)
    r = base * c.logu(0.3, 1e3)
    th, ph = math.acos(c.uni(-0.99, 0.99)), c.uni(-math.pi, math.pi)
    if k == "yz":
        ph = c.pick([math.pi / 2, -math.pi / 2])
    elif k == "xz":
        ph = c.pick([0.0, math.pi])
    elif k == "xy":
        th = math.pi / 2
    elif k == "negx":
        ph = c.pick([1, -1]) * c.uni(2, 3.14)
    elif k == "nearaxis":
        th = c.pick([0, math.pi]) + c.pick([1, -1]) * 0
        e = c.logu(1e-4, 1e-2)
        th = e if th == 0 else math.pi - e
    elif k == "small":
        r = base * c.uni(lo, 0.6)
    elif k == "far":
        r = base * c.logu(1e3, 1e7)
    elif k == "equator-":
        th = math.pi / 2 + c.uni(-1e-3, 1e-3)
    elif k == "branch":
        ph = math.pi - c.logu(1e-8, 1e-2)
    return k, r, th, ph


def ang_velocity(c, r, th, al):
    k = VEL[(c.index // len(POS)) % len(VEL)]
    S = math.hypot(r, al)
    V = c.logu(1e-3, 2e8)
    n = gen.unit_vec(c)
    v = [V * n[0], V * n[1] / S, V * n[2] / (S * math.sin(th))]
    if k == "radial":
        v = [V, 0.0, 0.0]
    elif k == "polar":
        v = [0.0, -V / S, 0.0]
    elif k == "azimuth":
        v = [0.0, 0.0, -V / (S * math.sin(th))]
    elif k == "zero":
        v = [0.0, 0.0, 0.0]
    elif k == "slow":
        v = [x * 1e-9 for x in v]
    return k, [float(x) for x in v]


def out(p, names):
    return [float(getattr(p, n).to(un).value) for n, un in names]


CARTN = [("t", u.s), ("x", u.m), ("y", u.m), ("z", u.m), ("v_x", u.m / u.s), ("v_y", u.m / u.s), ("v_z", u.m / u.s)]
ANGN = [("t", u.s), ("r", u.m), ("theta", u.rad), ("phi", u.rad), ("v_r", u.m / u.s), ("v_th", u.rad / u.s),
        ("v_p", u.rad / u.s)]
FRONT = ["diff", "conv", "fast"]


def mk_ang(bl, t, q, v):
    return (BoyerLindquistDifferential if bl else SphericalDifferential)(
        t * u.s, q[0] * u.m, q[1] * u.rad, q[2] * u.rad, v[0] * u.m / u.s, v[1] * u.rad / u.s, v[2] * u.rad / u.s)


def mk_cart(t, x, v):
    return CartesianDifferential(t * u.s, *[w * u.m for w in x], *[w * u.m / u.s for w in v])


@CHECK.clause("to_cartesian", quick=3000, thorough=40000)
def to_cartesian(c):
    M, a, al = bh(c)
    bl = c.coin(0.6)
    al = al if bl else 0.0
    pk, r, th, ph = point(c, al)
    vk, v = ang_velocity(c, r, th, al)
    t = gen.time(c)
    front = c.pick(FRONT)
    c.note(bl=bl, front=front, q=(r, th, ph), v=v, M=M, a=a)
    if front == "diff":
        o = mk_ang(bl, t, (r, th, ph), v)
        p = o.cartesian_differential(**(dict(M=M * u.kg, a=a * u.one) if bl else {}))
        c.ok(type(p) is CartesianDifferential and p.system == "Cartesian", "wrong class")
        got = out(p, CARTN)
    elif front == "conv":
        o = (BoyerLindquistConversion if bl else SphericalConversion)(t, r, th, ph, *v)
        got = o.convert_cartesian(**(dict(M=M, a=a) if bl else {}))
    else:
        got = (bl_to_cartesian_fast(t, r, th, ph, al, *v, True) if bl
               else spherical_to_cartesian_fast(t, r, th, ph, *v, True))
    c.ok(len(got) == 7 and got[0] == t, "7 components with unchanged time")
    J = ref.bl_jac(r, th, ph, al)
    V = [float(x) for x in J * mp.matrix(v)]
    parts = max(float(abs(J[i, j] * mp.mpf(v[j]))) for i in range(3) for j in range(3))
    X = [float(x) for x in ref.bl_pos(r, th, ph, al)]
    S = math.hypot(r, al)
    c.close(got[1:4], X, 1e-13, 1e-15 * S, "position part")
    c.close(got[4:7], V, 1e-13, 3e-15 * parts, "velocity is not J v", bl=bl, q=(r, th, ph), v=v)
    c.seen("bl" if bl else "sph", front, pk, vk)


@CHECK.clause("from_cartesian", quick=3000, thorough=40000)
def from_cartesian(c):
    M, a, al = bh(c)
    bl = c.coin(0.6)
    al = al if bl else 0.0
    pk, r, th, ph = point(c, al)
    x = [float(w) for w in ref.bl_pos(r, th, ph, al)]
    if pk == "yz":
        x[0] = 0.0
    elif pk == "xz":
        x[1] = 0.0
    elif pk == "xy":
        x[2] = 0.0
    V = c.logu(1e-3, 2e8)
    vk = VEL[(c.index // len(POS)) % len(VEL)]
    v = [float(w) for w in gen.unit_vec(c) * V]
    if vk == "radial":
        v = [w / math.hypot(*x) * V for w in x]
    elif vk == "zero":
        v = [0.0, 0.0, 0.0]
    elif vk == "single":
        k = c.rint(0, 2)
        v = [V if i == k else 0.0 for i in range(3)]
    elif vk == "azimuth":
        h = math.hypot(x[0], x[1])
        v = [-x[1] / h * V, x[0] / h * V, 0.0]
    t = gen.time(c)
    front = c.pick(FRONT)
    c.note(bl=bl, front=front, x=x, v=v, M=M, a=a)
    if front == "diff":
        o = mk_cart(t, x, v)
        p = o.bl_differential(M=M * u.kg, a=a * u.one) if bl else o.spherical_differential()
        c.ok(type(p) is (BoyerLindquistDifferential if bl else SphericalDifferential), "wrong class")
        got = out(p, ANGN)
    elif front == "conv":
        o = CartesianConversion(t, *x, *v)
        got = o.convert_bl(M=M, a=a) if bl else o.convert_spherical()
    else:
        got = (cartesian_to_bl_fast(t, *x, al, *v, True) if bl
               else cartesian_to_spherical_fast(t, *x, *v, True))
    R, T, P = ref.bl_inv(*x, al)
    J = ref.bl_jac(R, T, P, al)
    w = mp.lu_solve(J, mp.matrix(v))
    R2 = sum(k * k for k in x)
    K = (R2 + al * al) / float(R) ** 2
    speed = math.hypot(*v)
    S = math.hypot(float(R), al)
    h = math.hypot(x[0], x[1])
    sig = float(R * R + al * al * mp.cos(T) ** 2)
    c.ok(len(got) == 7 and got[0] == t, "7 components with unchanged time")
    c.close(got[1], float(R), 0, 1e-13 * K * float(R), "r")
    c.close(got[2], float(T), 1e-13, 1e-13 * K, "theta")
    c.close(ref.wrap(got[3] - float(P)), 0, 0, 1e-14, "phi")
    c.close(got[4], float(w[0]), 1e-13, 2e-13 * K * K * speed, "v_r is not J^-1 v", x=x, v=v, alpha=al)
    c.close(got[5], float(w[1]), 1e-13, 2e-13 * K * K * speed * S / sig, "v_th is not J^-1 v", x=x, v=v, alpha=al)
    c.close(got[6], float(w[2]), 1e-13, 2e-14 * speed / h, "v_p is not J^-1 v", x=x, v=v, alpha=al)
    c.seen("bl" if bl else "sph", front, pk, vk)


@CHECK.clause("round_trip", quick=1500, thorough=20000)
def round_trip(c):
    """random walks between the three systems preserve the Cartesian velocity"""
    M, a, al = bh(c)
    pk, r, th, ph = point(c, al, 0.3)
    if pk == "nearaxis":
        th = 0.3
    x = [float(w) for w in ref.bl_pos(r, th, ph, al)]
    V = c.logu(1e-3, 2e8)
    v = [float(w) for w in gen.unit_vec(c) * V]
    kw = dict(M=M * u.kg, a=a * u.one)
    cur = mk_cart(1.5, x, v)
    path = ["C"]
    for _ in range(c.rint(2, 6)):
        opts = {"Cartesian": ["spherical_differential", "bl_differential"],
                "Spherical": ["cartesian_differential", "bl_differential"],
                "BoyerLindquist": ["cartesian_differential", "spherical_differential"]}[cur.system]
        cur = getattr(cur, c.pick(opts))(**kw)
        path.append(cur.system[0])
    if cur.system != "Cartesian":
        cur = cur.cartesian_differential(**kw)
    K = (sum(w * w for w in x) + al * al) / r ** 2
    got = out(cur, CARTN)
    c.note(path=path, x=x, v=v, M=M, a=a)
    s = math.hypot(x[0], x[1]) / math.hypot(*x)
    c.close(got[4:], v, 0, len(path) * 1e-12 * K * K * V / s, "velocity not restored", path=path)
    c.close(got[1:4], x, 0, len(path) * 1e-12 * K * math.hypot(r, al), "position not restored", path=path)
    c.seen(pk, "".join(path))


@CHECK.clause("finite_difference", quick=600, thorough=6000)
def finite_difference(c):
    """the velocity of a converted state is the rate of change of the converted position: the
    library's own position conversion, evaluated a moment earlier and later, is the oracle"""
    M, a, al = bh(c)
    bl = c.coin()
    al = al if bl else 0.0
    pk, r, th, ph = point(c, al, 0.3)
    if pk in ("nearaxis", "branch"):
        th, ph = 0.8, 0.7
    V = 1.0
    S = math.hypot(r, al)
    n = gen.unit_vec(c)
    v = [V * n[0], V * n[1] / S, V * n[2] / S]
    h = 1e-5 * r
    kw = dict(M=M, a=a) if bl else {}
    cls = BoyerLindquistConversion if bl else SphericalConversion
    pos = [cls(0.0, r + s * h * v[0], th + s * h * v[1], ph + s * h * v[2]).convert_cartesian(**kw)[1:4]
           for s in (-1, 1)]
    full = cls(0.0, r, th, ph, *v).convert_cartesian(**kw)
    fd = (np.array(pos[1]) - np.array(pos[0])) / (2 * h)
    c.close(full[4:7], fd, 0, 3e-9 + 1e-15 * S / h, "velocity differs from d(position)/dt", bl=bl)
    x = np.array(full[1:4])
    vv = np.array(full[4:7])
    o = CartesianConversion
    m1, m2 = [(o(0.0, *(x + s * h * vv)).convert_bl(**kw) if bl else
               o(0.0, *(x + s * h * vv)).convert_spherical())[1:4] for s in (-1, 1)]
    w = (o(0.0, *x, *vv).convert_bl(**kw) if bl else o(0.0, *x, *vv).convert_spherical())[4:7]
    fd = (np.array(m2) - np.array(m1)) / (2 * h)
    fd[2] = ref.wrap(m2[2] - m1[2]) / (2 * h)
    K = (S / r) ** 4 / max(math.sin(th), 0.1) ** 3
    sc = np.array([1, 1 / r, 1 / r])
    c.close(w / sc, fd / sc, 0, 1e-7 * K, "velocity differs from d(position)/dt", bl=bl)
    c.note(bl=bl, q=(r, th, ph), a=a, M=M)
    c.seen(bl, pk)


if __name__ == "__main__":
    main(CHECK)
