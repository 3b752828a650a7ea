"""Records one seeded workload of public calls in this process' JIT configuration.

python -m vf.jitlog CONFIG SEED N     CONFIG: on | off | absent   (off = NUMBA_DISABLE_JIT=1, set by the parent)
prints one JSON object: {"env": ..., "log": [[name, outcome], ...]}; an outcome is a nested list of numbers or ["raises", type].
"""
import contextlib
import io
import json
import math
import sys
import warnings

CONFIG, SEED, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
if CONFIG == "absent":
    sys.modules["numba"] = None

import numpy as np  # noqa

with warnings.catch_warnings(record=True) as WARN:
    warnings.simplefilter("always")
    import einsteinpy.ijit as ij
NWARN = sum("numba" in str(w.message) for w in WARN)
from astropy import units as u  # noqa
from einsteinpy.coordinates import (BoyerLindquist, BoyerLindquistConversion, BoyerLindquistDifferential, Cartesian,  # noqa
                                    CartesianConversion, CartesianDifferential, Spherical, SphericalConversion, SphericalDifferential)
from einsteinpy.coordinates import utils as cu  # noqa
from einsteinpy.geodesic import Nulllike, Timelike  # noqa
from einsteinpy.ijit import jit  # noqa
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild  # noqa
from einsteinpy.plotting import fractal as fr  # noqa
assert callable(fr)

rng = np.random.default_rng(SEED)
uni = lambda a, b: float(rng.uniform(a, b))
logu = lambda a, b: math.exp(uni(math.log(a), math.log(b)))
pick = lambda s: s[int(rng.integers(len(s)))]


def plain(x, d=0):
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, u.Quantity):
        return [plain(np.asarray(x.value)), str(x.unit)]
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, (int, float, np.floating, np.integer)):
        return float(x)
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()] if x.shape else plain(x.item())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "position") and d < 2:
        comp = ["t", "x", "y", "z"] if hasattr(x, "x") else ["t", "r", "theta", "phi"]
        comp += [n for n in ("v_x", "v_y", "v_z", "v_r", "v_th", "v_p") if hasattr(x, n)]
        return [type(x).__name__] + [plain(getattr(x, n), d + 1) for n in comp]
    return type(x).__name__


def conv(kind):
    """scalar type a caller may use"""
    return {"float": float, "np64": np.float64, "np32": lambda v: np.float32(v), "int": lambda v: int(round(v)), "npint": lambda v: np.int64(round(v)),
            "array": lambda v: np.array([v, v * 1.5, v * 0.75]), "array0": lambda v: np.array(v)}[kind]


def where(kind):
    k = pick(["octant"] * 5 + ["xplane", "yplane", "zplane", "axis", "negaxis", "origin"])
    s = logu(3, 50) if kind in ("np32", "int", "npint") else logu(1e-2, 1e12)
    v = rng.normal(size=3)
    v = v / np.linalg.norm(v) * s
    if kind in ("int", "npint"):
        v = np.sign(v) * (np.abs(v) + 1)
    if k == "xplane":
        v[0] = 0
    elif k == "yplane":
        v[1] = 0
    elif k == "zplane":
        v[2] = 0
    elif k in ("axis", "negaxis"):
        v = np.array([0.0, 0.0, s if k == "axis" else -s])
    elif k == "origin":
        v = np.zeros(3)
    if k in ('xplane', 'yplane', 'zplane'):
        v = v / np.linalg.norm(v) * s
    return k, [float(q) for q in v], s


LOG = []


def rec(name, f, *a, **kw):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            out = plain(f(*a, **kw))
        except Exception as e:
            out = ["raises", type(e).__name__]
    LOG.append([name, out])


def low():
    kind = pick(["float"] * 4 + ["np64", "np64", "np32", "int", "npint", "array", "array0"])
    w, (x, y, z), s = where(kind)
    if kind == "np32" and w == "origin":
        kind = "np64"
    T = conv(kind)
    t = T(logu(1, 100))
    v = [T(q) for q in rng.normal(size=3) * (100 if "int" in kind else s * 1e-3)]
    X = [T(q) for q in (x, y, z)]
    al = T(pick([0, uni(0.05, 0.9)]) * s) if "int" not in kind else pick([0, 1])
    r, th, ph = T(s + 2), T(pick([1, 2]) if "int" in kind else uni(0.1, 3.0)), T(uni(-3, 3))
    if w == "axis":
        th = T(0)
    if w == "negaxis":
        th = T(math.pi)
    tag = f"{kind}|{w}"
    for vel in (False, True):
        V = dict(v_x=v[0], v_y=v[1], v_z=v[2]) if vel else {}
        W = dict(v_r=v[0], v_th=v[1], v_p=v[2]) if vel else {}
        rec(f"cartesian_to_spherical_fast|{vel}|{tag}", cu.cartesian_to_spherical_fast, t, *X, velocities_provided=vel, **V)
        rec(f"cartesian_to_bl_fast|{vel}|{tag}", cu.cartesian_to_bl_fast, t, *X, al, velocities_provided=vel, **V)
        rec(f"spherical_to_cartesian_fast|{vel}|{tag}", cu.spherical_to_cartesian_fast, t, r, th, ph, velocities_provided=vel, **W)
        rec(f"bl_to_cartesian_fast|{vel}|{tag}", cu.bl_to_cartesian_fast, t, r, th, ph, al, velocities_provided=vel, **W)


def v0():
    A = rng.normal(size=(4, 4))
    g = np.diag([1.0, -1.0, -1.0, -1.0]) + 0.2 * (A + A.T)
    v = [uni(-1, 1) * 1e8 for _ in range(3)]
    k = pick(["plain", "plain", "fortran", "int", "zero", "view", "spacelike"])
    if k == "fortran":
        g = np.asfortranarray(g)
    elif k == "int":
        g, v = np.diag([1, -1, -1, -1]), [int(q) for q in rng.integers(-1000, 1000, size=3)]
    elif k == "zero":
        g[0, 0] = 0
    elif k == "view":
        b = np.zeros((8, 8))
        b[::2, ::2] = g
        g = b[::2, ::2]
    elif k == "spacelike":
        v = [1e9, 0.0, 0.0]
        g = np.diag([1.0, 1.0, 1.0, 1.0])
    rec(f"v0|{k}", cu.v0, g, *v)


def classes():
    kind = pick(["float", "float", "np64", "int"])
    w, (x, y, z), s = where(kind)
    T = conv(kind)
    M, a = logu(1e18, 1e24 if kind == "int" else 1e30), pick([0.0, uni(0.05, 1)])
    rs = 2 * 6.6743e-11 * M / 299792458.0 ** 2
    f = 1.0 if kind == "int" else rs * logu(2, 1e4) / s
    P = [T(q * f) for q in (x, y, z)]
    V = [T(q) for q in rng.normal(size=3) * 1e5]
    tag = f"{kind}|{w}"
    for vel in (False, True):
        cc = CartesianConversion(T(3), *P, *(V if vel else ()))
        rec(f"CartesianConversion.spherical|{vel}|{tag}", cc.convert_spherical)
        rec(f"CartesianConversion.bl|{vel}|{tag}", cc.convert_bl, M=M, a=a)
        R = (T(s * f + 2), pick([1, 2]) if kind == "int" else T(uni(0.1, 3)), T(uni(-3, 3)))
        sc = SphericalConversion(T(3), *R, *([q / 1e6 for q in V] if vel else ()))
        rec(f"SphericalConversion.cartesian|{vel}|{tag}", sc.convert_cartesian)
        rec(f"SphericalConversion.bl|{vel}|{tag}", sc.convert_bl, M=M, a=a)
        bc = BoyerLindquistConversion(T(3), *R, *([q / 1e6 for q in V] if vel else ()))
        rec(f"BoyerLindquistConversion.cartesian|{vel}|{tag}", bc.convert_cartesian, M=M, a=a)
        rec(f"BoyerLindquistConversion.spherical|{vel}|{tag}", bc.convert_spherical, M=M, a=a)
    m, s_ = u.m, u.s
    if w != "origin":
        q = [T(3) * s_] + [p * m for p in P]
        c = Cartesian(*q)
        rec(f"Cartesian.to_spherical|{tag}", c.to_spherical)
        rec(f"Cartesian.to_bl|{tag}", c.to_bl, M=M * u.kg, a=a * u.one)
        d = CartesianDifferential(*q, *[v * m / s_ for v in V])
        rec(f"CartesianDifferential.spherical|{tag}", d.spherical_differential)
        rec(f"CartesianDifferential.bl|{tag}", d.bl_differential, M=M * u.kg, a=a * u.one)
    R = [T(3) * s_, (rs * uni(3, 100)) * m, uni(0.1, 3) * u.rad, uni(-3, 3) * u.rad]
    W = [uni(-1e6, 1e6) * m / s_, uni(-1, 1) * 1e6 / R[1].value * u.rad / s_, uni(-1, 1) * 1e6 / R[1].value * u.rad / s_]
    rec(f"Spherical.to_cartesian|{tag}", Spherical(*R).to_cartesian)
    rec(f"BoyerLindquist.to_cartesian|{tag}", BoyerLindquist(*R).to_cartesian, M=M * u.kg, a=a * u.one)
    sd, bd = SphericalDifferential(*R, *W), BoyerLindquistDifferential(*R, *W)
    rec(f"SphericalDifferential.velocity|{tag}", lambda: sd.velocity(Schwarzschild(coords=sd, M=M * u.kg)))
    rec(f"BoyerLindquistDifferential.velocity|{tag}", lambda: bd.velocity(Kerr(coords=bd, M=M * u.kg, a=a * u.one)))
    rec(f"BoyerLindquistDifferential.velocity_kn|{tag}", lambda: bd.velocity(KerrNewman(coords=bd, M=M * u.kg, a=a * 0.5 * u.one, Q=M * 1e-11 * u.C)))
    rec(f"SphericalDifferential.velocity_user|{tag}", lambda: sd.velocity(BaseMetric(coords=sd, M=M * u.kg, metric_cov=lambda x: np.diag([2.0, -1.0, -x[1] ** 2, -(x[1] * math.sin(x[2])) ** 2]))))


def julia():
    a, n = uni(0, 3), pick([1, 2])
    rec("fractal", lambda: [np.array(t.z)[::7, ::7] for t in fr(start_angle=a, end_angle=a + uni(0.1, 3), divs=n, show=False).data])


def decorator():
    k = uni(0.5, 2)

    def f(x):
        return x * 2.5 + math.sin(x)
    form = pick(["bare", "call", "kw", "cache", "sig", "direct", "two", "direct options", "direct options"])

    def make():
        if form == "bare":
            @jit
            def g(x):
                return x * 2.5 + math.sin(x)
        elif form == "call":
            @jit()
            def g(x):
                return x * 2.5 + math.sin(x)
        elif form == "kw":
            @jit(fastmath=False)
            def g(x):
                return x * 2.5 + math.sin(x)
        elif form == "cache":
            @jit(nogil=True, inline="never")
            def g(x):
                return x * 2.5 + math.sin(x)
        elif form == "sig":
            @jit("float64(float64)")
            def g(x):
                return x * 2.5 + math.sin(x)
        elif form == "two":
            @jit(["float64(float64)"], nogil=True)
            def g(x):
                return x * 2.5 + math.sin(x)
        elif form == "direct options":
            g = jit(f, **pick([dict(nogil=True), dict(fastmath=False, inline="never")]))
        else:
            g = jit(f)
        return g(k)
    rec(f"decorator|{form}", make)


def geo():
    cls = pick([Timelike, Nulllike])
    n = pick(["Schwarzschild", "Kerr", "KerrNewman"])
    p = {"Schwarzschild": (0.0,), "Kerr": (uni(0, 0.9),), "KerrNewman": (uni(0, 0.6), uni(0, 0.6))}[n]
    rec(f"geodesic|{cls.__name__}|{n}", lambda: cls(n, p, [uni(8, 30), uni(0.4, 2.6), uni(0, 6)], [uni(-.1, .1), uni(-1, 1), uni(2, 4)],
                                                      steps=3, delta=0.3, return_cartesian=pick([True, False]), suppress_warnings=True).trajectory)


for k in range(N):
    low()
    v0()
    classes()
    if k % 4 == 0:
        decorator()
    if k == 0:
        julia()
    if k % 16 == 0:
        geo()
numba = sys.modules.get("numba")
print(json.dumps(dict(env=dict(numba=numba is not None, disabled=bool(getattr(getattr(numba, "config", None), "DISABLE_JIT", False)), warned=NWARN,
                               compiled=bool(getattr(cu.v0, "signatures", None))), log=LOG)))
