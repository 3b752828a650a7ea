"""C25 calls have no side effects and repeat exactly."""
import copy
import io
import contextlib
import math
import os
import random
import sys
import threading
import warnings

import mpmath as mp
import numpy as np
import sympy as sp
from astropy import units as u

from vf import gen, sym
from vf.core import Check, main
from vf.pristine import Pristine

from einsteinpy import bodies, constant
from einsteinpy.bodies import Body
from einsteinpy.coordinates import (BoyerLindquist, BoyerLindquistDifferential, Cartesian, CartesianDifferential, Spherical,
                                    SphericalDifferential)
from einsteinpy.coordinates import utils as cu
from einsteinpy.coordinates.utils import lorentz_factor
from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.integrators import RK45, GeodesicIntegrator, RK4naive
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
from einsteinpy.rays import Shadow
from einsteinpy.symbolic import (ChristoffelSymbols, EinsteinTensor, GenericVector, MetricTensor, RicciScalar, RicciTensor,
                                 RiemannCurvatureTensor, SchoutenTensor, StressEnergyMomentumTensor, Tensor, WeylTensor)
from einsteinpy.symbolic import constants as sc, predefined
from einsteinpy.symbolic.tensor import BaseRelativityTensor, tensor_product
from einsteinpy.units import primitive
from einsteinpy.utils import scalar_factor, scalar_factor_derivative
from einsteinpy.utils.dual import DualNumber

CHECK = Check(
    "C25",
    "one case = one random history of public calls on a shared set of objects, mixed with calls on objects alike but for one value; every "
    "call is compared with the same call made by a process that has done nothing else, and every object is snapshotted around every call; distinct = ordered pairs of operations seen",
    ["v_t of a differential is documented state set by velocity(); integrators advance by design and are compared with solo runs",
     "symbolic results are compared by value at a random point"],
    prewarm=2,
)


# ---------------------------------------------------------------- digests
def digest(x, ev=None, depth=0):
    if depth > 8:
        return "deep"
    d = lambda v: digest(v, ev, depth + 1)
    if x is None or isinstance(x, (str, bool, bytes)):
        return x
    if isinstance(x, BaseException):
        return ("raises", type(x).__name__)
    if isinstance(x, u.Quantity):
        return ("Q", d(np.array(x.value)), str(x.unit))
    if isinstance(x, (int, float, complex, np.number)):
        return ("n", complex(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("o", x.shape, [d(v) for v in x.ravel()])
        return ("a", x.shape, x.dtype.kind, np.array(x, dtype=complex))
    if isinstance(x, dict):
        return ("d", [(str(k), d(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", [d(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("s", sorted(str(v) for v in x))
    if isinstance(x, Tensor):
        out = [type(x).__name__, x.config, x.name, d(x.tensor())]
        if isinstance(x, BaseRelativityTensor):
            out += [d([str(s) for s in x.syms]), d(sorted(map(str, x.variables))), d(sorted(map(str, x.functions))),
                    None if x.parent_metric is None else d(x.parent_metric.tensor())]
        return ("T", out)
    if isinstance(x, (sp.Basic, sp.NDimArray)) or hasattr(x, "tolist") and hasattr(x, "shape"):
        if ev is not None:
            try:
                return ("e", str(getattr(x, "shape", ())), [complex(v) for v in np.asarray(ev(x), dtype=object).ravel()])
            except Exception:
                pass
        return ("x", str(x))
    if isinstance(x, DualNumber):
        return ("D", d(x.val), d(x.deriv))
    if isinstance(x, (Cartesian, Spherical, BoyerLindquist)):
        return (type(x).__name__, d(list(x.position())), d([x[i] for i in range(4)]), d([getattr(x, n) for n in comp(x)]))
    if isinstance(x, (CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential)):
        return (type(x).__name__, d(list(x.position())), d([getattr(x, n) for n in comp(x)]))
    if isinstance(x, BaseMetric):
        return (type(x).__name__, x.name, d(x.M), d(x.a), d(x.Q), d(getattr(x, "q", None)), d(x.sch_rad), d(x.coords))
    if isinstance(x, Geodesic):
        t = x.trajectory
        return ("G", x.metric_name, d(list(x.metric_params)), d(x.position), d(x.momentum), x.kind, x.coords, x.time_like,
                d(np.asarray(t[0])), d(np.asarray(t[1])))
    if isinstance(x, Shadow):
        return ("Sh", d(list(x.fb1)), d(list(x.intensity)), d(x.mass), d(x.fov))
    if isinstance(x, SchwarzschildEmbedding):
        return ("Em", d(x.M), d(x.r_init))
    if isinstance(x, Body):
        return ("B", x.name, d(x.mass), d(x.q), d(x.R), d(x.coords), x.parent.name if x.parent else None)
    if callable(x):
        return "callable"
    return ("?", type(x).__name__)


def comp(x):
    n = ["t", "x", "y", "z"] if isinstance(x, (Cartesian, CartesianDifferential)) else ["t", "r", "theta", "phi"]
    if isinstance(x, CartesianDifferential):
        n += ["v_x", "v_y", "v_z"]
    elif isinstance(x, (SphericalDifferential, BoyerLindquistDifferential)):
        n += ["v_r", "v_th", "v_p"]
    return n


def same(a, b, tol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape:
            return False
        if tol == 0:
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, complex) and isinstance(b, complex):
        return a == b or abs(a - b) <= tol * (1 + abs(b)) or (a != a and b != b)
    return type(a) == type(b) and a == b


def shorten(d):
    return str(d)[:400]


# ---------------------------------------------------------------- global state
def globals_snapshot():
    st = np.random.get_state()
    return dict(np_random=(st[0], st[1].tobytes(), st[2], st[3], st[4]), random=hash(random.getstate()), geterr=dict(np.geterr()), cwd=os.getcwd(),
                dps=mp.mp.dps, filters=len(warnings.filters), printoptions=str(np.get_printoptions()),
                env=hash(tuple(sorted(os.environ.items()))), recursion=sys.getrecursionlimit(),
                c=float(constant.c.value), G=float(constant.G.value), lam=float(constant.Cosmo_Const.value),
                names=tuple(getattr(sc, k).descriptive_name for k in ("c", "G", "Cosmo_Const", "eps_0")),
                bodies=tuple((b.name, b.mass.value, b.R.value, b.q.value, b.parent.name if b.parent else None) for b in
                             (bodies.Sun, bodies.Earth, bodies.Moon, bodies.Jupiter)))


# ---------------------------------------------------------------- the numeric world
def dictseed(rng):
    return int(rng.integers(2 ** 31))


class C2:
    """the drawing helpers of a case on a private generator (so that a world can be rebuilt)"""

    def __init__(self, seed):
        self.rng = np.random.default_rng(seed)
        self.index = seed % 97
        self.tier = "quick"

    def pick(self, s):
        return s[int(self.rng.integers(len(s)))]

    def uni(self, a, b):
        return float(self.rng.uniform(a, b))

    def logu(self, a, b):
        return math.exp(self.rng.uniform(math.log(a), math.log(b)))

    def coin(self, p=0.5):
        return bool(self.rng.random() < p)

    def rint(self, a, b):
        return int(self.rng.integers(a, b + 1))


TWISTS = ["M", "a", "r", "th", "ph", "Q", "t", "v", "q", "pert", "gp", "pos", "mom", "field", "mass", "times", "duals"]


def numeric_world(seed, freeze, twist=None):
    """twist: the same world but for one value (names, and every other value, stay)"""
    c = C2(seed)
    W = {}
    M = c.logu(1e20, 1e31) * u.kg
    a = c.uni(0.05, 0.95) * u.one
    M0 = M
    if twist == "M":
        M = M * 1.25
    if twist == "a":
        a = a * 0.5
    rs = 2 * 6.6743e-11 * M0.value / 299792458.0 ** 2
    r = rs * c.uni(3, 50) * (1.5 if twist == "r" else 1)
    th, ph = c.uni(0.3, 2.8) - (0.2 if twist == "th" else 0), c.uni(-3, 3) + (0.5 if twist == "ph" else 0)
    Q = c.uni(-0.2, 0.2) * M0.value * 8.6e-11 * u.C * (0.3 if twist == "Q" else 1)
    t = c.uni(0, 10) * u.s + (1 * u.s if twist == "t" else 0 * u.s)
    W["car"] = Cartesian(t, r * c.uni(0.2, 1) * u.m, -r * c.uni(0.2, 1) / 1e3 * u.km, r * c.uni(-1, 1) * u.m)
    W["sph"] = Spherical(t, r * u.m, math.degrees(th) * u.deg, ph * u.rad)
    W["bl"] = BoyerLindquist(t, r * u.m, th * u.rad, ph * u.rad)
    v = [c.uni(-1e6, 1e6) * (0.5 if twist == "v" else 1) for _ in range(3)]
    W["dcar"] = CartesianDifferential(t, W["car"].x, W["car"].y, W["car"].z, v[0] * u.m / u.s, v[1] / 1e3 * u.km / u.s, v[2] * u.m / u.s)
    w = [v[0] * u.m / u.s, v[1] / r * u.rad / u.s, v[2] / r * u.rad / u.s]
    W["dsph"] = SphericalDifferential(t, r * u.m, th * u.rad, ph * u.rad, *w)
    W["dbl"] = BoyerLindquistDifferential(t, r * u.m, th * u.rad, ph * u.rad, *w)
    W["sch"] = Schwarzschild(coords=W["dsph"], M=M)
    W["kerr"] = Kerr(coords=W["dbl"], M=M, a=a)
    W["kn"] = KerrNewman(coords=W["dbl"], M=M, a=a, Q=Q, q=c.uni(-1, 1) * u.C / u.kg * (-2 if twist == "q" else 1))
    pert = np.diag([c.uni(-0.1, 0.1) for _ in range(4)]) * (0.5 if twist == "pert" else 1)
    g00 = 1.5 if twist == "field" else 1.0
    W["base"] = BaseMetric(coords=W["dsph"], M=M, metric_cov=lambda x: np.diag([g00, -1.0, -x[1] ** 2, -(x[1] * math.sin(x[2])) ** 2]),
                           perturbation=lambda x: pert)
    W["cbase"] = BaseMetric(coords=W["dcar"], M=M, metric_cov=lambda x: np.diag([g00 * 299792458.0 ** 2, -1.0, -1.0, -1.0]))
    W["cbase2"] = BaseMetric(coords=W["dcar"], M=M, metric_cov=lambda x: np.diag([3 * g00 * 299792458.0 ** 2, -1.0, -2.0, -1.0]))
    W["pert"] = pert
    W["M"], W["a"], W["Q"] = M, a, Q
    W["x"] = np.array([0.0, r, th, ph])
    W["xlist"] = [0.0, r, th, ph]
    W["vec"] = np.array([0.0, r, th, ph, 1.0, 1e-3, 1e-9, 1e-9])
    name = c.pick(["Schwarzschild", "Kerr", "KerrNewman"])
    W["gname"] = name
    W["gp"] = {"Schwarzschild": (), "Kerr": [0.7 if twist != "gp" else 0.2], "KerrNewman": (0.5, 0.3 if twist != "gp" else 0.1)}[name]
    W["pos"] = np.array([c.uni(8, 30), c.uni(0.5, 2.6), 0.1 if twist != "pos" else 0.3])
    W["mom"] = [c.uni(-0.1, 0.1), c.uni(-1, 1) * (0.5 if twist == "mom" else 1), c.uni(2, 4)]
    W["geo"] = Timelike(name, W["gp"], list(W["pos"]), list(W["mom"]), steps=4, delta=0.3, suppress_warnings=True)
    W["y0"] = np.array([1.0, c.uni(-1, 1)])
    W["dual"] = DualNumber(c.uni(0.2, 2), c.uni(-1, 1))
    W["dual2"] = DualNumber(c.uni(0.2, 2), c.uni(-1, 1))
    if twist == "duals":
        W["dual"], W["dual2"] = W["dual2"], W["dual"]
    W["duals"] = np.array([DualNumber(c.uni(0.2, 2), 0.0), DualNumber(c.uni(0.2, 2), 1.0)], dtype=object)
    W["body"] = Body(name="b", mass=M, R=r * u.m, coords=W["dcar"], parent=bodies.Sun)
    W["emb"] = SchwarzschildEmbedding(c.logu(1e23, 1e28) * u.kg)
    if twist == "mass":
        W["emb"] = SchwarzschildEmbedding(W["emb"].M.value * 2 * 299792458.0 ** 2 / 6.6743e-11 * u.kg)
    W["mass"] = c.uni(1, 10) * (0.8 if twist == "mass" else 1) * u.kg
    W["fov"] = c.uni(60, 100) * u.km
    W["shadow"] = Shadow(mass=W["mass"], n_rays=8, fov=W["fov"])
    W["times"] = np.array([c.uni(1, 100), c.uni(1, 100)]) * u.yr
    if twist == "times":
        W["times"] = W["times"] * 2
    W["qs"] = [3 * u.km, np.array([1.0, 2.0]) * u.hr, 5.0, None]
    if freeze:
        for k in ("x", "vec", "pos", "y0", "pert"):
            W[k].flags.writeable = False
        for k in ("times",):
            W[k].flags.writeable = False
    return W


def rk(cls, W):
    f = lambda t, y: np.array([y[1], -y[0]])
    o = cls(f, 0.0, W["y0"], 1.0, 0.1)
    out = []
    for _ in range(3):
        o.step()
        out.append((float(o.t), np.array(o.y)))
    return out


def integ(W, order):
    g = W["geo"]
    o = GeodesicIntegrator(metric=g.metric, metric_params=tuple(W["gp"]) or (0.0,), q0=np.array(g.position), p0=np.array(g.momentum), steps=2, delta=0.2,
                           order=order, suppress_warnings=True)
    o.step()
    o.step()
    return [np.array([np.array(v, float) for v in r]) for r in o.results]


def swallow(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


NUM = {
    "car.position": lambda W: W["car"].position(), "car.str": lambda W: str(W["car"]) + repr(W["car"]),
    "car.to_spherical": lambda W: W["car"].to_spherical(), "car.to_bl": lambda W: W["car"].to_bl(M=W["M"], a=W["a"]),
    "sph.to_cartesian": lambda W: W["sph"].to_cartesian(), "sph.to_bl": lambda W: W["sph"].to_bl(M=W["M"], a=W["a"]),
    "bl.to_cartesian": lambda W: W["bl"].to_cartesian(M=W["M"], a=W["a"]), "bl.to_spherical": lambda W: W["bl"].to_spherical(M=W["M"], a=W["a"]),
    "sph.str": lambda W: str(W["sph"]), "bl.str": lambda W: str(W["bl"]), "car.values": lambda W: W["car"].values(),
    "bl.bad": lambda W: W["bl"].to_cartesian(M=W["M"]), "bl.getitem": lambda W: [W["bl"][i] for i in range(4)],
    "dcar.sph": lambda W: W["dcar"].spherical_differential(), "dcar.bl": lambda W: W["dcar"].bl_differential(M=W["M"], a=W["a"]),
    "dsph.car": lambda W: W["dsph"].cartesian_differential(), "dsph.bl": lambda W: W["dsph"].bl_differential(M=W["M"], a=W["a"]),
    "dbl.car": lambda W: W["dbl"].cartesian_differential(M=W["M"], a=W["a"]), "dbl.sph": lambda W: W["dbl"].spherical_differential(M=W["M"], a=W["a"]),
    "dsph.velocity": lambda W: W["dsph"].velocity(W["sch"]), "dbl.velocity": lambda W: W["dbl"].velocity(W["kerr"]),
    "dbl.velocity_kn": lambda W: W["dbl"].velocity(W["kn"]), "dcar.velocity_bad": lambda W: W["dcar"].velocity(W["kerr"]),
    "dcar.velocity": lambda W: W["dcar"].velocity(W["cbase"]), "dcar.velocity2": lambda W: W["dcar"].velocity(W["cbase2"]),
    "dsph.velocity_base": lambda W: W["dsph"].velocity(W["base"]), "dcar.position": lambda W: W["dcar"].position(),
    "lorentz": lambda W: lorentz_factor(1e7, 2e7, -3e7),
    "sigma": lambda W: BaseMetric.sigma(5.0, 1.0, W["M"], W["a"]), "delta": lambda W: BaseMetric.delta(5.0, W["M"], W["a"], W["Q"]),
    "rho": lambda W: BaseMetric.rho(5.0, 1.0, W["M"], W["a"]), "alpha": lambda W: BaseMetric.alpha(W["M"], W["a"]),
    "rs": lambda W: BaseMetric.schwarzschild_radius(W["M"]),
    "primitive": lambda W: primitive(*W["qs"]),
    "geo.timelike": lambda W: Timelike(W["gname"], W["gp"], W["pos"], W["mom"], steps=3, delta=0.2, suppress_warnings=True),
    "geo.null": lambda W: Nulllike(W["gname"], W["gp"], W["pos"], W["mom"], steps=3, delta=0.2, order=4, return_cartesian=False, suppress_warnings=True),
    "geo.repr": lambda W: repr(W["geo"]), "geo.trajectory": lambda W: [np.array(v) for v in W["geo"].trajectory],
    "geo.again": lambda W: W["geo"].calculate_trajectory(steps=3, delta=0.1, suppress_warnings=True),
    "geo.bad": lambda W: Timelike("Nope", (), W["pos"], W["mom"]), "geo.order": lambda W: Timelike(W["gname"], W["gp"], W["pos"], W["mom"], steps=1, order=3),
    "integ2": lambda W: integ(W, 2), "integ4": lambda W: integ(W, 4), "integ6": lambda W: integ(W, 6),
    "rk4": lambda W: rk(RK4naive, W), "rk45": lambda W: rk(RK45, W),
    "dual.mul": lambda W: W["dual"] * W["dual2"] + 3 * W["dual"] - W["dual2"] / W["dual"], "dual.pow": lambda W: W["dual"] ** 3 + (2 - W["dual"]),
    "dual.fun": lambda W: np.sin(W["duals"]) * np.exp(W["duals"]) + np.cos(W["duals"]), "dual.str": lambda W: str(W["dual"]) + repr(W["dual2"]),
    "dual.neg": lambda W: (-W["dual"], W["dual"] == W["dual2"], W["dual"] != W["dual2"]),
    "body.str": lambda W: W["body"].name + str(W["body"].mass), "body.new": lambda W: Body(name="n", mass=W["M"], coords=W["dsph"], parent=W["body"]),
    "emb.values": lambda W: W["emb"].get_values(5), "emb.surface": lambda W: W["emb"].get_values_surface(3), "emb.grad": lambda W: W["emb"].gradient(W["emb"].M.value * 5),
    "shadow": lambda W: Shadow(mass=W["mass"], n_rays=6, fov=W["fov"]),
    "shadow.smooth": lambda W: (lambda s: (s.smoothen(20), s)[1])(Shadow(mass=W["mass"], n_rays=8, fov=W["fov"])),
    "scalar": lambda W: scalar_factor(W["times"], "rd", 2.0), "scalar_d": lambda W: scalar_factor_derivative(W["times"]),
    "scalar.bad": lambda W: scalar_factor(W["times"], "x"),
}
for _m in ("sch", "kerr", "kn", "base"):
    NUM[f"{_m}.cov"] = lambda W, m=_m: W[m].metric_covariant(W["x"])
    NUM[f"{_m}.covlist"] = lambda W, m=_m: W[m].metric_covariant(W["xlist"])
    NUM[f"{_m}.contra"] = lambda W, m=_m: W[m].metric_contravariant(W["x"])
    NUM[f"{_m}.str"] = lambda W, m=_m: W[m].name + str(W[m].M)
    if _m != "base":
        NUM[f"{_m}.chris"] = lambda W, m=_m: W[m].christoffels(W["x"])
        NUM[f"{_m}.f_vec"] = lambda W, m=_m: W[m].f_vec(0.0, W["vec"])
        NUM[f"{_m}.sing"] = lambda W, m=_m: {k: (v(0.7) if callable(v) else v) for k, v in W[m].singularities().items()}
for _k in ("em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant"):
    NUM[f"kn.{_k}"] = lambda W, k=_k: getattr(W["kn"], k)(W["x"])


# results of these are fresh arrays: writing into them must not reach anything else
def scramble(r, depth=0):
    if isinstance(r, u.Quantity):
        if r.shape and r.flags.writeable:
            r.view(np.ndarray).fill(-12345.678)
    elif isinstance(r, np.ndarray) and r.dtype != object and r.flags.writeable and r.size:
        r.fill(-12345.678 if r.dtype.kind in "fc" else 7)
    elif isinstance(r, (list, tuple)) and depth < 3:
        for v in r:
            scramble(v, depth + 1)
        if isinstance(r, list):
            r.clear()
    elif isinstance(r, dict):
        r.clear()


FRESH = {"primitive"}  # pass-through values belong to the caller


def call(f, W):
    try:
        return f(W)
    except Exception as e:
        return e


def _build(request):
    kind, seed, extra = request
    if kind == "numeric":
        return numeric_world(seed, False), lambda W, op: digest(call(NUM[op], W))
    W = sym_world(seed)
    ev = evaluator(W["m"], *extra)
    return W, lambda W, op: digest(call(SYM[op], W), ev)


def _warm():
    cu.cartesian_to_spherical_fast(0.0, 1.0, 2.0, 3.0, 0.1, 0.2, 0.3, velocities_provided=True)
    cu.cartesian_to_bl_fast(0.0, 1.0, 2.0, 3.0, 0.5, 0.1, 0.2, 0.3, velocities_provided=True)
    cu.spherical_to_cartesian_fast(0.0, 3.0, 1.0, 1.0, 0.1, 0.2, 0.3, velocities_provided=True)
    cu.bl_to_cartesian_fast(0.0, 3.0, 1.0, 1.0, 0.5, 0.1, 0.2, 0.3, velocities_provided=True)
    cu.v0(np.diag([1.0, -1.0, -1.0, -1.0]), 0.1, 0.2, 0.3)
    cu.lorentz_factor(1e7, 2e7, -3e7)


# forked before this process makes any other call (see the end of the file)
PRISTINE = None


@CHECK.clause(quick=160, thorough=4000, timeout=120)
def numeric_history(c):
    seed, freeze = dictseed(c.rng), c.coin()
    c.note(world=seed, read_only=freeze)
    ops = [c.pick(list(NUM)) for _ in range(c.rint(6, 14))]
    group = c.pick(list(NUM)).split(".")[0]
    if c.coin(0.6):  # one object again and again
        near = [n for n in NUM if n.split(".")[0] == group]
        ops = ops[:4] + [c.pick(near) for _ in range(6)]
    base = PRISTINE.ask(("numeric", seed, None), sorted(set(ops)))
    foils = []
    for tw in sorted({c.pick(TWISTS) for _ in range(c.rint(1, 3))}):
        foils.append((tw, numeric_world(seed, False, tw)))  # other objects, alike but for one value, used in between
    W = numeric_world(seed, freeze)
    snap = lambda: {k: digest(v) for k, v in W.items()}
    g0 = globals_snapshot()
    s0 = snap()
    prev = "start"
    history = [c.pick(ops) for _ in range(c.rint(8, 24))]
    for n in history:
        if c.coin(0.6):
            tw, F = c.pick(foils)
            call(NUM[n], F)
            prev = f"foil {tw}"
            c.count("foil calls")
        r = call(NUM[n], W)
        d = digest(r)
        c.ok(same(d, base[n]), f"{n} after {prev} differs from the same call on fresh objects", None, got=shorten(d), fresh=shorten(base[n]), history=history)
        s1 = snap()
        for k in W:
            if not same(s1[k], s0[k]):
                c.ok(False, f"{n} changed {k}", None, before=shorten(s0[k]), after=shorten(s1[k]))
                return
        c.obs += len(W)
        g1 = globals_snapshot()
        bad = [k for k in g0 if g0[k] != g1[k]]
        c.ok(not bad, f"{n} changed global state {bad}")
        if n not in FRESH:
            scramble(r)
            s2 = snap()
            bad = [k for k in W if not same(s2[k], s0[k])]
            c.ok(not bad, f"writing into the result of {n} reaches {bad}")
            if bad:
                return
        c.seen(prev, n)
        prev = n


@CHECK.clause(quick=60, thorough=1500, timeout=120)
def interleaved_integrators(c):
    """several stepwise computations advance together exactly as each does alone"""
    def make(seed):
        k = C2(seed)
        kind = k.pick(["fantasy", "fantasy", "rk4", "rk45"])
        if kind == "fantasy":
            name = k.pick(["Schwarzschild", "Kerr", "KerrNewman"])
            gp = {"Schwarzschild": (0.0,), "Kerr": (k.uni(0, 0.9),), "KerrNewman": (k.uni(0, 0.6), k.uni(0, 0.6))}[name]
            g = Timelike(name, gp, [k.uni(8, 30), k.uni(0.5, 2.5), 0.0], [k.uni(-.1, .1), k.uni(-1, 1), k.uni(2, 4)], steps=1, suppress_warnings=True)
            o = GeodesicIntegrator(metric=g.metric, metric_params=gp, q0=np.array(g.position), p0=np.array(g.momentum), delta=k.uni(0.05, 0.5),
                                   order=k.pick([2, 2, 4, 6]), omega=k.pick([1.0, 0.1]), suppress_warnings=k.coin())
            return kind, o, lambda: np.array([np.array(v, float) for v in o.res_list])
        w = k.uni(0.5, 3)
        cls = RK4naive if kind == "rk4" else RK45
        o = cls(lambda t, y: np.array([y[1], -w * y[0] + 0.1 * t]), 0.0, np.array([1.0, k.uni(-1, 1)]), k.pick([5.0, -5.0]), k.uni(0.02, 0.2))
        return kind, o, lambda: np.append(np.array(o.y, float), float(o.t))
    seeds = [dictseed(c.rng) for _ in range(c.rint(2, 4))]
    N = c.rint(2, 6)
    solo = []
    for s in seeds:
        kind, o, obs = make(s)
        tr = []
        for _ in range(N):
            o.step()
            tr.append(obs())
        solo.append(tr)
    objs = [make(s) for s in seeds]
    held = ("q0", "p0", "metric_params", "delta", "omega", "order", "time_like", "rtol", "atol", "suppress_warnings", "t0", "y0", "t_bound", "step_size")
    describe = lambda o: {k: digest(getattr(o, k)) for k in held if hasattr(o, k)} if isinstance(o, GeodesicIntegrator) else {}
    start = [describe(o[1]) for o in objs]
    left = [N] * len(seeds)
    trace = [[] for _ in seeds]
    order = []
    while any(left):
        i = c.pick([k for k, n in enumerate(left) if n])
        order.append(i)
        objs[i][1].step()
        trace[i].append(objs[i][2]())
        left[i] -= 1
    c.note(order=order, kinds=[o[0] for o in objs])
    c.seen(tuple(o[0] for o in objs), tuple(order[:4]))
    for i in range(len(seeds)):
        now = describe(objs[i][1])
        c.ok(all(same(now[k], v) for k, v in start[i].items()), "stepping an integrator changes the parameters it reports",
             changed=[k for k, v in start[i].items() if not same(now[k], v)])
        for k, (g, w) in enumerate(zip(trace[i], solo[i])):
            c.ok(np.array_equal(g, w, equal_nan=True), f"step {k} of a {objs[i][0]} integration depends on other integrations", None, got=g, alone=w)


@CHECK.clause(quick=24, thorough=400, timeout=150)
def threads(c):
    """the same calls from several threads at once, on shared objects, give what they give alone"""
    seed = dictseed(c.rng)
    c.note(world=seed)
    pool = [n for n in NUM if "velocity" not in n]
    plans = [[c.pick(pool) for _ in range(c.rint(8, 16))] for _ in range(4)]
    base = PRISTINE.ask(("numeric", seed, None), sorted({n for p in plans for n in p}))
    W = numeric_world(seed, False)
    others = [numeric_world(seed, False, c.pick(TWISTS)) for _ in plans]
    mixed = [[c.coin(0.5) for _ in p] for p in plans]
    s0 = {k: digest(v) for k, v in W.items()}
    out = [[] for _ in plans]
    bar = threading.Barrier(len(plans))

    def run(i):
        with np.errstate(all="ignore"):
            bar.wait()
            for n, also in zip(plans[i], mixed[i]):
                if also:
                    call(NUM[n], others[i])
                out[i].append((n, digest(call(NUM[n], W))))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=run, args=(i,)) for i in range(len(plans))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    for i, o in enumerate(out):
        c.ok(len(o) == len(plans[i]), "every thread finished")
        for n, d in o:
            c.ok(same(d, base[n]), f"{n} gives something else when called from several threads", None, got=shorten(d), alone=shorten(base[n]))
            c.count("concurrent_calls")
        c.seen(i, len(o), o[0][0])
    for k in W:
        c.ok(same(digest(W[k]), s0[k]), f"{k} changed")


# ---------------------------------------------------------------- the symbolic world
SYM_TWISTS = ["rows", "scale", "vec", "ten", "sub", "lt", "brt", "num"]


def sym_world(seed, twist=None):
    c = C2(seed)
    n = c.pick([2, 3, 3])
    m = sym.metric(c, n)
    W = {"m": m}
    W["rows"] = [list(r) for r in m.rows]
    if twist == "rows":
        W["rows"][0][0] = 2 * W["rows"][0][0]
    if twist == "scale":
        W["rows"] = [[3 * e for e in r] for r in W["rows"]]
    W["num"] = sp.Rational(c.rint(2, 9), 7) + (1 if twist == "num" else 0)
    W["name"] = c.pick(["GenericMetricTensor", "my metric", None])
    W["mvars"] = [sp.Symbol(s) for s in c.pick(["z9 a1", "q b k", "k"]).split()]
    W["syms"] = list(m.syms) if c.coin() else tuple(m.syms)
    W["met"] = MetricTensor(W["rows"], W["syms"], **({"name": W["name"]} if W["name"] != "GenericMetricTensor" else {}))
    W["chris"] = ChristoffelSymbols.from_metric(W["met"])
    W["riem"] = RiemannCurvatureTensor.from_metric(W["met"])
    W["ricci"] = RicciTensor.from_metric(W["met"])
    W["scalar"] = RicciScalar.from_metric(W["met"])
    W["vecl"] = [m.syms[0] ** (3 if twist == "vec" else 2)] + [sp.sin(s) for s in m.syms[1:]]
    W["vec"] = GenericVector(W["vecl"], W["syms"], config="u", parent_metric=W["met"])
    W["ten"] = Tensor([[m.syms[0] * (5 if twist == "ten" else 2), m.syms[-1] + 1], [sp.Integer(1), m.syms[0]]], config="ul")
    W["sub"] = {m.syms[0]: sp.Rational(1, 2) if twist != "sub" else sp.Rational(2, 3)}
    k = sp.Rational(c.rint(1, 5), 3) + (1 if twist == "lt" else 0)
    W["lt"] = [[sp.Integer(1) if i == j else (k if (i, j) == (0, 1) else sp.Integer(0)) for j in range(n)] for i in range(n)]
    W["brt"] = BaseRelativityTensor([[m.syms[0] if i == j else sp.Integer((i + j) * (2 if twist == "brt" else 1)) for j in range(n)] for i in range(n)], W["syms"], config="ul", parent_metric=W["met"])
    return W


def lam(T, W, args=False):
    m = W["m"]
    if m.funcs:
        return "functions"
    a, f = T.tensor_lambdify()
    vals = [0.7 + 0.05 * i for i in range(len(a))]
    return [str(x) for x in a], np.asarray(f(*vals), dtype=complex)


SYM = {
    "met.inv": lambda W: W["met"].inv(), "met.lower": lambda W: W["met"].lower_config(), "met.uu": lambda W: W["met"].change_config("uu"),
    "met.ul": lambda W: W["met"].inv().change_config("ll"), "met.tensor": lambda W: W["met"].tensor(), "met.symbols": lambda W: [str(s) for s in W["met"].symbols()],
    "met.str": lambda W: str(W["met"]) + repr(W["met"]), "met.lambdify": lambda W: lam(W["met"], W), "met.lt": lambda W: W["met"].lorentz_transform(W["lt"]),
    "met.subs": lambda W: W["met"].subs(W["sub"]), "met.getitem": lambda W: [W["met"][0, 0], W["met"][-1, -1]], "met.order": lambda W: (W["met"].order, W["met"].config),
    "met.simplify": lambda W: W["met"].simplify(set_self=False),
    "met.bad": lambda W: W["met"].change_config("u"),
    "chris.from_metric": lambda W: ChristoffelSymbols.from_metric(W["met"]), "chris.change": lambda W: W["chris"].change_config("lll"),
    "chris.lambdify": lambda W: lam(W["chris"], W), "chris.simplify": lambda W: W["chris"].simplify(set_self=False),
    "riem.from_chris": lambda W: RiemannCurvatureTensor.from_christoffels(W["chris"]), "riem.from_metric": lambda W: RiemannCurvatureTensor.from_metric(W["met"]),
    "riem.change": lambda W: W["riem"].change_config("llll"), "riem.subs": lambda W: W["riem"].subs(W["sub"]),
    "ricci.from_riem": lambda W: RicciTensor.from_riemann(W["riem"]), "ricci.from_chris": lambda W: RicciTensor.from_christoffels(W["chris"]),
    "ricci.change": lambda W: W["ricci"].change_config("ul"), "ricci.changem": lambda W: W["ricci"].change_config("uu", metric=W["met"]),
    "scalar.from_ricci": lambda W: RicciScalar.from_riccitensor(W["ricci"]), "scalar.from_metric": lambda W: RicciScalar.from_metric(W["met"]), "scalar.expr": lambda W: W["scalar"].expr,
    "ein": lambda W: EinsteinTensor.from_metric(W["met"]), "ein.change": lambda W: EinsteinTensor.from_metric(W["met"]).change_config("ul"),
    "stress": lambda W: StressEnergyMomentumTensor.from_metric(W["met"]),
    "schouten": lambda W: SchoutenTensor.from_metric(W["met"]), "weyl": lambda W: WeylTensor.from_metric(W["met"]),
    "vec.change": lambda W: W["vec"].change_config("l"), "vec.lt": lambda W: W["vec"].lorentz_transform(W["lt"]), "vec.str": lambda W: str(W["vec"]),
    "ten.subs": lambda W: W["ten"].subs(W["sub"]), "ten.str": lambda W: str(W["ten"]) + repr(W["ten"]), "ten.simplify": lambda W: W["ten"].simplify(set_self=False),
    "brt.lt": lambda W: W["brt"].lorentz_transform(W["lt"]), "product": lambda W: tensor_product(W["met"], W["vec"]),
    "contract": lambda W: tensor_product(W["met"], W["vec"], 1, 0), "contract.bad": lambda W: tensor_product(W["met"], W["brt"], 1, 1),
    "pre.list": lambda W: predefined.get_predefined_list() if hasattr(predefined, "get_predefined_list") else predefined.find.all,
    "pre.min": lambda W: predefined.MinkowskiCartesian(), "pre.sch": lambda W: predefined.Schwarzschild(), "pre.ads": lambda W: predefined.AntiDeSitter(),
    "pre.sch.args": lambda W: predefined.Schwarzschild(c=W["num"], sch=W["num"] + 1),
    "pre.sch.args.inv": lambda W: predefined.Schwarzschild(c=W["num"], sch=W["num"] + 1).inv(),
    "pre.sch.args.uu": lambda W: predefined.Schwarzschild(sch=W["num"]).change_config("uu"),
    "pre.sch.args.chris": lambda W: ChristoffelSymbols.from_metric(predefined.Schwarzschild(c=W["num"])),
    "pre.sch.subs": lambda W: predefined.Schwarzschild().subs([(sp.Symbol("r_s"), W["num"])]).inv(),
    "pre.bv.ricci": lambda W: RicciTensor.from_metric(predefined.BarriolaVilekin(k=W["num"])),
    "pre.bk.args": lambda W: predefined.BertottiKasner(c=W["num"], k=W["num"] + 2).inv(),
    "met.named": lambda W: MetricTensor(W["rows"], W["syms"], name="shared").inv(),
    "met.named.chris": lambda W: ChristoffelSymbols.from_metric(MetricTensor(W["rows"], W["syms"], name="shared")),
    "met.named.ricci": lambda W: RicciScalar.from_metric(MetricTensor(W["rows"], W["syms"], name="shared")),
    "brt.vars": lambda W: (lambda T: [[str(v) for v in T.variables], [str(a) for a in T.tensor_lambdify()[0]]])(
        BaseRelativityTensor([[0] * len(W["syms"]) for _ in W["syms"]], W["syms"], variables=W["mvars"])),
    "new.same": lambda W: MetricTensor(W["rows"], W["syms"]), "new.vec": lambda W: GenericVector(W["vecl"], W["syms"], config="l"),
}


def evaluator(m, x, p):
    syms = m.syms + m.params

    def ev(e):
        arr = sp.Array(e) if isinstance(e, list) else e
        free = set(getattr(arr, "free_symbols", set()))
        other = sorted(free - set(syms), key=str)
        return sym.ev(arr, syms + other, list(x) + list(p) + [mp.mpf("0.37") + i * mp.mpf("0.11") for i in range(len(other))], m.funcs)
    return ev


@CHECK.clause(quick=60, thorough=1200, timeout=150, chunk=1)
def symbolic_history(c):
    seed = dictseed(c.rng)
    W = sym_world(seed)
    m = W["m"]
    x, p = m.point(c)
    ev = evaluator(m, x, p)
    dg = lambda v: digest(v, ev)
    c.note(world=seed, metric=m.name, n=m.n)
    pool = list(SYM)
    if m.n == 2:
        pool.remove("schouten")
        pool.remove("weyl")
    ops = [c.pick(pool) for _ in range(c.rint(4, 8))]
    hist = [c.pick(ops) for _ in range(c.rint(6, 12))]
    base = PRISTINE.ask(("symbolic", seed, (list(x), list(p))), sorted(set(hist)))
    tw = c.pick(SYM_TWISTS)
    foil = sym_world(seed, tw) if c.coin(0.8) else None
    keys = [k for k in W if k not in ("m",)]
    snap = lambda: {k: ([str(v) for v in sp.flatten(W[k])] if k in ("rows", "vecl", "lt", "mvars") else str(W[k]) if k in ("sub", "syms", "num", "name") else full(W[k])) for k in keys}

    def full(T):
        out = [type(T).__name__, T.config, T.name, str(T.tensor()), str(T.order)]
        if isinstance(T, BaseRelativityTensor):
            out += [str(T.syms), str(sorted(map(str, T.variables))), str(sorted(map(str, T.functions))),
                    None if T.parent_metric is None else str(T.parent_metric.tensor())]
        return out
    s0, g0 = snap(), globals_snapshot()
    prev = "start"
    for n in hist:
        if foil is not None and c.coin(0.6):  # the same call on other objects, alike but for one thing
            call(SYM[n], foil)
            prev = f"foil {tw}"
            c.count("foil calls")
        r = call(SYM[n], W)
        d = dg(r)
        c.ok(same(d, base[n], 1e-12), f"{n} after {prev} differs from the same call on fresh objects", None, got=shorten(d), fresh=shorten(base[n]), history=hist)
        s1 = snap()
        for k in keys:
            if s1[k] != s0[k]:
                c.ok(False, f"{n} changed {k}", None, before=shorten(s0[k]), after=shorten(s1[k]))
                return
        c.obs += len(keys)
        g1 = globals_snapshot()
        bad = [k for k in g0 if g0[k] != g1[k]]
        c.ok(not bad, f"{n} changed global state {bad}")
        c.seen(prev, n)
        prev = n
    # simplify in place keeps the value and touches nothing else
    k = c.pick(["met", "ricci", "vec", "brt"])
    before = dg(W[k].tensor())
    W[k].simplify()
    c.ok(same(dg(W[k].tensor()), before, 1e-12), f"simplify() changed the value of {k}")
    s1 = snap()
    for q in keys:
        if q not in (k,) and not (k == "met"):
            c.ok(s1[q] == s0[q], f"simplify() of {k} changed {q}")


PRISTINE = Pristine(_build, [_warm])

if __name__ == "__main__":
    main(CHECK)
