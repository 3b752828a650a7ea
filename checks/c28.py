"""C28 objects report what they hold and copies behave like the original."""
import copy
import pickle
import re

import numpy as np
import sympy as sp
from astropy import units as u

from vf import gen
from vf.core import Check, main

from einsteinpy import coordinates as co
from einsteinpy.bodies import Body, Earth, Moon, Sun
from einsteinpy.geodesic import Geodesic, Nulllike, Timelike
from einsteinpy.geodesic import utils as gu
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.integrators import GeodesicIntegrator
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
from einsteinpy.rays import Shadow
from einsteinpy.symbolic import (
    ChristoffelSymbols, EinsteinTensor, MetricTensor, RicciScalar, RicciTensor, RiemannCurvatureTensor, Tensor, constants, predefined,
)
from einsteinpy.symbolic.vector import GenericVector
from einsteinpy.utils import CoordinateError
from einsteinpy.utils.dual import DualNumber

CHECK = Check(
    "C28",
    "one case = one object of a public class: its components by every way of asking for them, its text, or its copies (copy, deepcopy, "
    "pickle, pickle protocol) exercised like the original; distinct = (class, way of asking / option / copy form)",
    ["text is searched for the held data next to their labels; layout and punctuation are free"],
)
LEN = [u.m, u.km, u.AU, u.cm]
TIM = [u.s, u.yr, u.ms]
ANG = [u.rad, u.deg, u.arcmin]
VEL = [u.m / u.s, u.km / u.s, u.cm / u.s]
OMG = [u.rad / u.s, u.deg / u.s]


def q_(c, units, lo=1.0, hi=9.0):
    x = c.pick([1, 1, -1]) * c.uni(lo, hi)
    if c.coin(0.12):
        x = c.pick([0.0, 0.0, 1e-12 * x, 1e12 * x, 1.0])
    return x * c.pick(units)


def pos_q(c, k):
    if k == "Cartesian":
        return dict(t=q_(c, TIM), x=q_(c, LEN), y=q_(c, LEN), z=q_(c, LEN))
    return dict(t=q_(c, TIM), r=c.uni(1, 9) * c.pick(LEN), theta=c.uni(0.1, 3) * c.pick(ANG), phi=q_(c, ANG, 0.1, 3))


def vel_q(c, k):
    if k == "Cartesian":
        return dict(v_x=q_(c, VEL), v_y=q_(c, VEL), v_z=q_(c, VEL))
    return dict(v_r=q_(c, VEL), v_th=q_(c, OMG), v_p=q_(c, OMG))


SYS = {"Cartesian": "Cartesian", "Spherical": "Spherical", "BoyerLindquist": "Boyer"}


def labelled(c, text, parts, what):
    """every value occurs in the text, in order, with its label between the previous value and itself"""
    at = 0
    for label, value in parts:
        v = str(value)
        k = text.find(v, at)
        if not c.ok(k >= 0, f"{what}: {label} = {v} is not shown (in order)", text=text[:600]):
            return
        if label:
            c.ok(re.search(r"(?<![A-Za-z_])" + re.escape(label) + r"(?![a-z_])", text[at:k], re.I) is not None,
                 f"{what}: {v} is not labelled {label}", text=text[:600])
        at = k + len(v)


@CHECK.clause("components", quick=600, thorough=8000)
def components(c):
    """attributes, indexing by name and number, values(), position() agree"""
    k = c.pick(list(SYS))
    p = pos_q(c, k)
    names = list(p)
    o = getattr(co, k)(**p) if c.coin() else getattr(co, k)(*p.values())
    c.note(system=k, components={n: str(v) for n, v in p.items()})
    for i, (n, v) in enumerate(p.items()):
        c.ok(getattr(o, n) == v, f"{k}.{n}")
        for j in (i, np.int64(i), i - 4, n):
            w = o[j]
            c.ok(w == v and w.unit == v.unit, f"{k}[{j!r}] is not the {n} component", got=str(w), want=str(v))
    c.ok(o.system == k and o["system"] == k, "system")
    c.raises((KeyError, IndexError), lambda: o[c.pick(["w", "velocity", 4, -5])], "unknown component")
    si = [v.si.value for v in p.values()]
    c.close(o.values(), si, 1e-15, 0, "values()")
    c.close(o.position(), [299792458.0 * si[0]] + si[1:], 1e-15, 0, "position()")
    vq = vel_q(c, k)
    d = getattr(co, k + "Differential")(*p.values(), *vq.values())
    for n, v in {**p, **vq}.items():
        c.ok(getattr(d, n) == v and getattr(d, n).unit == v.unit, f"{k}Differential.{n}", got=str(getattr(d, n)))
    c.ok(d.system == k, "system")
    c.close(d.position(), o.position(), 1e-15, 0, "position() of the differential")
    c.close(d.values(), si + [v.si.value for v in vq.values()], 1e-15, 0, "values() of the differential")
    b = Body(name="b", mass=q_(c, [u.kg, u.g], 1, 5), coords=d)
    c.ok(all(x == y for x, y in zip(b.pos_vec, list(p.values())[1:])) and all(x == y for x, y in zip(b.vel_vec, vq.values()))
         and len(b.pos_vec) == len(b.vel_vec) == 3, "position and velocity of a body")
    c.seen(k)


@CHECK.clause("text", quick=900, thorough=9000)
def text(c):
    kind = c.pick(["core", "differential", "differential", "metric", "metric", "body", "body", "geodesic", "integrator", "tensor", "tensor", "dual", "error"])
    k = c.pick(list(SYS))
    p, vq = pos_q(c, k), vel_q(c, k)
    two = []
    if kind == "core":
        o = getattr(co, k)(*p.values())
        two = [str(o), repr(o)]
        for s in two:
            c.ok(SYS[k] in s, "system not named", text=s)
            labelled(c, s, list(p.items()), k)
    elif kind == "differential":
        o = getattr(co, k + "Differential")(*p.values(), *vq.values())
        vt = None
        if c.coin() and k != "Cartesian":
            p["r"] = c.uni(1e5, 1e6) * u.m
            o = getattr(co, k + "Differential")(*p.values(), *vq.values())
            M = c.uni(1, 3) * u.M_earth
            m = Schwarzschild(coords=o, M=M) if k == "Spherical" else Kerr(coords=o, M=M, a=0.5 * u.one)
            o.velocity(m)
            vt = o.v_t
        two = [str(o), repr(o)]
        for s in two:
            c.ok(SYS[k] in s, "system not named", text=s)
            labelled(c, s, list(p.items()) + [("v_t", vt)] + list(vq.items()), k + "Differential")
        k += " moving" if vt is not None else ""
    elif kind == "metric":
        M, a, Q = q_(c, [u.kg, u.M_earth], 1, 9), c.uni(0.1, 0.9) * u.one, q_(c, [u.C], 1, 9)
        M = abs(M)
        n = c.pick(["Schwarzschild", "Kerr", "KerrNewman", "Base"])
        x = getattr(co, "Spherical" if n == "Schwarzschild" else "BoyerLindquist")(*pos_q(c, "Spherical").values())
        o = {"Schwarzschild": lambda: Schwarzschild(coords=x, M=M), "Kerr": lambda: Kerr(coords=x, M=M, a=a),
             "KerrNewman": lambda: KerrNewman(coords=x, M=M, a=a, Q=Q, q=1 * u.C / u.kg),
             "Base": lambda: BaseMetric(coords=x, M=M, a=a, Q=Q, name="my metric")}[n]()
        k = n
        two = [str(o), repr(o)]
        for s in two:
            labelled(c, s, [("Name", o.name), ("Coordinates", x), ("Mass", o.M), ("Spin parameter", o.a), ("Charge", o.Q), ("Schwarzschild Radius", o.sch_rad)], n)
        c.ok(o.M == M and (n == "Schwarzschild" or o.a == a) and (n in ("Schwarzschild", "Kerr") or o.Q == Q), "metric does not hold its parameters")
        c.ok({"Base": "my metric", "KerrNewman": "Kerr-Newman"}.get(n, n).lower().replace("-", "")[:12] in str(o.name).lower().replace("-", "").replace("my metric", "my metric"), "name of the metric", name=o.name)
    elif kind == "body":
        d = c.pick([None, getattr(co, k + "Differential")(*p.values(), *vq.values())])
        par = c.pick([None, Sun, Earth, Moon])
        mass, q, R = c.uni(1, 9) * c.pick([u.kg, u.M_earth]), q_(c, [u.C]), c.uni(1, 9) * c.pick([u.km, u.R_sun])
        o = Body(name="rock 7", mass=mass, q=q, R=R, coords=d, parent=par)
        two = [str(o), repr(o)]
        for s in two:
            labelled(c, s, [("", "rock 7"), ("", par.name if par else None), ("", mass), ("", q), ("", R)], "Body")
            flat = re.sub(r"\s+", " ", s)
            c.ok(re.sub(r"\s+", " ", str(d)) in flat, "coordinates of the body are not shown", text=s)
        k = (par.name if par else "none", d is None)
    elif kind == "geodesic":
        n = c.pick(["Schwarzschild", "Kerr", "KerrNewman", "user"])
        prm = {"Schwarzschild": (0.0,), "Kerr": (c.uni(0, 0.9),), "KerrNewman": (c.uni(0, 0.5), c.uni(0, 0.5)), "user": (c.uni(0, 0.9),)}[n]

        def my_metric(x, *a):
            return gu._kerr(x, *a)
        cls, tl, cart = c.pick([Timelike, Nulllike, Geodesic, Geodesic]), c.coin(), c.coin()
        kw = dict(time_like=tl) if cls is Geodesic else {}
        tl = tl if cls is Geodesic else cls is Timelike
        o = cls(metric=my_metric if n == "user" else n, metric_params=prm, position=[c.uni(10, 40), c.uni(1, 2), c.uni(0, 3)], momentum=[c.uni(-1, 1), 0.0, c.uni(3, 6)],
                steps=c.rint(2, 4), delta=0.3, return_cartesian=cart, suppress_warnings=True, **kw)
        two = [str(o), repr(o)]
        for s in two:
            labelled(c, s, [("Type", "Time-like" if tl else "Null-like"), ("Metric", "my_metric" if n == "user" else n), ("Metric Parameters", prm),
                            ("Initial 4-Position", o.position), ("Initial 4-Momentum", o.momentum), ("Trajectory", o.trajectory),
                            ("Output Position Coordinate System", "Cartesian" if cart else "Spherical Polar")], "Geodesic")
        c.ok(o.time_like == tl and o.kind == ("Time-like" if tl else "Null-like") and o.coords == ("Cartesian" if cart else "Spherical Polar")
             and o.metric_name == ("my_metric" if n == "user" else n), "attributes of the geodesic", got=(o.time_like, o.kind, o.coords, o.metric_name))
        k = (n, cls.__name__, tl, cart)
    elif kind == "integrator":
        kw = dict(time_like=c.coin(), steps=c.rint(5, 99), delta=c.uni(0.1, 0.5), omega=c.uni(0.5, 0.99), order=c.pick([2, 4, 6, 8]), rtol=c.uni(1e-4, 1e-3),
                  atol=c.uni(1e-6, 1e-5), suppress_warnings=c.coin())
        o = GeodesicIntegrator(metric=gu._kerr, metric_params=(0.5,), q0=[0.0, c.uni(9, 30), 1.0, 0.0], p0=[-1.0, 0.0, 0.0, c.uni(3, 5)], **kw)
        two = [str(o), repr(o)]
        for s in two:
            labelled(c, s, [("metric", gu._kerr), ("metric_params", (0.5,)), ("q0", o.q0), ("p0", o.p0)] + [(n, kw[n]) for n in
                            ("time_like", "steps", "delta", "omega", "order", "rtol", "atol", "suppress_warnings")], "GeodesicIntegrator")
        k = (kw["order"], kw["time_like"], kw["suppress_warnings"])
    elif kind == "tensor":
        n, o = c.pick(TENSORS)()
        s, r = str(o), repr(o)
        two = [s, r]
        c.ok(str(o.tensor()) in s, "str shows the components", text=s[:300])
        c.ok(o.name is None or o.name in s, "str shows the name", name=o.name, text=s[:300])
        c.ok(r.startswith(type(o).__name__) and repr(o.tensor()) in r, "repr shows class and components", text=r[:300])
        k = n
    elif kind == "dual":
        a, b = c.uni(-9, 9), c.uni(-9, 9)
        o = DualNumber(a, b)
        two = [str(o), repr(o)]
        for s in two:
            labelled(c, s, [("DualNumber", a), ("", b)], "DualNumber")
        k = ""
    else:
        o = CoordinateError("wrong", k, 7)
        two = [str(o), repr(o)]
        c.ok(all("CoordinateError" in s and f"wrong {k} 7" in s for s in two) and isinstance(o, Exception), "error text", text=two[0])
    c.note(kind=kind, which=str(k), text=two[0][:300])
    c.seen(kind, k)


x_, y_ = sp.symbols("x y")


def _m2(name="two"):
    return MetricTensor([[x_ ** 2, x_ * y_ / 3], [x_ * y_ / 3, y_ + 2]], (x_, y_), name=name)


def c_scalar():
    return sp.Array(x_ ** 2 / (y_ + 1) + sp.Rational(7, 3))


TENSORS = [
    lambda: ("unsimplified", Tensor([[sp.sin(x_) ** 2 + sp.cos(x_) ** 2 + y_, x_ * (x_ + 1) - x_ ** 2], [0, (x_ ** 2 - y_ ** 2) / (x_ - y_)]], config="lu", name="raw")),
    lambda: ("unsimplified vector", GenericVector([sp.exp(sp.log(x_) * 2) - x_ ** 2, x_ / (x_ * y_ + x_)], (x_, y_), config="l", name=None)),
    lambda: ("scalar given", RicciScalar(c_scalar(), (x_, y_))),
    lambda: ("Tensor", Tensor([[x_, 1], [y_, 2]], config="ul", name="abc")), lambda: ("unnamed", Tensor([x_, y_], config="u", name=None)),
    lambda: ("metric", _m2()), lambda: ("unnamed metric", _m2(None)), lambda: ("chris", ChristoffelSymbols.from_metric(_m2())),
    lambda: ("riemann", RiemannCurvatureTensor.from_metric(_m2())), lambda: ("ricci", RicciTensor.from_metric(_m2())),
    lambda: ("scalar", RicciScalar.from_metric(_m2())), lambda: ("einstein", EinsteinTensor.from_metric(_m2())),
    lambda: ("vector", GenericVector([x_ + y_, x_ * y_], (x_, y_), config="u", parent_metric=_m2())),
    lambda: ("Schwarzschild", predefined.Schwarzschild()), lambda: ("Godel", predefined.Godel()),
]


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) and not isinstance(a, u.Quantity):
        return a.shape == np.shape(b) and np.array_equal(a, b)
    if isinstance(a, u.Quantity):
        return a.unit == b.unit and np.array_equal(a.value, b.value)
    return type(a) is type(b) and a == b


def _objects(c):
    d = co.BoyerLindquistDifferential(0 * u.s, c.uni(1e4, 1e5) * u.m, 1 * u.rad, 0 * u.rad, 1 * u.m / u.s, 0 * u.rad / u.s, 3 * u.rad / u.s)
    s = co.SphericalDifferential(0 * u.s, c.uni(1e4, 1e5) * u.m, 1 * u.rad, 0 * u.rad, 1 * u.m / u.s, 0 * u.rad / u.s, 3 * u.rad / u.s)
    k = co.CartesianDifferential(0 * u.s, *[c.uni(1e4, 1e5) * u.m for _ in range(3)], *[c.uni(-9, 9) * u.m / u.s for _ in range(3)])
    M, a = c.uni(0.5, 2) * u.M_sun, c.uni(0.1, 0.9) * u.one
    kw = dict(M=M, a=a)
    X = [0.0, c.uni(1e4, 1e5), 1.0, 0.3]
    field = lambda o: [o.metric_covariant(X), o.metric_contravariant(X), o.christoffels(X), o.M, o.a, o.Q, o.sch_rad, sing(o)]  # noqa: E731
    y = [0.0, c.uni(9, 30), 1.0, 0.0]

    def sing(o):
        return {n: v(0.7) if callable(v) else v for n, v in o.singularities().items()}
    return {
        "Cartesian": (lambda: co.Cartesian(k.t, k.x, k.y, k.z), lambda o: [o[0], o["x"], o.to_bl(**kw).values(), o.to_spherical().values()]),
        "Spherical": (lambda: co.Spherical(s.t, s.r, s.theta, s.phi), lambda o: [o[1], o["theta"], o.to_bl(**kw).values()]),
        "BoyerLindquist": (lambda: co.BoyerLindquist(d.t, d.r, d.theta, d.phi), lambda o: [o[1], o["theta"], o.to_cartesian(**kw).values()]),
        "CartesianDifferential": (lambda: k, lambda o: [o.position(), o.v_x, o.spherical_differential().values(), o.bl_differential(**kw).values()]),
        "SphericalDifferential": (lambda: s, lambda o: [o.velocity(Schwarzschild(coords=o, M=M)), o.v_t, o.cartesian_differential().values()]),
        "BoyerLindquistDifferential": (lambda: d, lambda o: [o.velocity(Kerr(coords=o, M=M, a=a)), o.v_t, o.cartesian_differential(**kw).values()]),
        "Schwarzschild": (lambda: Schwarzschild(coords=s, M=M), field),
        "Kerr": (lambda: Kerr(coords=d, M=M, a=a), field),
        "KerrNewman": (lambda: KerrNewman(coords=d, M=M, a=a, Q=1e18 * u.C, q=2 * u.C / u.kg),
                       lambda o: field(o) + [o.em_tensor_covariant(X), o.f_vec(0.0, np.array(X + [1.0, 2.0, 3.0, 4.0])), o.q]),
        "Body": (lambda: Body(name="b", mass=M, q=1 * u.C, R=2 * u.km, coords=d, parent=Earth), lambda o: [o.name, o.mass, o.q, o.R, o.pos_vec, o.vel_vec, o.parent.name, o.parent.parent.name]),
        "Geodesic": (lambda: Timelike("Kerr", (0.5,), y[1:], [0.1, 0.2, 4.0], steps=3, suppress_warnings=True),
                     lambda o: [o.trajectory, o.position, o.momentum, o.metric_params, o.kind, o.calculate_trajectory(steps=2, suppress_warnings=True)]),
        "GeodesicIntegrator": (lambda: GeodesicIntegrator(metric=gu._kerr, metric_params=(0.5,), q0=y, p0=[-1.0, 0.0, 0.1, 4.0], steps=5, suppress_warnings=True),
                               lambda o: [o.step(), o.step(), [np.array(r, dtype=float) for r in o.results]][2]),
        "Shadow": (lambda: Shadow(mass=1 * u.kg, n_rays=30, fov=12 * u.km), lambda o: [o.mass, np.asarray(o.intensity), np.asarray(o.b_crit), np.asarray(o.fb1), np.asarray(o.z)]),
        "SchwarzschildEmbedding": (lambda: SchwarzschildEmbedding(M), lambda o: [o.M, o.r_init, o.get_values(5)]),
        "DualNumber": (lambda: DualNumber(c.uni(-3, 3), 2.0), lambda o: [o.val, o.deriv, (o * o + 1).deriv]),
        "SymbolicConstant": (lambda: c.pick([constants.G, constants.c, constants.SymbolicConstant("k_q", "some constant")]),
                             lambda o: [o.name, o.descriptive_name, sp.diff(o ** 2, o)]),
    }


def _tensor_probe(o):
    out = [o.tensor(), o.config, o.name, str(o), o.order]
    if hasattr(o, "tensor_lambdify"):
        out += [o.tensor_lambdify()[0]]
    if hasattr(o, "symbols"):
        out += [o.symbols(), list(o.variables), sorted(map(str, o.functions))]
    if isinstance(o, MetricTensor):
        out += [o.inv().tensor(), o.dims]
    elif getattr(o, "parent_metric", None) is not None and o.order == 2:
        out += [o.change_config("ul").tensor(), o.parent_metric.tensor()]
    return out


COPIES = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o)),
          "pickle 2": lambda o: pickle.loads(pickle.dumps(o, 2)), "twice": lambda o: copy.deepcopy(pickle.loads(pickle.dumps(copy.copy(o))))}


@CHECK.clause("copies", quick=280, thorough=3000, timeout=120)
def copies(c):
    """a copy answers like an object built from scratch, and leaves the original alone"""
    st = c.rng.bit_generator.state
    O = _objects(c)
    n = len(O) + 2
    i = c.index % n
    how = list(COPIES)[(c.index // n) % len(COPIES)]
    if i < len(O):
        name = list(O)[i]
        c.rng.bit_generator.state = st
        O2 = _objects(c)
        mk, probe = O[name]
        s1 = c.rng.bit_generator.state
        o = mk()
        c.rng.bit_generator.state = s1
        fresh = O2[name][0]()
    else:
        t = TENSORS[(c.index // n) % len(TENSORS)]
        (name, o), (_, fresh), probe = t(), t(), _tensor_probe
    want = probe(fresh)
    used = c.coin() and name not in ("GeodesicIntegrator",)
    if used:
        probe(o)  # a used object is copied
    p = COPIES[how](o)
    c.note(cls=name, how=how, used=used)
    c.ok(type(p) is type(o), "a copy has another class", got=type(p).__name__)
    got = probe(p)
    c.ok(same(want, got), f"{how} of {name} answers differently", got=str(got)[:300], want=str(want)[:300])
    if how != "copy" or name not in ("GeodesicIntegrator",):
        c.ok(same(want, probe(o)), f"{name} answers differently after being copied ({how})")
    c.seen(name, how, used)


def _state(o):
    """what an object says it holds, text and raw attributes"""
    out = [re.sub(r" at 0x[0-9a-f]+", "", s) for s in (str(o), repr(o))]
    for n, v in sorted(vars(o).items()):
        if not n.startswith("_"):
            out.append((n, repr(v.tolist()) if type(v) is np.ndarray else str(v)))
    return out


@CHECK.clause("independent", quick=120, thorough=1500, timeout=120)
def independent(c):
    """using the documented mutators on a copy leaves the original alone, and the other way round"""
    O = _objects(c)
    kind = ["simplify", "velocity", "step", "smoothen", "inv"][c.index % 5]
    how = list(COPIES)[(c.index // 5) % len(COPIES)]
    if kind in ("step", "smoothen") and how == "copy":
        how = "deepcopy"  # a shallow copy shares the containers by definition
    if kind == "simplify":
        e = sp.sin(x_) ** 2 + sp.cos(x_) ** 2 + c.rint(1, 5) * y_
        mk = c.pick([lambda: Tensor([[e, 1], [x_ * (1 + y_) - x_, 2]], config="ll"), lambda: MetricTensor([[e, 0], [0, (x_ ** 2 - 1) / (x_ - 1)]], (x_, y_)),
                     lambda: GenericVector([e, x_ * y_ / x_], (x_, y_), config="u"),
                     lambda: EinsteinTensor([[e, 0], [0, e ** 2]], (x_, y_)) if c.coin() else RicciTensor([[e, 0], [0, e ** 2]], (x_, y_))])
        act = lambda o: o.simplify()  # noqa: E731
        look = lambda o: [str(o), repr(o), str(o.tensor())]  # noqa: E731
    elif kind == "velocity":
        n = c.pick(["SphericalDifferential", "BoyerLindquistDifferential"])
        mk = O[n][0]
        act = lambda o: o.velocity(Schwarzschild(coords=o, M=M1) if n[0] == "S" else Kerr(coords=o, M=M1, a=0.3 * u.one))  # noqa: E731
        M1 = c.uni(0.5, 2) * u.M_earth
        look = _state
    elif kind == "step":
        mk = O["GeodesicIntegrator"][0]
        act = lambda o: [o.step() for _ in range(3)]  # noqa: E731
        look = lambda o: [str(np.array(o.results, dtype=float)), o.step_num, str(o.res_list)]  # noqa: E731
    elif kind == "smoothen":
        mk = O["Shadow"][0]
        act = lambda o: o.smoothen()  # noqa: E731
        look = _state
    else:
        mk = c.pick([_m2, predefined.Schwarzschild, predefined.Godel])
        act = lambda o: [o.inv(), o.lower_config(), o.change_config("uu")]  # noqa: E731
        look = lambda o: [str(o), str(o.inv().tensor()), str(o.tensor_lambdify()[0])]  # noqa: E731
    o = mk()
    before = look(o)
    p = COPIES[how](o)
    first, second = (p, o) if c.coin() else (o, p)
    act(first)
    c.note(kind=kind, how=how, acted_on="copy" if first is p else "original", cls=type(o).__name__)
    now = look(second)
    c.ok(now == before, f"{kind} on the {'copy' if first is p else 'original'} ({how}) changed the other", got=str(now)[:300], want=str(before)[:300])
    act(second)
    a, b = look(first), look(second)
    c.ok(a == b, f"{kind} on original and copy ({how}) leave them different", got=str(a)[:300], want=str(b)[:300])
    c.seen(kind, how, first is p, type(o).__name__)


if __name__ == "__main__":
    main(CHECK)
