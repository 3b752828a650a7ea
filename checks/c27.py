"""C27 results do not depend on how the numbers of the input are written."""
import math
import warnings
from fractions import Fraction

import numpy as np
import sympy as sp
from astropy import units as u

from vf.core import Check, main

from einsteinpy import coordinates as co
from einsteinpy.coordinates import utils as cu
from einsteinpy.geodesic import Nulllike, Timelike
from einsteinpy.geodesic import utils as gu
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.integrators import RK45, GeodesicIntegrator, RK4naive
from einsteinpy.metric import Kerr, KerrNewman, Schwarzschild
from einsteinpy.rays import Shadow
from einsteinpy.symbolic import (
    BaseRelativityTensor, ChristoffelSymbols, MetricTensor, RicciScalar, Tensor,
)
from einsteinpy.symbolic.vector import GenericVector
from einsteinpy.utils.dual import DualNumber
from einsteinpy.utils.scalar_factor import scalar_factor, scalar_factor_derivative

CHECK = Check(
    "C27",
    "one case = one public call on whole-number arguments, made once with floats in the documented containers and again with the same "
    "numbers as Python and numpy integers, numpy floats, and in lists, tuples and arrays; distinct = (call, number form, container form)",
    ["the call on Python floats is the reference; the other properties judge that one",
     "whole numbers are kept small enough for 64-bit arithmetic"],
)

NUM = {
    "int": int, "np.int64": np.int64, "np.float64": np.float64, "np.float32": np.float32, "np.int32": np.int32,
    "0-d array": lambda v: np.array(float(v)), "float": float, "bool or int": lambda v: bool(v) if v in (0, 1) else int(v),
}
SEQ = {
    "list": list, "tuple": tuple, "float array": lambda s: np.array(s, dtype=float),
    "array": np.array, "object array": lambda s: np.array(list(s), dtype=object),
}


def flat(o):
    """numbers of a result, in order"""
    if isinstance(o, u.Quantity):
        o = o.si.value
    if isinstance(o, DualNumber):
        return [o.val, o.deriv]
    if isinstance(o, (sp.Basic, sp.NDimArray, sp.MatrixBase)) and not isinstance(o, sp.Expr):
        if isinstance(o, sp.NDimArray) and o.rank() == 0:
            return flat(o[()])
        o = sp.flatten(o.tolist()) if hasattr(o, "tolist") else list(o)
    if isinstance(o, sp.Expr):
        return [complex(o).real]
    if isinstance(o, (list, tuple)):
        return [v for q in o for v in flat(q)]
    if isinstance(o, np.ndarray):
        return [v for q in o.ravel().tolist() for v in flat(q)]
    return [float(o)]


# ---- entries: (draw) -> (scalars, sequences, call(scalars, sequences), number forms or None, sequence forms or None)
def pos3(c):
    return [c.rint(4, 40), c.rint(1, 2), c.rint(-3, 3)]


def cart3(c):
    return [c.rint(1, 400) * c.pick([1, -1]) for _ in range(3)]


ENTRY = {}


def entry(f):
    ENTRY[f.__name__] = f
    return f


SCAL = [k for k in NUM if k not in ("0-d array",)]
FULL = [k for k in NUM if k not in ("bool or int", "np.float32", "np.int32")]
SAFE = ["int", "np.int64", "np.float64", "float"]


@entry
def conversion_classes(c):
    k = c.rint(0, 5)
    a, M = c.rint(0, 1), 1e28
    cls, m, kw = [(co.CartesianConversion, "convert_spherical", {}), (co.CartesianConversion, "convert_bl", dict(M=M)),
                  (co.SphericalConversion, "convert_cartesian", {}), (co.SphericalConversion, "convert_bl", dict(M=M)),
                  (co.BoyerLindquistConversion, "convert_cartesian", dict(M=M)), (co.BoyerLindquistConversion, "convert_spherical", dict(M=M))][k]
    s = [c.rint(-9, 9)] + (cart3(c) if k < 2 else pos3(c)) + ([c.rint(-9, 9) for _ in range(3)] if c.coin() else [])
    return s + [a], [], lambda s, q: getattr(cls(*s[:-1]), m)(**({**kw, "a": s[-1]} if kw else {})), SAFE, None, m


@entry
def fast_converters(c):
    f = c.pick(["cartesian_to_spherical_fast", "cartesian_to_bl_fast", "spherical_to_cartesian_fast", "bl_to_cartesian_fast"])
    s = [c.rint(-9, 9)] + (cart3(c) if f[0] == "c" else pos3(c)) + ([c.rint(1, 3)] if "bl" in f else [])
    v = [c.rint(-9, 9) for _ in range(3)] if c.coin() else []
    return s + v, [], lambda s, q: getattr(cu, f)(*s, *([True] if v else [])), SAFE, None, f


@entry
def four_velocity_helper(c):
    g = np.diag([9e16, -1.0, -1.0, -1.0])
    return [c.rint(-9, 9) for _ in range(3)], [], lambda s, q: cu.v0(g, *s), SAFE, None, "v0"


@entry
def quantities(c):
    """coordinates, metrics and 4-velocities built from quantities of whole numbers"""
    k = c.pick(["S", "K", "KN"])
    s = [c.rint(-5, 5), c.rint(20, 90) * 1000, c.rint(1, 2), c.rint(-3, 3), c.rint(-900, 900), c.rint(-1, 1), c.rint(-2, 2), c.rint(0, 1), c.rint(1, 3)]

    def call(s, q):
        cls = co.SphericalDifferential if k == "S" else co.BoyerLindquistDifferential
        d = cls(s[0] * u.s, s[1] * u.m, s[2] * u.rad, s[3] * u.rad, s[4] * u.m / u.s, s[5] * u.rad / u.s, s[6] * u.rad / u.s)
        M, a = s[8] * u.M_sun, s[7] * u.one
        m = Schwarzschild(coords=d, M=M) if k == "S" else Kerr(coords=d, M=M, a=a) if k == "K" else KerrNewman(coords=d, M=M, a=a, Q=s[8] * u.C, q=s[0] * u.C / u.kg)
        x = d.position()
        kw = {} if k == "S" else dict(M=M, a=a)
        e = d.cartesian_differential(**kw)
        return [d.velocity(m), x, m.metric_covariant(x), m.metric_contravariant(x), m.christoffels(x), m.sch_rad, m.M, m.a,
                [e.x, e.y, e.z, e.v_x, e.v_y, e.v_z]]
    return s, [], call, SAFE, None, k


@entry
def metric_events(c):
    """an event given as a sequence of whole numbers"""
    k = c.pick(["S", "K", "KN"])
    bl = (co.Spherical if k == "S" else co.BoyerLindquist)(0 * u.s, 1e4 * u.m, 1 * u.rad, 0 * u.rad)
    M, a = c.rint(1, 3) * u.M_sun, c.pick([0.0, 1.0, 0.5]) * u.one
    m = Schwarzschild(coords=bl, M=M) if k == "S" else Kerr(coords=bl, M=M, a=a) if k == "K" else KerrNewman(coords=bl, M=M, a=a, Q=1e15 * u.C, q=1 * u.C / u.kg)
    x = [c.rint(-5, 5), c.rint(20, 40) * 1000, c.rint(1, 2), c.rint(-3, 3)]
    names = ["metric_covariant", "metric_contravariant", "christoffels"] + (["em_potential_covariant", "em_potential_contravariant", "em_tensor_covariant", "em_tensor_contravariant"] if k == "KN" else [])
    n = c.pick(names)
    return [], [x], lambda s, q: getattr(m, n)(q[0]), None, SEQ, f"{k}.{n}"


@entry
def metric_rhs(c):
    k = c.pick(["S", "K", "KN"])
    bl = (co.Spherical if k == "S" else co.BoyerLindquist)(0 * u.s, 1e4 * u.m, 1 * u.rad, 0 * u.rad)
    M, a = c.rint(1, 3) * u.M_sun, c.pick([0.0, 1.0, 0.5]) * u.one
    m = Schwarzschild(coords=bl, M=M) if k == "S" else Kerr(coords=bl, M=M, a=a) if k == "K" else KerrNewman(coords=bl, M=M, a=a, Q=1e15 * u.C, q=1 * u.C / u.kg)
    y = [c.rint(-5, 5), c.rint(20, 40) * 1000, c.rint(1, 2), c.rint(-3, 3), c.rint(1, 3), c.rint(-900, 900), c.rint(-2, 2), c.rint(-2, 2)]
    return [c.rint(0, 5)], [y], lambda s, q: m.f_vec(s[0], q[0]), SAFE, {k: SEQ[k] for k in ("array", "float array")}, f"{k}.f_vec"


@entry
def helper_lengths(c):
    n = c.pick(["alpha", "sigma", "delta", "rho"])
    bl = co.BoyerLindquist(0 * u.s, 1e4 * u.m, 1 * u.rad, 0 * u.rad)
    m = KerrNewman(coords=bl, M=2e30 * u.kg, a=0.5 * u.one, Q=1e15 * u.C)
    r, th, a = c.rint(2, 9) * 1000, c.rint(0, 3), c.rint(0, 1)
    M = c.rint(1, 9) * 10 ** 17
    s = {"alpha": [M, a], "sigma": [r, th, M, a], "delta": [r, M, a], "rho": [r, th, M, a]}[n]
    if n == "rho" and not hasattr(m, "rho"):
        n, s = "sigma", [r, th, M, a]
    return s, [], lambda s, q: getattr(m, n)(*s), SAFE, None, n


@entry
def geodesic_metrics(c):
    n = c.pick(["_sch", "_kerr", "_kerrnewman"])
    x = [0] + pos3(c)
    p = {"_sch": [], "_kerr": [c.rint(0, 1)], "_kerrnewman": c.pick([[0, 0], [1, 0], [0, 1]])}[n]
    return p, [x], lambda s, q: getattr(gu, n)(q[0], *s), SAFE, SEQ, n


@entry
def initial_momentum(c):
    n = c.pick(["_sch", "_kerr", "_kerrnewman"])
    x = [0] + pos3(c)
    p = {"_sch": [], "_kerr": [c.rint(0, 1)], "_kerrnewman": c.pick([[0, 0], [1, 0], [0, 1]])}[n]
    P = [c.rint(-2, 2), c.rint(-5, 5), c.rint(-5, 5)]
    tl = c.coin()
    return p, [x, P], lambda s, q: gu._P(getattr(gu, n), tuple(s), q[0], q[1], tl), SAFE, SEQ, (n, tl)


@entry
def geodesics(c):
    n = c.pick(["Schwarzschild", "Kerr", "KerrNewman", "user"])
    x, P = [c.rint(20, 60), 1, c.rint(-3, 3)], [c.rint(-1, 1), c.rint(-1, 1), c.rint(3, 6)]
    p = {"Schwarzschild": [0], "Kerr": [c.rint(0, 1)], "KerrNewman": c.pick([[1, 0], [0, 1]]), "user": [c.rint(0, 1)]}[n]
    tl, cart, N, order = c.coin(), c.coin(), c.rint(2, 5), c.pick([int, np.int64, np.int32])(c.pick([2, 2, 4]))
    steps = c.pick([int, np.int64, np.int32])(N)
    user = lambda x, *a: gu._kerr(x, *a)  # noqa: E731
    conf = c.pick([list, tuple])

    def call(s, q):
        kw = dict(metric=user if n == "user" else n, metric_params=conf(s[:-2]), position=q[0], momentum=q[1], steps=steps, delta=s[-2],
                  order=order, omega=s[-1], return_cartesian=cart, suppress_warnings=True)
        return (Timelike if tl else Nulllike)(**kw).trajectory
    return p + [1, 1], [x, P], call, SAFE, SEQ, (n, tl, order)


@entry
def integrator(c):
    n = c.pick(["_sch", "_kerr"])
    x, P = [0, c.rint(20, 60), 1, c.rint(-3, 3)], [-1, c.rint(-1, 1), c.rint(-1, 1), c.rint(3, 6)]
    p = {"_sch": [], "_kerr": [c.rint(0, 1)]}[n]
    order = c.pick([int, np.int64, np.int16])(c.pick([2, 4, 6]))

    def call(s, q):
        g = GeodesicIntegrator(metric=getattr(gu, n), metric_params=tuple(s[2:]), q0=q[0], p0=q[1], time_like=True, steps=2, delta=s[0], order=order,
                               omega=s[1], rtol=1, atol=1, suppress_warnings=True)
        g.step()
        g.step()
        return [np.array(r, dtype=float) for r in g.results]
    return [1, 1] + p, [x, P], call, SAFE, SEQ, (n, order)


@entry
def rk4(c):
    y0 = [c.rint(-5, 5) for _ in range(c.rint(1, 3))]
    A = np.array([[0.0, 1.0, 0.3], [-1.0, 0.1, 0.0], [0.2, 0.0, -0.5]])[:len(y0), :len(y0)]
    b = c.pick([8, -8])

    def call(s, q):
        r = RK4naive(lambda t, y: A @ np.asarray(y, dtype=float) + t, s[0], q[0], s[1], s[2])
        out = []
        for _ in range(3):
            r.step()
            out += [r.t, r.y]
        return out
    return [0, b, 1], [y0], call, SAFE, {k: SEQ[k] for k in ("array", "float array")}, b > 0


@entry
def rk4_scalar(c):
    b = c.pick([8, -8])

    def call(s, q):
        r = RK4naive(lambda t, y: 0.3 * y + t, s[0], s[3], s[1], s[2])
        out = []
        for _ in range(3):
            r.step()
            out += [r.t, r.y]
        return out
    return [0, b, 1, c.rint(-5, 5)], [], call, SAFE, None, b > 0


@entry
def rk45(c):
    y0 = [c.rint(-5, 5) for _ in range(c.rint(1, 3))]
    A = np.array([[0.0, 1.0, 0.3], [-1.0, 0.1, 0.0], [0.2, 0.0, -0.5]])[:len(y0), :len(y0)]
    b = c.pick([4, -4])

    def call(s, q):
        r = RK45(lambda t, y: A @ np.asarray(y) + t, s[0], q[0], s[1], s[2], rtol=1e-6, atol=1e-6)
        out = []
        while r.status == "running" and len(out) < 200:
            r.step()
            out += [r.t, r.y]
        return out
    return [0, b, 1], [y0], call, SAFE, SEQ, b > 0


@entry
def cosmology(c):
    era = c.pick(["md", "rd", "ded"])
    f = c.pick([scalar_factor, scalar_factor_derivative])
    k = c.coin()

    def call(s, q):
        return f((q[0] if k else s[0]) * u.s, era=era, tuning_param=s[1])
    return [c.rint(1, 9), c.rint(1, 9)], [[c.rint(1, 9) for _ in range(3)]] if k else [], call, SAFE, {"list": list, "array": np.array, "float array": SEQ["float array"]}, (era, f.__name__)


@entry
def embedding(c):
    n = c.pick(["radial_coord", "gradient", "get_values", "get_values_surface"])
    Mk = c.rint(1, 9)
    e0 = SchwarzschildEmbedding(float(Mk) * u.M_sun)
    r = int(e0.M.value) * c.rint(4, 9) + 1

    def call(s, q):
        e = SchwarzschildEmbedding(s[0] * u.M_sun)
        return getattr(e, n)(s[1] if n in ("radial_coord", "gradient") else s[2])
    return [Mk, r, c.rint(2, 6)], [], call, SAFE, None, n


@entry
def shadow(c):
    fov = c.rint(8, 40)
    n = c.rint(2, 5)
    m = c.rint(1, 4)

    def call(s, q):
        sh = Shadow(mass=s[0] * u.kg, n_rays=int(n), fov=s[1] * u.km)
        return [sh.b_crit, sh.bfin, sh.z, sh.intensity, sh.fb1, sh.fb2]
    return [m, fov * m], [], call, SAFE, None, n


@entry
def duals(c):
    def call(s, q):
        x = DualNumber(s[0], s[1])
        return [x + s[2], s[2] + x, x - s[2], s[2] - x, x * s[2], s[2] * x, x / s[2], s[2] / x, x ** s[2], -x, np.sin(x), np.exp(x)]
    return [c.rint(1, 5), c.rint(-3, 3), c.rint(1, 4)], [], call, SAFE, None, ""


@entry
def substitution(c):
    x, y = sp.symbols("x y")
    g = MetricTensor([[x ** 2 + 3, x * y], [x * y, y ** 2 + 5]], (x, y))
    what = c.pick(["metric", "chris", "scalar", "vector"])
    t = {"metric": lambda: g, "chris": lambda: ChristoffelSymbols.from_metric(g), "scalar": lambda: RicciScalar.from_metric(g),
         "vector": lambda: GenericVector([x / y, x + y], (x, y), config="u")}[what]()

    def call(s, q):
        r = t.subs([(x, s[0]), (y, s[1])])
        return r.tensor()
    return [c.rint(1, 5), c.rint(1, 5)], [], call, SAFE + ["Fraction", "sympy"], None, what


@entry
def lambdified(c):
    x, y = sp.symbols("x y")
    g = MetricTensor([[x ** 2 + 3, x / y], [x / y, y ** 2 + 5]], (x, y))
    what = c.pick(["metric", "chris", "vector"])
    t = {"metric": lambda: g, "chris": lambda: ChristoffelSymbols.from_metric(g), "vector": lambda: GenericVector([x / y, x + y], (x, y), config="u")}[what]()
    args, f = t.tensor_lambdify()
    vals = {x: c.rint(1, 5), y: c.rint(1, 5)}
    return [vals[a] for a in args], [], lambda s, q: f(*s), SAFE, None, what


@entry
def tensor_of_numbers(c):
    n = c.rint(2, 3)
    rows = [[c.rint(-4, 4) for _ in range(n)] for _ in range(n)]
    mat = [[c.rint(-3, 3) + (7 if i == j else 0) for j in range(n)] for i in range(n)]
    syms = sp.symbols("x y z")[:n]

    def call(s, q):
        k = n * n
        R = [s[i * n:(i + 1) * n] for i in range(n)]
        L = [s[k + i * n:k + (i + 1) * n] for i in range(n)]
        b = BaseRelativityTensor(R, syms, config="ul")
        return [Tensor(R, config="ll").tensor(), b.tensor(), b.lorentz_transform(sp.Matrix(L)).tensor(),
                MetricTensor([[2, 0], [0, s[0]]] if n == 2 else [[1, 0, 0], [0, 2, 0], [0, 0, s[0]]], syms).inv().tensor() if s[0] else 0]
    return [v for r in rows for v in r] + [v for r in mat for v in r], [], call, SAFE + ["sympy"], None, n


@entry
def scalar_tensors(c):
    syms = sp.symbols("x y z")[:c.rint(2, 3)]
    return [c.rint(-9, 9)], [], lambda s, q: [Tensor(s[0], config="").tensor(), RicciScalar(s[0], syms).expr, BaseRelativityTensor(s[0], syms, config="").tensor()], SAFE, None, len(syms)


FORMS = dict(NUM, Fraction=Fraction, sympy=lambda v: sp.Integer(int(v)))
NAMES = sorted(ENTRY)


@CHECK.clause("forms", quick=1600, thorough=20000, timeout=60)
def forms(c):
    name = NAMES[c.index % len(NAMES)]
    s, q, call, nums, seqs, tag = ENTRY[name](c)
    fs = [float(v) for v in s]
    fq = [[float(v) for v in r] for r in q]
    c.note(entry=name, call=str(tag), numbers=s, sequences=q)
    ref_seq = "float array" if seqs and "float array" in seqs else "list"
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            want = flat(call(fs, [SEQ[ref_seq](r) if name not in ("geodesics",) else list(r) for r in fq]))
            if not all(math.isfinite(v) for v in want):
                c.skip("singular point")
            scale = max([abs(v) for v in want] or [0])
            todo = []
            for nf in (nums or ["float"]):
                k = list(seqs)[c.rint(0, len(seqs) - 1)] if seqs else None
                todo.append((nf, k))
            for k in seqs or []:
                todo.append((c.pick(nums or ["int"]), k))
            if nums and len(s) > 1:
                todo.append(("mixed", c.pick(list(seqs)) if seqs else None))
            for nf, k in todo:
                if nf == "mixed":
                    a = [FORMS[c.pick(nums)](v) for v in s]
                else:
                    a = [FORMS[nf](v) for v in s]
                cast = int if nf in ("int", "np.int64", "mixed") else float
                b = [SEQ[k]([cast(v) for v in r]) for r in q] if k else [[cast(v) for v in r] for r in q]
                how = f"{name} {tag}: numbers as {nf}, sequences as {k}"
                try:
                    got = flat(call(a, b))
                except Exception as e:  # noqa: BLE001
                    c.ok(False, f"{how}: {type(e).__name__}: {e}")
                    continue
                if c.ok(len(got) == len(want), f"{how}: {len(got)} numbers instead of {len(want)}"):
                    bad = [(g, w) for g, w in zip(got, want) if not abs(g - w) <= 1e-9 * abs(w) + 1e-13 * scale * (abs(w) > 0 or 1e-3)]
                    c.ok(not bad, f"{how}: result {bad[:1]} differs from the one for floats (got, expected)")
                c.seen(name, str(tag), nf, k)


if __name__ == "__main__":
    main(CHECK)
