"""C24 constants, bodies and units carry the documented physical values."""
import copy
import math
import pickle

import numpy as np
import sympy
from astropy import units as u

from vf import gen
from vf.core import Check, main

from einsteinpy import bodies, constant
from einsteinpy.bodies import Body
from einsteinpy.coordinates import BoyerLindquistDifferential, CartesianDifferential, SphericalDifferential
from einsteinpy.symbolic import constants as sc, get_constant
from einsteinpy.symbolic.constants import SymbolicConstant
from einsteinpy.units import primitive
from einsteinpy.utils import CoordinateError
from einsteinpy.utils.exceptions import BaseError

CHECK = Check(
    "C24",
    "one case = one table entry, one constructed body, one list of quantities or one error; distinct = (table entry or constructor "
    "shape, units, coordinate system, refused argument)",
    ["reference values: CODATA 2018, IAU 2015, NASA planetary fact sheets; bodies must be within 0.6 % of them"],
)
# mass kg, volumetric mean radius km
BODIES = {
    "Sun": (1.98841e30, 695700.0, None), "Mercury": (3.3010e23, 2439.7, "Sun"), "Venus": (4.8673e24, 6051.8, "Sun"),
    "Earth": (5.9722e24, 6371.0, "Sun"), "Moon": (7.346e22, 1737.4, "Earth"), "Mars": (6.4169e23, 3389.5, "Sun"),
    "Jupiter": (1.89813e27, 69911.0, "Sun"), "Saturn": (5.6832e26, 58232.0, "Sun"), "Uranus": (8.6811e25, 25362.0, "Sun"),
    "Neptune": (1.02409e26, 24622.0, "Sun"), "Pluto": (1.303e22, 1188.0, "Sun"),
}
CONST = {
    "c": (299792458.0, u.m / u.s, 0), "G": (6.6743e-11, u.m ** 3 / u.kg / u.s ** 2, 1e-4),
    "eps0": (8.8541878128e-12, u.F / u.m, 1e-8), "coulombs_const": (8.9875517923e9, u.N * u.m ** 2 / u.C ** 2, 1e-8),
    "Solar_Mass": (1.98841e30, u.kg, 1e-3), "R_sun": (6.957e8, u.m, 1e-3),
    "Cosmo_Const": (9.94e-36, u.s ** -2, 0.1),
}


@CHECK.clause(quick=len(BODIES) + len(CONST), thorough=len(BODIES) + len(CONST))
def tables(c):
    k = c.index
    if k < len(BODIES):
        name = list(BODIES)[k]
        m, R, parent = BODIES[name]
        b = getattr(bodies, name)
        c.note(body=name)
        c.seen(name)
        c.ok(isinstance(b, Body) and b.name == name, "name")
        c.ok(abs(b.mass.to(u.kg).value / m - 1) < 6e-3, f"mass of {name}: {b.mass}")
        got = b.R.to(u.km).value
        c.ok(abs(got / R - 1) < 6e-3, f"radius of {name}: {b.R}, should be {R} km",
             "earth-radius" if name == "Earth" and got == 6731 else None)
        c.ok(b.q.to(u.C).value == 0, "bodies are neutral")
        c.ok((b.parent is None) if parent is None else (b.parent is getattr(bodies, parent)), f"{name} moves about {parent}")
        # no loop among parents
        n, p = 0, b
        while p is not None and n < 20:
            n, p = n + 1, p.parent
        c.ok(n < 5, "parents end at the Sun")
        return
    name = list(CONST)[k - len(BODIES)]
    want, unit, tol = CONST[name]
    q = getattr(constant, name)
    c.note(constant=name)
    c.seen(name)
    got = (1 * q).to(unit).value
    c.ok(abs(got - want) <= tol * abs(want), f"{name} = {got}, should be {want}",
         "cosmological-constant" if name == "Cosmo_Const" and got == 2.036e-35 else None)
    if name == "c":
        e0 = (1 * constant.eps0).to(u.F / u.m).value
        mu0 = 1.25663706212e-6
        c.ok(abs(e0 * mu0 * got ** 2 - 1) < 1e-8, "eps0 mu0 c^2 = 1")
        ke = (1 * constant.coulombs_const).to(u.N * u.m ** 2 / u.C ** 2).value
        c.ok(abs(ke * 4 * math.pi * e0 - 1) < 1e-12, "4 pi eps0 k_e = 1")
        GM = (constant.G * constant.Solar_Mass).to(u.m ** 3 / u.s ** 2).value
        c.ok(abs(GM / 1.32712440018e20 - 1) < 1e-3, "GM of the Sun (known to ten digits from orbits)")
        c.ok(abs((constant.Cosmo_Const_base.value) - (1 * constant.Cosmo_Const).to(u.s ** -2).value) < 1e-45, "both cosmological constants")


def coords(c, kind):
    t = c.uni(-10, 10) * c.pick([u.s, u.min])
    v = lambda s: c.uni(-s, s)
    if kind == "cartesian":
        return CartesianDifferential(t, v(1e6) * u.km, v(1e6) * u.m, v(1e6) * u.m, v(1e3) * u.km / u.s, v(1e6) * u.m / u.s, v(1e6) * u.m / u.s)
    cls = SphericalDifferential if kind == "spherical" else BoyerLindquistDifferential
    return cls(t, c.logu(1e3, 1e9) * u.m, c.uni(0.1, 3) * u.rad, v(180) * u.deg, v(1e6) * u.m / u.s, v(1e-3) * u.rad / u.s, v(1e-3) * u.rad / u.s)


@CHECK.clause(quick=2500, thorough=12000)
def construction(c):
    kind = c.pick(["cartesian", "spherical", "bl", None])
    d = coords(c, kind) if kind else None
    kw = {}
    if c.coin(0.8):
        kw["name"] = c.pick(["A", "Black hole", "", "Ünïc"])
    if c.coin(0.8):
        kw["mass"] = c.logu(1e-30, 1e36) * c.pick([u.kg, u.g, u.M_sun, u.t])
    if c.coin(0.7):
        kw["q"] = c.uni(-5, 5) * c.pick([u.C, u.mC, u.A * u.s])
    if c.coin(0.7):
        kw["R"] = c.logu(1e-6, 1e12) * c.pick([u.km, u.m, u.au, u.lyr])
    if d is not None:
        kw["coords"] = d
    if c.coin(0.5):
        kw["parent"] = c.pick([bodies.Sun, bodies.Earth, Body(name="P")])
    c.note(kind=kind, given=sorted(kw))
    c.seen(kind, sorted(kw))
    b = Body(**kw)
    dflt = dict(name="Generic Body", mass=0 * u.kg, q=0 * u.C, R=0 * u.km, coords=None, parent=None)
    for f, dv in dflt.items():
        v = getattr(b, f)
        if f in ("coords", "parent"):
            c.ok(v is kw.get(f), f"{f} is kept")
        elif f == "name":
            c.ok(v == kw.get(f, dv), "name is kept")
        else:
            w = kw.get(f, dv)
            c.ok(v.unit.is_equivalent(w.unit) and abs((v - w).to(w.unit).value) <= 1e-12 * abs(w.value), f"{f} is kept")
    if d is None:
        c.ok(not getattr(b, "pos_vec", None) and not getattr(b, "vel_vec", None), "no position without coordinates")
    else:
        names = (("x", "y", "z"), ("v_x", "v_y", "v_z")) if kind == "cartesian" else (("r", "theta", "phi"), ("v_r", "v_th", "v_p"))
        for vec, ns in zip((b.pos_vec, b.vel_vec), names):
            c.ok(len(vec) == 3 and all(bool(v == getattr(d, n)) and v.unit == getattr(d, n).unit for v, n in zip(vec, ns)),
                 f"vectors list {ns}", None, got=[str(v) for v in vec])
    s = str(b)
    c.ok(s == repr(b), "str and repr agree")
    c.ok(b.name in s and str(b.mass) in s and str(b.q) in s and str(b.R) in s, "text names the values")
    c.ok(("parent" not in kw) or kw["parent"].name in s, "text names the parent")
    if d is not None and kind == "cartesian":
        c.ok(str(d.x) in s, "text gives the coordinates")
    # a later body does not change this one
    n = len(vars(b))
    Body(name="other", mass=9 * u.kg, coords=coords(c, "cartesian"))
    c.ok(len(vars(b)) == n and (b.name == kw.get("name", dflt["name"])), "bodies are independent")


@CHECK.clause(quick=1500, thorough=5000)
def refusals(c):
    f, good = c.pick([("mass", u.kg), ("q", u.C), ("R", u.km)])
    bad = c.pick([2.0, None, "1 kg", 3 * c.pick([x for x in (u.kg, u.C, u.km, u.s, u.one, u.m / u.s) if not x.is_equivalent(good)])])
    c.note(field=f, value=str(bad))
    c.seen(f, str(bad))
    c.raises((u.UnitsError, TypeError), lambda: Body(**{f: bad}), f"Body({f}={bad})")
    ok = c.logu(1, 1e9) * good
    b = Body(**{f: ok})
    c.ok(getattr(b, f) == ok, "a proper quantity is accepted")


@CHECK.clause(quick=2500, thorough=12000)
def strip_units(c):
    table = [(u.kg, 1), (u.g, 1e-3), (u.m, 1), (u.km, 1e3), (u.cm, 1e-2), (u.s, 1), (u.hr, 3600), (u.rad, 1), (u.deg, math.pi / 180),
             (u.arcmin, math.pi / 10800), (u.C, 1), (u.mC, 1e-3), (u.one, 1), (u.percent, 0.01), (u.km / u.s, 1e3), (u.km / u.hr, 1 / 3.6),
             (u.au, 149597870700.0), (u.N, 1), (u.dyn, 1e-5), (u.J, 1), (u.erg, 1e-7), (u.deg / u.min, math.pi / 180 / 60)]
    args, want = [], []
    for _ in range(c.rint(0, 8)):
        k = c.pick(["q", "q", "array", "float", "int", "none", "str", "ndarray"])
        x = c.uni(-1e3, 1e3)
        if k in ("q", "array"):
            unit, f = c.pick(table)
            c.seen(k, unit)
            if k == "array":
                x = c.rng.normal(size=c.rint(1, 4))
            args.append(x * unit)
            want.append(np.asarray(x) * f)
        else:
            v = {"float": x, "int": int(x), "none": None, "str": "abc", "ndarray": c.rng.normal(size=3)}[k]
            c.seen(k)
            args.append(v)
            want.append(v)
    before = copy.deepcopy(args)
    got = primitive(*args)
    c.ok(isinstance(got, list) and len(got) == len(args), "one value per argument")
    for g, w, a in zip(got, want, args):
        if isinstance(a, u.Quantity):
            c.ok(not isinstance(g, u.Quantity), "units are stripped")
            c.close(g, w, 1e-12, 0, f"SI value of {a}")
        else:
            c.ok(g is a, "anything else passes through")
    c.ok(all(bool(np.all(a == b)) for a, b in zip(args, before) if a is not None), "arguments unchanged")


@CHECK.clause(quick=1500, thorough=4000)
def errors(c):
    cls = c.pick([BaseError, CoordinateError])
    if c.coin(0.3):
        cls = type(c.pick(["MetricError", "XError"]), (cls,), {})
    words = [c.pick(["Error", 404, None, 1.5, "two words", "", True, np.float64(2.5), ("a", 1)]) for _ in range(c.rint(0, 5))]
    c.note(cls=cls.__name__, words=[str(w) for w in words])
    c.seen(cls.__name__, len(words))
    e = cls(*words)
    m = " ".join(str(w) for w in words)
    c.ok(e.message == m, f"message {e.message!r} joins the arguments")
    c.ok(str(e) == repr(e) == f"{cls.__name__} : {m}", f"text {str(e)!r} names the class and the message")
    c.ok(isinstance(e, Exception) and issubclass(cls, BaseError), "is an exception of the library")
    c.raises(BaseError, lambda: (_ for _ in ()).throw(e), "can be raised and caught as the base class")


@CHECK.clause(quick=750, thorough=2000)
def symbolic_constants(c):
    table = {"c": ("c", "Speed Of Light"), "G": ("G", "Gravitational Constant"), "Cosmo_Const": ("Lambda", "Cosmological Constant"),
             "eps_0": ("eps_0", "Permittivity of free space")}
    k = c.pick(list(table))
    sym, desc = table[k]
    s = get_constant(k)
    c.note(constant=k)
    c.seen(k)
    c.ok(isinstance(s, sympy.Symbol) and s == getattr(sc, k), "get_constant returns the module's constant")
    c.ok(s.name == sym, "symbol")
    c.ok(str(s.descriptive_name).lower() == desc.lower(), f"description {s.descriptive_name!r}")
    what = c.pick(["new", "copy", "pickle", "expr", "named"])
    c.seen(k, what)
    if what == "new":
        SymbolicConstant(sym)
    elif what == "named":
        other = SymbolicConstant(sym, "something else")
        c.ok(other.descriptive_name == "something else", "a new constant has its own description")
    elif what == "copy":
        c.ok(copy.deepcopy(s).descriptive_name == desc, "copies keep the description")
    elif what == "pickle":
        c.ok(pickle.loads(pickle.dumps(s + 1)).free_symbols == {s}, "pickled expressions refer to the same constant")
    else:
        e = sympy.diff(sympy.sin(s * 3) * s ** 2, s)
        v = c.uni(0.1, 2)
        c.close(float(e.subs(s, v)), 3 * math.cos(3 * v) * v * v + 2 * v * math.sin(3 * v), 1e-9, 1e-9, "behaves as a symbol")
    c.ok(getattr(sc, k).descriptive_name == desc, f"description afterwards: {getattr(sc, k).descriptive_name!r}")
    n = c.pick(["a", "kappa", "Q_0"])
    d = c.pick([None, "Spin", "x y"])
    t = SymbolicConstant(n, d, **c.pick([{}, dict(positive=True), dict(real=True)]))
    c.ok(t.name == n and t.descriptive_name == d, "a new constant keeps name and description")
    bad = c.pick(["Lambda", "h", "", "C", "eps0"])
    c.raises(KeyError, lambda: get_constant(bad), f"unknown constant {bad!r}")


if __name__ == "__main__":
    main(CHECK)
