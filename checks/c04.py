"""C04 results do not depend on the units inputs are given in; wrong dimensions are refused."""
import math

import numpy as np
from astropy import units as u

from vf import gen, ref
from vf.core import Check, main

from einsteinpy.bodies import Body
from einsteinpy.coordinates import (
    BoyerLindquist, BoyerLindquistDifferential, Cartesian, CartesianDifferential, Spherical,
    SphericalDifferential,
)
from einsteinpy.hypersurface import SchwarzschildEmbedding
from einsteinpy.metric import BaseMetric, Kerr, KerrNewman, Schwarzschild
from einsteinpy.rays import Shadow
from einsteinpy.units import primitive
from einsteinpy.utils import scalar_factor, scalar_factor_derivative

CHECK = Check(
    "C04",
    "one case = one set of physical inputs given twice, in SI and in random compatible units (km, AU, ly, deg, "
    "arcsec, hours, g, solar masses, mC/g, ...), to one entry point; or one input given in an incompatible unit "
    "or bare; distinct = (entry point, unit tuple)",
    ["astropy's unit conversion is the reference"],
    prewarm=3,
)
X_S = [("t", u.s, gen.TIME), ("x", u.m, gen.LEN), ("y", u.m, gen.LEN), ("z", u.m, gen.LEN)]
V_S = [("v_x", u.m / u.s, gen.SPEED), ("v_y", u.m / u.s, gen.SPEED), ("v_z", u.m / u.s, gen.SPEED)]
X_A = [("t", u.s, gen.TIME), ("r", u.m, gen.LEN), ("theta", u.rad, gen.ANG), ("phi", u.rad, gen.ANG)]
V_A = [("v_r", u.m / u.s, gen.SPEED), ("v_th", u.rad / u.s, gen.ANGSPEED), ("v_p", u.rad / u.s, gen.ANGSPEED)]
CLS = {
    "Cartesian": (Cartesian, X_S), "Spherical": (Spherical, X_A), "BoyerLindquist": (BoyerLindquist, X_A),
    "CartesianD": (CartesianDifferential, X_S + V_S), "SphericalD": (SphericalDifferential, X_A + V_A),
    "BoyerLindquistD": (BoyerLindquistDifferential, X_A + V_A),
}
RT = 3e-14


def vals(c, spec, scale=1.0):
    out = []
    for n, b, _ in spec:
        if n == "t":
            out.append(c.uni(-50, 50))
        elif n in "xyz" or n == "r":
            out.append(scale * c.uni(2, 30) * (1 if n == "r" else c.pick([1, -1])))
        elif n == "theta":
            out.append(c.uni(0.2, 2.9))
        elif n == "phi":
            out.append(c.uni(-3, 3))
        elif n in ("v_th", "v_p"):
            out.append(c.uni(-1, 1) * 1e6 / scale)
        else:
            out.append(c.uni(-1, 1) * 1e7)
    return out


def both(c, name, scale=1.0):
    cls, spec = CLS[name]
    v = vals(c, spec, scale)
    a = cls(*[x * b for x, (_, b, _) in zip(v, spec)])
    qs = [gen.q(c, x, ul, b) for x, (_, b, ul) in zip(v, spec)]
    b = cls(*qs) if c.coin() else cls(**{n: q for q, (n, _, _) in zip(qs, spec)})
    return a, b, v, qs, spec


@CHECK.clause("coordinates", quick=900, thorough=12000)
def coordinates(c):
    name = list(CLS)[c.index % 6]
    M = gen.mass(c)
    scale = max(c.pick([1.0, 1e3, ref.rs_of(M), 1e12]), ref.alpha_of(M, 1))
    a, b, v, qs, spec = both(c, name, scale)
    units = [str(q.unit) for q in qs]
    c.note(cls=name, values=v, units=units)
    S = [abs(x) for x in v]
    c.close(b.position()[0], ref.C * v[0], RT, 0, "position()[0] is not c*t in SI", units=units)
    c.close(b.position()[1:], v[1:4], RT, 0, "position() is not in SI", units=units)
    c.close(a.position(), [ref.C * v[0], *v[1:4]], 1e-15, 0, "position() from SI input")
    c.close(b.values(), v, RT, 0, "values() are not in SI", units=units)
    for i, (n, base, _) in enumerate(spec):
        q = getattr(b, n)
        c.ok(isinstance(q, u.Quantity) and q.unit.is_equivalent(base), f"attribute {n} lost its dimension")
        c.close(q.to_value(base), v[i], RT, 0, f"attribute {n} differs from the input")
    if not name.endswith("D"):
        for i, (n, base, _) in enumerate(spec):
            for key in (n, i, np.int64(i)):
                c.close(b[key].to_value(base), v[i], RT, 0, f"item {key!r} differs from the input")
        c.ok(b["system"] == name, "system item")
    c.ok(b.system == name.rstrip("D"), "system attribute")
    s = a.system
    kwA = dict(M=M * u.kg, a=0.6 * u.one)
    kwB = dict(M=gen.q(c, M, gen.MASS, u.kg), a=c.pick([0.6 * u.one, 60 * u.percent]))
    for m in ("to_cartesian", "to_spherical", "to_bl", "cartesian_differential", "spherical_differential",
              "bl_differential"):
        if not hasattr(a, m):
            continue
        p, q = getattr(a, m)(**kwA), getattr(b, m)(**kwB)
        pa, pb = np.array(p.position()), np.array(q.position())
        al = ref.alpha_of(M, .6)
        tol = np.array([1e-14, 1e-11 * (scale + al), 1e-11, 1e-11]) if p.system != "Cartesian" else 1e-11 * (scale + al)
        if p.system != "Cartesian":
            pb[3] = pa[3] + ref.wrap(pb[3] - pa[3])
            if scale < 0.2 * al:
                continue  # near the disk: ill conditioned
        c.close(pb, pa, 1e-13, tol, f"{m} depends on the input units", units=units)
        if "differential" in m:
            va, vb = np.array(p.values()[4:]), np.array(q.values()[4:])
            if scale < 0.2 * al:
                continue
            sp = np.linalg.norm(a.convert_cartesian(**kwA)[4:7] if s != "Cartesian" else v[4:7])
            R = scale
            tv = sp * 1e-9 * (np.array([1, 1 / R, 1 / R]) if p.system != "Cartesian" else 1)
            c.close(vb, va, 1e-11, tv, f"{m} velocity depends on the input units", units=units)
    c.seen(name, *units)


def rand_units(c, M, a, Q, q):
    return (gen.q(c, M, gen.MASS, u.kg), c.pick([a * u.one, (100 * a) * u.percent]),
            gen.q(c, Q, gen.CHARGE, u.C), gen.q(c, q, gen.QM, u.C / u.kg))


@CHECK.clause("metrics", quick=500, thorough=8000)
def metrics(c):
    M, a = gen.mass(c), c.pick([0.0, 0.5, c.uni(0, 1)])
    kind = ["S", "K", "KN", "KN"][c.index % 4]
    Q = gen.charge(c, M, a) if kind == "KN" else 0.0
    q = c.uni(-1, 1) * 1e-3
    Mq, aq, Qq, qq = rand_units(c, M, a, Q, q)
    name = "SphericalD" if kind == "S" else "BoyerLindquistD"
    rp = gen.rplus(M, a, Q)
    ca, cb, v, qs, _ = both(c, name, rp)
    mk = {"S": lambda co, M, a, Q, q: Schwarzschild(coords=co, M=M),
          "K": lambda co, M, a, Q, q: Kerr(coords=co, M=M, a=a),
          "KN": lambda co, M, a, Q, q: KerrNewman(coords=co, M=M, a=a, Q=Q, q=q)}[kind]
    A = mk(ca, M * u.kg, a * u.one, Q * u.C, q * u.C / u.kg)
    B = mk(cb, Mq, aq, Qq, qq)
    x = np.array([ref.C * v[0], *v[1:4]])
    y = np.concatenate([x, [1.3, 0.1, 0.05 / rp, 0.07 / rp]])
    us = [str(z.unit) for z in (Mq, aq, Qq, qq)]
    c.note(kind=kind, M=M, a=a, Q=Q, q=q, units=us)

    def cmp(f, label, extra=1.0):
        p, r = np.asarray(f(A), dtype=float), np.asarray(f(B), dtype=float)
        # blocks mix scales: compare every entry to its own size, roundings are amplified near the horizon
        c.close(r, p, 1e-12 * (v[1] / (v[1] - rp)) ** 2 * extra, 1e-300 + 1e-14 * np.abs(p).max() * 1e-6
                if p.shape == () else 1e-300, f"{kind} {label} depends on the units of M, a, Q or q", units=us)
    cmp(lambda m: m.sch_rad, "Schwarzschild radius")
    cmp(lambda m: m.metric_covariant(x), "metric")
    cmp(lambda m: m.metric_contravariant(x)[[0, 1, 2, 3], [0, 1, 2, 3]], "inverse metric", 10)
    cmp(lambda m: np.abs(m.christoffels(x)).sum(axis=(1, 2)), "Christoffel symbols", 100)
    if kind == "KN":
        cmp(lambda m: m.em_potential_covariant(x), "EM potential", 10)
        cmp(lambda m: m.em_tensor_covariant(x)[0, 1], "EM field", 1e3)
        # a specific charge for which the electromagnetic force is as large as the rest of the equation
        F = np.abs(A.em_tensor_contravariant(x) @ (A.metric_covariant(x) @ y[4:]))
        free = np.abs(mk(ca, M * u.kg, a * u.one, Q * u.C, 0 * u.C / u.kg).f_vec(0.0, y))[4:]
        ok = (F > 0) & (free > 0)
        qbig = (c.pick([-1, 1]) * 10 ** c.uni(-1, 2) * float((free[ok] / F[ok]).min()) if ok.any() else q)
        qbq = gen.q(c, qbig, gen.QM, u.C / u.kg)
        c.note(q_force=qbig, q_force_unit=str(qbq.unit))
        fa = mk(ca, M * u.kg, a * u.one, Q * u.C, qbig * u.C / u.kg).f_vec(0.0, y)
        fb = mk(cb, Mq, aq, Qq, qbq).f_vec(0.0, y)
        tol = 1e-7 * (v[1] / (v[1] - rp)) ** 2
        c.close(fb[4:], fa[4:], tol, tol * (free + abs(qbig) * F).max() * np.array([1, 1, 1 / rp, 1 / rp]) * 1e-2
                + tol * (free + abs(qbig) * F), "f_vec depends on the units of q", units=us + [str(qbq.unit)])
    if kind != "S":
        sa, sb = A.singularities(), B.singularities()
        for k in sa:
            f = sa[k](0.7) if callable(sa[k]) else sa[k]
            g = sb[k](0.7) if callable(sb[k]) else sb[k]
            c.close(g, f, 1e-6, 1e-7 * rp, f"singularities[{k}] depends on units", units=us)
    va, vb = ca.velocity(A), cb.velocity(B)
    if all(map(math.isfinite, va)):
        c.close(vb, va, 1e-8, 1e-8 * np.abs(va).max() * np.array([1, 1, 1 / rp, 1 / rp]),
                "4-velocity depends on units", units=us)
    c.seen(kind, *us)


@CHECK.clause("statics", quick=400, thorough=5000)
def statics(c):
    """the static helpers give the same number for a Quantity in any unit and for SI floats"""
    M, a = gen.mass(c), c.uni(0, 1)
    Q = gen.charge(c, M, a)
    rs, al = ref.rs_of(M), ref.alpha_of(M, a)
    r, th = rs * c.uni(1.5, 50), c.uni(0.1, 3)
    B = BaseMetric
    Mq, aq, Qq, _ = rand_units(c, M, a, Q, 0.0)
    rq, tq = gen.q(c, r, gen.LEN, u.m), gen.q(c, th, gen.ANG, u.rad)
    S = r * r + (al * math.cos(th)) ** 2
    q2 = ref.rq_of(Q) ** 2
    D = r * r - rs * r + al * al
    Dt = 1e-13 * (r * r + rs * r + al * al)
    c.note(M=M, a=a, Q=Q, r=r, theta=th, units=[str(z.unit) for z in (Mq, aq, Qq, rq, tq)])
    for mode in ("float", "si", "any"):
        p = dict(float=(M, a, Q, r, th), si=(M * u.kg, a * u.one, Q * u.C, r * u.m, th * u.rad),
                 any=(Mq, aq, Qq, rq, tq))[mode]
        M_, a_, Q_, r_, t_ = p
        c.close(B.schwarzschild_radius(M_), rs, 1e-13, 0, f"schwarzschild_radius ({mode})")
        c.close(B.alpha(M_, a_), al, 1e-13, 0, f"alpha ({mode})")
        c.close(B.sigma(r_, t_, M_, a_), S, 1e-12, 0, f"sigma ({mode})")
        c.close(B.rho(r_, t_, M_, a_), math.sqrt(S), 1e-12, 0, f"rho ({mode})")
        c.close(B.delta(r_, M_, a_), D, 0, Dt, f"delta ({mode})")
        c.close(B.delta(r_, M_, a_, Q_), D + q2, 0, Dt + 1e-13 * q2, f"delta with charge ({mode})")
    args = [Mq, 3.5, rq, tq, Qq, 7]
    got = primitive(*args)
    c.close([float(z) for z in got], [M, 3.5, r, th, Q, 7], 1e-13, 0, "primitive() does not strip to SI")
    c.ok(not any(isinstance(z, u.Quantity) for z in got), "primitive() left a unit")
    for bad in (-0.1, 1.0001, 5.0, -1e-12):
        c.raises(ValueError, lambda: B.alpha(M, bad), f"alpha accepts a={bad}")
    c.seen(*[str(z.unit) for z in (Mq, rq, tq, Qq)])


@CHECK.clause("other_entry_points", quick=60, thorough=600)
def other_entry_points(c):
    k = c.index % 4
    if k == 0:
        # the shadow is computed in geometrised units, where kg and km values are used as plain numbers
        m, f = c.uni(0.5, 3), c.uni(25, 60)
        n = c.rint(20, 60)
        A = Shadow(mass=m * u.kg, n_rays=n, fov=f * u.km)
        B = Shadow(mass=gen.q(c, m, [u.g, u.t, u.kg, u.mg], u.kg), n_rays=n,
                   fov=gen.q(c, f, [u.m, u.cm, u.AU, u.imperial.mile if hasattr(u, "imperial") else u.mm], u.km))
        c.close(B.b, A.b, 1e-10, 0, "Shadow impact parameters depend on units")
        c.close(B.horizon, A.horizon, 1e-12, 0, "Shadow horizon depends on units")
        c.ok(len(B.z) == len(A.z), "Shadow ray count depends on units")
        c.close(np.array(B.z), np.array(A.z), 1e-6, 0, "Shadow turning points depend on units")
        c.note(entry="Shadow", m=m, fov=f)
    elif k == 1:
        M = c.logu(1e20, 1e30)
        A = SchwarzschildEmbedding(M * u.kg)
        B = SchwarzschildEmbedding(gen.q(c, M, gen.MASS, u.kg))
        r = A.M.value * c.uni(2.5, 8)
        c.close(B.M.to_value(u.kg), A.M.to_value(u.kg), 1e-12, 0, "embedding mass depends on units")
        c.close(B.radial_coord(r), A.radial_coord(r), 1e-11, 0, "embedding radius depends on units")
        c.close(B.gradient(r), A.gradient(r), 1e-9, 1e-12 * A.radial_coord(r), "embedding gradient depends on units")
        c.close(B.r_init.value, A.r_init.value, 1e-11, 0, "embedding start radius depends on units")
        c.note(entry="SchwarzschildEmbedding", M=M)
    elif k == 2:
        t = c.logu(1e-3, 1e17)
        era, tp = c.pick(["md", "rd", "ded"]), c.uni(0.5, 2)
        tq = gen.q(c, t, gen.TIME, u.s)
        c.close(scalar_factor(tq, era, tp), scalar_factor(t * u.s, era, tp), 1e-13, 0, "scale factor depends on units")
        c.close(scalar_factor_derivative(tq, era, tp), scalar_factor_derivative(t * u.s, era, tp), 1e-13, 0,
                "scale factor derivative depends on units")
        c.note(entry="scalar_factor", t=t, era=era)
    else:
        b = Body(name="b", mass=gen.q(c, 5.0, gen.MASS, u.kg), q=gen.q(c, 2.0, gen.CHARGE, u.C),
                 R=gen.q(c, 3.0, gen.LEN, u.km))
        c.close([b.mass.to_value(u.kg), b.q.to_value(u.C), b.R.to_value(u.km)], [5, 2, 3], 1e-13, 0, "body units")
        c.note(entry="Body")
    c.seen(k, str(c.data.get("era", "")))


WRONG = [u.kg, u.m, u.s, u.rad, u.m / u.s, u.C, u.K, u.m / u.s ** 2, u.rad / u.s]


@CHECK.clause("wrong_dimensions", quick=800, thorough=6000)
def wrong_dimensions(c):
    """every quantity argument: an incompatible unit raises UnitsError, a bare number TypeError"""
    d0 = BoyerLindquistDifferential(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad, 0 * u.m / u.s, 0 * u.rad / u.s,
                                    0 * u.rad / u.s)
    entries = {}
    for n, (cls, spec) in CLS.items():
        entries[n] = (cls, [(s[0], 1.0 * s[1], s[1]) for s in spec])
    entries.update({
        "Schwarzschild": (lambda **k: Schwarzschild(coords=d0, **k), [("M", 1 * u.kg, u.kg)]),
        "Kerr": (lambda **k: Kerr(coords=d0, **k), [("M", 1 * u.kg, u.kg), ("a", .1 * u.one, u.one)]),
        "KerrNewman": (lambda **k: KerrNewman(coords=d0, **k), [
            ("M", 1 * u.kg, u.kg), ("a", .1 * u.one, u.one), ("Q", 0 * u.C, u.C), ("q", 0 * u.C / u.kg, u.C / u.kg)]),
        "BaseMetric": (lambda **k: BaseMetric(coords=d0, **k), [
            ("M", 1 * u.kg, u.kg), ("a", .1 * u.one, u.one), ("Q", 0 * u.C, u.C)]),
        "Body": (lambda **k: Body(name="x", **k), [("mass", 1 * u.kg, u.kg), ("q", 1 * u.C, u.C), ("R", 1 * u.km, u.m)]),
        "Shadow": (lambda **k: Shadow(n_rays=5, **k), [("mass", 1 * u.kg, u.kg), ("fov", 30 * u.km, u.m)]),
        "scalar_factor": (scalar_factor, [("t", 1 * u.s, u.s)]),
        "scalar_factor_derivative": (scalar_factor_derivative, [("t", 1 * u.s, u.s)]),
    })
    names = list(entries)
    n = names[c.index % len(names)]
    f, spec = entries[n]
    good = {k: v for k, v, _ in spec}
    k, v, base = spec[(c.index // len(names)) % len(spec)]
    for w in WRONG:
        if u.Unit(w).is_equivalent(base):
            continue
        c.raises(u.UnitsError, lambda: f(**{**good, k: 1.0 * w}), f"{n}({k}) given in {w}")
    if not (base == u.one):
        c.raises((TypeError, u.UnitsError), lambda: f(**{**good, k: 1.0}), f"{n}({k}) given as a bare number")
    c.note(entry=n, argument=k)
    c.seen(n, k)


if __name__ == "__main__":
    main(CHECK)
