"""C19 predefined metrics solve their field equations and honour their parameters."""
import inspect
import math

import mpmath as mp
import numpy as np
import sympy as sp
from sympy import Function, Rational as R, cos, cosh, exp, sin, sinh, sqrt, symbols, tanh

from vf import sym
from vf.core import Check, main
from vf.curv import Geometry
from vf.sym import close, maxabs

from einsteinpy.symbolic import MetricTensor, RicciScalar, constants, predefined
from einsteinpy.symbolic.predefined import find

CHECK = Check(
    "C19",
    "one case = one predefined spacetime with random parameter values at a random event; distinct = (metric, field equation or parameter "
    "form, sign pattern of the parameters)",
    ["the curvature engine of vf/curv.py and textbook line elements written independently are the reference"],
)
c_, G_, e0_ = constants.c, constants.G, constants.eps_0
t, x, y, z, r, th, ph, ch, rho, phi = symbols("t x y z r theta phi chi rho phi")
rs, a, Q, k, l, C, B, M, gam, al, om, xs, sg, Rr, v = symbols("r_s a Q k l C B M gam alpha omega x_s sigma R v")
f_, h_ = Function("f")(x), Function("h")(y)


def _kn(rs, a, q2, c):
    S = r ** 2 + a ** 2 * cos(th) ** 2
    D = r ** 2 - rs * r + a ** 2 + q2
    g = sp.zeros(4)
    g[0, 0] = (D - a ** 2 * sin(th) ** 2) / S
    g[0, 3] = g[3, 0] = a * sin(th) ** 2 * (r ** 2 + a ** 2 - D) / S / c
    g[1, 1] = -S / D / c ** 2
    g[2, 2] = -S / c ** 2
    g[3, 3] = -sin(th) ** 2 * ((r ** 2 + a ** 2) ** 2 - a ** 2 * sin(th) ** 2 * D) / S / c ** 2
    return g


Q2 = Q ** 2 * G_ / (4 * sp.pi * e0_ * c_ ** 4)
EX = (1 + r ** 2) ** R(2, 5)
BJ0, BJ1 = sp.besselj(0, rho), sp.besselj(1, rho)
_U = C * BJ0 * cos(t)
_K = C ** 2 * rho / 2 * (rho * (BJ0 ** 2 + BJ1 ** 2) - 2 * BJ0 * BJ1 * cos(t) ** 2)
_rs = sqrt((x - xs) ** 2 + y ** 2 + z ** 2)
_fa = (tanh(sg * (_rs + Rr)) - tanh(sg * (_rs - Rr))) / (2 * tanh(sg * Rr))
_alc = sp.diag(v ** 2 * _fa ** 2 - 1, 1, 1, 1)
_alc[0, 1] = _alc[1, 0] = -v * _fa
_god = sp.diag(-1, 1, -exp(2 * sqrt(2) * om * x) / 2, 1)
_god[0, 2] = _god[2, 0] = -exp(sqrt(2) * om * x)
_b = 2 * G_ * M / c_ ** 2 / gam
_lam = 1 + B ** 2 * r ** 2 * sin(th) ** 2
SPH = (t, r, th, ph)
CAR = (t, x, y, z)

# name -> coordinates, line element, keyword parameters (name -> symbol), signature
TABLE = {
    "MinkowskiCartesian": (CAR, sp.diag(-1, 1 / c_ ** 2, 1 / c_ ** 2, 1 / c_ ** 2), dict(c=c_), -1),
    "Minkowski": (CAR, sp.diag(-1, 1 / c_ ** 2, 1 / c_ ** 2, 1 / c_ ** 2), dict(c=c_), -1),
    "MinkowskiPolar": (SPH, sp.diag(-1, 1 / c_ ** 2, r ** 2 / c_ ** 2, r ** 2 * sin(th) ** 2 / c_ ** 2), dict(c=c_), -1),
    "Schwarzschild": (SPH, _kn(rs, 0, 0, c_), dict(c=c_, sch=rs), 1),
    "Kerr": (SPH, _kn(rs, a, 0, c_), dict(c=c_, sch=rs, a=a), 1),
    "KerrNewman": (SPH, _kn(rs, a, Q2, c_), dict(c=c_, G=G_, eps_0=e0_, sch=rs, a=a, Q=Q), 1),
    "ReissnerNordstorm": (SPH, _kn(rs, 0, Q2, c_), dict(c=c_, G=G_, eps_0=e0_, sch=rs, Q=Q), 1),
    "DeSitter": (CAR, sp.diag(-1, *[exp(2 * t / al)] * 3), {}, -1),
    "AntiDeSitter": ((t, ch, th, ph), sp.diag(-1, cos(t) ** 2, (cos(t) * sinh(ch)) ** 2, (cos(t) * sinh(ch) * sin(th)) ** 2), {}, -1),
    "AntiDeSitterStatic": (SPH, sp.diag(-cosh(r) ** 2, 1, sinh(r) ** 2, (sinh(r) * sin(th)) ** 2), {}, -1),
    "BarriolaVilekin": (SPH, sp.diag(-1, c_ ** -2, (k * r / c_) ** 2, (k * r * sin(th) / c_) ** 2), dict(c=c_, k=k), -1),
    "BertottiKasner": (SPH, sp.diag(-1, exp(2 * sqrt(l) * c_ * t) / c_ ** 2, 1 / (l * c_ ** 2), sin(th) ** 2 / (l * c_ ** 2)),
                       dict(c=c_, lambd=l), -1),
    "BesselGravitationalWave": ((t, rho, phi, z), sp.diag(-exp(2 * _K - 2 * _U), exp(2 * _K - 2 * _U), rho ** 2 * exp(-2 * _U), exp(2 * _U)),
                                dict(C=C), -1),
    "CMetric": ((t, x, y, phi), sp.diag(-h_, 1 / f_, 1 / h_, f_) / (x + y) ** 2, {}, -1),
    "Davidson": ((t, r, z, phi), sp.diag(-EX ** 3, t ** R(4, 3) * EX, t ** R(-2, 3) / EX, t ** R(4, 3) * r ** 2 / EX), {}, -1),
    "Ernst": (SPH, sp.diag(-_lam ** 2 * (1 - 2 * M / r), _lam ** 2 / (1 - 2 * M / r), r ** 2 * _lam ** 2, (r * sin(th) / _lam) ** 2),
              dict(B=B, M=M), -1),
    "Godel": (CAR, _god, {}, -1),
    "JanisNewmanWinicour": (SPH, sp.diag(-(1 - _b / r) ** gam, (1 - _b / r) ** -gam / c_ ** 2, r ** 2 * (1 - _b / r) ** (1 - gam),
                                         (r * sin(th)) ** 2 * (1 - _b / r) ** (1 - gam)), dict(c=c_, G=G_, gam=gam, M=M), -1),
    "AlcubierreWarp": (CAR, _alc, dict(x_s=xs, sigma=sg, R=Rr, v=v), -1),
}
NAMES = sorted(TABLE)
EXTRA = {"DeSitter": [al], "Godel": [om]}


def params(name):
    return list(TABLE[name][2].values()) + EXTRA.get(name, [])


def draw(c, name):
    """parameter values and a regular event"""
    p = {}
    for s in params(name):
        n = s.name
        p[s] = mp.mpf({"r_s": c.uni(0.2, 0.7), "a": c.uni(-0.3, 0.3), "Q": c.uni(-0.8, 0.8), "eps_0": c.uni(1, 2), "gam": c.uni(0.3, 1.6),
                       "M": c.uni(0.02, 0.06) if name == "JanisNewmanWinicour" else c.uni(0.05, 0.2), "v": c.uni(-1.5, 1.5),
                       "x_s": c.uni(-1, 1), "sigma": c.uni(0.5, 3), "R": c.uni(0.4, 1.5), "B": c.uni(-1, 1), "C": c.uni(-1, 1),
                       "alpha": c.uni(0.4, 2) * c.pick([1, -1]), "omega": c.uni(0.3, 1.2) * c.pick([1, -1])}.get(n, c.uni(0.5, 1.6)))
    X = [mp.mpf(c.uni(0.3, 1.3)) for _ in range(4)]
    if TABLE[name][0][1] == r and name != "AntiDeSitterStatic":
        X[1] = mp.mpf(c.uni(1.2, 4))
    return p, X


_GEO = {}


def geo(c, name, g):
    """compiled jets of the library's own components"""
    key = str(g.tensor())
    if key not in _GEO:
        rows = [[g.tensor()[i, j] for j in range(4)] for i in range(4)]
        if name == "CMetric":
            rows = [[e.subs({f_: x ** 3 + k * x + l, h_: y ** 3 + k * y - l}).doit() for e in q] for q in rows]
        _GEO[key] = Geometry(rows, list(g.symbols()))
    return _GEO[key]


def at(g, X, p):
    return g.at(X, [p[s] for s in g.params])


@CHECK.clause("line_element", quick=950, thorough=4000, timeout=60)
def line_element(c):
    name = NAMES[c.index % len(NAMES)]
    co, rows, kw, sig = TABLE[name]
    fn = getattr(predefined, name)
    g = fn()
    c.ok(isinstance(g, MetricTensor) and g.config == "ll" and g.dims == 4, "not a covariant 4-metric")
    c.ok(tuple(g.symbols()) == tuple(co), "coordinates", got=str(g.symbols()))
    c.ok(isinstance(g.name, str) and g.name, "unnamed metric")
    p, X = draw(c, name)
    fs = {f_: x ** 3 + 5, h_: y ** 3 + 7}
    allv = list(co) + list(p)
    with mp.workdps(sym.DPS):
        got = sym.ev(g.tensor(), allv, X + list(p.values()), fs)
        want = sym.ev(sp.Array(rows.tolist()), allv, X + list(p.values()), fs)
        close(c, got, want, 1 + maxabs(want), f"components of {name}", rel=1e-13)
        close(c, got, got.T, mp.mpf(1), f"{name} is not symmetric", rel=0)
        m = mp.matrix(got.tolist())
        ei = [mp.re(e) for e in mp.eig(m, left=False, right=False)] if name in ("AlcubierreWarp", "Godel") else None
        ei = ei or list(np.linalg.eigvalsh(np.array(got, dtype=float) / np.sqrt(np.outer(*[np.abs(np.diag(np.array(got, dtype=float)))] * 2))))
        pos, neg = sum(e > 0 for e in ei), sum(e < 0 for e in ei)
        c.ok((pos, neg) == ((1, 3) if sig > 0 else (3, 1)), f"{name} is not Lorentzian with its signature", eig=str(ei))
    c.note(metric=name, params=str(p), event=str(X))
    c.seen(name, tuple(q > 0 for q in p.values()))


@CHECK.clause("parameters", quick=570, thorough=2000, timeout=60)
def parameters(c):
    """passing a value is the same as substituting the default symbol; arguments by keyword or position"""
    cands = [n for n in NAMES if TABLE[n][2]]
    name = cands[c.index % len(cands)]
    co, rows, kw, _ = TABLE[name]
    fn = getattr(predefined, name)
    names = list(inspect.signature(fn).parameters)
    c.ok(set(kw) <= set(names), "documented parameter missing", got=names)
    use = [q for q in kw if c.coin(0.6)] or [c.pick(list(kw))]
    p, X = draw(c, name)
    other = sp.Symbol("w", positive=True)
    vals = {}
    for q in use:
        base = p[kw[q]]
        vals[q] = c.pick([sp.Rational(str(round(float(base), 3))) or R(1, 2), other, other / 2 + R(1, 3), float(base), sp.Float(str(base), 30)])
    ordered = [q for q in names if q in kw]
    if c.coin(0.3) and names[0] in use:
        n = 0
        while n < len(names) and names[n] in vals:
            n += 1
        g = fn(*[vals[q] for q in names[:n]], **{q: vals[q] for q in vals if q not in names[:n]})
    else:
        g = fn(**vals)
    wv = mp.mpf(c.uni(0.4, 0.7))
    full = dict(p)
    with mp.workdps(sym.DPS):
        for q in use:
            full[kw[q]] = sym.ev(vals[q], [other], [wv])[()]
        av = list(co) + list(full) + [other]
        vv = X + list(full.values()) + [wv]
        got = sym.ev(g.tensor(), av, vv)
        want = sym.ev(sp.Array(rows.tolist()), av, vv)
        if any(isinstance(w, mp.mpc) and abs(mp.im(w)) > 0 or not mp.isfinite(w) for w in want.flat):
            c.skip("parameters leave the regular domain")
        close(c, got, want, 1 + maxabs(want), f"{name} with parameters {use}", rel=1e-11, values=str(vals))
    left = {s.name for s in sp.Array(g.tensor()).free_symbols}
    c.ok(not any(kw[q].name in left for q in use if kw[q] not in co), "a passed parameter is still symbolic", left=str(left))
    c.ok([s.name for s in g.variables] == sorted(left - {s.name for s in co}), "variables of the metric", got=str(g.variables), left=str(left))
    # the default is unaffected
    g0 = fn()
    c.ok({s.name for s in g0.variables} == {s.name for s in kw.values()} | {s.name for s in EXTRA.get(name, [])},
         "free parameters of the default metric", got=str(g0.variables))
    c.note(metric=name, passed=str(vals))
    c.seen(name, tuple(sorted(use)), tuple(type(q).__name__ for q in vals.values()))


VACUUM = ["Minkowski", "MinkowskiCartesian", "MinkowskiPolar", "Schwarzschild", "Kerr", "BesselGravitationalWave", "CMetric"]
FIELD = VACUUM + ["DeSitter", "AntiDeSitter", "AntiDeSitterStatic", "BarriolaVilekin", "BertottiKasner", "Davidson", "Ernst", "Godel",
                  "JanisNewmanWinicour", "KerrNewman", "ReissnerNordstorm", "AlcubierreWarp"]


@CHECK.clause("field_equations", quick=380, thorough=3000, timeout=100)
def field_equations(c):
    name = FIELD[c.index % len(FIELD)]
    g = getattr(predefined, name)()
    p, X = draw(c, name)
    if name == "CMetric":
        p = {k: mp.mpf(c.uni(-1, 1)), l: mp.mpf(c.uni(-1, 1))}
    G = geo(c, name, g)
    o = at(G, X, p)
    c.note(metric=name, params=str(p), event=str(X))
    with mp.workdps(34):
        n = 4
        riem, ric, gi, S = o["riem"], o["ricci"], o["ginv"], o["rscalar"]
        mix = gi @ ric
        s = (maxabs(o["riem_up"]) + (1 + maxabs(o["gamma"])) ** 2) * (1 + maxabs(gi)) * 10
        I = np.array(sp.eye(4).tolist(), dtype=object)
        cv = p.get(c_, mp.mpf(1))

        def z(arr, msg, rel=1e-13, sc=1):
            arr = np.asarray(arr, dtype=object)
            close(c, arr, arr * 0, s * sc, f"{name}: {msg}", rel=rel)
        # Kretschmann scalar
        up = np.einsum("abcd,ae,bf,cg,dh->efgh", riem, gi, gi, gi, gi, optimize=["einsum_path", (0, 1), (0, 3), (0, 2), (0, 1)])
        K = np.sum(up * riem)
        if name in VACUUM:
            z(ric, "vacuum field equations R_ab = 0")
        if name.startswith("Minkowski"):
            z(riem, "flatness")
        elif name == "Schwarzschild":
            c.ok(abs(K / (12 * (p[rs] * cv ** 2) ** 2 / X[1] ** 6) - 1) < 1e-12, "Schwarzschild: Kretschmann scalar is not 12 r_s^2/r^6", K=str(K))
        elif name == "Kerr":
            q = p[a] * mp.cos(X[2])
            want = 12 * p[rs] ** 2 * cv ** 4 * (X[1] ** 2 - q ** 2) * ((X[1] ** 2 + q ** 2) ** 2 - 16 * X[1] ** 2 * q ** 2) / (X[1] ** 2 + q ** 2) ** 6
            c.ok(abs(K - want) <= 1e-11 * (12 * p[rs] ** 2 * cv ** 4 / X[1] ** 6), "Kerr: Kretschmann scalar", K=str(K), want=str(want))
        elif name == "BesselGravitationalWave":
            c.ok(abs(p[C]) < 0.05 or maxabs(riem) > 1e-12, "gravitational wave is flat")
        elif name == "CMetric":
            c.ok(maxabs(riem) > 1e-12, "C-metric is flat")
        elif name == "DeSitter":
            H = 1 / p[al] ** 2
            want = (np.einsum("ac,bd->abcd", o["g"], o["g"]) - np.einsum("ad,bc->abcd", o["g"], o["g"])) * H
            close(c, riem, want, s * (1 + maxabs(o["g"])) ** 2, "DeSitter: constant curvature 1/alpha^2", rel=1e-13)
        elif name.startswith("AntiDeSitter"):
            want = (np.einsum("ac,bd->abcd", o["g"], o["g"]) - np.einsum("ad,bc->abcd", o["g"], o["g"])) * -1
            close(c, riem, want, s * (1 + maxabs(o["g"])) ** 2, f"{name}: constant curvature -1", rel=1e-13)
        elif name == "BarriolaVilekin":
            w = np.zeros((4, 4), dtype=object)
            w[2, 2] = w[3, 3] = cv ** 2 * (1 - p[k] ** 2) / (p[k] * X[1]) ** 2
            close(c, mix, w + I * 0, s, "BarriolaVilekin: only the angular deficit curves space", rel=1e-13)
        elif name == "BertottiKasner":
            close(c, mix, I * (p[l] * cv ** 2), s, "BertottiKasner: R_ab = Lambda g_ab", rel=1e-13)
            c.ok(abs(K / (8 * p[l] ** 2 * cv ** 4) - 1) < 1e-12, "BertottiKasner: product of two surfaces of curvature Lambda", K=str(K))
        elif name == "Davidson":
            z(S, "radiation is trace free")
            P = o["einstein"]
            m2 = gi @ P
            press = [m2[i, i] for i in (1, 2, 3)]
            z([press[0] - press[1], press[0] - press[2], -m2[0, 0] - 3 * press[0]], "perfect fluid with p = rho/3")
            z([m2[i, j] for i in range(4) for j in range(4) if i != j], "fluid at rest")
            c.ok(-m2[0, 0] > 0, "Davidson: negative energy density")
        elif name in ("KerrNewman", "ReissnerNordstorm", "Ernst"):
            z(S, "electrovacuum is trace free")
            sq = mix @ mix
            tr = sum(sq[i, i] for i in range(4)) / 4
            close(c, sq, I * tr, s * s, f"{name}: Rainich condition R^a_b R^b_c = k delta", rel=1e-13)
            if name != "Ernst":
                q2 = p[Q] ** 2 * p[G_] / (4 * mp.pi * p[e0_] * cv ** 4)
                Sg = X[1] ** 2 + (p.get(a, 0) * mp.cos(X[2])) ** 2
                want = (q2 * cv ** 2 / Sg ** 2) ** 2
                c.ok(abs(tr - want) <= 1e-11 * want + 1e-25, f"{name}: strength of the field r_Q^2/Sigma^2", got=str(tr), want=str(want))
            c.ok(abs(p.get(Q, p.get(B))) < 0.02 or tr > 0, "charged solution without field")
        elif name == "Godel":
            W = p[om] ** 2
            w = np.zeros((4, 4), dtype=object) + mp.mpf(0)
            close(c, np.array([S]), np.array([-2 * W]), s, "Godel: scalar curvature -2 omega^2", rel=1e-13)
            u = o["g"][0]  # u_a = g_ab (d_t)^b
            close(c, ric, np.outer(u, u) * (2 * W), s, "Godel: dust R_ab = 2 omega^2 u_a u_b", rel=1e-13)
        elif name == "JanisNewmanWinicour":
            b = 2 * p[G_] * p[M] / cv ** 2 / p[gam]
            if abs(cv - 1) > 1e-9:  # the angular part carries no 1/c^2: a solution in units with c = 1
                p1 = dict(p)
                p1[c_] = mp.mpf(1)
                o1 = at(G, X, p1)
                ric, b = o1["ricci"], 2 * p[G_] * p[M] / p[gam]
            want = np.zeros((4, 4), dtype=object) + mp.mpf(0)
            want[1, 1] = (1 - p[gam] ** 2) * b ** 2 / (2 * X[1] ** 2 * (X[1] - b) ** 2)
            close(c, ric, want, s, "JanisNewmanWinicour: R_ab = 2 d_a phi d_b phi of the massless scalar", rel=1e-13)
        elif name == "AlcubierreWarp":
            m = mp.matrix(o["g"].tolist())
            c.ok(abs(mp.det(m) + 1) < 1e-20, "AlcubierreWarp: determinant is not -1")
            q = [X[1] - p[xs], X[2], X[3]]
            rr = mp.sqrt(sum(i * i for i in q))
            sgm, RR = p[sg], p[Rr]
            df = sgm * (mp.sech(sgm * (rr + RR)) ** 2 - mp.sech(sgm * (rr - RR)) ** 2) / (2 * mp.tanh(sgm * RR))
            Gup = (gi @ o["einstein"] @ gi)[0, 0]
            want = -p[v] ** 2 * (q[1] ** 2 + q[2] ** 2) / (4 * rr ** 2) * df ** 2
            close(c, np.array([Gup]), np.array([want]), s * s, "AlcubierreWarp: Eulerian energy density", rel=1e-13)
            far = at(G, [X[0], p[xs] + 400, X[2], X[3]], p)
            z(far["g"] - np.array(sp.diag(-1, 1, 1, 1).tolist(), dtype=object), "flat far from the bubble")
            mid = at(G, [X[0], p[xs] + mp.mpf(10) ** -25, mp.mpf(0), mp.mpf(0)], p)
            z([mid["g"][0, 1] + p[v]], "shift velocity at the centre of the bubble", rel=1e-12)
    c.seen(name, tuple(q > 0 for q in p.values()))


@CHECK.clause("relations", quick=60, thorough=600, timeout=100)
def relations(c):
    """limits between members of the catalogue"""
    which = ["Kerr->Schwarzschild", "KN->Kerr", "KN->RN", "RN->Schwarzschild", "JNW->Schwarzschild", "Ernst->Schwarzschild",
             "Schwarzschild->Minkowski", "BarriolaVilekin->Minkowski", "Alcubierre->Minkowski", "numeric Kerr-Newman"][c.index % 10]
    X = [mp.mpf(c.uni(0.3, 1.3)) for _ in range(4)]
    X[1] = mp.mpf(c.uni(1.5, 4))
    P = predefined
    one = sp.S(1)
    z0 = sp.S(0)
    rsv, av, Qv = R(c.rint(2, 6), 10), R(c.rint(-3, 3), 10), R(c.rint(-7, 7), 10)
    sgn = 1
    if which == "Kerr->Schwarzschild":
        A, Bm = P.Kerr(c=one, sch=rsv, a=z0), P.Schwarzschild(c=one, sch=rsv)
    elif which == "KN->Kerr":
        A, Bm = P.KerrNewman(c=one, G=one, eps_0=one, sch=rsv, a=av, Q=z0), P.Kerr(c=one, sch=rsv, a=av)
    elif which == "KN->RN":
        A, Bm = P.KerrNewman(c=one * 2, G=one * 3, eps_0=one, sch=rsv, a=z0, Q=Qv), P.ReissnerNordstorm(c=one * 2, G=one * 3, eps_0=one, sch=rsv, Q=Qv)
    elif which == "RN->Schwarzschild":
        A, Bm = P.ReissnerNordstorm(c=one, G=one, eps_0=one, sch=rsv, Q=z0), P.Schwarzschild(c=one, sch=rsv)
    elif which == "JNW->Schwarzschild":
        A, Bm, sgn = P.JanisNewmanWinicour(c=one, G=one, gam=one, M=rsv / 2), P.Schwarzschild(c=one, sch=rsv), -1
    elif which == "Ernst->Schwarzschild":
        A, Bm, sgn = P.Ernst(B=z0, M=rsv / 2), P.Schwarzschild(c=one, sch=rsv), -1
    elif which == "Schwarzschild->Minkowski":
        A, Bm, sgn = P.Schwarzschild(c=one * 3, sch=z0), P.MinkowskiPolar(c=one * 3), -1
    elif which == "BarriolaVilekin->Minkowski":
        A, Bm = P.BarriolaVilekin(c=one * 3, k=one), P.MinkowskiPolar(c=one * 3)
    elif which == "Alcubierre->Minkowski":
        A, Bm = P.AlcubierreWarp(x_s=one, sigma=one, R=one, v=z0), P.MinkowskiCartesian(c=one)
    else:
        from astropy import units as u
        from einsteinpy.coordinates import BoyerLindquist
        from einsteinpy.metric import KerrNewman
        from vf import ref
        Mm = 10.0 ** c.uni(24, 36)
        aa = c.uni(0, 1)
        m = ref.G * Mm / ref.C ** 2
        q = c.uni(-0.9, 0.9) * m * math.sqrt(1 - aa * aa) * ref.C ** 2 / math.sqrt(ref.G * ref.KE)
        co = BoyerLindquist(0 * u.s, 1 * u.m, 1 * u.rad, 1 * u.rad)
        num = KerrNewman(coords=co, M=Mm * u.kg, a=aa * u.one, Q=q * u.C)
        X[1] = mp.mpf(m * c.uni(2.5, 30))
        Y = [float(w) for w in X]
        g = P.KerrNewman()
        val = {"c": ref.C, "G": ref.G, "eps_0": ref.EPS0, "r_s": 2 * m, "a": aa * m, "Q": q}
        got = sym.ev(g.tensor(), list(g.symbols()) + list(g.variables), X + [val[s.name] for s in g.variables]) * ref.C ** 2
        want = np.asarray(num.metric_covariant(Y))
        gotf = np.array([float(w) for w in got.flat]).reshape(4, 4)
        d = np.sqrt(np.abs(np.diag(want)))
        c.close(gotf, want, 1e-9, 1e-9 * np.outer(d, d), "symbolic and numeric Kerr-Newman metrics differ", val=str(val))
        c.seen(which)
        return
    with mp.workdps(sym.DPS):
        u_, w_ = sym.ev(A.tensor(), list(A.symbols()), X), sym.ev(Bm.tensor(), list(Bm.symbols()), X)
        close(c, u_, w_ * sgn, 1 + maxabs(w_), which, rel=1e-13)
    c.note(limit=which)
    c.seen(which)


@CHECK.clause("catalogue", quick=60, thorough=300, timeout=60)
def catalogue(c):
    every = find("")
    c.ok(set(NAMES) <= set(every), "catalogue misses a predefined metric", missing=str(set(NAMES) - set(every)))
    for n in every:
        fn = getattr(predefined, n, None)
        c.ok(callable(fn), "catalogue lists something that is not there", name=n)
    n = c.pick(every)
    g = getattr(predefined, n)()
    c.ok(isinstance(g, MetricTensor), "catalogue lists something that is not a metric", name=n)
    i = c.rint(0, len(n) - 1)
    j = c.rint(i + 1, len(n))
    s = n[i:j]
    s = c.pick([s, s.lower(), s.upper(), s.title()])
    got = find(s)
    c.ok(isinstance(got, list) and n in got, "a part of the name does not find the metric", search=s, name=n)
    c.ok(got == [e for e in every if s.lower() in e.lower()], "find does not return exactly the matching names", search=s, got=got)
    c.ok(find("no such metric") == [], "a name that is not there is found")
    c.ok(predefined.Minkowski().tensor() == predefined.MinkowskiCartesian().tensor(), "alias Minkowski")
    c.note(search=s, found=got)
    c.seen(n)


if __name__ == "__main__":
    main(CHECK)
