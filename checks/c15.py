"""C15 Einstein, Schouten, Weyl and stress-energy tensors match their definitions."""
import math

import mpmath as mp
import numpy as np
import sympy as sp

from vf import curv, sym
from vf.core import Check, main
from vf.sym import close, maxabs

from checks.c14 import _fast, curv_scale, mt
from einsteinpy.symbolic import (
    ChristoffelSymbols, EinsteinTensor, MetricTensor, RicciTensor, SchoutenTensor, StressEnergyMomentumTensor, WeylTensor,
)
from einsteinpy.symbolic.constants import Cosmo_Const, G, c as LIGHT

CHECK = Check(
    "C15",
    "one case = one generated metric (2-5 dimensions, the families of C14) and random evaluation points; distinct = "
    "(tensor, dimension, family)",
    ["the curvature engine of vf/curv.py is the reference", "the library's constants (floats 1/2 and pi) limit agreement to 1e-11"],
)
REL = 1e-11


def draw(c, dims, kind=None):
    n = c.pick(dims)
    m = sym.metric(c, n, kind)
    c.note(family=m.name, n=n, rows=str(m.rows), syms=str(m.syms))
    return n, m


def value(m, T, x, p):
    return m.ev(T.tensor(), x, p)


@CHECK.clause("definitions", quick=200, thorough=2400, timeout=100, chunk=1)
def definitions(c):
    kind = ["einstein", "schouten", "weyl", "stress"][c.index % 4]
    n, m = draw(c, {"einstein": (2, 3, 4, 4, 5), "schouten": (3, 3, 4, 5), "weyl": (3, 4, 4, 4, 5), "stress": (2, 3, 4)}[kind])
    start = c.pick(["ll", "ll", "ll", "uu"])
    g = mt(m)
    met = g.inv() if start == "uu" else g
    cls = dict(einstein=EinsteinTensor, schouten=SchoutenTensor, weyl=WeylTensor, stress=StressEnergyMomentumTensor)[kind]
    T = cls.from_metric(met)
    c.ok(T.config == ("llll" if kind == "weyl" else "ll"), "index configuration", got=T.config)
    c.ok(T.parent_metric is met and list(T.symbols()) == m.syms and T.dims == n, "parent metric, symbols or dimension")
    for _ in range(2):
        x, p = m.point(c)
        o = m.oracle(x, p)
        s = curv_scale(o) * (1 + maxabs(o["g"])) * 10
        if kind == "stress":
            cv, gv, lv = mp.mpf(c.uni(0.5, 3)), mp.mpf(c.uni(0.5, 3)), mp.mpf(c.uni(-2, 2))
            got = sym.ev(T.tensor(), m.syms + m.params + [LIGHT, G, Cosmo_Const], list(x) + list(p) + [cv, gv, lv], m.funcs)
            k = cv ** 4 / (8 * mp.pi * gv)
            # sign convention of the library: T = c^4/(8 pi G) (G_ab - Lambda g_ab)
            close(c, got, k * (o["einstein"] - lv * o["g"]), s * k * 3, "stress-energy tensor", rel=REL)
        else:
            want = dict(einstein=lambda: o["einstein"], schouten=lambda: curv.schouten(o), weyl=lambda: curv.weyl(o))[kind]()
            close(c, value(m, T, x, p), want, s, f"{kind} tensor", rel=REL if kind == "einstein" else 1e-16)
    c.seen(kind, n, m.name, start)


@CHECK.clause("divergence", quick=50, thorough=600, timeout=100, chunk=1)
def divergence(c):
    """nabla_a G^a_b = 0 with the library's own connection and raised tensor; the same for the stress-energy"""
    n, m = draw(c, (3, 3, 4, 4))
    if m.funcs:
        c.skip("undefined functions")
    g = mt(m)
    which = c.pick(["einstein", "stress"])
    T = (EinsteinTensor if which == "einstein" else StressEnergyMomentumTensor).from_metric(g)
    E = T.change_config("ul")
    c.ok(type(E) is type(T) and E.config == "ul", "change_config changes the kind of tensor", got=type(E).__name__)
    arr = E.tensor()
    if which == "stress":
        arr = arr.subs([(LIGHT, 1), (G, 1), (Cosmo_Const, sp.Rational(1, 3))])
    x, p = m.point(c)
    with mp.workdps(90):
        h = mp.mpf(10) ** -20
        f = _fast(arr, m)
        e0 = f(x, p)
        Gam = m.ev(ChristoffelSymbols.from_metric(g).tensor(), x, p)
        div = np.full(n, mp.mpf(0), dtype=object)
        big = maxabs(e0)
        for k in range(n):
            xp = [v + (h if i == k else 0) for i, v in enumerate(x)]
            xm = [v - (h if i == k else 0) for i, v in enumerate(x)]
            d = (f(xp, p) - f(xm, p)) / (2 * h)
            big = max(big, maxabs(d))
            div = div + d[k, :]
        div = div + np.einsum("aea,eb->b", np.transpose(Gam, (0, 2, 1)), e0) - np.einsum("eab,ae->b", Gam, e0)
        s = (1 + big) * (1 + maxabs(Gam)) * 10
        close(c, div, div * 0, s, f"divergence of the {which} tensor", rel=REL)
        tr = sum(e0[i, i] for i in range(n))
        if which == "einstein":
            o = m.oracle(x, p)
            close(c, np.array([tr]), np.array([o["rscalar"] * (1 - mp.mpf(n) / 2)]), s, "trace of the Einstein tensor", rel=REL)
    c.seen(which, n, m.name)


@CHECK.clause("weyl_identities", quick=60, thorough=700, timeout=100, chunk=1)
def weyl_identities(c):
    n, m = draw(c, (3, 4, 4, 4, 5))
    g = mt(m)
    W = WeylTensor.from_metric(g)
    x, p = m.point(c)
    o = m.oracle(x, p)
    s = curv_scale(o) * (1 + maxabs(o["g"])) * 10
    w = value(m, W, x, p)
    with mp.workdps(sym.DPS):
        for pair in ("ac", "ad", "bc", "bd", "ab", "cd"):
            t = np.einsum(f"{pair},abcd->{''.join(k for k in 'abcd' if k not in pair)}", o["ginv"], w)
            close(c, t, t * 0, s * (1 + maxabs(o["ginv"])), f"Weyl tensor is not trace free on {pair}")
        close(c, w, -np.swapaxes(w, 0, 1), s, "Weyl tensor: antisymmetry in the first pair")
        close(c, w, -np.swapaxes(w, 2, 3), s, "Weyl tensor: antisymmetry in the second pair")
        close(c, w, np.transpose(w, (2, 3, 0, 1)), s, "Weyl tensor: pair symmetry")
        close(c, w + np.transpose(w, (0, 2, 3, 1)) + np.transpose(w, (0, 3, 1, 2)), w * 0, s, "Weyl tensor: cyclic identity")
        if m.name in ("conformal", "flatmap", "const", "frw") or n == 3:
            close(c, w, w * 0, s, "Weyl tensor of a conformally flat metric does not vanish")
    c.seen(n, m.name, bool(maxabs(w) > 1e-20))


@CHECK.clause("weyl_conformal", quick=24, thorough=300, timeout=120, chunk=1)
def weyl_conformal(c):
    """C^a_bcd is the same for g and Omega^2 g; C_abcd scales"""
    n, m = draw(c, (4,), c.pick(["diag", "warped", "wave", "product", "frw", "offdiag"]))
    v = c.pick(m.syms)
    om = c.pick([v ** 2, sp.exp(v), sp.Rational(4, 9), 1 / v])
    g2 = MetricTensor([[e * om for e in r] for r in m.rows], m.syms)
    W1 = WeylTensor.from_metric(mt(m))
    W2 = WeylTensor.from_metric(g2)
    x, p = m.point(c)
    o = m.oracle(x, p)
    with mp.workdps(sym.DPS):
        a, b = value(m, W1, x, p), value(m, W2, x, p)
        k = m.ev(om, x, p)[()]
        s = curv_scale(o) * (1 + maxabs(o["g"])) * (1 + k) * 100
        close(c, b, a * k, s, "Weyl tensor is not conformally covariant", omega=str(om))
    c.seen(m.name, str(om)[:3], bool(maxabs(a) > 1e-20))


@CHECK.clause("limits", quick=60, thorough=400, timeout=60)
def limits(c):
    n, m = draw(c, (2,))
    g = mt(m)
    g = g.inv() if c.coin(0.3) else g
    c.raises(ValueError, lambda: WeylTensor.from_metric(g), "Weyl tensor in two dimensions")
    c.raises(ValueError, lambda: SchoutenTensor.from_metric(g), "Schouten tensor in two dimensions")
    one = MetricTensor([[1 + sp.Symbol("x") ** 2]], sp.symbols(["x"]))
    c.raises(ValueError, lambda: WeylTensor.from_metric(one), "Weyl tensor in one dimension")
    c.raises(ValueError, lambda: SchoutenTensor.from_metric(one), "Schouten tensor in one dimension")
    E = EinsteinTensor.from_metric(g)
    x, p = m.point(c)
    o = m.oracle(x, p)
    e = value(m, E, x, p)
    close(c, e, e * 0, curv_scale(o) * (1 + maxabs(o["g"])), "Einstein tensor in two dimensions is not zero", rel=REL)
    for cls, bad in ((WeylTensor, "lll"), (EinsteinTensor, "lll"), (SchoutenTensor, "l"), (StressEnergyMomentumTensor, "lll"),
                     (RicciTensor, "lll")):
        arr = np.zeros((2,) * len(bad), dtype=int).tolist()
        c.raises(ValueError, lambda: cls(arr, m.syms, config=bad), f"{cls.__name__} of the wrong rank accepted")
    c.seen(m.name)


if __name__ == "__main__":
    main(CHECK)
