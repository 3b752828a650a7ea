"""C14 symbolic curvature is the curvature of the given metric."""
import mpmath as mp
import numpy as np
import sympy as sp

from vf import sym
from vf.core import Check, main
from vf.sym import close, maxabs

from einsteinpy.symbolic import (
    ChristoffelSymbols, MetricTensor, RicciScalar, RicciTensor, RiemannCurvatureTensor,
)

CHECK = Check(
    "C14",
    "one case = one generated metric (2-5 dimensions; diagonal, cross terms, waves with null coordinates, undefined functions, "
    "flat space in strange coordinates, permuted coordinates, one or no parameter) and random evaluation points; distinct = "
    "(dimension, family, construction path)",
    ["the curvature engine of vf/curv.py (metric jets, numerical linear algebra) is the reference"],
)


def draw(c, dims=(2, 3, 3, 4, 4, 4)):
    n = c.pick(dims)
    m = sym.metric(c, n)
    c.note(family=m.name, n=n, rows=str(m.rows), syms=str(m.syms))
    return n, m


def mt(m, **kw):
    return MetricTensor([r[:] for r in m.rows], tuple(m.syms) if len(m.syms) % 2 else list(m.syms), **kw)


def curv_scale(o):
    return (maxabs(o["riem_up"], o["riem"]) + (1 + maxabs(o["gamma"])) ** 2 * 10 + maxabs(o["ricci"])) * (1 + maxabs(o["ginv"])) ** 2


@CHECK.clause("from_metric", quick=160, thorough=2500, timeout=100, chunk=1)
def from_metric(c):
    n, m = draw(c, (2, 3, 3, 4, 4, 4, 5))
    g = mt(m)
    ch = ChristoffelSymbols.from_metric(g)
    R = RiemannCurvatureTensor.from_metric(g)
    Rc = RicciTensor.from_metric(g)
    S = RicciScalar.from_metric(g)
    c.ok((ch.config, R.config, Rc.config, S.config) == ("ull", "ulll", "ll", ""), "index configuration",
         configs=[ch.config, R.config, Rc.config, S.config])
    c.ok((ch.order, R.order, Rc.order, S.order) == (3, 4, 2, 0), "order")
    for T in (ch, R, Rc, S):
        c.ok(T.parent_metric is g and list(T.symbols()) == m.syms and T.dims == n, "parent metric, symbols or dimension",
             cls=type(T).__name__)
    for k in range(2):
        x, p = m.point(c)
        o = m.oracle(x, p)
        s = curv_scale(o)
        close(c, m.ev(ch.tensor(), x, p), o["gamma"], 1 + maxabs(o["gamma"]), "Christoffel symbols of the metric")
        close(c, m.ev(R.tensor(), x, p), o["riem_up"], s, "Riemann tensor R^a_bcd")
        close(c, m.ev(Rc.tensor(), x, p), o["ricci"], s, "Ricci tensor R^a_bad")
        close(c, m.ev(S.expr, x, p), o["rscalar"], s, "Ricci scalar")
        close(c, m.ev(S.tensor(), x, p), o["rscalar"], s, "Ricci scalar array")
    c.seen(n, m.name, bool(m.params), bool(m.funcs))


PATHS = ["riemann<christoffels", "ricci<christoffels", "ricci<riemann", "ricci<riemann llll", "scalar<christoffels", "scalar<riemann",
         "scalar<ricci", "scalar<ricci uu", "riemann<christoffels lll", "parentless", "override", "override"]


@CHECK.clause("paths", quick=110, thorough=1600, timeout=100, chunk=1)
def paths(c):
    """every way of building a curvature tensor gives the same tensor"""
    n, m = draw(c, (2, 3, 3, 4))
    g = mt(m)
    x, p = m.point(c)
    o = m.oracle(x, p)
    s = curv_scale(o)
    start = c.pick(["ll", "ll", "uu"])
    met = g.inv() if start == "uu" else g
    ch = ChristoffelSymbols.from_metric(met)
    R = RiemannCurvatureTensor.from_christoffels(ch)
    close(c, m.ev(ch.tensor(), x, p), o["gamma"], (1 + maxabs(o["gamma"])), f"Christoffel symbols from metric in {start}")
    close(c, m.ev(R.tensor(), x, p), o["riem_up"], s, f"Riemann from Christoffels ({start})")
    for path in [c.pick(PATHS), c.pick(PATHS)]:
        if path == "ricci<christoffels":
            got, want = RicciTensor.from_christoffels(ch), o["ricci"]
        elif path == "ricci<riemann":
            got, want = RicciTensor.from_riemann(R), o["ricci"]
        elif path == "ricci<riemann llll":
            cf = c.pick(["llll", "uull", "luuu", "uuuu", "ulul"])
            got, want = RicciTensor.from_riemann(R.change_config(cf)), o["ricci"]
        elif path == "scalar<christoffels":
            got, want = RicciScalar.from_christoffels(ch), o["rscalar"]
        elif path == "scalar<riemann":
            got, want = RicciScalar.from_riemann(R if c.coin() else R.change_config("llll")), o["rscalar"]
        elif path == "scalar<ricci":
            got, want = RicciScalar.from_riccitensor(RicciTensor.from_riemann(R)), o["rscalar"]
        elif path == "scalar<ricci uu":
            cf = c.pick(["uu", "lu", "ul"])
            got, want = RicciScalar.from_riccitensor(RicciTensor.from_riemann(R).change_config(cf)), o["rscalar"]
        elif path == "riemann<christoffels lll":
            cf = c.pick(["lll", "uuu", "luu", "uul"])
            got, want = RiemannCurvatureTensor.from_christoffels(ch.change_config(cf)), o["riem_up"]
        elif path == "parentless":  # user supplied arrays, parent given where it is needed
            c2 = ChristoffelSymbols(ch.tensor(), m.syms)
            c.ok(c2.parent_metric is None, "a tensor without parent has a parent")
            R2 = RiemannCurvatureTensor.from_christoffels(c2, parent_metric=c.pick([None, met]))
            got = RicciTensor.from_riemann(R2)
            want = o["ricci"]
            got2 = RicciScalar.from_riccitensor(RicciTensor(got.tensor(), m.syms), parent_metric=met)
            close(c, m.ev(got2.expr, x, p), o["rscalar"], s, "scalar of a parentless Ricci tensor")
            got3 = RicciScalar.from_riemann(RiemannCurvatureTensor(R.tensor(), m.syms), parent_metric=met)
            close(c, m.ev(got3.expr, x, p), o["rscalar"], s, "scalar of a parentless Riemann tensor")
            got4 = RicciTensor.from_riemann(RiemannCurvatureTensor(R.change_config("llll").tensor(), m.syms, config="llll"), parent_metric=met)
            close(c, m.ev(got4.tensor(), x, p), o["ricci"], s, "Ricci of a parentless covariant Riemann tensor")
            c.ok(got4.parent_metric is met, "explicit parent metric dropped")
        elif path == "override":  # the metric that is passed counts, not the one a tensor was once built with
            other = MetricTensor((4 * sp.Array(g.tensor())).tolist(), m.syms)
            c3 = ChristoffelSymbols(ch.change_config("lll").tensor(), m.syms, config="lll", parent_metric=other)
            R3 = RiemannCurvatureTensor.from_christoffels(c3, parent_metric=met)
            close(c, m.ev(R3.tensor(), x, p), o["riem_up"], s, "Riemann from Christoffel symbols of another parent")
            got = RicciTensor.from_christoffels(ChristoffelSymbols(ch.tensor(), m.syms, parent_metric=other), parent_metric=met)
            want = o["ricci"]
            R4 = RiemannCurvatureTensor(R.change_config("llll").tensor(), m.syms, config="llll", parent_metric=other)
            got2 = RicciTensor.from_riemann(R4, parent_metric=met)
            close(c, m.ev(got2.tensor(), x, p), o["ricci"], s, "Ricci from a Riemann tensor of another parent")
            S1 = RicciScalar.from_riccitensor(RicciTensor(got.tensor(), m.syms, parent_metric=other), parent_metric=met)
            S2 = RicciScalar.from_riemann(RiemannCurvatureTensor(R.tensor(), m.syms, parent_metric=other), parent_metric=met)
            S3 = RicciScalar.from_christoffels(ChristoffelSymbols(ch.tensor(), m.syms, parent_metric=other), parent_metric=met)
            for S_ in (S1, S2, S3):
                close(c, m.ev(S_.expr, x, p), o["rscalar"], s, "Ricci scalar with an explicit metric")
            for T_ in (R3, got, got2, S1, S2, S3):
                c.ok(T_.parent_metric is met, "explicit parent metric overridden by the old one", None, kind=type(T_).__name__)
        else:
            got, want = RiemannCurvatureTensor.from_christoffels(ch, parent_metric=met), o["riem_up"]
            c.ok(got.parent_metric is met, "explicit parent metric dropped")
        close(c, m.ev(got.tensor(), x, p), want, s, f"construction path {path}")
        c.ok(path == "parentless" or got.parent_metric is not None, f"parent metric lost on {path}")
        c.seen(n, start, path)


@CHECK.clause("identities", quick=80, thorough=1200, timeout=100, chunk=1)
def identities(c):
    """symmetries, first and second Bianchi identities, metric compatibility, on the library's own output"""
    n, m = draw(c, (2, 3, 3, 4, 4))
    if m.funcs:
        c.skip("undefined functions")
    g = mt(m)
    ch = ChristoffelSymbols.from_metric(g)
    R = RiemannCurvatureTensor.from_christoffels(ch)
    Rl = R.change_config("llll")
    x, p = m.point(c)
    with mp.workdps(sym.DPS):
        r = m.ev(Rl.tensor(), x, p)
        G = m.ev(ch.tensor(), x, p)
        gi = m.ev(g.inv().tensor(), x, p)
        gg = m.ev(g.tensor(), x, p)
        s = (maxabs(r) + (1 + maxabs(G)) ** 2 * 10) * (1 + maxabs(gg)) * (1 + maxabs(gi))
        close(c, G, np.swapaxes(G, 1, 2), 1 + maxabs(G), "Christoffel symbols not symmetric")
        close(c, gg @ gi, np.eye(n, dtype=int).astype(object), s, "inverse metric")
        close(c, r, -np.swapaxes(r, 0, 1), s, "R_abcd != -R_bacd")
        close(c, r, -np.swapaxes(r, 2, 3), s, "R_abcd != -R_abdc")
        close(c, r, np.transpose(r, (2, 3, 0, 1)), s, "R_abcd != R_cdab")
        close(c, r + np.transpose(r, (0, 2, 3, 1)) + np.transpose(r, (0, 3, 1, 2)), r * 0, s, "first Bianchi identity")
    # derivatives by central differences in 80 digits: nothing symbolic, error ~ h^2
    with mp.workdps(90):
        h = mp.mpf(10) ** -20
        fR = _fast(Rl.tensor(), m)
        fg = _fast(g.tensor(), m)
        dR, dg = [], []
        for k in range(n):
            xp = [v + (h if i == k else 0) for i, v in enumerate(x)]
            xm = [v - (h if i == k else 0) for i, v in enumerate(x)]
            dR.append((fR(xp, p) - fR(xm, p)) / (2 * h))
            dg.append((fg(xp, p) - fg(xm, p)) / (2 * h))
        # nabla_e g_ab = 0
        for e in range(n):
            nab = dg[e] - np.einsum("fa,fb->ab", G[:, e, :], gg) - np.einsum("fb,af->ab", G[:, e, :], gg)
            close(c, nab, nab * 0, s, "connection is not metric")
        nr = np.stack([
            dR[e] - np.einsum("fa,fbcd->abcd", G[:, e, :], r) - np.einsum("fb,afcd->abcd", G[:, e, :], r)
            - np.einsum("fc,abfd->abcd", G[:, e, :], r) - np.einsum("fd,abcf->abcd", G[:, e, :], r) for e in range(n)], axis=4)
        big = s * (1 + maxabs(*dR)) * (1 + maxabs(G))
        close(c, nr + np.transpose(nr, (0, 1, 4, 2, 3)) + np.transpose(nr, (0, 1, 3, 4, 2)), nr * 0, big, "second Bianchi identity")
    c.seen(n, m.name, bool(m.params), bool(maxabs(r) > 1e-20))


def _fast(arr, m):
    flat = list(sp.flatten(arr.tolist()))
    f = sp.lambdify(m.syms + m.params, flat, modules=["mpmath"])
    shape = arr.shape

    def go(x, p):
        return np.array([mp.mpmathify(v) for v in f(*x, *p)], dtype=object).reshape(shape)
    return go


@CHECK.clause("covariance", quick=40, thorough=600, timeout=100, chunk=1)
def covariance(c):
    """the scalar curvature does not depend on the coordinates: recompute after a change of variables and rescaling"""
    n, m = draw(c, (2, 3, 3))
    if m.funcs:
        c.skip("undefined functions")
    new = sp.symbols(["p", "q", "s"][:n])
    k = c.rint(0, n - 1)
    maps = [v for v in new]
    maps[k] = new[k] + new[(k + 1) % n] / 3
    j = (k + 1) % n
    maps[j] = new[j] * c.pick([2, sp.Rational(1, 2)])
    sub = dict(zip(m.syms, maps))
    J = sp.Matrix(maps).jacobian(new)
    rows = (J.T * sp.Matrix(m.rows).subs(sub, simultaneous=True) * J).applyfunc(sp.expand)
    S1 = RicciScalar.from_metric(mt(m))
    lam = c.rint(2, 5)
    S2 = RicciScalar.from_metric(MetricTensor((rows * lam).tolist(), new))
    x, p = m.point(c)
    inv = sp.solve([a - b for a, b in zip(maps, m.syms)], new, dict=True)[0]
    y = [sym.ev(inv[v], m.syms, x)[()] for v in new]
    a = m.ev(S1.expr, x, p)
    b = sym.ev(S2.expr, list(new) + m.params, y + list(p))
    o = m.oracle(x, p)
    close(c, b * lam, a, curv_scale(o) * 50, "Ricci scalar depends on the coordinates or does not scale", lam=lam)
    c.seen(n, m.name)


if __name__ == "__main__":
    main(CHECK)
