"""C16 raising and lowering indices is contraction with the metric."""
import itertools

import mpmath as mp
import numpy as np
import sympy as sp

from vf import sym
from vf.core import Check, main
from vf.sym import close, maxabs, maxshift, shift

from checks.c14 import mt
from einsteinpy.symbolic import (
    BaseRelativityTensor, ChristoffelSymbols, EinsteinTensor, GenericVector, MetricTensor, RicciTensor, RiemannCurvatureTensor,
    SchoutenTensor, StressEnergyMomentumTensor, WeylTensor,
)

from einsteinpy.symbolic.tensor import tensor_product

CHECK = Check(
    "C16",
    "one case = one random tensor (rank 1-4, every class, any start configuration, sparse or dense) over one generated metric and a "
    "random walk over index configurations; distinct = (class, configuration step, metric family, metric source)",
    ["einsum contraction with the metric and its inverse in 40 digits is the reference"],
)

RANK = {1: [GenericVector], 2: [RicciTensor, EinsteinTensor, SchoutenTensor, StressEnergyMomentumTensor],
        3: [ChristoffelSymbols], 4: [RiemannCurvatureTensor, WeylTensor]}


def simple_metric(c, n):
    if n == 2:
        m = sym.metric(c, 2, c.pick(["full2", "diag", "flatmap"]))
    else:
        m = sym.metric(c, n, c.pick(["diag", "offdiag", "const", "warped", "wave", "product"] if n == 4 else
                                    ["diag", "offdiag", "warped", "flatmap", "product"]))
    return m


def rand_array(c, m, rank, fill=None, plain=False):
    """sparse random components: numbers, coordinates, products, functions"""
    n = m.n
    fill = fill or c.pick([0.15, 0.4, 1.0] if rank < 4 else [0.02, 0.08])
    A = np.zeros((n,) * rank, dtype=object)
    A[...] = sp.S(0)
    idx = [i for i in np.ndindex(A.shape) if c.coin(fill)] or [tuple(c.rint(0, n - 1) for _ in range(rank))]
    for i in idx:
        s = c.pick(m.syms)
        if plain:
            A[i] = c.pick([sp.Integer(c.rint(-9, 9)), s, s * c.rint(2, 5), c.pick(m.params or [sp.S(3)])])
            continue
        A[i] = c.pick([sp.Integer(c.rint(1, 9)), s, s * c.rint(2, 5), s ** 2, 1 + s, c.pick(m.params or [sp.S(3)]) * s, sp.sin(s)])
    return sp.Array(A.tolist())


def conf(c, rank):
    return "".join(c.pick("ul") for _ in range(rank))


@CHECK.clause("walks", quick=260, thorough=3000, timeout=60, chunk=1)
def walks(c):
    rank = [1, 2, 2, 3, 4][c.index % 5]
    n = c.pick([2, 3, 4] if rank < 4 else [2, 3])
    m = simple_metric(c, n)
    cls = c.pick(RANK[rank])
    g = mt(m)
    g = g.inv() if c.coin(0.3) else g
    src = c.pick(["parent", "parent", "argument", "override"])
    arr = rand_array(c, m, rank)
    start = conf(c, rank)
    name = c.pick(["T", "A vector", None])
    other = MetricTensor(sp.diag(*range(2, n + 2)).tolist(), m.syms)
    kw = dict(parent_metric={"parent": g, "argument": None, "override": other}[src])
    T = cls(arr if c.coin() else arr.tolist(), m.syms, config=start, name=name, **kw)
    c.note(cls=cls.__name__, family=m.name, n=n, start=start, source=src, rows=str(m.rows))
    x, p = m.point(c)
    o = m.oracle(x, p)
    a0 = m.ev(arr, x, p)
    cur, path = T, [start]
    for step in range(c.rint(1, 3)):
        new = conf(c, rank)
        arg = None if (src == "parent" or (step > 0 and c.coin())) else g
        before = cur.tensor()
        nxt = cur.change_config(new) if arg is None else cur.change_config(new, metric=arg)
        path.append(new)
        c.ok(type(nxt) is cls, "change_config changes the kind of tensor", got=type(nxt).__name__, cls=cls.__name__)
        c.ok(nxt.config == new and nxt.order == rank, "configuration of the result", got=nxt.config, want=new)
        c.ok(nxt.parent_metric is g, "the metric used is not the parent of the result", source=src, step=step)
        c.ok(cur.tensor() == before and cur.config == path[-2], "the original tensor was modified")
        c.ok(nxt.name is None if name is None else nxt.name.startswith(name), "name of the result", got=nxt.name)
        c.ok(list(nxt.symbols()) == m.syms, "symbols of the result")
        with mp.workdps(sym.DPS):
            want = shift(a0, start, new, o)
            big = 1 + maxabs(want)
            for u, v in zip(path, path[1:]):
                big = max(big, maxshift(shift(a0, start, u, o), u, v, o))
            close(c, m.ev(nxt.tensor(), x, p), want, big, f"contraction with the metric along {path}", rel=1e-20, cls=cls.__name__)
        c.seen(cls.__name__, path[-2] + ">" + new, m.name if rank < 3 else "", src)
        cur = nxt
    back = cur.change_config(start)
    close(c, m.ev(back.tensor(), x, p), a0, big * 10, "returning to the original configuration does not restore the tensor", rel=1e-20,
          path=path)


@CHECK.clause("errors", quick=120, thorough=800, timeout=60)
def errors(c):
    rank = [1, 2, 3, 4][c.index % 4]
    m = simple_metric(c, c.pick([2, 3]))
    cls = c.pick(RANK[rank])
    g = mt(m)
    T = cls(rand_array(c, m, rank, 0.3), m.syms, config=conf(c, rank), parent_metric=g)
    bad = c.pick([conf(c, rank + 1), conf(c, rank - 1), "x" * rank, "U" * rank, conf(c, rank)[:-1] + "k"])
    c.raises(ValueError, lambda: T.change_config(bad), "invalid configuration accepted", cls=cls.__name__, config=bad)
    P = cls(T.tensor(), m.syms, config=T.config)
    flip = "".join("u" if k == "l" else "l" for k in T.config)
    c.raises(Exception, lambda: P.change_config(flip), "configuration changed without any metric", cls=cls.__name__)
    c.note(cls=cls.__name__, bad=bad)
    c.seen(cls.__name__, len(bad) - rank)


@CHECK.clause("metric", quick=120, thorough=1200, timeout=60, chunk=1)
def metric(c):
    m = simple_metric(c, c.pick([2, 3, 4]))
    g = mt(m, name=c.pick(["g", "my metric"]))
    x, p = m.point(c)
    o = m.oracle(x, p)
    s = (1 + maxabs(o["ginv"])) * (1 + maxabs(o["g"])) * 10
    inv = g.change_config("uu") if c.coin() else g.inv()
    c.ok(isinstance(inv, MetricTensor) and inv.config == "uu", "inverse metric is not a contravariant MetricTensor")
    close(c, m.ev(inv.tensor(), x, p), o["ginv"], s, "contravariant metric is not the inverse")
    for other, want, cf in ((inv.inv(), o["g"], "ll"), (inv.lower_config(), o["g"], "ll"), (g.lower_config(), o["g"], "ll"),
                            (g.change_config("ll"), o["g"], "ll"), (inv.change_config("uu"), o["ginv"], "uu"),
                            (inv.change_config("ll"), o["g"], "ll"), (g.inv().inv().inv(), o["ginv"], "uu")):
        c.ok(other.config == cf, "configuration", got=other.config, want=cf)
        close(c, m.ev(other.tensor(), x, p), want, s, "metric after changing configuration")
    # a metric given contravariantly
    U = MetricTensor(inv.tensor(), m.syms, config="uu")
    close(c, m.ev(U.lower_config().tensor(), x, p), o["g"], s, "covariant form of a contravariant metric")
    c.ok(U.config == "uu", "lower_config modified the metric")
    close(c, m.ev(U.inv().tensor(), x, p), o["g"], s, "inverse of a contravariant metric")
    for bad in ("ul", "lu", "l", "ull"):
        c.raises(ValueError, lambda: g.change_config(bad), f"metric in configuration {bad}")
    c.ok(g.parent_metric is g, "a metric is not its own parent")
    c.note(family=m.name, rows=str(m.rows))
    c.seen(m.name, m.n)


@CHECK.clause("products", quick=200, thorough=2500, timeout=60, chunk=1)
def products(c):
    n = c.pick([2, 3, 4])
    m = simple_metric(c, n)
    g = mt(m)
    r1, r2 = c.pick([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3), (2, 3)] if n < 4 else [(1, 1), (1, 2), (2, 1), (2, 2)])
    c1, c2 = conf(c, r1), conf(c, r2)
    k1 = c.pick(RANK[r1] + [BaseRelativityTensor])
    k2 = c.pick(RANK[r2] + [BaseRelativityTensor])
    A = k1(rand_array(c, m, r1), m.syms, config=c1, parent_metric=g)
    B = k2(rand_array(c, m, r2), m.syms, config=c2, parent_metric=c.pick([g, None]))
    x, p = m.point(c)
    a, b = m.ev(A.tensor(), x, p), m.ev(B.tensor(), x, p)
    with mp.workdps(sym.DPS):
        out = np.multiply.outer(a, b)
        s = 1 + maxabs(out) * n
        P = tensor_product(A, B)
        c.ok(P.config == c1 + c2 and P.order == r1 + r2, "configuration of the outer product", got=P.config)
        close(c, m.ev(P.tensor(), x, p), out, s, "outer product", rel=1e-20)
        c.ok(P.parent_metric is g and list(P.symbols()) == m.syms, "parent metric or symbols of the product")
        ij = list(itertools.product(range(r1), range(r2)))
        c.rng.shuffle(ij)
        for i, j in ij[:4]:
            i, j = int(i), int(j)
            if c1[i] == c2[j]:
                c.raises(ValueError, lambda: tensor_product(A, B, i, j), "contraction of two indices of the same kind", ij=(i, j))
                continue
            P = tensor_product(A, B, i, j) if c.coin() else tensor_product(A, B, i=i, j=j)
            want = np.tensordot(a, b, axes=(i, j))
            cf = c1[:i] + c1[i + 1:] + c2[:j] + c2[j + 1:]
            c.ok(P.config == cf, "configuration after contraction", got=P.config, want=cf)
            close(c, m.ev(P.tensor(), x, p), np.asarray(want, dtype=object), s, f"contraction of index {i} with {j}", rel=1e-20,
                  configs=(c1, c2))
            c.seen(c1, c2, i, j)
            # scalar invariance: contracting after moving the pair of indices gives the same tensor
            if k1 is not BaseRelativityTensor and k2 is not BaseRelativityTensor and r1 + r2 <= 4:
                f1 = c1[:i] + c2[j] + c1[i + 1:]
                f2 = c2[:j] + c1[i] + c2[j + 1:]
                P2 = tensor_product(A.change_config(f1), B.change_config(f2, metric=g), i, j)
                o = m.oracle(x, p)
                close(c, m.ev(P2.tensor(), x, p), np.asarray(want, dtype=object), s * (1 + maxabs(o["g"])) * (1 + maxabs(o["ginv"])) * n * n,
                      "moving a contracted pair of indices changes the contraction", rel=1e-20)
    c.note(configs=(c1, c2), classes=(k1.__name__, k2.__name__), family=m.name)
    c.seen(k1.__name__, k2.__name__)


if __name__ == "__main__":
    main(CHECK)
