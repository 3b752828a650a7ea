"""C17 Lorentz transforms are contraction with the transformation matrix."""
import mpmath as mp
import numpy as np
import sympy as sp

from vf import sym
from vf.core import Check, main
from vf.curv import inverse
from vf.sym import close, maxabs

from checks.c16 import RANK, conf, rand_array
from einsteinpy.symbolic import (
    BaseRelativityTensor, ChristoffelSymbols, GenericVector, MetricTensor, RicciScalar, RicciTensor,
)
from einsteinpy.symbolic.helpers import TransformationMatrix
from einsteinpy.symbolic.predefined import MinkowskiCartesian
from einsteinpy.symbolic.tensor import tensor_product

CHECK = Check(
    "C17",
    "one case = one random tensor (rank 0-4, every class, any configuration) and one transformation (rational, floating and symbolic "
    "boosts, rotations, products of both, general linear maps); distinct = (class, configuration, kind of transformation)",
    ["einsum contraction with the matrix and its inverse in 40 digits is the reference"],
)
ETA = sp.diag(-1, 1, 1, 1)


def lorentz(c, n, kind=None):
    """matrix and its free symbols"""
    kind = kind or c.pick(["boost", "boost", "rotation", "both", "rapidity", "symbolic", "general", "float", "diag"])
    axes = list(range(1, n))
    free = []

    def boost(k, b):
        L = sp.eye(n)
        gm = 1 / sp.sqrt(1 - b ** 2)
        L[0, 0] = L[k, k] = gm
        L[0, k] = L[k, 0] = -b * gm
        return L

    def rot(i, j, co, s):
        L = sp.eye(n)
        L[i, i] = L[j, j] = co
        L[i, j], L[j, i] = -s, s
        return L
    pyth = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25)]
    a, b, h = c.pick(pyth)
    if kind in ("rotation", "both") and n < 3:
        kind = "boost"
    if kind == "boost":
        L = boost(c.pick(axes), sp.Rational(a, h) * c.pick([1, -1]))
    elif kind == "rotation":
        i, j = sorted(int(k) for k in c.rng.choice(axes, 2, replace=False))
        L = rot(i, j, sp.Rational(a, h), sp.Rational(b, h))
    elif kind == "both":
        i, j = sorted(int(k) for k in c.rng.choice(axes, 2, replace=False))
        L = boost(c.pick(axes), sp.Rational(b, h)) * rot(i, j, sp.Rational(b, h), sp.Rational(a, h))
    elif kind == "rapidity":
        w = sp.Symbol("w", real=True)
        k = c.pick(axes)
        L = sp.eye(n)
        L[0, 0] = L[k, k] = sp.cosh(w)
        L[0, k] = L[k, 0] = -sp.sinh(w)
        free = [w]
    elif kind == "symbolic":
        w = sp.Symbol("beta", positive=True)
        L, free = boost(c.pick(axes), w), [w]
    elif kind == "float":
        b = c.uni(-0.9, 0.9)
        L = boost(c.pick(axes), sp.Float(b))
    elif kind == "diag":
        L = sp.diag(*[c.pick([1, 2, -3, sp.Rational(1, 2)]) for _ in range(n)])
    else:
        L = sp.eye(n) + sp.Matrix(n, n, lambda i, j: sp.Rational(c.rint(-2, 2), 5))
        if abs(L.det()) < sp.Rational(1, 20):
            L = sp.eye(n) + sp.Matrix(n, n, lambda i, j: sp.Rational(1, 5) if j > i else 0)
    return kind, L, free


def apply(L, Li, t, config):
    for i, k in enumerate(config):
        M = L if k == "u" else Li.T
        t = np.moveaxis(np.tensordot(M, t, axes=(1, i)), 0, i)
    return t


def absm(a):
    return np.vectorize(abs, otypes=[object])(a)


def as_arg(c, L):
    return c.pick([lambda: L.tolist(), lambda: sp.Array(L.tolist()), lambda: sp.Array(L.tolist())])()


@CHECK.clause("einsum", quick=300, thorough=4000, timeout=80, chunk=1)
def einsum(c):
    rank = [0, 1, 1, 2, 2, 3, 4][c.index % 7]
    n = c.pick([2, 3, 4, 4] if rank < 3 else [2, 3])
    syms = sp.symbols(["t", "x", "y", "z"][:n])
    m = sym.Met("free", sp.diag(*([-1] + [1] * (n - 1))).tolist(), syms, [sp.Symbol("k")])
    cls = RicciScalar if rank == 0 else c.pick(RANK[rank] + [BaseRelativityTensor] + ([MetricTensor] if rank == 2 else []))
    kind, L, free = lorentz(c, n, c.pick(["boost", "general", "rotation", "diag"]) if rank > 2 else None)
    name = c.pick(["T", None])
    if rank == 0:
        arr = sp.Array(syms[0] ** 2 + c.rint(1, 5))
        T = RicciScalar(arr, syms)
        cf = ""
    else:
        arr = rand_array(c, m, rank, c.pick([0.3, 1.0]) if rank < 3 else 0.1)
        cf = c.pick(["ll", "uu"]) if cls is MetricTensor else conf(c, rank)
        kw = {"parent_metric": MetricTensor(m.rows, syms)} if cls is not MetricTensor and c.coin() else {}
        T = cls(arr, syms, config=cf, name=name, **kw)
    c.note(cls=cls.__name__, config=cf, n=n, transform=kind, L=str(L.tolist()))
    before = T.tensor()
    arg = as_arg(c, L)
    keep = str(arg)
    R = T.lorentz_transform(arg)
    c.ok(str(arg) == keep, "the transformation matrix was modified")
    c.ok(T.tensor() == before and T.config == cf, "the original tensor was modified")
    c.ok(R.config == cf and R.order == rank, "configuration of the result", got=R.config, want=cf)
    if rank:
        c.ok(type(R) is cls, "lorentz_transform changes the kind of tensor", got=type(R).__name__)
        c.ok(R.name is None if name is None else R.name.startswith(name), "name of the result", got=R.name)
    c.ok(list(R.symbols()) == list(syms), "symbols of the result")
    x, p = m.point(c)
    fv = [mp.mpf(c.uni(0.1, 0.8)) for _ in free]
    with mp.workdps(sym.DPS):
        a = m.ev(arr, x, p)
        Ln = sym.ev(sp.Array(L.tolist()), free, fv)
        Li = inverse_any(Ln)
        want = apply(Ln, Li, a, cf)
        s = 1 + maxabs(apply(absm(Ln), absm(Li), absm(a), cf))
        got = sym.ev(R.tensor(), list(syms) + m.params + free, list(x) + list(p) + fv)
        close(c, got, want, s, "transformed components", rel=1e-12 if kind == "float" else 1e-20, config=cf, cls=cls.__name__)
        P = R.parent_metric
        if P is not None and P is not R:  # later index changes would use it
            old = m.ev(sp.Array(m.rows), x, p)
            pm = sym.ev(P.tensor(), list(syms) + m.params + free, list(x) + list(p) + fv)
            close(c, pm, apply(Ln, Li, old if P.config == "ll" else inverse_any(old), P.config), 1 + maxabs(apply(absm(Ln), absm(Li), absm(old), "ll")),
                  "transformed tensor still claims the old metric", rel=1e-12)
    c.seen(cls.__name__, cf, kind)


def inverse_any(L):
    n = L.shape[0]
    M = mp.matrix(n, n)
    for i in range(n):
        for j in range(n):
            M[i, j] = L[i, j]
    Mi = M ** -1
    return np.array([[Mi[i, j] for j in range(n)] for i in range(n)], dtype=object)


@CHECK.clause("invariants", quick=100, thorough=1500, timeout=80, chunk=1)
def invariants(c):
    """Minkowski metric unchanged; contractions invariant; composition; inverse"""
    syms = sp.symbols("t x y z")
    m = sym.Met("eta", ETA.tolist(), syms, [sp.Symbol("k")])
    kind, L, free = lorentz(c, 4, c.pick(["boost", "rotation", "both", "boost"] + (["rapidity"] if c.coin(0.1) else [])))
    x, p = m.point(c)
    fv = [mp.mpf(c.uni(0.1, 0.8)) for _ in free]
    allv, vals = list(syms) + m.params + free, list(x) + list(p) + fv

    def ev(T):
        return sym.ev(T.tensor(), allv, vals)
    c.note(transform=kind)
    with mp.workdps(sym.DPS):
        for sg in (1, -1):
            for cf in ("ll", "uu"):
                eta = MetricTensor((ETA * sg).tolist(), syms, config=cf)
                r = eta.lorentz_transform(as_arg(c, L))
                c.ok(isinstance(r, MetricTensor), "transformed metric is not a metric")
                close(c, ev(r), np.array((ETA * sg).tolist(), dtype=object), mp.mpf(1000), "the Minkowski metric changes under a Lorentz transformation",
                      rel=1e-20, config=cf)
        eta = MinkowskiCartesian(c=sp.S(1))
        close(c, ev(eta.lorentz_transform(as_arg(c, L))), np.array(ETA.tolist(), dtype=object), mp.mpf(1000),
              "predefined Minkowski metric changes under a Lorentz transformation", rel=1e-20)
        V = GenericVector(rand_array(c, m, 1, 0.6, True), syms, config="u", parent_metric=eta)
        W = GenericVector(rand_array(c, m, 1, 0.6, True), syms, config="l", parent_metric=eta)
        A, B = as_arg(c, L), None
        s0 = ev(tensor_product(V, W, 0, 0))
        s1 = ev(tensor_product(V.lorentz_transform(A), W.lorentz_transform(A), 0, 0))
        big = 1000 * (1 + maxabs(ev(V))) * (1 + maxabs(ev(W)))
        close(c, s1, s0, big, "contraction of a vector with a covector is not invariant", rel=1e-20)
        # raising commutes with transforming
        a = ev(V.change_config("l").lorentz_transform(A))
        b = ev(V.lorentz_transform(A).change_config("l", metric=eta))
        close(c, a, b, big, "lowering does not commute with a Lorentz transformation", rel=1e-20)
        F = RicciTensor(rand_array(c, m, 2, 0.2, True), syms, config=conf(c, 2))
        k2, L2, f2 = lorentz(c, 4, c.pick(["boost", "rotation"]))
        one = F.lorentz_transform(A).lorentz_transform(as_arg(c, L2))
        both = F.lorentz_transform((L2 * L).tolist())
        close(c, ev(one), ev(both), 10000 * (1 + maxabs(ev(F))), "composition is not the transform by the product", rel=1e-20, kinds=(kind, k2))
        inv = F.lorentz_transform(A).lorentz_transform(sp.simplify(L.inv()).tolist())
        close(c, ev(inv), ev(F), 10000 * (1 + maxabs(ev(F))), "transforming back does not restore the tensor", rel=1e-20)
        idt = F.lorentz_transform(sp.eye(4).tolist())
        close(c, ev(idt), ev(F), 1 + maxabs(ev(F)), "the identity transformation changes the tensor", rel=1e-20)
    c.seen(kind, k2, F.config)


@CHECK.clause("transformation_matrix", quick=120, thorough=1000, timeout=60)
def transformation_matrix(c):
    kind = c.pick(["polar", "one", "linear", "spherical", "parabolic", "scaling"])
    if kind == "one":
        old, new = sp.symbols(["x"]), sp.symbols(["r"])
        rel = [c.pick([new[0] ** 2, sp.exp(new[0]), 3 * new[0], sp.tan(new[0] / 4)])]
    elif kind == "polar":
        old, new = sp.symbols("x y"), sp.symbols("r theta")
        rel = [new[0] * sp.cos(new[1]), new[0] * sp.sin(new[1])]
    elif kind == "linear":
        old, new = sp.symbols("x y"), sp.symbols("u v")
        rel = [c.rint(1, 4) * new[0] + c.rint(1, 3) * new[1], -c.rint(1, 4) * new[0] + 7 * new[1]]
    elif kind == "parabolic":
        old, new = sp.symbols("x y"), sp.symbols("s q")
        rel = [new[0] * new[1], (new[0] ** 2 - new[1] ** 2) / 2]
    elif kind == "scaling":
        old, new = sp.symbols("x y"), sp.symbols("u v")
        rel = [2 * new[0], new[1] ** 2]
    else:
        old, new = sp.symbols("x y z"), sp.symbols("r theta phi")
        r, t, f = new
        rel = [r * sp.sin(t) * sp.cos(f), r * sp.sin(t) * sp.sin(f), r * sp.cos(t)]
    old, new = list(old), list(new)
    n = len(old)
    T = TransformationMatrix.from_new2old(old, new, rel)
    c.note(kind=kind, relation=str(rel))
    c.ok(T.shape == (n, n), "shape", got=T.shape)
    c.ok(list(T.old_coords) == old and list(T.new_coords) == new and list(T.new2old) == rel, "coordinates or relations not kept")
    x = [mp.mpf(c.uni(0.4, 1.1)) for _ in new]
    with mp.workdps(sym.DPS):
        D = sym.ev(sp.Array([[sp.diff(e, q) for q in new] for e in rel]), new, x)  # d old / d new
        true = inverse_any(D)  # d new_i / d old_j
        flat = np.vectorize(lambda v: 1 / v if v else mp.inf, otypes=[object])(D.T)

        def val(a):
            out = np.empty((n, n), dtype=object)
            for i in range(n):
                for j in range(n):
                    e = sp.sympify(a[i, j])
                    out[i, j] = mp.inf if e.has(sp.zoo, sp.nan, sp.oo) else sym.ev(e, new, x)[()]
            return out

        def verdict(got, want, elementwise, what):
            def eq(a, b):
                return all((u == v) or abs(u - v) <= 1e-18 * (1 + abs(v)) for u, v in zip(a.flat, b.flat))
            if not eq(got, want):
                c.ok(False, f"{what} is not the Jacobian of the coordinate change", "elementwise-reciprocal" if eq(got, elementwise) else None,
                     got=str(got), want=str(want), relation=str(rel))
            else:
                c.ok(True, what)
        verdict(val(T), true, flat, "TransformationMatrix.from_new2old")
        ti = T.inv()
        verdict(val(ti), D, np.vectorize(lambda v: v if v else mp.inf, otypes=[object])(D.T), "TransformationMatrix.inv")
        c.ok(T.inv() == ti, "inverse is not reproducible")
    c.raises(ValueError, lambda: TransformationMatrix([1, 2, 3], old, new), "rank 1 array accepted as a matrix")
    c.raises(ValueError, lambda: TransformationMatrix([[[1]]], old, new), "rank 3 array accepted as a matrix")
    c.raises(NotImplementedError, lambda: TransformationMatrix.from_old2new(old, new, rel), "from_old2new")
    vals = [[c.rint(1, 9) for _ in range(2)] for _ in range(2)]
    M = TransformationMatrix(vals, old, new, old2new=rel)
    c.ok(M.tolist() == vals and M.old2new == rel and M.new2old is None, "explicit matrix not kept")
    c.seen(kind)


if __name__ == "__main__":
    main(CHECK)
