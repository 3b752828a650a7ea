"""C18 substituting, simplifying and lambdifying tensors preserve their values."""
import mpmath as mp
import numpy as np
import sympy as sp
from sympy.core.function import AppliedUndef

from vf import sym
from vf.core import Check, main
from vf.sym import close, maxabs

from checks.c14 import mt
from checks.c16 import RANK, conf, rand_array
from einsteinpy.symbolic import (
    BaseRelativityTensor, ChristoffelSymbols, EinsteinTensor, GenericVector, MetricTensor, RicciScalar, RicciTensor,
    RiemannCurvatureTensor, SchoutenTensor, StressEnergyMomentumTensor, Tensor, WeylTensor, predefined, simplify_sympy_array,
)
from einsteinpy.symbolic.helpers import sympy_to_np_array

CHECK = Check(
    "C18",
    "one case = one tensor (every class; derived from generated or predefined metrics, configuration changed, transformed, or random "
    "components) and one operation (lambdify, subs, simplify, indexing, construction) observed at random points; distinct = (class, "
    "operation form, origin)",
    ["direct 40-digit evaluation of the tensor's own expressions is the reference"],
)
PRE = ["Minkowski", "MinkowskiPolar", "Schwarzschild", "ReissnerNordstorm", "BarriolaVilekin", "BertottiKasner", "DeSitter", "AntiDeSitter",
       "AntiDeSitterStatic", "Godel", "Davidson", "Ernst", "JanisNewmanWinicour", "AlcubierreWarp", "BesselGravitationalWave", "Kerr",
       "KerrNewman"]
LIGHTWEIGHT = ["Minkowski", "MinkowskiPolar", "Schwarzschild", "BarriolaVilekin", "BertottiKasner", "DeSitter", "AntiDeSitter",
               "AntiDeSitterStatic", "Godel"]


def derive(c, g, n, what=None):
    what = what or c.pick(["metric", "inverse", "christoffel", "riemann", "ricci", "scalar", "einstein", "stress"] +
                          (["schouten", "weyl"] if n > 2 else []))
    T = {"metric": lambda: g, "inverse": lambda: g.inv(), "christoffel": lambda: ChristoffelSymbols.from_metric(g),
         "riemann": lambda: RiemannCurvatureTensor.from_metric(g), "ricci": lambda: RicciTensor.from_metric(g),
         "scalar": lambda: RicciScalar.from_metric(g), "einstein": lambda: EinsteinTensor.from_metric(g),
         "stress": lambda: StressEnergyMomentumTensor.from_metric(g), "schouten": lambda: SchoutenTensor.from_metric(g),
         "weyl": lambda: WeylTensor.from_metric(g)}[what]()
    return what, T


def free_of(A):
    return sorted(A.free_symbols, key=lambda v: v.name)


def sharpen(c, A, m):
    """components whose value depends on the sign of a symbol, and more free parameters than the metric has"""
    if not c.coin(0.7):
        return A
    flat = list(sp.flatten(A.tolist()))
    q, b = sp.symbols(c.pick(["q b", "Z a1", "p2 p1"]))
    for _ in range(c.rint(1, 3)):
        s, y = c.pick(m.syms), c.pick([*m.syms, q])
        flat[c.rint(0, len(flat) - 1)] = c.pick([sp.sqrt(s ** 2), sp.log(s ** 2), sp.sqrt(s ** 2 + 2 * s * y + y ** 2), sp.Abs(s) * s,
                                                 (s ** 4) ** sp.Rational(1, 4), sp.sqrt(s ** 2) / s + 1, (q - b) * s, b / q + y, sp.Abs(s - y),
                                                 sp.exp(sp.log(s ** 2) / 2), sp.atan2(s, y), sp.sqrt(s ** 2 * q ** 2)])
    return sp.Array(flat).reshape(*A.shape)


def tensor(c):
    """(origin, tensor) of any class"""
    k = c.index % 5
    if k == 0 and c.coin(0.12):
        m = sym.metric(c, c.pick([2, 3, 4]))
        e = rand_array(c, m, 1, 1.0)[0] + c.pick([0, 1, sp.Rational(7, 3), -2, 2.5])
        e = c.pick([e, e * rand_array(c, m, 1, 1.0)[0], 1 / (e + 20)])
        return "random scalar", RicciScalar(c.pick([e, sp.Array(e)]), m.syms)
    if k == 0:
        rank = c.pick([1, 2, 3, 4])
        n = c.pick([2, 3, 4]) if rank < 4 else 2
        m = sym.metric(c, n)
        cls = c.pick(RANK[rank] + [BaseRelativityTensor] * 2)
        A = sharpen(c, rand_array(c, m, rank), m)
        kw = {} if c.coin() else {"parent_metric": mt(m)}
        if cls is BaseRelativityTensor and c.coin(0.7):  # the caller lists the variables: any order, possibly more than occur
            occur = [v for v in free_of(A) if v not in m.syms]
            extra = [v for v in sp.symbols("h9 G Lambda_2")[: c.rint(0, 2)] if v not in occur]
            v = occur + extra
            kw["variables"] = c.pick([list, tuple])([v[i] for i in c.rng.permutation(len(v))])
        given = None if "variables" not in kw else type(kw["variables"])(list(kw["variables"]))
        T = cls(A, m.syms, config=conf(c, rank), name=c.pick(["T", None]), **kw)
        if given != kw.get("variables"):
            c.ok(False, "the list of variables passed in was modified", got=str(kw.get("variables")), given=str(given))
        c.given = given
        return "random", T
    if k == 1:
        name = c.pick(PRE)
        return "predefined metric", getattr(predefined, name)()
    if k == 2:
        name = c.pick(LIGHTWEIGHT)
        w, T = derive(c, getattr(predefined, name)(), 4)
        return f"predefined {w}", T
    n = c.pick([2, 3, 3, 4])
    m = sym.metric(c, n)
    w, T = derive(c, mt(m), n)
    if k == 4 and w not in ("metric", "inverse", "scalar"):
        new = conf(c, T.order)
        T = T.change_config(new)
        w += "*"
    if c.coin(0.15) and not m.funcs and T.order < 3 and n < 4:
        T = T.lorentz_transform(sp.diag(*[c.pick([1, 2]) for _ in range(n)]).tolist())
        w += " transformed"
    return w, T


def free(T):
    return sorted(sp.Array(T.tensor()).free_symbols if T.order else sp.sympify(T.tensor()[()]).free_symbols, key=lambda s: s.name)


def funcs_of(T):
    return T.tensor().atoms(AppliedUndef)


def values(c, symbols, negative=False):
    return {s: c.uni(0.35, 1.15) * (c.pick([1, -1]) if negative and not s.is_positive else 1) for s in symbols}


def at(c, arr, symbols):
    """(point, values there); the point has negative coordinates too where the components are finite reals"""
    for neg in (True, False):
        d = values(c, symbols, neg)
        try:
            v = ev(arr, d)
        except (ZeroDivisionError, ValueError):
            continue
        if all(mp.isfinite(q) and mp.im(q) == 0 for q in np.asarray(v, dtype=object).flat):
            break
    else:
        c.skip("singular point")
    c.count("points with negative values", int(any(q < 0 for q in d.values())))
    return d, v


def ev(arr, d):
    ks = list(d)
    return sym.ev(arr, ks, [d[k] for k in ks])


@CHECK.clause("lambdify", quick=220, thorough=2500, timeout=60, chunk=1)
def lambdify(c):
    origin, T = tensor(c)
    c.note(origin=origin, cls=type(T).__name__, config=T.config)
    fs = free(T)
    sy = list(T.symbols())
    given = getattr(c, "given", None)
    c.ok(list(T.variables) == (list(given) if given else [s for s in fs if s not in sy]), "declared variables are not the free symbols besides the coordinates",
         got=str(T.variables), free=str(fs), origin=origin)
    if isinstance(T, RicciScalar):
        e = sp.sympify(T.expr)
        with mp.workdps(sym.DPS):
            q = {v: c.uni(0.4, 1.1) for v in e.free_symbols | set(fs)}
            E, t = sp.Array([T.expr]), sp.Array([T.tensor()[()]])
            if not (E.atoms(AppliedUndef) or t.atoms(AppliedUndef)):
                close(c, ev(E, q), ev(t, q), 1 + maxabs(ev(t, q)), "expr of the Ricci scalar is not its value", rel=1e-10)
    c.ok(set(funcs_of(T)) <= set(T.functions), "declared functions miss one of the tensor's undefined functions", got=str(T.functions))
    c.ok(set(map(str, T.functions)) <= set(map(str, funcs_of(T))) | {str(f.func) for f in funcs_of(T)}, "declared function does not occur")
    if funcs_of(T):
        c.skip("undefined functions cannot be lambdified")
    args, f = T.tensor_lambdify()
    c.ok(list(args) == sy + list(T.variables), "argument list is not coordinates then variables", got=str(args))
    with mp.workdps(sym.DPS):
        d, want = at(c, T.tensor(), args)
    got = np.asarray(f(*[d[a] for a in args]), dtype=complex)
    w = np.array([complex(v) for v in np.asarray(want, dtype=object).flat]).reshape(want.shape)
    s = float(np.max(np.abs(w))) if w.size else 0.0
    ok = got.shape == w.shape
    c.ok(ok, "shape of the numeric function's result", got=got.shape, want=w.shape)
    if ok:
        tol = 1e-8 * np.abs(w) + 1e-10 * (s + 1)
        c.obs += w.size
        c.ok(bool(np.all(np.abs(got - w) <= tol)), "numeric function differs from the expressions", origin=origin,
             worst=float(np.max(np.abs(got - w))))
    # explicit arguments, any order and superfluous ones
    mine = list(args) + [sp.Symbol("unused")]
    mine = [mine[i] for i in c.rng.permutation(len(mine))]
    a2, f2 = T.tensor_lambdify(*mine)
    c.ok(tuple(a2) == tuple(mine), "explicit arguments not kept in order", got=str(a2))
    d[sp.Symbol("unused")] = 0.0
    got2 = np.asarray(f2(*[d[a] for a in mine]), dtype=complex)
    c.ok(got2.shape == got.shape and bool(np.all(np.abs(got2 - got) <= 1e-12 * (1 + np.abs(got)))),
         "numeric function with explicit arguments differs")
    c.seen(type(T).__name__, origin, T.config if T.order < 3 else "")


@CHECK.clause("subs", quick=220, thorough=2500, timeout=60, chunk=1)
def subs(c):
    origin, T = tensor(c)
    fs = free(T)
    before = T.tensor()
    c.note(origin=origin, cls=type(T).__name__, config=T.config)
    if not fs or funcs_of(T):
        c.skip("nothing to substitute numerically")
    pick = [fs[i] for i in c.rng.permutation(len(fs))][: c.rint(1, len(fs))]
    new = sp.Symbol("zz", positive=True)
    rep = [(s, c.pick([sp.Rational(c.rint(4, 9), 7), new, new / 2 + sp.Rational(1, 3)])) for s in pick]
    form = c.pick(["pair", "list", "tuple", "dict"])
    if form == "pair":
        rep = rep[:1]
        S = T.subs(*rep[0])
    else:
        S = T.subs({"list": list, "tuple": tuple, "dict": dict}[form](rep))
    c.ok(isinstance(S, Tensor), "subs does not return a tensor")
    c.ok(S.config == T.config and S.order == T.order and S.name == T.name, "subs changes configuration, order or name",
         got=(S.config, S.order, S.name), want=(T.config, T.order, T.name))
    c.ok(T.tensor() == before, "subs modified the tensor")
    d = values(c, [s for s in fs if s not in dict(rep)] + [new], c.coin())
    with mp.workdps(sym.DPS):
        full = dict(d)
        for s, e in rep:
            full[s] = sym.ev(e, [new], [d[new]])[()]
        try:
            want = ev(T.tensor(), {k: full[k] for k in fs})
        except (ZeroDivisionError, ValueError):
            c.skip("substitution hits a singularity of the tensor")
        if not all(mp.isfinite(v) for v in np.asarray(want, dtype=object).flat):
            c.skip("substitution hits a singularity of the tensor")
        got = ev(S.tensor(), d)
        close(c, got, want, 1 + maxabs(want), "substituted tensor has other values", rel=1e-10, form=form, origin=origin)
    left = set(sp.sympify(e) for e in S.tensor().free_symbols)
    c.ok(not (left & {s for s, _ in rep} - {new}), "a substituted symbol is still there", left=str(left))
    # symbol that does not occur
    c.ok(T.subs(sp.Symbol("not_there"), 3).tensor() == before, "substituting an absent symbol changes the tensor")
    c.seen(type(T).__name__, origin, form, len(rep))


@CHECK.clause("simplify", quick=110, thorough=1200, timeout=60, chunk=1)
def simplify(c):
    origin, T = tensor(c)
    if T.order == 4 and origin not in ("random",) or "weyl" in origin:
        c.skip("too slow to simplify again")
    if funcs_of(T):
        c.skip("undefined functions")
    fs = free(T)
    before, cf, nm = T.tensor(), T.config, T.name
    c.note(origin=origin, cls=type(T).__name__)
    with mp.workdps(sym.DPS):
        d, want = at(c, before, fs)
        r = T.simplify(set_self=False)
        c.ok(T.tensor() == before, "simplify(set_self=False) changed the tensor")
        close(c, ev(r, d), want, 1 + maxabs(want), "simplified components have other values", rel=1e-10)
        r2 = T.simplify() if c.coin() else T.simplify(set_self=True)
        c.ok(T.tensor() == r2, "simplify does not return the stored components")
        close(c, ev(T.tensor(), d), want, 1 + maxabs(want), "simplify changed the values", rel=1e-10)
    args, f = T.tensor_lambdify()
    if set(args) >= set(free(T)):
        try:
            got = np.asarray(f(*[d.get(a, 0.5) for a in args]), dtype=complex)
        except (ZeroDivisionError, FloatingPointError):
            got = None
        w = np.array([complex(v) for v in np.asarray(want, dtype=object).flat]).reshape(np.shape(want))
        if got is not None:
            c.ok(got.shape == w.shape and bool(np.all(np.abs(got - w) <= 1e-7 * np.abs(w) + 1e-9 * (1 + np.abs(w).max(initial=0)))), "numeric function after simplify differs",
                 worst=float(np.max(np.abs(got - w), initial=0)) if got.shape == w.shape else None)
    else:
        c.ok(False, "after simplify the declared arguments miss free symbols", args=str(args), free=str(free(T)))
    c.ok(T.config == cf and T.name == nm and T.tensor().shape == before.shape, "simplify changed configuration, name or shape")
    c.seen(type(T).__name__, origin)


@CHECK.clause("structure", quick=250, thorough=2500, timeout=60)
def structure(c):
    """construction from every container, indexing, helpers"""
    rank = c.rint(0, 4)
    n = c.rint(2, 3)
    x, y = sp.symbols("x y")
    A = np.empty((n,) * rank, dtype=object)
    for i in np.ndindex(A.shape):
        A[i] = c.pick([sp.Integer(c.rint(-5, 5)), x * c.rint(1, 4), x ** 2 - y, sp.sin(x) ** 2 + sp.cos(x) ** 2, (x ** 2 - 1) / (x - 1) if c.coin(.3) else x])
    cf = conf(c, rank)
    if rank == 0:
        src = c.pick([A[()], c.rint(-4, 9), c.uni(-3, 3), sp.Array(A[()])])
    else:
        src = c.pick([lambda: A.tolist(), lambda: sp.Array(A.tolist()), lambda: A, lambda: tuple(A.tolist()),
                      lambda: c.rng.integers(-5, 5, size=A.shape), lambda: c.rng.normal(size=A.shape)])()
    T = Tensor(src, config=cf, name=c.pick([None, "N"]))
    ref = np.array(sp.Array(src).tolist(), dtype=object) if rank else None
    c.ok(T.order == rank and T.config == cf, "order or configuration", got=(T.order, T.config))
    c.ok(T.tensor().shape == (n,) * rank, "shape", got=T.tensor().shape)
    if rank:
        for _ in range(4):
            ix = tuple(c.rint(0, n - 1) for _ in range(rank))
            c.ok(T[ix] == ref[ix], "indexing does not return the component", ix=ix)
        nparr = sympy_to_np_array(T.tensor())
        c.ok(isinstance(nparr, np.ndarray) and nparr.shape == (n,) * rank and all(nparr[i] == ref[i] for i in np.ndindex(ref.shape)),
             "sympy_to_np_array changes components")
        c.ok(T[0] == (sp.Array(ref[0].tolist()) if rank > 1 else ref[0]), "slicing does not return the sub-array")
    c.ok(str(T.tensor()) in str(T) and (T.name is None or T.name in str(T)), "string form does not show the components")
    s = simplify_sympy_array(T.tensor())
    with mp.workdps(sym.DPS):
        v = [mp.mpf(c.uni(0.2, 0.8)), mp.mpf(c.uni(0.2, 0.8))]
        close(c, sym.ev(s, [x, y], v), sym.ev(T.tensor(), [x, y], v), mp.mpf(10), "simplify_sympy_array changes values", rel=1e-14)
        e = sp.sin(x) ** 2 + sp.cos(x) ** 2 + y
        close(c, sym.ev(simplify_sympy_array(e), [x, y], v), sym.ev(e, [x, y], v), mp.mpf(10), "simplify_sympy_array changes a scalar")
    c.ok(getattr(s, "shape", ()) == (n,) * rank, "simplify_sympy_array changes the shape", got=getattr(s, "shape", None))
    bad = conf(c, rank + 1)
    c.raises(ValueError, lambda: Tensor(src, config=bad), "rank and configuration disagree", rank=rank, config=bad)
    c.raises(TypeError, lambda: Tensor(src, config=c.pick(["x" * max(rank, 1), 5, None, ["l"] * rank])), "malformed configuration")
    c.raises(TypeError, lambda: Tensor(c.pick(["abc", {"a": 1}, {1, 2}]), config=cf), "not an array")
    if rank:
        c.raises(ValueError, lambda: BaseRelativityTensor(src, sp.symbols("a0:%d" % (n + 1)), config=cf), "symbols and shape disagree")
        c.raises((TypeError, ValueError), lambda: BaseRelativityTensor(src, {x, y} if n == 2 else {x, y, sp.Symbol("z")}, config=cf),
                 "symbols given as a set")
    c.note(rank=rank, n=n, container=type(src).__name__)
    c.seen(rank, n, type(src).__name__, cf)


if __name__ == "__main__":
    main(CHECK)
