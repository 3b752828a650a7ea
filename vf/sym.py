"""Random symbolic metrics and numerical evaluation of symbolic arrays (40 digits)."""
import itertools

import mpmath as mp
import numpy as np
import sympy as sp

from vf.curv import Geometry

DPS = 40
R = sp.Rational
NAMES = [["t", "x", "y", "z", "w"], ["t", "r", "theta", "phi", "psi"], ["u", "v", "x", "y", "z"], ["x0", "x1", "x2", "x3", "x4"],
         ["t", "chi", "theta", "phi", "xi"]]


class Met:
    """rows of expressions, coordinates, parameters, undefined functions and where to evaluate"""

    def __init__(self, name, rows, syms, params=(), lo=None, hi=None, funcs=None):
        self.name, self.syms, self.params = name, list(syms), list(params)
        self.rows = [[sp.sympify(e) for e in r] for r in rows]
        self.n = len(self.syms)
        self.lo = lo or [0.4] * self.n
        self.hi = hi or [1.2] * self.n
        self.funcs = funcs or {}  # undefined function application -> concrete expression
        self._geo = None

    def concrete(self, e):
        return sp.sympify(e).subs(self.funcs).doit() if self.funcs else e

    def geometry(self):
        if self._geo is None:
            self._geo = Geometry([[self.concrete(e) for e in r] for r in self.rows], self.syms)
        return self._geo

    def point(self, c):
        x = [mp.mpf(c.uni(a, b)) for a, b in zip(self.lo, self.hi)]
        p = [mp.mpf(c.uni(0.15, 0.45)) for _ in self.params]
        return x, p

    def oracle(self, x, p):
        g = self.geometry()
        d = dict(zip(self.params, p))
        return g.at(x, [d[s] for s in g.params])

    def ev(self, arr, x, p):
        """symbolic array (or scalar) -> numpy object array of mpf at the point"""
        return ev(arr, self.syms + self.params, list(x) + list(p), self.funcs)


def ev(arr, syms, vals, funcs=None):
    """evaluate every entry of a sympy array with mpmath"""
    if hasattr(arr, "shape") and hasattr(arr, "tolist") and not isinstance(arr, sp.Expr):
        shape = tuple(arr.shape)
        if shape == ():
            flat = [sp.sympify(arr[()])]
        else:
            flat = list(sp.flatten(arr.tolist()))
    else:
        shape, flat = (), [sp.sympify(arr)]
    if funcs:
        flat = [sp.sympify(e).subs(funcs).doit() for e in flat]
    out = np.full(len(flat), mp.mpf(0), dtype=object)
    idx = [i for i, e in enumerate(flat) if e != 0]
    if idx:
        with mp.workdps(DPS):
            f = sp.lambdify(list(syms), [flat[i] for i in idx], modules=["mpmath"], cse=True)
            for i, v in zip(idx, f(*[mp.mpmathify(v) for v in vals])):
                out[i] = mp.mpmathify(v)
    return out.reshape(shape)


def close(c, got, want, scale, msg, rel=1e-18, **data):
    """object arrays; |got - want| <= rel * scale"""
    got, want = np.asarray(got, dtype=object), np.asarray(want, dtype=object)
    if got.shape != want.shape:
        return c.ok(False, f"{msg}: shape {got.shape} != {want.shape}", **data)
    c.obs += got.size
    worst, k = mp.mpf(0), None
    for i in np.ndindex(got.shape):
        d = abs(got[i] - want[i])
        if not (d <= rel * scale):
            if k is None or d > worst:
                worst, k = d, i
    if k is not None:
        return c.ok(False, f"{msg}: component {k} is {mp.nstr(got[k], 12)}, expected {mp.nstr(want[k], 12)}", **data)
    return c.ok(True, msg)


def maxabs(*arrs):
    m = mp.mpf(0)
    for a in arrs:
        for v in np.asarray(a, dtype=object).flat:
            m = max(m, abs(v))
    return m


def sgn(c):
    return c.pick([1, -1])


def fun1(c, x, k=None, soft=False):
    """a positive function of one variable on (0.4, 1.2)"""
    k = k or c.pick(["sq", "exp", "lin", "quad", "inv", "sq", "lin"] if soft else ["sq", "exp", "sin2", "quad", "lin", "cosh2", "inv", "sqrt"])
    return {"sq": x ** 2, "exp": sp.exp(c.pick([1, 2, -1]) * x), "sin2": sp.sin(x) ** 2, "quad": 1 + x ** 2, "lin": 2 + x,
            "cosh2": sp.cosh(x) ** 2, "inv": 1 / (1 + x), "sqrt": sp.sqrt(1 + x)}[k]


def names(c, n, **kw):
    return list(sp.symbols(c.pick(NAMES)[:n], **kw))


def metric(c, n, kind=None, heavy=False):
    """random metric in n dimensions; heavy=False keeps the library's simplification affordable"""
    kinds = {2: ["full2", "diag", "conformal", "flatmap", "func"],
             3: ["diag", "offdiag", "warped", "conformal", "flatmap", "func", "product"],
             4: ["diag", "warped", "frw", "wave", "offdiag", "conformal", "flatmap", "func", "product", "const"],
             5: ["diag5", "wave", "flatmap", "product", "const"]}[n]
    kind = kind or c.pick(kinds)
    kw = c.pick([{}, {}, {"real": True}, {"positive": True}])
    s = names(c, n, **kw)
    par = sp.Symbol(c.pick(["m", "a", "k", "alpha", "r_s"]), **kw)
    Z = [[sp.S(0)] * n for _ in range(n)]

    def diag(d):
        r = [row[:] for row in Z]
        for i, e in enumerate(d):
            r[i][i] = sp.sympify(e)
        return r
    params, funcs = [], {}
    heavy = heavy or c.coin(0.08 if c.tier == "thorough" else 0.02)
    if kind == "full2":
        x, y = s
        q = c.rint(0, 4)
        if heavy:
            rows = [[-(1 + y ** 2), R(c.rint(1, 3), 2) * x], [R(0), 2 + x * y]]
        elif q == 0:
            rows = [[-1, x], [0, 1 + x]]
        elif q == 1:
            rows = [[y ** 2 - 1, y], [0, 1]]
        elif q == 2:
            rows, params = [[0, par * x * y], [0, 1]], [par]
        elif q == 3:
            rows, params = [[-1 + par ** 2 * x ** 2, par * x], [0, 1]], [par]
        else:
            rows = [[0, sp.exp(x * y)], [0, 0]]
        rows[1][0] = rows[0][1]
    elif kind == "diag":
        d = []
        for i in range(n):
            e = c.pick([1, R(1, 2), 3]) if c.coin(0.35 if n < 4 or heavy else 0.5) else fun1(c, c.pick([v for v in s if v is not s[i]] or s), soft=True)
            d.append(sgn(c) * e)
        if all(sp.sympify(e).is_number for e in d):
            d[0] = -(1 + s[1] ** 2)
        if c.coin(0.3):
            k = c.rint(0, n - 1)
            d[k] = d[k] * (par * s[(k + 1) % n] if not heavy else 1 + par * s[(k + 1) % n])
            params = [par]
        rows = diag(d)
    elif kind == "diag5":
        d = [sgn(c) * c.pick([1, 2]) for _ in range(5)]
        i, j = c.rint(0, 1), c.rint(2, 4)
        d[i] = d[i] * fun1(c, s[j], soft=True)
        d[(j + 1) % 5] = d[(j + 1) % 5] * fun1(c, s[j], "quad")
        rows = diag(d)
    elif kind == "warped":  # -f dt2 + dr2/f + r2 dOmega
        r = s[1]
        f = c.pick([1 - par / r, 1 - par * r ** 2, 1 + par * r ** 2, 1 - par / r + R(1, 20) / r ** 2])
        sg = sgn(c)
        d = [-sg * f, sg / f, sg * r ** 2] + ([sg * r ** 2 * sp.sin(s[2]) ** 2] if n > 3 else [])
        rows, params = diag(d[:n]), [par]
    elif kind == "frw":
        a2 = c.pick([s[0] ** 2, s[0], sp.exp(2 * s[0]), s[0] ** R(4, 3), par ** 2 * s[0]])
        if c.coin():
            rows = diag([-1, a2, a2, a2])
        else:
            rows = diag([-1, a2 / (1 - R(1, 4) * s[1] ** 2), a2 * s[1] ** 2, a2 * s[1] ** 2 * sp.sin(s[2]) ** 2])
        params = [par] if a2.has(par) else []
    elif kind == "wave":  # 2 du dv + H du2 + transverse
        i, j = (0, 1) if c.coin() else (1, 0)
        x, y = s[2], s[3]
        H = c.pick([x ** 2 - y ** 2, x * y * sp.sin(s[0]), x ** 3 + s[0] * y, par * x * y])
        rows = diag([0, 0] + [1] * (n - 2))
        rows[i][i] = H
        rows[0][1] = rows[1][0] = sgn(c) * sp.S(1)
        params = [par] if H.has(par) else []
        if i == 1:  # du is the second coordinate
            rows[1][1] = H.subs(s[0], s[1])
    elif kind == "offdiag":
        x = s[1]
        rows = diag([-1] + [1] * (n - 1))
        j = n - 1
        if heavy:
            e = c.pick([par * x, x ** 2, sp.exp(x)])
            rows[0][j] = rows[j][0] = e / 2
            rows[j][j] = fun1(c, x, c.pick(["sq", "quad", "exp"]))
        else:  # -N dt^2 + h (dphi + A dt)^2
            h = c.pick([sp.S(1), sp.S(2), x ** 2, x])
            e = c.pick([par * x, x ** 2, 1 / x, par / x, x])
            N = c.pick([1, 1, x, x ** 2])
            rows[0][0], rows[j][j] = sp.expand(-N + h * e * e), h
            rows[0][j] = rows[j][0] = sp.expand(h * e)
        params = [par] if e.has(par) else []
    elif kind == "conformal":
        v = c.pick(s)
        om = c.pick([v ** 2, 1 / v ** 2, sp.exp(2 * v), (1 + s[0] + s[-1]) ** 2 if n < 4 else v ** 4])
        rows = diag([-om] + [om] * (n - 1))
    elif kind == "flatmap":  # flat space in other coordinates
        new = list(s)
        i, j = 0, c.rint(1, n - 1)
        new[i] = s[i] + c.pick([s[j] ** 2 / 4, s[j] * R(1, 3), s[j] ** 2 * par])
        if c.coin():
            new[j] = s[j] * c.pick([2, 1 + s[j]])
        J = sp.Matrix(new).jacobian(s)
        eta = sp.diag(*([-1] + [1] * (n - 1)))
        rows = (J.T * eta * J).applyfunc(sp.expand).tolist()
        params = [par] if any(sp.sympify(e).has(par) for e in new) else []
    elif kind == "const":
        A = sp.Matrix(n, n, lambda i, j: R(0))
        for i in range(n):
            A[i, i] = sgn(c) * c.rint(3, 6)
        for i in range(n):
            for j in range(i):
                A[i, j] = A[j, i] = R(c.rint(-2, 2), 2)
        rows = A.tolist()
    elif kind == "func":  # undefined functions
        v = s[1] if n > 1 else s[0]
        F = sp.Function(c.pick(["f", "h", "A"]))
        conc = c.pick([1 + v ** 2, sp.exp(v), 1 - v / 4])
        funcs = {F(v): conc}
        d = [-F(v)] + [1] * (n - 1)
        if c.coin():
            d[1] = 1 / F(v)
        if n > 2:
            d[2] = c.pick([v ** 2, sp.S(1), F(v)])
        if n > 3:
            d[3] = c.pick([v ** 2, sp.S(1), v ** 2 * sp.sin(s[2]) ** 2])
        rows = diag(d)
    elif kind == "product":
        d = [-1, 1] + [1] * (n - 2)
        if n >= 4:
            d = [-1, fun1(c, s[0], soft=True), R(1, 2), fun1(c, s[2], "sin2") / 2] + [1] * (n - 4)
        else:
            d = [-1, par, par * sp.sin(s[1]) ** 2][:n]
            params = [par]
        rows = diag(d)
    if c.coin(0.25) and kind not in ("const",):  # permute the coordinates: nothing may assume time first
        perm = list(c.rng.permutation(n))
        rows = [[rows[perm[i]][perm[j]] for j in range(n)] for i in range(n)]
        s = [s[perm[i]] for i in range(n)]
    return Met(kind, rows, s, params, funcs=funcs)


def config_walks(order):
    return ["".join(p) for p in itertools.product("ul", repeat=order)]


def shift(arr, old, new, m):
    """reference index gymnastics: contract changed indices of the object array with g or its inverse"""
    t = arr
    for i, (o, nw) in enumerate(zip(old, new)):
        if o == nw:
            continue
        M = m["ginv"] if nw == "u" else m["g"]
        t = np.moveaxis(np.tensordot(M, t, axes=(1, i)), 0, i)
    return t


def maxshift(arr, old, new, m):
    """size of the terms summed by shift()"""
    t = np.vectorize(abs, otypes=[object])(arr) if arr.size else arr
    for i, (o, nw) in enumerate(zip(old, new)):
        if o == nw:
            continue
        M = np.vectorize(abs, otypes=[object])(m["ginv"] if nw == "u" else m["g"])
        t = np.moveaxis(np.tensordot(M, t, axes=(1, i)), 0, i)
    return maxabs(t)
