"""Independent curvature oracle.

Takes a covariant metric as a table of SymPy expressions, differentiates it
(the only symbolic step), evaluates metric and its first and second partial
derivatives at one point with mpmath and obtains connection and curvature by
plain numerical linear algebra.  Nothing of einsteinpy is used.
"""
import itertools

import mpmath as mp
import numpy as np
import sympy as sp

MP = mp.mp.clone()
MP.dps = 34


def _fn(args, exprs):
    f = sp.lambdify(args, exprs, modules=["mpmath"])
    return f


class Geometry:
    """Metric jets compiled once, evaluated at many points."""

    def __init__(self, rows, coords, order=2):
        self.n = n = len(coords)
        self.coords = list(coords)
        rows = [[sp.sympify(rows[i][j]) for j in range(n)] for i in range(n)]
        self.params = sorted(
            {s for r in rows for e in r for s in e.free_symbols} - set(self.coords),
            key=lambda s: s.name,
        )
        flat = []
        self._idx = []
        for i in range(n):
            for j in range(i, n):
                e = rows[i][j]
                flat.append(e)
                self._idx.append((0, i, j))
                for k in range(n):
                    d = sp.diff(e, self.coords[k])
                    if d == 0:
                        continue
                    flat.append(d)
                    self._idx.append((1, i, j, k))
                    for l in range(k, n) if order >= 2 else ():
                        dd = sp.diff(d, self.coords[l])
                        if dd == 0:
                            continue
                        flat.append(dd)
                        self._idx.append((2, i, j, k, l))
        self._f = _fn(self.coords + self.params, flat)

    def conn(self, point, params=()):
        """metric, inverse, first derivatives and Christoffel symbols only"""
        g, dg, _ = self.jet(point, params)
        with mp.workdps(34):
            gi = inverse(g)
            first = (np.einsum("mjk->mjk", dg) + np.einsum("mkj->mjk", dg)
                     - np.einsum("jkm->mjk", dg)) * (mp.mpf(1) / 2)
            return dict(g=g, ginv=gi, dg=dg, gamma=np.tensordot(gi, first, 1))

    def at(self, point, params=()):
        """point, params: sequences of numbers -> dict of numpy object arrays"""
        with mp.workdps(34):
            return curvature(*self.jet(point, params))

    def jet(self, point, params=()):
        n = self.n
        with mp.workdps(34):
            vals = self._f(*[mp.mpf(x) if not isinstance(x, mp.mpc) else x
                             for x in [*point, *params]])
            z = mp.mpf(0)
            g = np.full((n, n), z, dtype=object)
            dg = np.full((n, n, n), z, dtype=object)  # dg[i,j,k] = d_k g_ij
            ddg = np.full((n, n, n, n), z, dtype=object)
            for ix, v in zip(self._idx, vals):
                v = mp.mpmathify(v)
                if ix[0] == 0:
                    _, i, j = ix
                    g[i, j] = g[j, i] = v
                elif ix[0] == 1:
                    _, i, j, k = ix
                    dg[i, j, k] = dg[j, i, k] = v
                else:
                    _, i, j, k, l = ix
                    for a, b in ((i, j), (j, i)):
                        ddg[a, b, k, l] = ddg[a, b, l, k] = v
            return g, dg, ddg


def inverse(g):
    n = g.shape[0]
    # equilibrate first: metrics in SI units span a hundred orders of magnitude
    s = []
    for i in range(n):
        d = abs(g[i, i])
        s.append(mp.sqrt(d) if d else mp.mpf(1))
    m = mp.matrix([[g[i, j] / (s[i] * s[j]) for j in range(n)] for i in range(n)])
    mi = m ** -1
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = mi[i, j] / (s[i] * s[j])
    return out


def curvature(g, dg, ddg):
    n = g.shape[0]
    gi = inverse(g)
    # first kind: G[m,j,k] = 1/2 (d_k g_mj + d_j g_mk - d_m g_jk)
    G1 = np.empty((n, n, n), dtype=object)
    dG1 = np.empty((n, n, n, n), dtype=object)  # last index derivative
    half = mp.mpf(1) / 2
    for m, j, k in itertools.product(range(n), repeat=3):
        G1[m, j, k] = half * (dg[m, j, k] + dg[m, k, j] - dg[j, k, m])
        for l in range(n):
            dG1[m, j, k, l] = half * (ddg[m, j, k, l] + ddg[m, k, j, l] - ddg[j, k, m, l])
    Gam = np.einsum("im,mjk->ijk", gi, G1)
    # R_{abcd} from second derivatives and first-kind symbols (independent of the
    # Gamma-derivative route the library takes):
    # R_abcd = 1/2 (g_ad,bc + g_bc,ad - g_ac,bd - g_bd,ac) + g^{ef}(G_ebc G_fad - G_ebd G_fac)
    t1 = half * (
        np.einsum("adbc->abcd", ddg)
        + np.einsum("bcad->abcd", ddg)
        - np.einsum("acbd->abcd", ddg)
        - np.einsum("bdac->abcd", ddg)
    )
    H = np.einsum("ef,fad->ead", gi, G1)
    t2 = np.einsum("ebc,ead->abcd", G1, H) - np.einsum("ebd,eac->abcd", G1, H)
    R = t1 + t2
    Rup = np.einsum("ae,ebcd->abcd", gi, R)
    ric = np.einsum("abac->bc", np.einsum("ae,ebcd->abcd", gi, R))
    rs = np.einsum("ab,ab->", gi, ric)
    G = ric - g * (rs * half)
    return dict(g=g, ginv=gi, dg=dg, gamma=Gam, riem=R, riem_up=Rup, ricci=ric,
                rscalar=rs, einstein=G)


def schouten(c):
    n = c["g"].shape[0]
    return (c["ricci"] - c["g"] * (c["rscalar"] / (2 * (n - 1)))) / (n - 2)


def weyl(c):
    g, R = c["g"], c["riem"]
    n = g.shape[0]
    if n == 3:
        return R * 0
    P = schouten(c)
    # C = R - (g o P) (Kulkarni-Nomizu)
    kn = (
        np.einsum("ac,bd->abcd", g, P)
        + np.einsum("bd,ac->abcd", g, P)
        - np.einsum("ad,bc->abcd", g, P)
        - np.einsum("bc,ad->abcd", g, P)
    )
    return R - kn


def maxabs(a):
    a = np.asarray(a, dtype=object)
    return max((abs(x) for x in a.flat), default=mp.mpf(0))
