"""Reference models in 50-digit arithmetic, written from the textbook formulas.
Constants come straight from astropy; nothing of einsteinpy is imported."""
import math

import mpmath as mp
import numpy as np
import sympy as sp
from astropy import constants as const

from vf.curv import Geometry

mp.mp.dps = 50

C = float(const.c.value)
G = float(const.G.value)
EPS0 = float(const.eps0.value)
KE = 1.0 / (4.0 * math.pi * EPS0)
EPS = 2.0 ** -52


def rs_of(M):
    return 2 * G * M / C ** 2


def alpha_of(M, a):
    return a * G * M / C ** 2


def rq_of(Q):
    return Q * math.sqrt(G * KE) / C ** 2


# ---------------------------------------------------------------- coordinates
def bl_pos(r, th, ph, al):
    r, th, ph, al = map(mp.mpf, (r, th, ph, al))
    s = mp.sqrt(r * r + al * al)
    return s * mp.sin(th) * mp.cos(ph), s * mp.sin(th) * mp.sin(ph), r * mp.cos(th)


def bl_inv(x, y, z, al):
    """(r>=0, theta, phi) of a Cartesian point on oblate spheroids of focal ring al"""
    x, y, z, al = map(mp.mpf, (x, y, z, al))
    R2 = x * x + y * y + z * z
    w = R2 - al * al
    root = mp.sqrt(w * w + 4 * al * al * z * z)
    r2 = (w + root) / 2 if w >= 0 else (
        2 * al * al * z * z / (root - w) if root != w else mp.mpf(0))
    r = mp.sqrt(r2)
    h = mp.hypot(x, y)
    xa = mp.sqrt(r2 + al * al)
    if r == 0 and z == 0:
        th = mp.asin(h / xa) if xa else mp.mpf(0)
    else:
        th = mp.atan2(r * h, xa * z)
    return r, th, mp.atan2(y, x)


def bl_jac(r, th, ph, al):
    """d(x,y,z)/d(r,theta,phi)"""
    r, th, ph, al = map(mp.mpf, (r, th, ph, al))
    xa = mp.sqrt(r * r + al * al)
    st, ct, sph, cph = mp.sin(th), mp.cos(th), mp.sin(ph), mp.cos(ph)
    return mp.matrix([
        [r / xa * st * cph, xa * ct * cph, -xa * st * sph],
        [r / xa * st * sph, xa * ct * sph, xa * st * cph],
        [ct, -r * st, 0],
    ])


def wrap(d):
    """angle difference folded to [-pi, pi]"""
    return float((float(d) + math.pi) % (2 * math.pi) - math.pi)


# ------------------------------------------------------------ numeric metrics
_t, _r, _th, _ph = sp.symbols("t r theta phi")
_c, _rs, _al, _q2 = sp.symbols("c r_s alpha rq2")


def _kn_rows():
    S = _r ** 2 + _al ** 2 * sp.cos(_th) ** 2
    f = (_rs * _r - _q2) / S
    D = _r ** 2 - _rs * _r + _al ** 2 + _q2
    s2 = sp.sin(_th) ** 2
    return [
        [_c ** 2 * (1 - f), 0, 0, _c * _al * s2 * f],
        [0, -S / D, 0, 0],
        [0, 0, -S, 0],
        [_c * _al * s2 * f, 0, 0, -s2 * (_r ** 2 + _al ** 2 + _al ** 2 * s2 * f)],
    ]


_KN = None


def kn_geometry():
    """signature (+,-,-,-), coordinates (t, r, theta, phi), t in seconds"""
    global _KN
    if _KN is None:
        _KN = Geometry(_kn_rows(), [_t, _r, _th, _ph], order=1)
        assert [s.name for s in _KN.params] == ["alpha", "c", "r_s", "rq2"]
    return _KN


def kn(M, a, Q, pos):
    """dict g, ginv, dg, gamma as float arrays plus conditioning kappa"""
    g = kn_geometry()
    M, a, Q = mp.mpf(M), mp.mpf(a), mp.mpf(Q)
    c, Gn, ke = mp.mpf(C), mp.mpf(G), 1 / (4 * mp.pi * mp.mpf(EPS0))
    al, rs = a * Gn * M / c ** 2, 2 * Gn * M / c ** 2
    q2 = Q * Q * Gn * ke / c ** 4
    o = g.conn(pos, [al, c, rs, q2])
    r, th = mp.mpf(pos[1]), mp.mpf(pos[2])
    D = r * r - rs * r + al * al + q2
    gg = o["g"]
    det = gg[0, 0] * gg[3, 3] - gg[0, 3] ** 2
    kap = float((r * r + rs * r + al * al + q2) / abs(D)) + float(
        (abs(gg[0, 0] * gg[3, 3]) + gg[0, 3] ** 2) / abs(det))
    S = r * r + al * al * mp.cos(th) ** 2
    kap += float((r * r + rs * r + q2) / abs(S - rs * r + q2)) if S - rs * r + q2 else 1e30
    out = {k: tofloat(v) for k, v in o.items()}
    out["kappa"] = kap
    out["delta"], out["sigma"] = float(D), float(S)
    out["rs"], out["alpha"], out["rq2"] = float(rs), float(al), float(q2)
    return out


def tofloat(a):
    a = np.asarray(a, dtype=object)
    return np.array([float(x) for x in a.flat], dtype=float).reshape(a.shape)


def gamma_tol(o, x, k=2e-14):
    """rounding allowance per Christoffel symbol: every metric derivative carries eps times the size
    of the metric over the length on which it varies, and the sum over l can cancel"""
    g, gi = np.abs(o["g"]), np.abs(o["ginv"])
    r, s = x[1], max(abs(math.sin(x[2])), 1e-300)
    d = np.sqrt(np.abs(np.diag(o["g"])))
    gn = g + 0.0
    # off-diagonal t-phi: natural size before cancellation
    dg = np.zeros((4, 4, 4))
    dg[:, :, 1] = gn / r
    dg[:, :, 2] = gn * np.abs(math.cos(x[2])) / s + gn
    al, c = o["alpha"], C
    ext = c * al * s * s * (r * r + al * al + o["rs"] * r + o["rq2"]) / o["sigma"]
    dg[0, 3, 1] += ext / r
    dg[3, 0, 1] += ext / r
    dg[0, 3, 2] += ext * (abs(math.cos(x[2])) / s + 1e-16)
    dg[3, 0, 2] += ext * (abs(math.cos(x[2])) / s + 1e-16)
    dg = np.maximum(dg, np.abs(o["dg"]))
    first = 0.5 * (dg + np.transpose(dg, (0, 2, 1)) + np.transpose(dg, (2, 0, 1)))
    t = np.einsum("il,ljk->ijk", gi, first)
    t = np.maximum(t, np.transpose(t, (0, 2, 1)))
    return k * o["kappa"] * t + 1e-300


def kn_geo(a, Q, pos):
    """Kerr-Newman with c = G = M = k_e = 1, signature (-,+,+,+); adds dginv[k] = d_k g^-1 (float arrays)
    and kappa, the amplification of rounding near coordinate singularities"""
    geo = kn_geometry()
    a, Q = mp.mpf(a), mp.mpf(Q)
    o = geo.conn(pos, [a, mp.mpf(1), mp.mpf(2), Q * Q])
    g, gi, dg = -o["g"], -o["ginv"], -o["dg"]
    n = 4
    dgi = np.empty((n, n, n), dtype=object)
    for k in range(n):
        dk = np.array([[dg[i, j, k] for j in range(n)] for i in range(n)], dtype=object)
        dgi[k] = -gi.dot(dk).dot(gi)
    r, th = mp.mpf(pos[1]), mp.mpf(pos[2])
    D = r * r - 2 * r + a * a + Q * Q
    S = r * r + a * a * mp.cos(th) ** 2
    kap = float((r * r + 2 * r + a * a + Q * Q) / abs(D)) + float((S + 2 * r + Q * Q) / max(abs(S - 2 * r + Q * Q), mp.mpf(10) ** -30))
    return dict(g=tofloat(g), ginv=tofloat(gi), dg=tofloat(dg), dginv=tofloat(dgi), gamma=tofloat(o["gamma"]),
                kappa=kap, delta=float(D), sigma=float(S))
