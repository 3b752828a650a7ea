"""Independent integration of geodesics in Kerr-Newman (c = G = M = k_e = 1): Hamilton's equations with
symbolically differentiated inverse metric, DOP853 at near machine tolerance."""
import math

import numpy as np
import sympy as sp
from scipy.integrate import solve_ivp

_F = None


def _compile():
    global _F
    r, th, a, Q = sp.symbols("r theta a Q")
    S = r ** 2 + a ** 2 * sp.cos(th) ** 2
    D = r ** 2 - 2 * r + a ** 2 + Q ** 2
    s2 = sp.sin(th) ** 2
    w = 2 * r - Q ** 2
    gtt = -((r ** 2 + a ** 2) ** 2 - a ** 2 * D * s2) / (S * D)
    gtp = -a * w / (S * D)
    gpp = (D - a ** 2 * s2) / (S * D * s2)
    e = [gtt, gtp, gpp, D / S, 1 / S]
    out = e + [sp.diff(x, r) for x in e] + [sp.diff(x, th) for x in e]
    _F = sp.lambdify((r, th, a, Q), out, modules="math", cse=True)


def comps(r, th, a, Q):
    if _F is None:
        _compile()
    return _F(r, th, a, Q)


def rhs(a, Q):
    def f(lam, y):
        t, r, th, ph, pt, pr, pth, pp = y
        m = comps(r, th, a, Q)

        def quad(o):
            return m[o] * pt * pt + 2 * m[o + 1] * pt * pp + m[o + 2] * pp * pp + m[o + 3] * pr * pr + m[o + 4] * pth * pth
        return [m[0] * pt + m[1] * pp, m[3] * pr, m[4] * pth, m[1] * pt + m[2] * pp, 0.0, -0.5 * quad(5), -0.5 * quad(10), 0.0]
    return f


def ham(y, a, Q):
    """g(p, p)"""
    t, r, th, ph, pt, pr, pth, pp = y
    m = comps(r, th, a, Q)
    return m[0] * pt * pt + 2 * m[1] * pt * pp + m[2] * pp * pp + m[3] * pr * pr + m[4] * pth * pth


def carter(y, a, Q, mu):
    t, r, th, ph, pt, pr, pth, pp = y
    return pth ** 2 + math.cos(th) ** 2 * (a * a * (mu - pt * pt) + pp * pp / math.sin(th) ** 2)


def start(r, th, ph, p, a, Q, mu):
    """initial state with the future-directed p_t"""
    m = comps(r, th, a, Q)
    A, B, C = m[0], 2 * m[1] * p[2], m[2] * p[2] ** 2 + m[3] * p[0] ** 2 + m[4] * p[1] ** 2 + mu
    d = B * B - 4 * A * C
    return None if d < 0 else np.array([0.0, r, th, ph, (-B + math.sqrt(d)) / (2 * A), *p])


def solve(y0, a, Q, lams, rtol=1e-12):
    """states at lams (increasing); None when the orbit gets too close to horizon or axis, or fails"""
    rp = 1 + math.sqrt(max(0, 1 - a * a - Q * Q))

    def hor(lam, y):
        return y[1] - 2 * rp

    def axis(lam, y):
        return math.sin(y[2]) - 0.15
    hor.terminal = axis.terminal = True
    s = solve_ivp(rhs(a, Q), (0, lams[-1]), y0, method="DOP853", t_eval=lams, rtol=rtol,
                  atol=1e-13 * np.maximum(1, np.abs(y0)), events=[hor, axis])
    if not s.success or s.status != 0 or s.y.shape[1] != len(lams):
        return None
    return s.y.T


def pace(ys, a, Q):
    """smallest time on which an orbit changes noticeably"""
    f = rhs(a, Q)
    rp = 1 + math.sqrt(max(0, 1 - a * a - Q * Q))
    out = math.inf
    for y in ys:
        d = f(0, y)
        out = min(out, (y[1] - rp) / (abs(d[1]) + y[1] * abs(d[2]) + y[1] * math.sin(y[2]) * abs(d[3]) + 1e-300),
                  math.sin(y[2]) / (abs(d[2]) + 1e-300), math.sqrt((y[1] - rp) ** 3) / 2 / (1 + d[0]))
    return out


def sample(c, kinds=("bound", "photon", "scatter", "inclined", "plunge", "radial")):
    """(metric name, params, a, Q, y0, mu, kind)"""
    name = c.pick(["Schwarzschild", "Kerr", "Kerr", "KerrNewman"])
    a = 0.0 if name == "Schwarzschild" else c.pick([0.0, c.uni(0, 1), c.uni(0.8, 1), 0.9])
    Q = 0.0
    if name == "KerrNewman":
        Q = c.pick([0.0, c.uni(0, 1), c.uni(0, 1)]) * math.sqrt(1 - a * a) * c.pick([1, -1])
    prm = {"Schwarzschild": (), "Kerr": (a,), "KerrNewman": (a, Q)}[name]
    kind = c.pick(kinds)
    mu = 0 if kind == "photon" else c.pick([1, 1, 0]) if kind in ("scatter", "plunge", "radial") else 1
    r = c.uni(6, 25) if not c.coin(0.15) else c.logu(25, 3e3)
    th, pth = math.pi / 2, 0.0
    pr = 0.0
    L = c.pick([1, 1, -1]) * math.sqrt(r) * c.uni(0.9, 1.2)
    if kind == "photon":
        E = 1.0
        L = c.uni(-0.9, 0.9) * r
        pr = c.pick([1, -1, -1]) * c.uni(0.1, 1)
    elif kind == "scatter":
        pr = -c.uni(0.1, 1)
        L = c.pick([1, -1]) * c.uni(0.6, 1.5) * r * 0.6
    elif kind == "plunge":
        pr = -c.uni(0.05, 0.5)
        L = c.uni(-1.5, 1.5)
    elif kind == "radial":
        pr, L = c.uni(-0.6, 0.6), 0.0
    if kind in ("inclined",) or (kind in ("photon", "scatter") and c.coin()):
        th = c.uni(0.7, 2.4)
        pth = c.uni(-1, 1) * abs(L) * 0.4
        L *= 0.8
    y0 = start(r, th, c.pick([c.uni(-3, 3), c.uni(-3, 3), 0.0, c.uni(-60, 60)]), [pr, pth, L], a, Q, mu)
    return name, prm, a, Q, y0, mu, kind


# ---------------------------------------------------------------- model of the documented algorithm
def _half(r_from, p_with, a, Q):
    """(dq/dlambda, dp/dlambda) of H(q_from, p_with)"""
    m = comps(r_from[1], r_from[2], a, Q)
    pt, pr, pth, pp = p_with

    def quad(o):
        return m[o] * pt * pt + 2 * m[o + 1] * pt * pp + m[o + 2] * pp * pp + m[o + 3] * pr * pr + m[o + 4] * pth * pth
    dq = np.array([m[0] * pt + m[1] * pp, m[3] * pr, m[4] * pth, m[1] * pt + m[2] * pp])
    dp = np.array([0.0, -0.5 * quad(5), -0.5 * quad(10), 0.0])
    return dq, dp


def _s2(s, h, om, a, Q):
    q1, p1, q2, p2 = s
    dq, dp = _half(q1, p2, a, Q)
    q2, p1 = q2 + h / 2 * dq, p1 + h / 2 * dp
    dq, dp = _half(q2, p1, a, Q)
    q1, p2 = q1 + h / 2 * dq, p2 + h / 2 * dp
    co, si = math.cos(2 * om * h), math.sin(2 * om * h)
    sq, dq_, sp_, dp_ = q1 + q2, q1 - q2, p1 + p2, p1 - p2
    rq, rp = dq_ * co + dp_ * si, dp_ * co - dq_ * si
    q1, q2, p1, p2 = (sq + rq) / 2, (sq - rq) / 2, (sp_ + rp) / 2, (sp_ - rp) / 2
    dq, dp = _half(q2, p1, a, Q)
    q1, p2 = q1 + h / 2 * dq, p2 + h / 2 * dp
    dq, dp = _half(q1, p2, a, Q)
    q2, p1 = q2 + h / 2 * dq, p1 + h / 2 * dp
    return q1, p1, q2, p2


def _sn(n, s, h, om, a, Q):
    if n == 2:
        return _s2(s, h, om, a, Q)
    x = 2 ** (1 / (n - 1))
    for w in (1 / (2 - x), -x / (2 - x), 1 / (2 - x)):
        s = _sn(n - 2, s, h * w, om, a, Q)
    return s


def fantasy(order, delta, omega, n, y0, a, Q):
    """n states of the extended phase space integrator (Christian & Chan 2021); None when it diverges"""
    s = (y0[:4], y0[4:], y0[:4], y0[4:])
    out = []
    try:
        for _ in range(n):
            s = _sn(order, s, delta, omega, a, Q)
            y = np.concatenate([s[0], s[1]])
            if not np.isfinite(y).all() or y[1] <= 0:
                return None
            out.append(y)
    except (OverflowError, ZeroDivisionError, ValueError):
        return None
    return np.array(out)


def scales(R, y0):
    """typical size of each component along an orbit"""
    E = abs(y0[4])
    P = np.abs(R[:, 5:7]).max(0)
    return np.array([max(1, abs(R[-1, 0])), R[:, 1].min(), 1, 1, E, max(E, P[0]), max(E, P[1], abs(y0[7])), max(E, abs(y0[7]))])
