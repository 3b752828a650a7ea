"""C13 the Runge-Kutta integrators solve y' = f with the advertised order and respect their bound."""
import math
import warnings

import numpy as np
from scipy.linalg import expm

from vf.core import Check, main

from einsteinpy.integrators import RK45, RK4naive

CHECK = Check(
    "C13",
    "one case = one initial value problem with a closed-form solution (scalar, vector or matrix valued; linear, nonlinear, "
    "autonomous or not), direction of integration, step and bound; every evaluation of f and every step is recorded; "
    "distinct = (problem, direction, type of the state, landing on or past the bound)",
    ["closed-form solutions are the reference"],
)


def problem(c, kind=None):
    """name, f(t, y), y0, exact(t) with exact(t0) = y0, t0, time scale, allowance per unit (h/T)^4"""
    t0 = c.pick([0.0, c.uni(-3, 3), c.uni(-3, 3)])
    kind = kind or c.pick(["decay", "rotation", "linear", "forced", "gauss", "logistic", "riccati", "matrix", "kepler", "power"])
    if kind == "decay":
        lam, y0 = c.uni(-1.5, 1.5), c.uni(0.5, 3) * c.pick([1, -1])
        return kind, lambda t, y: lam * y, y0, lambda t: y0 * math.exp(lam * (t - t0)), t0
    if kind == "rotation":
        w = c.uni(0.5, 2)
        y0 = np.array([c.uni(-2, 2), c.uni(-2, 2)])

        def ex(t):
            s, k = math.sin(w * (t - t0)), math.cos(w * (t - t0))
            return np.array([k * y0[0] + s * y0[1], -s * y0[0] + k * y0[1]])
        return kind, lambda t, y: np.array([w * y[1], -w * y[0]]), y0, ex, t0
    if kind == "linear":
        n = c.rint(1, 5)
        A = c.rng.uniform(-0.6, 0.6, (n, n))
        y0 = c.rng.uniform(-2, 2, n)
        return kind, lambda t, y: A @ y, y0, lambda t: expm(A * (t - t0)) @ y0, t0
    if kind == "forced":  # y' = -k y + cos(w t)
        k, w, y0 = c.uni(0.2, 1), c.uni(0.5, 2), c.uni(-2, 2)
        part = lambda t: (k * math.cos(w * t) + w * math.sin(w * t)) / (k * k + w * w)
        return (kind, lambda t, y: -k * y + math.cos(w * t), y0,
                lambda t: part(t) + (y0 - part(t0)) * math.exp(-k * (t - t0)), t0)
    if kind == "gauss":  # y' = -2 s t y, vector of rates: non-autonomous and non-scalar
        s = c.rng.uniform(-0.3, 0.3, 3)
        y0 = c.rng.uniform(0.5, 2, 3)
        return kind, lambda t, y: -2 * s * t * y, y0, lambda t: y0 * np.exp(-s * (t * t - t0 * t0)), t0
    if kind == "logistic":
        y0 = c.uni(0.1, 0.9)
        return kind, lambda t, y: y * (1 - y), y0, lambda t: 1 / (1 + (1 / y0 - 1) * math.exp(-(t - t0))), t0
    if kind == "riccati":  # y' = cos(t) y^2
        y0 = c.uni(0.1, 0.3) * c.pick([1, -1])
        return (kind, lambda t, y: math.cos(t) * y * y, y0,
                lambda t: 1 / (1 / y0 - math.sin(t) + math.sin(t0)), t0)
    if kind == "matrix":
        A, B = c.rng.uniform(-0.6, 0.6, (2, 2, 2))
        y0 = c.rng.uniform(-1, 1, (2, 2))
        return kind, lambda t, y: A @ y + y @ B, y0, lambda t: expm(A * (t - t0)) @ y0 @ expm(B * (t - t0)), t0
    if kind == "kepler":
        r, ph = c.uni(0.8, 2), c.uni(0, 6)
        w = r ** -1.5

        def ex(t):
            p = ph + w * (t - t0)
            return np.array([r * math.cos(p), r * math.sin(p), -r * w * math.sin(p), r * w * math.cos(p)])

        def f(t, y):
            d = (y[0] ** 2 + y[1] ** 2) ** 1.5
            return np.array([y[2], y[3], -y[0] / d, -y[1] / d])
        return kind, f, ex(t0), ex, t0
    p = c.rint(1, 3)  # power: y' = p t^(p-1) + 1, quadrature only
    y0 = c.uni(-2, 2)
    return (kind, lambda t, y: p * t ** (p - 1) + 1.0, y0,
            lambda t: y0 + t ** p - t0 ** p + t - t0, t0)


def dilated(c, f, y0, ex, t0):
    """the same problem in other units of time and of the state"""
    ts, ys = c.logu(1e-9, 1e9), c.logu(1e-12, 1e12)
    return (ts, ys, lambda t, y: ys / ts * f(t / ts, y / ys), y0 * ys, lambda t: ys * ex(t / ts), t0 * ts)


def err(a, b):
    return float(np.max(np.abs(np.asarray(a, dtype=float) - np.asarray(b, dtype=float))))


def size(ex, t0, t1):
    return max(float(np.max(np.abs(np.asarray(ex(t))))) for t in np.linspace(t0, t1, 9)) + 1e-3


def run4(f, t0, y0, tb, h, n):
    s = RK4naive(f, t0, y0.copy() if isinstance(y0, np.ndarray) else y0, tb, h)
    for _ in range(n):
        s.step()
    return s


@CHECK.clause("rk4_order", quick=3600, thorough=8000)
def rk4_order(c):
    kind, f, y0, ex, t0 = problem(c)
    d = c.pick([1, -1])
    T = c.uni(0.8, 3)
    n = c.rint(12, 40)
    sgn = c.pick([1, 1, -1]) if d > 0 else c.pick([1, -1])
    ts = ys = 1.0
    if c.coin(0.3):
        ts, ys, f, y0, ex, t0 = dilated(c, f, y0, ex, t0)
        T *= ts
    tb = t0 + d * (T + ts)
    c.note(problem=kind, t0=t0, T=d * T, n=n, y0=y0)
    es = []
    for k in (1, 2, 4):
        m = n * k
        s = run4(f, t0, y0, tb, sgn * T / m, m)
        c.close(s.t, t0 + d * T, 0, 1e-12 * (ts + abs(t0) + T) * m, "time after n steps of size h is not t0 + n h")
        c.ok(np.shape(s.y) == np.shape(y0), "shape of the state changed", got=np.shape(s.y))
        es.append(err(s.y, ex(t0 + d * T)))
    S = (size(ex, t0, t0 + d * T) - 1e-3) + 1e-3 * ys
    floor = 2e-14 * S * n
    c.ok(es[2] <= 2e-4 * S, "the solution is not approached", errors=es, S=S)
    if kind == "power":
        c.ok(es[0] <= floor, "quadrature of a quadratic is not exact", errors=es)
    elif es[1] > 50 * floor and es[2] > 50 * floor:
        c.ok(es[1] / es[2] > 9 or es[0] / es[1] > 9 or es[0] / es[2] > 90, "error does not shrink as the fourth power of the step",
             problem=kind, errors=es, ratios=[es[0] / es[1], es[1] / es[2]])
        c.count("convergence ratios seen")
    c.seen(kind, d, sgn, type(y0).__name__)


@CHECK.clause("rk4_linear", quick=3000, thorough=6000)
def rk4_linear(c):
    """for y' = A y every four-stage method of order four multiplies by 1 + z + z^2/2 + z^3/6 + z^4/24"""
    n = c.rint(1, 6)
    A = c.rng.uniform(-1, 1, (n, n)) * c.logu(0.1, 10)
    y0 = c.rng.uniform(-2, 2, n)
    if c.coin(0.1):
        y0[c.rint(0, n - 1)] = 0.0
    if c.coin(0.1):
        y0 = y0 * 0.0
    h, d, m = c.logu(1e-3, 1.0), c.pick([1, -1]), c.rint(1, 8)
    t0 = c.uni(-5, 5)
    if c.coin(0.2):
        h *= c.logu(1e-6, 1e6)
        A = A * min(1.0, 1.0 / h)
        t0 *= h
    s = run4(lambda t, y: A @ y, t0, y0, t0 + d * h * (m + 0.5), h, m)
    z = A * (d * h)
    P = np.eye(n) + z @ (np.eye(n) + z @ (np.eye(n) + z @ (np.eye(n) + z / 4) / 3) / 2)
    want, mag = y0, np.abs(y0)
    aP = np.abs(z)
    aP = np.eye(n) + aP + aP @ aP / 2 + aP @ aP @ aP / 6 + aP @ aP @ aP @ aP / 24
    for _ in range(m):
        want, mag = P @ want, aP @ mag
    c.note(n=n, h=d * h, steps=m, norm=float(np.linalg.norm(z)))
    c.close(s.y, want, 0, 1e-13 * m * mag, "one step on a linear system is not the fourth-order Taylor polynomial")
    # cubic quadrature is exact (Simpson)
    k = c.rng.uniform(-1, 1, 4)
    s = run4(lambda t, y: ((k[3] * t + k[2]) * t + k[1]) * t + k[0], t0, 0.5, t0 + d * 1e9, h, m)
    Pk = lambda t: k[3] * t ** 4 / 4 + k[2] * t ** 3 / 3 + k[1] * t * t / 2 + k[0] * t
    t1 = t0 + d * h * m
    c.close(s.y, 0.5 + Pk(t1) - Pk(t0), 0, 1e-11 * (1 + abs(t1) ** 4 + abs(t0) ** 4), "cubic quadrature is not exact")
    c.seen(n, d, m, int(math.log10(np.linalg.norm(z))))


@CHECK.clause("rk4_books", quick=4800, thorough=10000)
def rk4_books(c):
    """trace of every step: times, states, refusal at the bound, no side effects"""
    kind, f0, y0, ex, t0 = problem(c)
    d = c.pick([1, -1, 1, -1, 0])
    h = c.logu(1e-2, 0.3)
    exact_hit = c.coin(0.3)
    if exact_hit:
        h = 2.0 ** -c.rint(2, 6)
        t0 = round(t0 * 8) / 8
    n = c.rint(1, 12)
    span = n * h if exact_hit else (n - c.uni(0.05, 0.95)) * h
    tb = t0 + d * span
    calls = []

    def f(t, y):
        calls.append(t)
        return f0(t, y)
    y_in = y0.copy() if isinstance(y0, np.ndarray) else y0
    s = RK4naive(f, t0, y_in, tb, h * c.pick([1, 1, -1]))
    c.note(problem=kind, t0=t0, t_bound=tb, h=h, direction=d, exact_hit=exact_hit)
    c.ok(s.t == t0 and s.t_bound == tb and np.array_equal(s.y, y0), "initial state is not what was given")
    c.ok(s.direction == (1 if d >= 0 else -1), "direction does not follow the bound", direction=s.direction)
    steps = 0
    for _ in range(n + 4):
        t_old, y_old = s.t, np.array(s.y, copy=True)
        calls.clear()
        at_bound = (s.t - tb) * (1 if d >= 0 else -1) >= 0
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            s.step()
        if at_bound:
            c.ok(s.t == t_old and np.array_equal(s.y, y_old), "a step beyond the bound changed the state", t=s.t, bound=tb)
            c.ok(not calls, "a step beyond the bound evaluated f")
            c.ok(len(w) == 1 and issubclass(w[0].category, RuntimeWarning), "a step beyond the bound does not warn",
                 warnings=[str(x.message) for x in w])
            c.count("refused steps")
        else:
            steps += 1
            c.ok(not w, "a regular step warns", warnings=[str(x.message) for x in w])
            c.close(s.t - t_old, d * h, 0, 1e-14 * (abs(t0) + abs(tb) + h), "a step does not advance time by the step size towards the bound")
            lo, hi = min(t_old, s.t), max(t_old, s.t)
            e = 1e-14 * (abs(lo) + abs(hi))
            c.ok(calls and all(lo - e <= t <= hi + e for t in calls), "f evaluated outside the step", times=list(calls))
            c.ok(len(calls) <= 4, "more than four evaluations in one step", n=len(calls))
            c.ok(np.shape(s.y) == np.shape(y0), "shape of the state changed")
            c.count("steps monitored")
    c.ok(s.t == tb or abs(s.t - tb) < h, "stopped more than a step away from the bound", t=s.t, bound=tb)
    c.ok(steps == (0 if d == 0 else n) or (not exact_hit and abs(abs(s.t - tb) - h) < 1e-9 * h),
         "number of accepted steps", steps=steps, expected=n)
    if isinstance(y0, np.ndarray):
        c.ok(np.array_equal(y_in, y0), "the initial state array was modified")
    c.seen(kind, d, exact_hit, type(y0).__name__)


@CHECK.clause("rk4_composition", quick=1200, thorough=2000)
def rk4_composition(c):
    """stopping and restarting, running back, components separately: all the same trajectory"""
    kind, f, y0, ex, t0 = problem(c)
    h, n = c.uni(0.01, 0.08), c.rint(4, 12)
    d = c.pick([1, -1])
    far = t0 + d * 100
    S = size(ex, t0, t0 + d * n * h)
    a = run4(f, t0, y0, far, h, n)
    k = c.rint(1, n - 1)
    b1 = run4(f, t0, y0, far, h, k)
    b2 = run4(f, b1.t, b1.y, far, h, n - k)
    c.close(b2.y, a.y, 0, 1e-12 * S, "restarting from an intermediate state changes the trajectory")
    back = run4(f, a.t, a.y, t0 - d * 100, h, n)
    c.close(back.y, y0, 0, 40 * n * (h * 2.2) ** 5 * S + 1e-12 * S, "integrating back does not return to the start", problem=kind)
    c.note(problem=kind, h=h, n=n)
    c.seen(kind, d)


@CHECK.clause("rk45", quick=3000, thorough=6000)
def rk45(c):
    """adaptive integrator: accuracy follows the tolerances, never leaves the bound"""
    kind, f0, y0, ex, t0 = problem(c, c.pick(["decay", "rotation", "linear", "forced", "gauss", "logistic", "kepler", "power", "riccati"]))
    d = c.pick([1, -1])
    T = c.uni(0.5, 3)
    tb = t0 + d * T
    h = min(c.logu(1e-3, 0.2), T)
    mode = c.pick(["default", "rtol", "both"])
    kw = {}
    if mode != "default":
        kw["rtol"] = 10.0 ** -c.uni(3, 10)
        if mode == "both":
            kw["atol"] = kw["rtol"] * 10.0 ** -c.uni(0, 3)
    shapes, times = set(), []

    def f(t, y):
        shapes.add(np.shape(y))
        times.append(t)
        return f0(t, y)
    scalar = not isinstance(y0, np.ndarray)
    y_in = y0 if scalar and c.coin() else np.atleast_1d(np.array(y0, dtype=float))
    keep = np.array(y_in, copy=True)
    s = RK45(f, t0, y_in, tb, h, **kw)
    c.note(problem=kind, t0=t0, t_bound=tb, h=h, mode=mode, **kw)
    S = size(ex, t0, tb)
    n = 0
    worst = 0.0
    while s.status == "running" and n < 20000:
        t_old = s.t
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            s.step()
        c.ok(not w, "a regular step warns", warnings=[str(x.message) for x in w])
        step = (s.t - t_old) * d
        c.ok(0 < step <= 8 * h * (1 + 1e-9), "step not towards the bound or larger than 8 stepsizes", step=step, h=h)
        c.ok((s.t - tb) * d <= 0, "the bound was passed", t=s.t, bound=tb)
        worst = max(worst, err(np.ravel(s.y), np.ravel(ex(s.t))))
        n += 1
    c.ok(s.status == "finished" and s.t == tb, "did not finish at the bound", status=s.status, t=s.t)
    e = 1e-14 * (abs(t0) + abs(tb)) + 2e-8 * T  # the first-step probe of the solver is inside as well
    c.ok(min(times) >= min(t0, tb) - e and max(times) <= max(t0, tb) + e, "f evaluated outside [t0, t_bound]")
    c.ok(shapes == {np.shape(np.atleast_1d(y0))}, "f called with another type of state than y0", shapes=shapes)
    c.ok(np.array_equal(np.array(y_in), keep), "the initial state was modified")
    # error per step <= atol + rtol |y|; the number of steps and the growth exp(L T) amplify it
    rtol = kw.get("rtol", 0.2 * h)
    atol = kw.get("atol", rtol / 800)
    amp = {"decay": 90, "linear": 3000, "riccati": 30, "kepler": 400, "gauss": 1000, "logistic": 30}.get(kind, 10)
    c.ok(worst <= amp * (1 + n ** 0.5) * (atol + rtol * S) + 1e-12 * S * n, "error far above the tolerance", worst=worst,
         tol=atol + rtol * S, steps=n, problem=kind)
    t_end, y_end = s.t, np.array(s.y, copy=True)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        s.step()
    c.ok(len(w) == 1 and issubclass(w[0].category, RuntimeWarning), "stepping a finished solver does not warn")
    c.ok(s.t == t_end and np.array_equal(s.y, y_end), "stepping a finished solver changes it")
    if mode != "default":  # tighter tolerance, smaller error
        s2 = RK45(f0, t0, y_in, tb, h / 4, rtol=1e-11, atol=1e-13)
        for _ in range(100000):
            if s2.status != "running":
                break
            s2.step()
        c.close(np.ravel(s2.y), np.ravel(ex(tb)), 0, amp * 3e-10 * S, "does not converge with the tolerance", problem=kind)
    # left out, a tolerance is the documented default: the run is the same as with the default written out
    s3 = RK45(f0, t0, y_in, tb, h, rtol=rtol, atol=atol)
    n3 = 0
    while s3.status == "running" and n3 < 20000:
        s3.step()
        n3 += 1
    c.ok(n3 == n, "left-out tolerances are not the documented defaults: another number of steps", None, got=n, expected=n3)
    c.close(y_end, s3.y, 0, 1e-9 * (atol + rtol * S) + 1e-12 * S * n, "left-out tolerances are not the documented defaults")
    c.count("steps monitored", n)
    c.seen(kind, d, mode, scalar)


@CHECK.clause("rk45_scales", quick=400, thorough=3000)
def rk45_scales(c):
    """a relative tolerance without an absolute one is met however small the solution is or becomes"""
    k, d = c.logu(0.2, 20), c.pick([1, -1])
    w = c.pick([0.0, 0.0, c.uni(0.5, 5)])
    T = c.uni(2, 25) / k
    t0 = c.uni(-3, 3)
    y0 = c.logu(1e-8, 1e3) * np.array([1.0, 0.0] if w else [1.0])
    A = np.array([[-k, -w], [w, -k]]) if w else np.array([[-k]])
    h = T * c.logu(3e-3, 0.3)
    rtol = 10.0 ** -c.uni(3, 9)
    atol = c.pick([0.0, 0, 1e-300, None])
    s = RK45(lambda t, y: d * (A @ y), t0, y0, t0 + d * T, h, rtol=rtol, **({} if atol is None else dict(atol=atol)))
    n, worst = 0, 0.0
    while s.status == "running" and n < 20000:
        s.step()
        x = (s.t - t0) * d
        exact = y0[0] * math.exp(-k * x) * (np.array([math.cos(w * x), math.sin(w * x)]) if w else np.array([1.0]))
        n += 1
        floor = 0.0 if atol is not None else rtol / 800
        scale = rtol * (np.abs(exact).max() if not w else y0[0] * math.exp(-k * x)) + floor
        worst = max(worst, float(np.abs(s.y - exact).max()) / (scale * n * 10 + 1e-13 * y0[0] * math.exp(-k * x) * n))
    c.note(k=k, w=w, T=T, h=h, y0=y0, rtol=rtol, atol=atol, steps=n, worst=worst)
    c.ok(s.status == "finished" and s.t == t0 + d * T, "did not finish at the bound", status=s.status)
    c.ok(worst <= 1, "relative tolerance missed", worst=worst)
    c.count("steps monitored", n)
    c.seen(d, bool(w), atol, int(math.log10(y0[0])))


if __name__ == "__main__":
    main(CHECK)
