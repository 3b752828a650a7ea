"""C20 scale factors follow the Friedmann solutions."""
import numpy as np
from astropy import units as u

from vf.core import Check, main

from einsteinpy.utils import scalar_factor, scalar_factor_derivative

CHECK = Check(
    "C20",
    "one case = one era at random times (any time unit, scalars and arrays) with a random proportionality constant; distinct = (era, "
    "unit, decade of time, array or scalar, sign of the constant)",
    ["cosmological constant 2.036e-35 s^-2 as documented by constant.Cosmo_Const"],
)
LAMBDA = 2.036e-35
H = (LAMBDA / 3) ** 0.5
UNITS = [u.s, u.s, u.min, u.hr, u.day, u.yr, u.Myr, u.Gyr, u.ms]
# era -> (a, da/dt, Friedmann right-hand side as a function of a and the constant)
POW = {"md": 2 / 3, "rd": 1 / 2}


def case(c):
    era = c.pick(["md", "rd", "ded"])
    unit = c.pick(UNITS)
    arr = c.coin(0.3)
    n = c.rint(1, 6) if arr else 1
    hi = 1e20 if era == "ded" else 1e22
    T = np.array([c.logu(1e-6, hi) for _ in range(n)])
    A = c.pick([1.0, c.logu(1e-12, 1e12), -c.logu(1e-3, 1e3), float(c.rint(1, 9))])
    t = (T if arr else T[0]) * u.s
    c.note(era=era, unit=str(unit), T=T.tolist(), A=A, array=arr)
    c.seen(era, unit, int(np.log10(T[0])) // 3, arr, A > 0)
    return era, unit, T if arr else T[0], A, t.to(unit)


def bare(x):
    return np.asarray(getattr(x, "value", x), dtype=float)


def model(era, T, A):
    if era == "ded":
        return A * np.exp(H * T), A * H * np.exp(H * T)
    p = POW[era]
    return A * T ** p, A * p * T ** (p - 1)


def both(t, era, A):
    return bare(scalar_factor(t, era=era, tuning_param=A)), bare(scalar_factor_derivative(t, era=era, tuning_param=A))


@CHECK.clause(quick=7500, thorough=40000)
def closed_form(c):
    era, unit, T, A, t = case(c)
    a, da = both(t, era, A)
    wa, wd = model(era, np.asarray(T), A)
    # relative error of T from the unit conversion is amplified by H*T in the exponential
    tol = 1e-12 * (1 + H * np.max(T) if era == "ded" else 1)
    c.close(a, wa, tol, 0, f"scale factor ({era})")
    c.close(da, wd, tol, 0, f"derivative of the scale factor ({era})")


@CHECK.clause(quick=5000, thorough=25000)
def friedmann(c):
    """(a'/a)^2 is K/a^3, K/a^4 or Lambda/3; K from the proportionality constant."""
    era, unit, T, A, t = case(c)
    a, da = both(t, era, A)
    h2 = (da / a) ** 2
    if era == "ded":
        want = LAMBDA / 3 * np.ones_like(h2)
    elif era == "md":
        want = (2 / 3) ** 2 * np.abs(A) ** 3 / np.abs(a) ** 3
    else:
        want = (1 / 2) ** 2 * A ** 4 / a ** 4
    c.close(h2, want, 1e-9, 0, f"Friedmann equation ({era})")
    c.ok(np.all((da > 0) == (A > 0)), "an expanding universe has a growing scale factor")


@CHECK.clause(quick=5000, thorough=25000)
def derivative(c):
    """the derivative is the slope of the observed scale factor (five-point stencil)"""
    era, unit, T, A, t = case(c)
    Ts = np.asarray(T)
    h = 1e-3 * (Ts if era != "ded" else np.full_like(Ts, 1 / H))
    f = lambda k: bare(scalar_factor((Ts + k * h) * u.s, era=era, tuning_param=A))
    d = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
    got = bare(scalar_factor_derivative(Ts * u.s, era=era, tuning_param=A))
    c.close(got, d, 1e-8, 0, f"derivative is the slope of the scale factor ({era})")


@CHECK.clause(quick=2500, thorough=10000)
def interface(c):
    era, unit, T, A, t = case(c)
    a, da = both(t, era, A)
    a1, da1 = both(t, era, 1.0)
    c.close(a, A * a1, 1e-13, 0, "proportional to the constant")
    c.close(da, A * da1, 1e-13, 0, "derivative proportional to the constant")
    c.close(bare(scalar_factor(t, era=era)), a1, 0, 0, "default constant is 1")
    c.close(bare(scalar_factor_derivative(t, era=era)), da1, 0, 0, "default constant is 1 (derivative)")
    c.close(bare(scalar_factor(t)), both(t, "md", 1.0)[0], 0, 0, "default era is matter")
    c.close(bare(scalar_factor_derivative(t)), both(t, "md", 1.0)[1], 0, 0, "default era is matter (derivative)")
    c.close(bare(scalar_factor(t, era, A)), a, 0, 0, "positional arguments")
    bad = c.pick(["MD", "", "dd", "matter", None, 0, "md ", "de", "d"])
    for f in (scalar_factor, scalar_factor_derivative):
        c.raises(ValueError, lambda: f(t, era=bad), f"{f.__name__} refuses era {bad!r}")
        c.raises((u.UnitsError, TypeError), lambda: f(c.pick([3 * u.m, 2 * u.kg, 1 / u.s]), era=era),
                 f"{f.__name__} refuses something that is no time")
        c.raises(TypeError, lambda: f(5.0, era=era), f"{f.__name__} refuses a bare number")


if __name__ == "__main__":
    main(CHECK)
