"""Workload generators shared by the checks."""
import math

import numpy as np
from astropy import units as u

from vf import ref

LEN = [u.m, u.km, u.cm, u.AU, u.lyr, u.imperial.mile if hasattr(u, "imperial") else u.mm]
TIME = [u.s, u.min, u.ms, u.yr, u.hour]
ANG = [u.rad, u.deg, u.arcsec, u.arcmin]
MASS = [u.kg, u.g, u.M_sun, u.M_earth, u.t]
CHARGE = [u.C, u.mC, 1e3 * u.C]
SPEED = [u.m / u.s, u.km / u.s, u.km / u.hour, u.AU / u.day]
ANGSPEED = [u.rad / u.s, u.deg / u.s, u.rad / u.hour, u.deg / u.day]
QM = [u.C / u.kg, u.C / u.t, u.C / u.g, u.uC / u.kg]


def q(c, value, unit_list, base):
    """value (in base) expressed in a random compatible unit"""
    un = c.pick(unit_list)
    return (value * base).to(un)


def mass(c):
    k = c.index % 5
    if k == 0:
        return 1.9884e30 * c.logu(1, 1e10)
    if k == 1:
        return c.logu(1e20, 1e26)
    if k == 2:
        return c.logu(1e-2, 1e4)
    if k == 3:
        return 5.972e24
    return c.logu(1e28, 1e40)


def spin(c):
    return c.pick([0.0, 1.0, 0.998, 1e-6, c.uni(0, 1), c.uni(0, 1), c.uni(0.9, 1), c.uni(0, .3)])


def charge(c, M, a, frac=None):
    """signed charge, with r_Q^2 = frac * (extremal value)"""
    m = ref.G * M / ref.C ** 2
    qmax = m * math.sqrt(max(0.0, 1 - a * a))
    f = c.pick([0.0, 0.3, 0.9, c.uni(0, 1), c.uni(0, 1)]) if frac is None else frac
    rq = f * qmax
    Q = rq * ref.C ** 2 / math.sqrt(ref.G * ref.KE)
    return Q * c.pick([1, -1])


def theta(c):
    k = c.rint(0, 9)
    return [math.pi / 2, 1e-3, math.pi - 1e-3, math.pi / 4, 2.5][k] if k < 5 else math.acos(c.uni(-1, 1))


def time(c):
    """a coordinate time in seconds: zero, tiny, ordinary or cosmic, of either sign"""
    return float(c.pick([c.uni(-1e6, 1e6), c.uni(-1e3, 1e3), 0.0, c.pick([1, -1]) * c.logu(1e-9, 1e-3),
                         c.pick([1, -1]) * c.logu(1e6, 1e17)]))


def radius(c, rplus, lo=1.01, hi=1e5):
    return rplus * c.pick([c.uni(lo, 3), c.uni(1.5, 20), c.logu(2, hi), c.uni(lo, 1.3)])


def rplus(M, a, Q=0.0):
    m = ref.G * M / ref.C ** 2
    d = m * m * (1 - a * a) - ref.rq_of(Q) ** 2
    return m + math.sqrt(max(d, 0.0))


def unit_vec(c):
    v = c.rng.normal(size=3)
    return v / np.linalg.norm(v)
