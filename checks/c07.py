"""C07 the Kerr-Newman electromagnetic field derives from its potential."""
import math

import mpmath as mp
import numpy as np
from astropy import units as u

from checks.c05 import build, classes, event, hole, too_singular, vec
from vf import gen, ref
from vf.core import Check, main

CHECK = Check(
    "C07",
    "one case = one charged black hole (sub-extremal, extremal or naked, either sign) and one event; potential, field tensor and "
    "their raised versions are compared component by component; distinct = (region, spin class, charge sign, clause)",
    ["reference: A = r r_Q / rho^2 (dt - alpha sin^2 theta dphi), r_Q = Q sqrt(G k_e) / c^2, differentiated by hand, 50 digits"],
)


def field(M, a, Q, x):
    M, a, Q, r, th = map(mp.mpf, (M, a, Q, x[1], x[2]))
    c, Gn, ke = mp.mpf(ref.C), mp.mpf(ref.G), 1 / (4 * mp.pi * mp.mpf(ref.EPS0))
    al, rq = a * Gn * M / c ** 2, Q * mp.sqrt(Gn * ke) / c ** 2
    s, co = mp.sin(th), mp.cos(th)
    S = r * r + al * al * co * co
    dS = -al * al * mp.sin(2 * th)
    At, dr, dth = r * rq / S, rq * (S - 2 * r * r) / S ** 2, -r * rq * dS / S ** 2
    A = [At, 0, 0, -al * s * s * At]
    F = np.zeros((4, 4))
    T = np.zeros((4, 4))
    e = abs(rq) * (S + 2 * r * r) / S ** 2
    pairs = {(0, 1): (-dr, e), (0, 2): (-dth, abs(dth)),
             (1, 3): (-al * s * s * dr, al * s * s * e),
             (2, 3): (-al * (2 * s * co * At + s * s * dth), al * (abs(2 * s * co * At) + abs(s * s * dth)))}
    for (i, j), (v, t) in pairs.items():
        F[i, j], F[j, i] = float(v), -float(v)
        T[i, j] = T[j, i] = 1e-13 * float(t)
    # sin(2 theta) in binary64 near the poles and theta = pi
    T[0, 2] += 1e-15 * abs(float(r * rq * al * al / S ** 2))
    T[2, 3] += 1e-15 * float(al * abs(At))
    T[2, 0], T[3, 2] = T[0, 2], T[2, 3]
    return np.array([float(v) for v in A]), F, T + 1e-300


def setup(c):
    _, M, a, Q = hole(c, "KN")
    if Q == 0 and c.coin(0.8):
        Q = gen.charge(c, M, a, c.uni(0.1, 1))
    reg, x = event(c, M, a, Q)
    c.note(M=M, a=a, Q=Q, region=reg, x=x)
    return M, a, Q, reg, x


@CHECK.clause("potential", quick=2000, thorough=30000)
def potential(c):
    M, a, Q, reg, x = setup(c)
    met = build(c, "KN", M, a, Q)
    A, _, _ = field(M, a, Q, x)
    X = vec(c, x)
    got = np.asarray(met.em_potential_covariant(X))
    c.close(got, A, 1e-13, 1e-300, "covariant potential")
    o = ref.kn(M, a, Q, x)
    if not too_singular(o):
        up = np.asarray(met.em_potential_contravariant(X))
        gie = np.abs(o["ginv"])
        gie[0, 3] = gie[3, 0] = max(gie[0, 3], gie[0, 0] * gie[3, 3] * ref.C * o["alpha"] * math.sin(x[2]) ** 2)
        t = (1e-14 * o["kappa"] + 1e-13) * (gie @ np.abs(A))
        c.close(up, o["ginv"] @ A, 0, t + 1e-300, "contravariant potential is not the raised covariant one")
    c.seen(*classes("A", a, Q, reg))


@CHECK.clause("field", quick=2000, thorough=30000)
def field_tensor(c):
    M, a, Q, reg, x = setup(c)
    met = build(c, "KN", M, a, Q)
    A, F, T = field(M, a, Q, x)
    X = vec(c, x)
    got = np.asarray(met.em_tensor_covariant(X))
    c.ok(got.shape == (4, 4), "shape")
    c.ok(np.array_equal(got, -got.T), "covariant tensor is not antisymmetric", None, observed=got)
    c.close(got[0], F[0], 0, T[0], "electric components are not dA")
    c.close(got[1, 2], 0, 0, 0, "F_r_theta")
    for i in (1, 2):
        if abs(got[i, 3] - F[i, 3]) <= T[i, 3]:
            c.obs += 1
            continue
        flipped = abs(got[i, 3] + F[i, 3]) <= T[i, 3]
        c.ok(False, f"magnetic component F[{i},3] = {got[i, 3]!r} is not dA = {F[i, 3]!r}",
             "magnetic-sign" if flipped else None)
    c.seen(*classes("F", a, Q, reg))


@CHECK.clause("raised", quick=1500, thorough=20000)
def raised(c):
    """the contravariant tensor is the covariant one raised on both indices"""
    M, a, Q, reg, x = setup(c)
    o = ref.kn(M, a, Q, x)
    if too_singular(o):
        c.skip("on a horizon or ergosurface to rounding")
    met = build(c, "KN", M, a, Q)
    X = vec(c, x)
    F = np.asarray(met.em_tensor_covariant(X))
    up = np.asarray(met.em_tensor_contravariant(X))
    gi = np.abs(o["ginv"])
    gie = gi.copy()
    gie[0, 3] = gie[3, 0] = max(gi[0, 3], gi[0, 0] * gi[3, 3] * ref.C * o["alpha"] * math.sin(x[2]) ** 2)
    size = gie @ np.abs(F) @ gie
    t = (2e-14 * o["kappa"] + 1e-13) * size + 1e-300
    c.close(up, o["ginv"] @ F @ o["ginv"], 0, t, "contravariant tensor is not the raised covariant one")
    c.close(up + up.T, np.zeros((4, 4)), 0, t, "contravariant tensor is not antisymmetric")
    c.seen(*classes("Fup", a, Q, reg))


@CHECK.clause("charge", quick=800, thorough=8000)
def charge(c):
    """linear and odd in the charge, absent without charge, linear in 1/scale: A(kM, kQ, kr) = A(M, Q, r)"""
    M, a, Q, reg, x = setup(c)
    k = c.pick([-1.0, 2.0, -0.5, c.uni(0.1, 3)])
    fs = {}
    for name, (m, q, y) in dict(one=(M, Q, x), k=(M, k * Q, x), zero=(M, 0.0, x),
                                scaled=(2 * M, 2 * Q, [x[0], 2 * x[1], x[2], x[3]])).items():
        met = build(c, "KN", m, a, q)
        fs[name] = (np.asarray(met.em_potential_covariant(np.array(y))), np.asarray(met.em_tensor_covariant(np.array(y))))
    A, F, = fs["one"]
    _, _, T = field(M, a, Q, x)
    c.close(fs["k"][0], k * A, 1e-12, 1e-300, "potential is not linear in Q", k=k)
    c.close(fs["k"][1], k * F, 1e-12, (1 + abs(k)) * T, "field is not linear in Q", k=k)
    c.ok(not np.any(fs["zero"][0]) and not np.any(fs["zero"][1]), "field without charge")
    c.close(fs["scaled"][0], A * np.array([1, 1, 1, 2]), 1e-12, 1e-300, "potential does not scale with the hole")
    w = np.array([[1, .5, 1, 1], [.5, 1, 1, 1], [1, 1, 1, 2], [1, 1, 2, 1.0]])
    c.close(fs["scaled"][1], F * w, 1e-12, 4 * T, "field does not scale with the hole")
    c.seen(*classes("Q", a, Q, reg), k < 0)


if __name__ == "__main__":
    main(CHECK)
