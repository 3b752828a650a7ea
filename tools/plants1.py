P = []
def add(id, prop, edits, needs, what, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo, **k))

add("c01-bl-position-only-z", "C01",
 [("coordinates/utils.py",
   """def bl_to_cartesian_novel(t, r, th, p, alpha):
    \"\"\"
    Utility function (jitted) to convert bl to cartesian.
    This function should eventually result in Coordinate Transformation Graph!

    \"\"\"
    xa = np.sqrt(r**2 + alpha**2)
    sin_norm = xa * np.sin(th)
    x = sin_norm * np.cos(p)
    y = sin_norm * np.sin(p)
    z = r * np.cos(th)
""",
   """def bl_to_cartesian_novel(t, r, th, p, alpha):
    \"\"\"
    Utility function (jitted) to convert bl to cartesian.
    This function should eventually result in Coordinate Transformation Graph!

    \"\"\"
    xa = np.sqrt(r**2 + alpha**2)
    sin_norm = xa * np.sin(th)
    x = sin_norm * np.cos(p)
    y = sin_norm * np.sin(p)
    z = xa * np.cos(th)
""")],
 "a spinning hole whose ring radius is comparable with r, a point off the equator, and a conversion of a position without velocity",
 "Boyer-Lindquist to Cartesian position: z is sqrt(r^2+alpha^2) cos(theta) instead of r cos(theta)",
 """
import numpy as np
from einsteinpy.coordinates.utils import bl_to_cartesian_fast
t, x, y, z = bl_to_cartesian_fast(0.0, 3.0, 1.0, 0.5, 4.0)
xa = np.sqrt(3.0**2 + 4.0**2)
assert np.allclose([x, y, z], [xa*np.sin(1.0)*np.cos(0.5), xa*np.sin(1.0)*np.sin(0.5), 3.0*np.cos(1.0)]), (x, y, z)
""")

add("c03-v0-cross-term", "C03",
 [("coordinates/utils.py", "+ 2 * v1 * (g[1, 2] * v2 + g[1, 3] * v3)", "+ 2 * v1 * (g[1, 2] * v2)")],
 "a metric with a nonzero g_13 component (the built-in holes have none) and motion along both x1 and x3",
 "The time component of the 4-velocity ignores the x1-x3 cross term of the metric, so g(v,v) is not c^2",
 """
import numpy as np
from einsteinpy.coordinates.utils import v0
c = 299792458.0
g = np.diag([c**2, -1.0, -2.0, -3.0]); g[1, 3] = g[3, 1] = 0.4; g[1, 2] = g[2, 1] = 0.2
v = [1e7, 2e7, -3e7]
u = np.array([v0(g, *v), *v])
assert abs(u @ g @ u / c**2 - 1) < 1e-9, u @ g @ u / c**2
""")

add("c05-kn-gtt-charge", "C05",
 [("metric/kerrnewman.py",
   "g_cov_bl[0, 0] = (_c**2) * ((dl - ((alpha * np.sin(th)) ** 2)) / (rho2))",
   "g_cov_bl[0, 0] = (_c**2) * (1 - (self.sch_rad * r + super().delta(r, M, 0, self.Q.si.value) - super().delta(r, M, 0)) / rho2)")],
 "a charged hole (for Q = 0 the expressions agree)",
 "g_tt of Kerr-Newman has the charge term with the wrong sign",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import KerrNewman
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy import constant as k
M, a = 4e30, 0.5
Q = 0.6*M*np.sqrt(k.G.value/k.coulombs_const.value)
bl = BoyerLindquist(0*u.s, 1e4*u.m, 1.0*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=M*u.kg, a=a*u.one, Q=Q*u.C)
g = m.metric_covariant(bl.position())
c, G = k.c.value, k.G.value
rg = G*M/c**2; al = a*rg; r = 1e4; th = 1.0; rq2 = Q**2*G*k.coulombs_const.value/c**4
rho2 = r*r + (al*np.cos(th))**2
ref = c**2*(1-(2*rg*r-rq2)/rho2)
assert abs(g[0, 0]/ref-1) < 1e-9, g[0, 0]/ref
""")

add("c06-kerr-dg-theta-phiphi", "C06",
 [("metric/kerr.py",
   "2 * sg * np.sin(2 * th) - (np.sin(th) ** 2) * dsdth",
   "2 * sg * np.sin(2 * th) - dsdth")],
 "a spinning hole and a point away from both the equator and the axis; the error is a fraction alpha^2/r^2 of one derivative, invisible to comparisons that stay on the equator or far away",
 "The theta derivative of g_phiphi, and with it four Christoffel symbols, is not that of the metric",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import Kerr
from einsteinpy.coordinates import BoyerLindquist
M, a = 4e30, 0.9
bl = BoyerLindquist(0*u.s, 9e3*u.m, 1.0*u.rad, 0*u.rad)
m = Kerr(coords=bl, M=M*u.kg, a=a*u.one)
x = np.array([0, 9e3, 1.0, 0.0])
def dg(i, h):
    e = np.zeros(4); e[i] = h
    return (8*(m.metric_covariant(x+e)-m.metric_covariant(x-e))-(m.metric_covariant(x+2*e)-m.metric_covariant(x-2*e)))/(12*h)
D = np.zeros((4, 4, 4)); D[1] = dg(1, 2.0); D[2] = dg(2, 1e-3)
gi = np.linalg.inv(m.metric_covariant(x))
ref = 0.5*(np.einsum('il,jlk->ijk', gi, D)+np.einsum('il,klj->ijk', gi, D)-np.einsum('il,ljk->ijk', gi, D))
ch = m.christoffels(x)
s = np.array([299792458.0, 1, 1e-4, 1e-4])
nf = lambda C: C*s[None, :, None]*0 + C
err = np.abs(ch-ref)/(np.abs(ref)+1e-6*np.abs(ref).max(axis=(1, 2), keepdims=True)*0+1e-12)
err = err[np.abs(ref) > 1e-9]
assert err.max() < 1e-4, err.max()
""")

add("c07-kn-em-ftheta-phi", "C07",
 [("metric/kerrnewman.py",
   "* (rho2 + (alpha * np.sin(th)) ** 2)", "* (rho2 + alpha**2 - (alpha * np.cos(th)) ** 2 * np.cos(th) ** 2)")],
 "a spinning charged hole and a point off the equator and the axis",
 "F_theta_phi is not the theta derivative of A_phi",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import KerrNewman
from einsteinpy.coordinates import BoyerLindquist
bl = BoyerLindquist(0*u.s, 9e3*u.m, 1.0*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=4e30*u.kg, a=0.8*u.one, Q=1e20*u.C)
x = np.array([0, 9e3, 1.0, 0.0]); h = np.array([0, 0, 1e-5, 0])
dA = (m.em_potential_covariant(x+h)-m.em_potential_covariant(x-h))[3]/2e-5
F = m.em_tensor_covariant(x)[2, 3]
# the sign convention of the magnetic part is not at issue here
assert abs(abs(F/dA)-1) < 1e-5, F/dA
""")

add("c08-inner-horizon-charge", "C08",
 [("metric/base_metric.py",
   "r_s - np.sqrt((r_s**2) - (4 * alpha**2) - (4 * r_Q2))\n                    )",
   "r_s - np.sqrt((r_s**2) - (4 * (alpha**2 + r_Q2 * (a > 0))))\n                    )")],
 "a charged hole that does not spin at all (a = 0)",
 "The inner horizon of a non-rotating charged hole is reported at r = 0",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import KerrNewman
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy import constant as k
M = 4e30; Q = 0.6*M*np.sqrt(k.G.value/k.coulombs_const.value)
bl = BoyerLindquist(0*u.s, 9e3*u.m, 1.0*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=M*u.kg, a=0*u.one, Q=Q*u.C)
r = m.singularities()["inner_horizon"]
rs = m.schwarzschild_radius(M)
assert abs(r/(rs/2*(1-0.8))-1) < 1e-6, r
""")

add("c09-sub-commutes", "C09",
 [("utils/dual.py", "return DualNumber(self.val - other, self.deriv)", "return DualNumber(self.val - other, abs(self.deriv))")],
 "a plain number subtracted from a dual number with a negative derivative",
 "x - c loses the sign of a negative derivative",
 """
from einsteinpy.utils.dual import DualNumber
d = DualNumber(2.0, -1.5) - 1
assert (d.val, d.deriv) == (1.0, -1.5), d
""")

add("c11-flow-b-theta-derivative", "C11",
 [("integrators/utils.py", "return _jacobian_g(g, g_prms, q, wrt) @ p @ p", "return (_jacobian_g(g, g_prms, q, wrt) * np.abs(np.sign(p))) @ p @ p if wrt else 0.0")],
 "a user-supplied metric that depends on time (the built-in holes are static, so their derivative along t is zero anyway)",
 "The momentum conjugate to time never changes, even in a metric that depends on time",
 """
import warnings
import numpy as np
from einsteinpy.geodesic import Timelike
def g(x, *p):
    t = x[0]; m = np.zeros((4, 4), dtype=object); a = 1 + 0.02*t
    m[0, 0] = -1; m[1, 1] = m[2, 2] = m[3, 3] = a**-2
    return m
geo = Timelike(g, (), [1.0, 1.0, 1.0], [0.5, 0.0, 0.0], steps=40, delta=0.1, order=4, omega=0.01, return_cartesian=False, suppress_warnings=True)
tr = geo.trajectory[1]
H = np.array([g(r[:4]) @ r[4:] @ r[4:] for r in tr], dtype=float)
assert np.abs(H+1).max() < 1e-4, np.abs(H+1).max()
""", also=["C12"])

add("c13-rk4-last-stage-time", "C13",
 [("integrators/runge_kutta.py", "k3 = self._fun(self.t + self.step_size, self.y + (self.step_size) * k2)",
   "k3 = self._fun(self.t + self.step_size / 2.0, self.y + (self.step_size) * k2)")],
 "a right-hand side that depends on t explicitly",
 "The last stage samples f half a step too early, so non-autonomous equations are integrated at low order",
 """
import numpy as np
from einsteinpy.integrators import RK4naive
s = RK4naive(lambda t, y: np.cos(t)*y, 0.0, 1.0, 2.0, 0.01)
for _ in range(200): s.step()
assert abs(s.y-np.exp(np.sin(s.t))) < 1e-6, s.y-np.exp(np.sin(s.t))
""")

add("c14-ricci-wrong-slot", "C14",
 [("symbolic/christoffel.py", "            if k <= j:", "            if k <= j and not (i == k != j and mat[k, k] == 1):")],
 "a metric with an off-diagonal term in a direction whose diagonal component is exactly 1",
 "Some Christoffel symbols of non-diagonal metrics with unit diagonal components are left at zero",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, ChristoffelSymbols
x, y = sp.symbols("x y")
g = MetricTensor([[1, x*y], [x*y, 2+x**2*y**2+x]], (x, y))
ch = ChristoffelSymbols.from_metric(g)
m = sp.Matrix(g.tensor().tolist()); mi = m.inv(); s = (x, y)
for i in range(2):
    for j in range(2):
        for k in range(2):
            ref = sum(mi[i, n]*(m[n, j].diff(s[k])+m[n, k].diff(s[j])-m[j, k].diff(s[n]))/2 for n in range(2))
            assert sp.simplify(ch[i, j, k]-ref) == 0, (i, j, k)
""")

add("c15-schouten-dimension", "C15",
 [("symbolic/schouten.py", "                - (r_scalar.expr * metric.lower_config().tensor() / (2 * (dims - 1)))", "                - (r_scalar.expr * metric.lower_config().tensor() / (dims + 2))")],
 "a space whose dimension is not four (2(n-1) = n+2 only there)",
 "The Schouten tensor has the wrong trace in three or five dimensions",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, SchoutenTensor
r, th, ph = sp.symbols("r theta phi")
f = 1/(1-r**2)
g = MetricTensor(sp.diag(f, r**2, r**2*sp.sin(th)**2).tolist(), (r, th, ph))
S = SchoutenTensor.from_metric(g)          # unit 3-sphere: S = g/2
for i in range(3):
    assert sp.simplify(S[i, i]-g[i, i]/2) == 0, S[i, i]
""")
