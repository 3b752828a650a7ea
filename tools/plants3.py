P = []
def add(id, prop, edits, needs, what, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo, **k))

add("c01-no-spin-shortcut", "C01",
 [("coordinates/conversion.py", """        transformed_cartesian = self.convert_cartesian()
        cart = CartesianConversion(*transformed_cartesian)

        return cart.convert_bl(M=M, a=a)
""", """        if a == 0:
            return self.values()

        transformed_cartesian = self.convert_cartesian()
        cart = CartesianConversion(*transformed_cartesian)

        return cart.convert_bl(M=M, a=a)
""")],
 "a hole without spin and a spherical position whose angles are outside their canonical ranges",
 "Spherical to Boyer-Lindquist conversion with a = 0 hands the angles through unnormalised",
 """
import numpy as np
from einsteinpy.coordinates import SphericalConversion
t, r, th, ph = SphericalConversion(1.0, 5.0, 1.0, 5.5).convert_bl(M=1e24, a=0.0)
assert -np.pi <= ph <= np.pi and 0 <= th <= np.pi, (th, ph)
assert abs(ph-(5.5-2*np.pi)) < 1e-12
""")

add("c02-at-rest-drops-velocity", "C02",
 [("coordinates/conversion.py", """        self.v_x_si = v_x
        self.v_y_si = v_y
        self.v_z_si = v_z
        self._velocities_provided = not (
            (v_x is None) or (v_y is None) or (v_z is None)
        )""", """        self.v_x_si = v_x
        self.v_y_si = v_y
        self.v_z_si = v_z
        self._velocities_provided = bool(
            v_x is not None and v_y is not None and v_z is not None and (v_x or v_y or v_z)
        )""")],
 "a Cartesian state that is exactly at rest",
 "A Cartesian state at rest is converted without its (zero) velocity",
 """
import astropy.units as u
from einsteinpy.coordinates import CartesianDifferential, CartesianConversion
assert len(CartesianConversion(0., 1., 2., 3., 0., 0., 0.).convert_spherical()) == 7
d = CartesianDifferential(0*u.s, 1*u.m, 2*u.m, 3*u.m, 0*u.m/u.s, 0*u.m/u.s, 0*u.m/u.s).spherical_differential()
assert d.v_r.value == 0
""")

add("c02-bl-spherical-through-flat", "C02",
 [("coordinates/utils.py", """    v_th = (
        xa * np.cos(theta) * (x * v_x + y * v_y) / hxy - r * np.sin(theta) * v_z
    ) / (r**2 + (alpha * np.cos(theta)) ** 2)
    v_p = (v_y * x - v_x * y) / hxy**2
""", """    v_th = (
        xa * np.cos(theta) * (x * v_x + y * v_y) / hxy - r * np.sin(theta) * v_z
    ) / (r**2 + (alpha * np.cos(theta)) ** 2)
    v_p = (v_y * x - v_x * y) / (xa * np.sin(theta)) ** 2
""")], "-", "-", "")
P.pop()  # equivalent

add("c03-stale-time-component", "C03",
 [("coordinates/differential.py", '        # Setting _v_t\n        self.v_t = (metric,)\n\n        return (\n            self._v_t.value,\n            self.v_r.si.value,\n            self.v_th.si.value,\n            self.v_p.si.value,\n        )\n\n    def cartesian_differential(self, **kwargs):\n        """\n        Converts to Cartesian Coordinates\n\n        Parameters\n        ----------\n        **kwargs : dict\n            Keyword Arguments\n\n', '        # Setting _v_t\n        if self._v_t is None:\n            self.v_t = (metric,)\n\n        return (\n            self._v_t.value,\n            self.v_r.si.value,\n            self.v_th.si.value,\n            self.v_p.si.value,\n        )\n\n    def cartesian_differential(self, **kwargs):\n        """\n        Converts to Cartesian Coordinates\n\n        Parameters\n        ----------\n        **kwargs : dict\n            Keyword Arguments\n\n')],
 "asking one spherical state for its 4-velocity in two different metrics",
 "The time component of a spherical state's 4-velocity stays that of the first metric it was requested for",
 """
import numpy as np, astropy.units as u
from einsteinpy.coordinates import SphericalDifferential
from einsteinpy.metric import Schwarzschild
s = SphericalDifferential(0*u.s, 1e4*u.m, 1*u.rad, 0*u.rad, 1e6*u.m/u.s, 0*u.rad/u.s, 10*u.rad/u.s)
for M in (1e29, 3e30, 1e28):
    g = Schwarzschild(coords=s, M=M*u.kg)
    v = np.array(s.velocity(g)); n = v@g.metric_covariant(s.position())@v/299792458.0**2
    assert abs(n-1) < 1e-9, (M, n)
""", also=["C25"])

add("c04-position-time-unit", "C04",
 [("coordinates/differential.py", """        return (
            _c * self.t.si.value,
            self.r.si.value,
            self.theta.si.value,
            self.phi.si.value,
        )

    @property
    def v_t(self):
        \"\"\"
        Returns the Timelike component of 4-Velocity

        \"\"\"
        return self._v_t

    @v_t.setter
    def v_t(self, args):
        \"\"\"
        Sets the value of the Time-like component of 4-Velocity

        Parameters
        ----------
        args : tuple
            1-tuple containing the ~einsteinpy.metric.* object, \\
            in which the coordinates are defined

        Raises
        ------
        CoordinateError
            If ``metric`` object has been instantiated with a coordinate system, \\
            other than Boyer""", """        return (
            _c * self.t.value,
            self.r.si.value,
            self.theta.si.value,
            self.phi.si.value,
        )

    @property
    def v_t(self):
        \"\"\"
        Returns the Timelike component of 4-Velocity

        \"\"\"
        return self._v_t

    @v_t.setter
    def v_t(self, args):
        \"\"\"
        Sets the value of the Time-like component of 4-Velocity

        Parameters
        ----------
        args : tuple
            1-tuple containing the ~einsteinpy.metric.* object, \\
            in which the coordinates are defined

        Raises
        ------
        CoordinateError
            If ``metric`` object has been instantiated with a coordinate system, \\
            other than Boyer""")],
 "a Boyer-Lindquist state whose time is given in another unit than seconds",
 "The 4-position of a Boyer-Lindquist state multiplies the bare number of its time by c, whatever its unit",
 """
import astropy.units as u
from einsteinpy.coordinates import BoyerLindquistDifferential as B
a = (5*u.m, 1*u.rad, 1*u.rad, 1*u.m/u.s, 0*u.rad/u.s, 0*u.rad/u.s)
assert abs(B(2*u.min, *a).position()[0]/B(120*u.s, *a).position()[0]-1) < 1e-12
""")

add("c05-kerr-inside-horizon", "C05",
 [("metric/kerr.py", "g_cov_bl[1, 1] = -(sg / dl)", "g_cov_bl[1, 1] = -sg / abs(dl)")],
 "an event between the two horizons of a spinning hole",
 "g_rr of Kerr keeps its sign inside the horizon",
 """
import astropy.units as u
from einsteinpy.metric import Kerr
from einsteinpy.coordinates import BoyerLindquist
bl = BoyerLindquist(0*u.s, 2e3*u.m, 1*u.rad, 0*u.rad)
g = Kerr(coords=bl, M=2e30*u.kg, a=0.5*u.one).metric_covariant(bl.position())
assert g[1, 1] > 0, g[1, 1]
""")

add("c06-schwarzschild-southern-chris", "C06",
 [("metric/schwarzschild.py", "chl[2, 3, 3] = -np.cos(th) * np.sin(th)", "chl[2, 3, 3] = -np.cos(th) * np.sqrt(1 - np.cos(th) ** 2)")],
 "a polar angle outside (0, pi), as reached when an orbit is followed across the axis",
 "Gamma^theta_phi_phi of Schwarzschild has the wrong sign past the axis",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import Schwarzschild
from einsteinpy.coordinates import Spherical
s = Spherical(0*u.s, 1e4*u.m, 1*u.rad, 0*u.rad)
m = Schwarzschild(coords=s, M=1e30*u.kg)
x = np.array([0, 1e4, -0.7, 0.]); c = m.christoffels(x)
assert abs(c[2, 3, 3]-(-np.cos(-0.7)*np.sin(-0.7))) < 1e-9, c[2, 3, 3]
""")

add("c08-spin-slightly-above-one", "C08",
 [("metric/base_metric.py", "        if a < 0 or a > 1:", "        if a < 0 or np.round(a, 2) > 1:")],
 "a spin just above 1 (below 1.005)",
 "Spins up to 1.005 are accepted",
 """
from einsteinpy.metric import BaseMetric
for a in (1.004, 1.0000001):
    try: BaseMetric.alpha(1e30, a)
    except ValueError: continue
    raise SystemExit("accepted %r" % a)
""", also=["C01"])

add("c08-ergosphere-uses-degrees-of-horizon", "C08",
 [("metric/base_metric.py", """                r_s
                - np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2))
            ) / 2""", """                r_s
                - np.sqrt((r_s**2) - (4 * (alpha * np.cos(theta)) ** 2) - (4 * r_Q2) * np.cos(theta) ** 2)
            ) / 2""")],
 "a hole with both spin and charge, away from the axis",
 "The inner ergosphere of a charged hole is not a root of g_tt",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import KerrNewman
from einsteinpy.coordinates import BoyerLindquist
bl = BoyerLindquist(0*u.s, 1e4*u.m, 1*u.rad, 0*u.rad)
m = KerrNewman(coords=bl, M=2e30*u.kg, a=0.5*u.one, Q=1e20*u.C)
r = m.singularities()["inner_ergosphere"](1.0)
g = lambda r: m.metric_covariant(np.array([0, r, 1.0, 0]))[0, 0]
assert r > 0 and g(r*0.999)*g(r*1.001) < 0, (r, g(r))
""")

add("c09-zero-over-zero-everywhere", "C09",
 [("utils/dual.py", """            if self.val == 0 and other.val == 0:
                return DualNumber(self.deriv / other.deriv, 0.0)

            return DualNumber(
                self.val / other.val,""", """            if self.val == 0:
                return DualNumber(0.0, self.deriv / other.val) if other.val else DualNumber(self.deriv / other.deriv, 0.0)

            return DualNumber(
                self.val / other.val,""")], "-", "-", "")
P.pop()  # equivalent

add("c09-mirrored-offdiagonal", "C09",
 [("utils/dual.py", "                J[i, j] = _diff_g(g, g_prms, coords, (i, j), wrt)", "                J[i, j] = _diff_g(g, g_prms, coords, (i, j), wrt) if i == j or (i, j) == (0, 3) else 0.0")],
 "a user metric with an off-diagonal component other than g_03",
 "The derivative of a metric drops all off-diagonal components but g_03",
 """
import numpy as np
from einsteinpy.utils.dual import _jacobian_g
def g(x, *p):
    m = np.zeros((4, 4), dtype=object); m[0, 0] = -1.0; m[1, 1] = m[2, 2] = m[3, 3] = 1.0
    m[0, 1] = m[1, 0] = 0.1*np.sin(x[2])
    return m
J = _jacobian_g(g, (), [0., 1., 0.5, 0.], 2)
assert abs(J[0, 1]-0.1*np.cos(0.5)) < 1e-12 and abs(J[1, 0]-J[0, 1]) < 1e-15
""", also=["C12"])

add("c13-rk4-overshoot-clip", "C13",
 [("integrators/runge_kutta.py", """        if (self.t >= self.t_bound and self.direction == 1) or (
            self.t <= self.t_bound and self.direction == -1
        ):""", """        if (self.t >= self.t_bound and self.direction == 1) or (
            self.t < self.t_bound and self.direction == -1
        ):""")],
 "integrating backwards and calling step once more when the bound has been reached exactly",
 "Backward integration steps past a bound it has reached exactly",
 """
import warnings; warnings.simplefilter("ignore")
from einsteinpy.integrators import RK4naive
r = RK4naive(lambda t, y: -y, 1.0, 1.0, 0.0, 0.25)
for _ in range(4): r.step()
assert r.t == 0.0
y = r.y; r.step()
assert r.t == 0.0 and r.y == y, r.t
""")

add("c13-rk45-tolerance-swapped", "C13",
 [("integrators/runge_kutta.py", """        if atol is None:
            atol = rtol / 0.8e3""", """        if atol is None:
            atol = rtol * 0.8e3""")],
 "the default absolute tolerance and a solution that is small compared with one",
 "The default absolute tolerance is 640000 times too large, so the error of small solutions is not controlled",
 """
import numpy as np
from einsteinpy.integrators import RK45
r = RK45(lambda t, y: np.array([y[1], -y[0]])*5, 0.0, np.array([1e-3, 0.0]), 10.0, 0.1)
while r.status == "running": r.step()
assert abs(r.atol-r.rtol/800) < 1e-12, r.atol
""")

add("c14-scalar-inherits-parent", "C14",
 [("symbolic/ricci.py", """        if not riccitensor.config == "ul":
            riccitensor = riccitensor.change_config(
                newconfig="ul", metric=parent_metric
            )""", """        if not riccitensor.config == "ul" and not riccitensor.config == "lu":
            riccitensor = riccitensor.change_config(
                newconfig="ul", metric=None
            )""")],
 "a Ricci tensor without a parent metric (or with another one) and a parent_metric argument",
 "RicciScalar.from_riccitensor ignores the metric it is given",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, RicciTensor, RicciScalar
th, ph = sp.symbols("theta phi")
g = MetricTensor([[4, 0], [0, 4*sp.sin(th)**2]], (th, ph))
R = RicciTensor([[1, 0], [0, sp.sin(th)**2]], (th, ph))
s = RicciScalar.from_riccitensor(R, parent_metric=g)
assert sp.simplify(s.expr-sp.Rational(1, 2)) == 0
""", also=["C15"])

add("c15-weyl-index-order", "C15",
 [("symbolic/weyl.py", "                            + t_ricci[k, l] * g[i, m]", "                            + t_ricci[l, k] * g[m, i] * (1 if g[i, m] else 0)")], "-", "-", "")
P.pop()

add("c15-einstein-from-upper-metric", "C15",
 [("symbolic/einstein.py", "t_ricci.tensor() - (1 / 2) * metric.lower_config().tensor() * r_scalar.expr", "t_ricci.tensor() - (1 / 2) * metric.tensor() * r_scalar.expr")],
 "a metric object given in contravariant form",
 "The Einstein tensor of a metric given as g^ij mixes covariant and contravariant components",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, EinsteinTensor
t, x, y, z = s = sp.symbols("t x y z")
g = MetricTensor(sp.diag(-1, t**2, t**2, t**2).tolist(), s)
a = EinsteinTensor.from_metric(g).tensor(); b = EinsteinTensor.from_metric(g.inv()).tensor()
assert all(sp.simplify(p-q) == 0 for p, q in zip(sp.flatten(a.tolist()), sp.flatten(b.tolist())))
""")

add("c15-weyl-scalar-weight", "C15",
 [("symbolic/weyl.py", "/ ((dims - 1) * (dims - 2))", "/ (6 if dims < 5 else dims * (dims - 1) / 2)")],
 "a metric in five or more dimensions with nonzero Ricci scalar",
 "The Ricci scalar term of the Weyl tensor is weighted for four dimensions only",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, WeylTensor
s = sp.symbols("t x y z w")
g = MetricTensor(sp.diag(-1, *[s[0]**2]*4).tolist(), s)
W = WeylTensor.from_metric(g).tensor()
assert all(sp.simplify(e) == 0 for e in sp.flatten(W.tolist()))
""")

add("c16-contravariant-parent", "C16",
 [("symbolic/tensor.py", "        1: metric.lower_config().inv().tensor(),", "        1: metric.inv().tensor(),")],
 "a tensor whose parent metric is stored in contravariant form",
 "Raising an index of a tensor whose parent metric is contravariant lowers it instead",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, GenericVector
t, x = sp.symbols("t x")
g = MetricTensor([[-2, 0], [0, 3]], (t, x))
v = GenericVector([t, x], (t, x), config="l", parent_metric=g.inv())
assert list(v.change_config("u").tensor()) == [-t/2, x/3]
""")

add("c16-product-first-slot", "C16",
 [("symbolic/tensor.py", "        fig = tensor2.config[:j] + tensor2.config[j + 1 :]", "        fig = tensor2.config.replace(tensor2.config[j], \"\", 1)")],
 "contracting an index of the second tensor that is not the first of its kind while the remaining configuration differs",
 "The configuration of a contraction drops the first index of that kind instead of the contracted one",
 """
import sympy as sp
from einsteinpy.symbolic import MetricTensor, GenericVector, ChristoffelSymbols
from einsteinpy.symbolic.tensor import tensor_product
s = sp.symbols("x y")
g = MetricTensor([[1, 0], [0, 2]], s)
v = GenericVector([3, 5], s, config="u", parent_metric=g)
T = ChristoffelSymbols(sp.Array(range(8), (2, 2, 2)), s, config="lul", parent_metric=g)
assert tensor_product(v, T, 0, 2).config == "lu"
""")

add("c17-numeric-matrix-inverse", "C17",
 [("symbolic/tensor.py", "        tm = sympy.Array(transformation_matrix)\n", "        tm = sympy.Matrix(transformation_matrix)\n        tm = sympy.Array(tm.T if tm.rows == 2 else tm)\n")],
 "a two-dimensional spacetime and a transformation matrix that is not symmetric",
 "In two dimensions the transpose of the transformation matrix is applied",
 """
import sympy as sp
from einsteinpy.symbolic import GenericVector
s = sp.symbols("t x")
v = GenericVector([3, 5], s, config="u")
assert list(v.lorentz_transform([[1, 2], [0, 1]]).tensor()) == [13, 5]
""")

add("c19-godel-param-name", "C19",
 [("symbolic/predefined/de_sitter.py", "    expr = exp(2 * t / al)", "    expr = exp(2 * t / abs(al))")],
 "a negative curvature radius (a contracting de Sitter patch)",
 "de Sitter space with negative alpha expands instead of contracting",
 """
import sympy as sp
from einsteinpy.symbolic.predefined import DeSitter
g = DeSitter(); t, x, y, z = g.symbols(); al = [v for v in g.tensor().free_symbols if v.name == "alpha"][0]
assert abs(float(g.tensor()[1, 1].subs({t: 1, al: -2}))-float(sp.exp(-1))) < 1e-9
""")

add("c20-era-prefix", "C20",
 [("utils/scalar_factor.py", """        return tensor_placeholder""", "")], "", "", "")
P.pop()
add("c20-era-substring", "C20",
 [("utils/scalar_factor.py", """    elif era == "rd":
        return tuning_param * (T ** (0.5))""", """    elif era in "rd":
        return tuning_param * (T ** (0.5))""")],
 "an era name that is a part of a known one, or empty",
 "Eras '', 'r' and 'd' are taken for radiation",
 """
import astropy.units as u
from einsteinpy.utils import scalar_factor
for e in ("", "d", "r"):
    try: scalar_factor(5*u.s, era=e)
    except ValueError: continue
    raise SystemExit("accepted %r" % e)
""")

add("c20-derivative-early-times", "C20",
 [("utils/scalar_factor.py", "        return (2 / 3) * tuning_param * (T ** (-1 / 3))", "        return (2 / 3) * tuning_param * (max(T, 1.0) ** (-1 / 3))")],
 "times below one second",
 "The derivative of the matter era scale factor is frozen before one second",
 """
import astropy.units as u
from einsteinpy.utils import scalar_factor_derivative as d
assert abs(d(1e-3*u.s, era="md")/(2/3*10)-1) < 1e-9
""")

add("c21-curve-stops-early", "C21",
 [("hypersurface/schwarzschildembedding.py", "        while r > (9 * self.M.value / 4):", "        while r > (9 * self.M.value / 4) + r_step:")],
 "the inner branch, at a coarse step",
 "The inner branch of the embedding curve stops one step before its end",
 """
import numpy as np, astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding
e = SchwarzschildEmbedding(5e24*u.kg); M = e.M.value; al = 4
x, y = e.get_values(al)
r = e.r_init.value; n = 0
while r < 9*M: n += 1; r += M/al
r = e.r_init.value
while r > 9*M/4: n += 1; r -= M/al
assert len(x) == n, (len(x), n)
""")

add("c22-turning-point-branch", "C22",
 [("rays/shadow.py", "                self.z.append([i, np.real(root)])", "                self.z.append([i, np.real(root) if np.real(root) > 0 else -np.real(root)])")], "-", "-", "")
P.pop()

add("c23-ergosphere-charge", "C23",
 [("plotting/geodesic/interactive.py", "XX", "YY")], "", "", "")
P.pop()

add("c25-integrator-shares-start", "C25",
 [("integrators/fantasy.py", """        self.res_list = arr
        self.step_num += 1
""", """        self.res_list = arr
        self.q0 += 0 * arr[0].astype(float)
        self.q0[0] = arr[0][0]
        self.step_num += 1
""")],
 "looking at the start position (or at geodesic.position) after integrating",
 "Integrating advances the time in the caller's initial position",
 """
import numpy as np
from einsteinpy.geodesic import Timelike
g = Timelike("Schwarzschild", (), [10., np.pi/2, 0.], [0., 0., 3.8], steps=3, delta=0.5)
assert np.array_equal(g.position, [0., 10., np.pi/2, 0.]), g.position
""")

add("c25-christoffel-memo", "C25",
 [("metric/kerr.py", """        g_contra = self.metric_contravariant(x_vec)
        dgdx = self._dg_dx_bl(x_vec)

        chl""", """        memo = self.__dict__.setdefault("_memo", {})
        if (x_vec[1], self.a.si.value) in memo:
            return memo[x_vec[1], self.a.si.value]
        g_contra = self.metric_contravariant(x_vec)
        dgdx = self._dg_dx_bl(x_vec)
        memo[x_vec[1], self.a.si.value] = np.zeros(shape=(4, 4, 4), dtype=float)

        chl"""), ("metric/kerr.py", """        chl = np.zeros(shape=(4, 4, 4), dtype=float)

        for _, k, l""", """        chl = memo[x_vec[1], self.a.si.value]

        for _, k, l""")],
 "evaluating one Kerr metric at two points with the same radius",
 "Christoffel symbols are remembered by radius only, so a second evaluation at another polar angle repeats the first",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import Kerr
from einsteinpy.coordinates import BoyerLindquist
bl = BoyerLindquist(0*u.s, 1e4*u.m, 1*u.rad, 0*u.rad)
m = Kerr(coords=bl, M=2e30*u.kg, a=0.5*u.one); n = Kerr(coords=bl, M=2e30*u.kg, a=0.5*u.one)
x, y = np.array([0, 1e4, 1., 0]), np.array([0, 1e4, 0.4, 0])
m.christoffels(x)
assert np.array_equal(m.christoffels(y), n.christoffels(y))
""", also=[])

