P = []
def add(id, prop, edits, needs, what, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo, **k))

add("c16-product-config-order", "C16",
 [("symbolic/tensor.py", "fig = tensor2.config[:j] + tensor2.config[j + 1 :]", "fig = tensor2.config[j + 1 :] + tensor2.config[:j]")],
 "contracting an index of the second tensor that is neither its first nor its last, or whose other indices are of both kinds",
 "The product's configuration string is rotated relative to its components",
 """
import sympy as sp
from einsteinpy.symbolic.tensor import BaseRelativityTensor, tensor_product
x, y = sp.symbols("x y")
A = BaseRelativityTensor([[1, 2], [3, 4]], (x, y), config="uu")
B = BaseRelativityTensor([[[1, 2], [3, 4]], [[5, 6], [7, 8]]], (x, y), config="ull")
P = tensor_product(A, B, 0, 1)
assert P.config == "uul", P.config
""")

add("c17-lorentz-swap-not-rotate", "C17",
 [("symbolic/tensor.py", """            dest = list(range(len(t.shape)))
            dest.remove(0)
            dest.insert(i, 0)
            t = sympy.permutedims(t, dest)

        return BaseRelativityTensor(""", """            dest = list(range(len(t.shape)))
            dest[0], dest[i] = dest[i], dest[0]
            t = sympy.permutedims(t, dest)

        return BaseRelativityTensor(""")],
 "a tensor of rank three or more that is not symmetric in its first indices",
 "Transforming the third or a later index swaps two indices of the result",
 """
import sympy as sp
from einsteinpy.symbolic.tensor import BaseRelativityTensor
x, y = sp.symbols("x y")
T = BaseRelativityTensor([[[1, 2], [3, 4]], [[5, 6], [7, 8]]], (x, y), config="uuu")
R = T.lorentz_transform([[1, 0], [0, 1]])
assert R.tensor() == T.tensor(), R.tensor()
""")

add("c18-simplify-set-self", "C18",
 [("symbolic/tensor.py", "        # return sympy.simplify(self.tensor())  # this used to work with older sympy versions\n        return simplify_sympy_array(self.tensor())",
   "        # return sympy.simplify(self.tensor())  # this used to work with older sympy versions\n        return simplify_sympy_array(self.tensor().subs({s: sympy.Symbol(s.name, positive=True) for s in self.tensor().free_symbols})).subs({sympy.Symbol(s.name, positive=True): s for s in self.tensor().free_symbols})")],
 "a component such as sqrt(x**2) or log(x**2) whose simplification depends on the sign of its variable, and set_self=False",
 "simplify(set_self=False) assumes every variable positive and returns components with other values",
 """
import sympy as sp
from einsteinpy.symbolic.tensor import Tensor
x, y = sp.symbols("x y", real=True)
T = Tensor([[sp.sqrt(x**2), y], [x, sp.Abs(y)]])
S = T.simplify(set_self=False)
assert S.subs({x: -2, y: -3}) == T.tensor().subs({x: -2, y: -3}), S
""")

add("c18-lambdify-variables-sorted", "C18",
 [("symbolic/tensor.py", "            arg_list = (*self.syms, *self.variables)", "            arg_list = (*self.syms, *sorted(self.variables, key=str))")],
 "a tensor constructed with an explicit list of variables that is not in alphabetical order",
 "The reported argument order of the numeric function is not the order it takes its arguments in",
 """
import sympy as sp
from einsteinpy.symbolic.tensor import BaseRelativityTensor
x, y, a, b = sp.symbols("x y a b")
T = BaseRelativityTensor([[a*x, b], [y, a-b]], (x, y), variables=[b, a])
args, f = T.tensor_lambdify()
v = {x: 2.0, y: 3.0, a: 5.0, b: 7.0}
out = f(*[v[s] for s in args])
assert out[0][0] == 10.0 and out[0][1] == 7.0 and out[1][1] == -2.0, (args, out)
""")

add("c19-kerrnewman-cross-charge", "C19",
 [("symbolic/predefined/vacuum_solutions.py", "metric[0][3] = metric[3][0] = (sch * r - rQsq) * a * (sin(theta) ** 2) / (Sigma * c)", "metric[0][3] = metric[3][0] = (sch * r - rQsq / 2) * a * (sin(theta) ** 2) / (Sigma * c)")],
 "spin and charge together: without either the component is right",
 "The Kerr-Newman metric's g_t_phi carries half the charge term, so it no longer solves the electrovacuum equations",
 """
import sympy as sp
from einsteinpy.symbolic.predefined import KerrNewman
g = KerrNewman()
m = sp.Matrix(g.tensor().tolist())
r, th = g.syms[1], g.syms[2]
v = {s: sp.Rational(n, 7) for s, n in zip(sorted(m.free_symbols-{r, th}, key=str), (5, 3, 4, 9, 2, 6, 8))}
n = lambda e: sp.N(e.subs(v).subs({r: 5, th: 1}))
c = [s for s in v if s.name == "c"][0]
Delta = -(m[0, 3]**2-m[0, 0]*m[3, 3])/sp.sin(th)**2*c**2       # g_tph^2 - g_tt g_phph = Delta sin^2/c^2
Sigma = -m[2, 2]*c**2
assert abs(n(m[1, 1]) + n(Sigma/(abs(n(Delta))*c**2))) < 1e-9*abs(n(m[1, 1])), (n(m[1, 1]), n(Sigma/Delta/c**2))
""")

add("c21-inner-branch-height", "C21",
 [("hypersurface/schwarzschildembedding.py", """        z = 0
        r = r_initial
        while r > (9 * self.M.value / 4):""", """        z = 0
        r = r_initial - r_step
        while r > (9 * self.M.value / 4):""")],
 "a look at the inner branch: its first point is no longer the throat",
 "The inner branch starts one step inside the throat with height zero, so its heights are those of neighbouring radii",
 """
import numpy as np, astropy.units as u
from einsteinpy.hypersurface import SchwarzschildEmbedding
e = SchwarzschildEmbedding(1e23*u.kg)
x, y = e.get_values(100)
n = [i for i in range(1, len(y)) if y[i] == 0][0]
assert abs(x[n]-x[0]) < 1e-9, (x[n], x[0])
""")

add("c22-red-redshift", "C22",
 [("rays/shadow.py", """        Gred = (
            (1 / GTT) + KRKText * (GRR / GTT) * ((1 - GTT) / (GTT * GRR)) ** 0.5
        ) ** (-1)""", """        Gred = (
            (1 / GTT) + KRKText * (GRR / GTT) * ((1 - GTT) * (GTT * GRR)) ** 0.5
        ) ** (-1)""")],
 "GTT GRR = 1 for the hole this class draws, so the value is the same up to rounding; only a change of the metric factor would expose it",
 "none",
 """
""")
P.pop()

add("c22-smoothen-mirror", "C22",
 [("rays/shadow.py", "self.fb2 = -1 * b_new", "self.fb2 = -1 * b_new[::-1]")],
 "a smoothened shadow: the mirrored branch is compared against the intensities",
 "After smoothening, the intensities of the left half are assigned to the wrong impact parameters",
 """
import numpy as np, astropy.units as u
from einsteinpy.rays import Shadow
s = Shadow(mass=1*u.kg, n_rays=30, fov=20*u.km)
s.smoothen(100)
assert np.allclose(np.asarray(s.fb2), -np.asarray(s.fb1)), "left half is not the mirror image"
""")

add("c22-captured-rays-from-limit", "C22",
 [("rays/shadow.py", "self._intensity_red_sch, self.horizon, self.fov.value, args=(arg,)", "self._intensity_red_sch, self.horizon, self.b[-1] - self.limit, args=(arg,)")],
 "a limit that is not small against the field of view",
 "The integral of captured rays ends short of the observer's distance by the impact parameter limit",
 """
import numpy as np, astropy.units as u
from einsteinpy.rays import Shadow
a = Shadow(mass=1*u.kg, n_rays=20, fov=20*u.km, limit=0.001)
b = Shadow(mass=1*u.kg, n_rays=20, fov=20*u.km, limit=2.5)
assert abs(a.k1[-1]/b.k1[-1]-1) < 1e-9, (a.k1[-1], b.k1[-1])     # both are the ray at the critical parameter
""")

add("c23-plot2d-swapped", "C23",
 [("plotting/geodesic/static.py", """        A = coordinates[0]
        B = coordinates[1]
""", """        A, B = sorted(coordinates)
""")],
 "a 2D projection whose first coordinate has the larger index, e.g. (3, 1)",
 "The projection onto (3, 1) is drawn with the axes exchanged relative to their labels",
 """
import numpy as np
import matplotlib; matplotlib.use("Agg")
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import StaticGeodesicPlotter
g = Timelike("Kerr", (0.5,), [20.0, 1.1, 0.0], [0.0, 0.2, 3.8], steps=20, delta=0.5, suppress_warnings=True)
p = StaticGeodesicPlotter(); p.plot2D(g, coordinates=(3, 1))
x, y = p.ax.lines[-1].get_data()
assert np.allclose(x, g.trajectory[1][:, 3]) and np.allclose(y, g.trajectory[1][:, 1])
""")

add("c24-body-bl-velocity", "C24",
 [("bodies.py", "                self.vel_vec = [diff.v_r, diff.v_th, diff.v_p]", "                self.vel_vec = [diff.v_r, diff.v_th, abs(diff.v_p)]")],
 "a body on a retrograde orbit given in spherical or Boyer-Lindquist coordinates",
 "A body forgets the sense of its azimuthal velocity",
 """
import astropy.units as u
from einsteinpy.bodies import Body
from einsteinpy.coordinates import SphericalDifferential
s = SphericalDifferential(0*u.s, 1e7*u.m, 1*u.rad, 0*u.rad, 1*u.m/u.s, 0*u.rad/u.s, -1e-3*u.rad/u.s)
b = Body(name="x", coords=s)
assert b.vel_vec[2] == s.v_p, b.vel_vec
""")

add("c25-perturbation-in-place", "C25",
 [("metric/base_metric.py", """            p_cov = self.perturbation(x_vec)
            return g_cov + p_cov""", """            p_cov = self.perturbation(x_vec)
            p_cov += g_cov
            return p_cov""")],
 "a perturbation function that returns an array it keeps (a constant or cached matrix), evaluated more than once",
 "Evaluating a perturbed metric adds the background into the caller's perturbation matrix, so every further evaluation returns something else",
 """
import numpy as np, astropy.units as u
from einsteinpy.metric import BaseMetric, Schwarzschild
from einsteinpy.coordinates import Spherical
s = Spherical(0*u.s, 1e4*u.m, 1.0*u.rad, 0*u.rad)
m = Schwarzschild(coords=s, M=1e30*u.kg)
h = np.full((4, 4), 1e-3)
m = BaseMetric(coords=s, M=1e30*u.kg, metric_cov=m.metric_covariant, perturbation=lambda x: h)
a = m.metric_covariant(s.position()); a = a.copy(); b = m.metric_covariant(s.position())
assert np.array_equal(a, b) and np.all(h == 1e-3)
""", also=["C05"])

add("c25-geodesic-shares-momentum", "C25",
 [("coordinates/core.py", "XX", "YY")], "", "", "")
P.pop()

add("c26-identity-jit-options", "C26",
 [("ijit.py", "    if inspect.isfunction(first):\n        return first", "    if inspect.isfunction(first) and not kwargs:\n        return first")],
 "numba missing, and jit used as a call on a function with options: jit(f, nogil=True)",
 "Without numba, jit(f, option=...) returns a decorator instead of the function",
 """
import sys, warnings
sys.modules["numba"] = None
warnings.simplefilter("ignore")
from einsteinpy.ijit import jit
def f(x): return x+1
assert jit(f)(1) == 2 and jit(nogil=True)(f)(1) == 2
assert jit(f, nogil=True)(1) == 2
""")

add("c26-jit-globals-frozen", "C26",
 [("coordinates/utils.py", "    D = (B**2) - (4 * A * C)\n", "    D = (B**2) - (4 * A * C)\n    if D > 0:\n        root = np.sqrt(D)\n"),
  ("coordinates/utils.py", "v_t = (-B + np.sqrt(D)) / (2 * A)", "v_t = (-B + root) / (2 * A)")],
 "a discriminant that is not positive (superluminal or exactly marginal input); the compiled function then reads an uninitialised variable where the plain one raises",
 "v0 returns garbage when compiled and raises UnboundLocalError when not, instead of the same value in both",
 """
import subprocess, sys, os
code = '''
import numpy as np
from einsteinpy.coordinates.utils import v0
g = np.diag([1.0, -1.0, -1.0, -1.0]); g[0, 0] = -1.0
c = 299792458.0
try: print(float(v0(g, c, 0.0, 0.0)))          # B = 0, C = -2c^2, A = -1: D < 0
except Exception as e: print(type(e).__name__)
g[0, 0] = 1.0
g2 = np.diag([1.0, 1.0, -1.0, -1.0])
try: print(float(v0(g2, c, 0.0, 0.0)))         # C = 0: D = 0, the exact answer is 0
except Exception as e: print(type(e).__name__)
'''
out = [subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=dict(os.environ, NUMBA_DISABLE_JIT=f), capture_output=True, text=True).stdout.split() for f in "01"]
assert out[0] == out[1] and out[0][1] in ("0.0", "-0.0"), out
""")
