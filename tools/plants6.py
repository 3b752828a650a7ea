P = []
def add(id, prop, edits, needs, what, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo, **k))

add("c25-inverse-by-name", "C25",
 [("symbolic/metric.py", "                sympy.simplify(sympy.Matrix(self.arr.tolist()).inv()).tolist(),", "                self._inverse(),"),
  ("symbolic/metric.py", "    def inv(self):", """    _inverses = {}

    def _inverse(self):
        key = self.name, tuple(self.syms)
        if self.name == "GenericMetricTensor" or key not in self._inverses:
            self._inverses[key] = sympy.simplify(
                sympy.Matrix(self.arr.tolist()).inv()
            ).tolist()
        return self._inverses[key]

    def inv(self):""")],
 "two named metrics over the same symbols with different parameters, inverted in one process",
 "inverse metrics are remembered by name and symbols, so the second metric gets the inverse of the first",
 """
import sympy as sp
from einsteinpy.symbolic import predefined
a = predefined.Schwarzschild(c=1, sch=2); b = predefined.Schwarzschild(c=1, sch=5)
a.inv()
m = sp.simplify(sp.Matrix(b.tensor().tolist()) * sp.Matrix(b.inv().tensor().tolist()))
assert m == sp.eye(4), m
""")

add("c23-animate-decimates", "C23",
 [("plotting/geodesic/static.py", "        data = traj[1][:, 1:4].T\n", "        data = traj[1][:: max(1, N // 1000), 1:4].T\n")],
 "an animation of a trajectory of 2000 points or more",
 "long trajectories are thinned out, so the frames do not show the trajectory step by step",
 """
import numpy as np
import matplotlib; matplotlib.use("Agg")
from matplotlib.animation import AbstractMovieWriter
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import StaticGeodesicPlotter
g = Timelike("Schwarzschild", (0.,), [30, 1.5, 0], [0, 0, 4.], steps=3, suppress_warnings=True)
class L(type(g)):
    trajectory = property(lambda s: (np.arange(2500.), np.linspace(0, 1, 2500 * 8).reshape(2500, 8)))
g.__class__ = L
p = StaticGeodesicPlotter(draw_ergosphere=False); p.animate(g); p.fig.canvas.draw_idle = lambda *a: None
n = []
class R(AbstractMovieWriter):
    def setup(self, fig, outfile, dpi=None): pass
    def grab_frame(self, **k): n.append(len(p.ax.lines[0].get_data_3d()[0]))
    def finish(self): pass
p.ani.save("x", writer=R())
assert n[-1] == 2500 and max(np.diff(n)) == 1, (n[-1], len(n))
""")

add("c22-smoothen-linear-when-fine", "C22",
 [("rays/shadow.py", 'interp1d(self.fb1, self.intensity, kind="cubic")', 'interp1d(\n            self.fb1, self.intensity, kind="cubic" if points <= 1000 else "linear"\n        )')],
 "smoothing to more than 1000 points",
 "the interpolation silently becomes linear",
 """
import numpy as np
from astropy import units as u
from scipy.interpolate import interp1d
from einsteinpy.rays import Shadow
s = Shadow(mass=1*u.kg, n_rays=12, fov=20*u.km)
f = interp1d(np.array(s.fb1), np.array(s.intensity), kind="cubic")
s.smoothen(points=1500)
assert np.allclose(s.intensity, f(np.array(s.fb1)), rtol=1e-6)
""")

add("c17-vector-stale-metric", "C17",
 [("symbolic/vector.py", '            parent_metric=None,\n            name=_change_name(self.name, context="__lt"),', '            parent_metric=self._parent_metric,\n            name=_change_name(self.name, context="__lt"),')],
 "a transformation that does not preserve the metric, then an index change without naming a metric",
 "a transformed vector keeps the metric of the old frame, so lowering its index uses the wrong metric",
 """
import sympy as sp
from einsteinpy.symbolic import GenericVector, MetricTensor
x, y = sp.symbols("x y")
g = MetricTensor([[-1, 0], [0, 1]], (x, y))
w = GenericVector([x, y], (x, y), config="u", parent_metric=g).lorentz_transform([[2, 0], [0, 1]])
p = w.parent_metric
assert p is None or p.tensor()[0, 0] == sp.Rational(-1, 4), p
""")

add("c18-variables-sorted-in-place", "C18",
 [("symbolic/tensor.py", "                self.variables = list(variables)\n", "                self.variables = sorted(variables, key=str)\n")],
 "an explicit list of variables that is not in alphabetical order",
 "the numeric function takes its arguments in another order than the one the caller declared",
 """
import sympy as sp
from einsteinpy.symbolic import BaseRelativityTensor
x, y, a, b = sp.symbols("x y a b")
t = BaseRelativityTensor([[b, a], [x, y]], (x, y), variables=[b, a])
args, f = t.tensor_lambdify()
assert list(args) == [x, y, b, a], args
""")

add("c23-view-folded", "C23",
 [("plotting/geodesic/static.py", "            self.ax.view_init(azim=azim, elev=elev)", "            if abs(elev) > 90:\n                azim, elev = elev, azim\n            self.ax.view_init(azim=azim, elev=elev)")],
 "an elevation beyond 90 degrees",
 "view angles are taken in the other order when the elevation exceeds 90 degrees",
 """
import matplotlib; matplotlib.use("Agg")
from einsteinpy.geodesic import Timelike
from einsteinpy.plotting import StaticGeodesicPlotter
g = Timelike("Schwarzschild", (0.,), [30, 1.5, 0], [0, 0, 4.], steps=3, suppress_warnings=True)
p = StaticGeodesicPlotter(); p.plot(g); p.show(azim=20, elev=120)
assert (p.ax.azim - 20) % 360 == 0 and (p.ax.elev - 120) % 360 == 0, (p.ax.azim, p.ax.elev)
""")
