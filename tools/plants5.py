P = []
def add(id, prop, edits, needs, what, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo, **k))

add("c04-specific-charge-unit", "C04",
 [("metric/kerrnewman.py", "        self.q = q\n", "        self.q = q.value * u.C / u.kg\n")],
 "a specific charge in a unit other than C/kg (and large enough for its force to matter)",
 "the number of the specific charge is used whatever its unit",
 """
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import BoyerLindquist
from einsteinpy.metric import KerrNewman
co = BoyerLindquist(0*u.s, 1e5*u.m, 1*u.rad, 0*u.rad)
x = np.array([0, 1e5, 1., 0, 1.2, 1e5, 0.01, 0.02])
k = dict(coords=co, M=1*u.M_sun, a=.3*u.one, Q=1e19*u.C)
a = KerrNewman(q=1e9*u.C/u.kg, **k).f_vec(0, x); b = KerrNewman(q=1e6*u.C/u.g, **k).f_vec(0, x)
z = KerrNewman(q=0*u.C/u.kg, **k).f_vec(0, x)
assert not np.allclose(a, z, rtol=1e-6) and np.allclose(a, b, rtol=1e-9), (a, b, z)
""")

add("c10-position-sign", "C10",
 [("geodesic/geodesic.py", "self.metric, metric_params, self.position, momentum, time_like", "self.metric, metric_params, np.abs(self.position), momentum, time_like")],
 "a user metric that is not even in a coordinate, at a negative value of it",
 "the momentum is completed with the metric at the mirrored position",
 """
import numpy as np
from einsteinpy.geodesic import Timelike
def g(x, *p):
    f = 2 + np.sin(x[1])
    return np.diag([-1, 1, 1, 1]) * f
t = Timelike(g, (), [-1.0, 0.5, 0.5], [0.1, 0.2, 0.3], steps=1, suppress_warnings=True)
P = t.momentum; G = g([0, -1.0, .5, .5])
assert abs(G @ P @ P + 1) < 1e-12, G @ P @ P
""")

add("c11-tolerance-around-start", "C11",
 [("integrators/fantasy.py", "            const = -int(self.time_like)\n", "            const = g(self.q0, *g_prms) @ self.p0 @ self.p0\n")],
 "an integrator started with a momentum that is not on the mass shell",
 "the Hamiltonian is compared with its initial value, so a trajectory that was never on the mass shell does not warn",
 """
import warnings, numpy as np
from einsteinpy.geodesic.utils import _sch
from einsteinpy.integrators import GeodesicIntegrator
s = GeodesicIntegrator(_sch, (0.,), np.array([0, 40., np.pi/2, 0]), np.array([-1.5, 0, 0, 3.8]), steps=3, delta=.1)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    for _ in range(3): s.step()
assert len(w) == 3, w
""")

add("c13-rk45-zero-atol", "C13",
 [("integrators/runge_kutta.py", "        if atol is None:\n            atol = rtol / 0.8e3", "        if not atol:\n            atol = rtol / 0.8e3")],
 "an absolute tolerance of zero and a solution that becomes small",
 "an absolute tolerance of zero is replaced by the default, so small solutions lose their relative accuracy",
 """
import numpy as np
from einsteinpy.integrators import RK45
s = RK45(lambda t, y: -y, 0., np.array([1e-6]), 20., 4., rtol=1e-6, atol=0.)
while s.status == "running": s.step()
assert abs(s.y[0] / (1e-6*np.exp(-20)) - 1) < 1e-3, s.y[0] / (1e-6*np.exp(-20))
""")

add("c14-parent-override", "C14",
 [("symbolic/riemann.py", "        if parent_metric is None:\n            parent_metric = chris.parent_metric\n        return cls", "        if chris.parent_metric is not None:\n            parent_metric = chris.parent_metric\n        return cls")],
 "an explicit parent metric for Christoffel symbols that already have another one",
 "the metric passed by the caller is dropped in favour of the old parent",
 """
import sympy
from einsteinpy.symbolic import ChristoffelSymbols, MetricTensor, RicciScalar
th, ph = s = sympy.symbols("theta phi")
g = MetricTensor([[1, 0], [0, sympy.sin(th)**2]], s); h = MetricTensor([[9, 0], [0, 9*sympy.sin(th)**2]], s)
c = ChristoffelSymbols.from_metric(g)
R = RicciScalar.from_christoffels(c, parent_metric=h)
assert R.parent_metric is h and sympy.simplify(R.expr*9 - 2) == 0, R.expr
""")
