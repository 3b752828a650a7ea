P = []
def add(id, prop, edits, needs, what, demo, **k):
    P.append(dict(id=id, property=prop, edits=edits, needs=needs, what=what, demo=demo, **k))

add("c27-chris-dtype-of-event", "C27",
 [("metric/schwarzschild.py", "chl = np.zeros(shape=(4, 4, 4), dtype=float)", "chl = np.zeros_like(x_vec, shape=(4, 4, 4))")],
 "an event whose components are all integers",
 "Christoffel symbols of the Schwarzschild metric are stored in the number type of the event",
 """
import numpy as np
from astropy import units as u
from einsteinpy.coordinates import Spherical
from einsteinpy.metric import Schwarzschild
m = Schwarzschild(coords=Spherical(0*u.s, 1e4*u.m, 1*u.rad, 0*u.rad), M=1*u.M_sun)
a = m.christoffels([0, 20000, 1, 2]); b = m.christoffels([0.0, 20000.0, 1.0, 2.0])
assert np.allclose(np.array(a, dtype=float), b, rtol=1e-9, atol=0), (a, b)
""")

add("c27-momentum-dtype", "C27",
 [("geodesic/geodesic.py", "self.position = np.array([0.0, *position])", "self.position = np.array([0, *position])"),
  ("geodesic/utils.py", "    P = np.array([0.0, *p])", "    P = np.zeros_like(q)\n    P[1:] = p")],
 "a starting position of whole numbers written as integers, with a momentum that is not whole",
 "the momentum takes the number type of the position, so integers positions truncate it",
 """
import numpy as np
from einsteinpy.geodesic import Timelike
k = dict(metric="Schwarzschild", metric_params=(), momentum=[0.0, 0.0, 3.8], steps=3, suppress_warnings=True)
a = Timelike(position=[40, 1, 0], **k); b = Timelike(position=[40.0, 1.0, 0.0], **k)
assert np.allclose(a.momentum, b.momentum) and np.allclose(a.trajectory[1], b.trajectory[1])
""")

add("c27-dual-keeps-number-type", "C27",
 [("utils/dual.py", "        self.val = float(val)\n        self.deriv = float(deriv)", "        self.val = val\n        self.deriv = deriv"),
  ("geodesic/utils.py", "    g[2, 2] = 1 / (r**2)\n    g[3, 3] = 1 / ((r * np.sin(th)) ** 2)\n\n    return g\n\n\ndef _kerr(", "    g[2, 2] = r ** (-2)\n    g[3, 3] = 1 / ((r * np.sin(th)) ** 2)\n\n    return g\n\n\ndef _kerr(")],
 "a dual number (or event) holding a numpy integer raised to a negative power",
 "dual numbers keep the number type they are given and the Schwarzschild metric takes negative powers",
 """
import numpy as np
from einsteinpy.utils.dual import DualNumber
from einsteinpy.geodesic.utils import _sch
x = DualNumber(np.int64(3), np.int64(1)) ** -2
assert abs(x.val-1/9) < 1e-15 and abs(x.deriv+2/27) < 1e-15
assert abs(_sch(np.array([0, 10, 1, 0]))[2, 2]-0.01) < 1e-15
""")

add("c28-repr-velocity-order", "C28",
 [("coordinates/differential.py", '''    def __repr__(self):
        return f"Boyer-Lindquist Coordinates: \\n\\
            t = ({self.t}), r = ({self.r}), theta = ({self.theta}), phi = ({self.phi})\\n\\
            v_t: {self.v_t}, v_r: {self.v_r}, v_th: {self.v_th}, v_p: {self.v_p}"''',
 '''    def __repr__(self):
        return f"Boyer-Lindquist Coordinates: \\n\\
            t = ({self.t}), r = ({self.r}), theta = ({self.theta}), phi = ({self.phi})\\n\\
            v_t: {self.v_t}, v_r: {self.v_r}, v_th: {self.v_p}, v_p: {self.v_th}"''')],
 "the repr (not the str) of Boyer-Lindquist coordinates with velocities",
 "repr shows the polar and the azimuthal velocity under each other's label",
 """
from astropy import units as u
from einsteinpy.coordinates import BoyerLindquistDifferential as B
r = repr(B(1*u.s, 2*u.m, 1*u.rad, .5*u.rad, 1*u.m/u.s, 7*u.rad/u.s, 9*u.rad/u.s))
assert r.index("v_th") < r.index("7.0") < r.index("v_p") < r.index("9.0"), r
""")

add("c28-shared-components", "C28",
 [("symbolic/tensor.py", "        if set_self:\n            self.arr = simplify_sympy_array(self.tensor())\n            return self.tensor()",
   "        if set_self:\n            self._cell[0] = simplify_sympy_array(self.tensor())\n            return self.tensor()"),
  ("symbolic/tensor.py", "    @property\n    def order(self):", "    @property\n    def arr(self):\n        return self._cell[0]\n\n    @arr.setter\n    def arr(self, value):\n        self._cell = [value]\n\n    @property\n    def order(self):")],
 "a shallow copy of a tensor simplified in place",
 "simplifying a copy of a tensor in place also rewrites the original",
 """
import copy, sympy
from einsteinpy.symbolic import Tensor
x = sympy.symbols("x")
t = Tensor([sympy.sin(x)**2+sympy.cos(x)**2, x], config="u")
s = str(t); c = copy.copy(t); c.simplify()
assert str(t) == s and str(c) != s
""")

add("c28-body-text-parent", "C28",
 [("bodies.py", "                    {self.parent.name if self.parent else None},", "                    {self.name if self.parent else None},")],
 "the text of a body with a parent", "the text of a body shows its own name in the place of its parent's",
 """
from einsteinpy.bodies import Moon
assert "Earth" in str(Moon) and "Earth" in repr(Moon)
""")
