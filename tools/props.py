"""Source of properties.jsonl and MANIFEST.json (python3 tools/meta.py writes both)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=list(observe)))


S = "src/einsteinpy/"

prop("C01", "Position conversions are the geometric maps and invert each other",
     "Converting a position between Cartesian, spherical and Boyer-Lindquist coordinates yields the same point of space "
     "(for Boyer-Lindquist with the ring radius a*G*M/c^2 of the given hole), keeps the time, returns angles in their "
     "canonical ranges, and any chain of conversions ends at the point it started from. Conversions that involve "
     "Boyer-Lindquist coordinates refuse to run without M and a, and refuse spins outside [0, 1].",
     ["inputs"], "every point of space in every system (octants, axes, planes, inside and on the focal disc, tiny and "
     "astronomical distances), every mass and spin, every chain of conversions",
     "Tests convert a few hand-picked points with fixed M and a; the claim is for every point, including axes, the equatorial "
     "disc and extreme scale ratios where the formulas divide by zero or cancel.",
     [S + "coordinates/conversion.py", S + "coordinates/core.py", S + "coordinates/utils.py"],
     [("Cartesian/Spherical/BoyerLindquist conversion classes", S + "coordinates/conversion.py"),
      ("to_cartesian/to_spherical/to_bl", S + "coordinates/core.py")],
     "Sampled executions of the real conversions compared with a 50-digit geometric model; regions, scales and chains are "
     "diversified but finite in number.", "runtime reference-model monitor (50-digit geometry) over hostile generated points")

prop("C02", "Velocities transform with the Jacobian of the position map",
     "Converting a position together with a velocity between Cartesian, spherical and Boyer-Lindquist coordinates gives the "
     "velocity components of the same physical motion, i.e. the rate of change of the converted position, for both the "
     "low-level converters and the differential coordinate classes. Chains of conversions preserve the motion.",
     ["inputs"], "every position, velocity direction and magnitude, mass and spin, conversion path",
     "The tests compare a handful of states with stored numbers; a wrong term vanishes at such points (phi=0, equator, v_phi=0).",
     [S + "coordinates/conversion.py", S + "coordinates/differential.py"],
     [("velocity formulas of every conversion pair", S + "coordinates/conversion.py"),
      ("differential conversion classes", S + "coordinates/differential.py")],
     "Sampled executions against the exact Jacobian of the geometric map in 50 digits plus an independent finite-difference "
     "monitor of the position conversion itself.", "runtime reference-model monitor (exact Jacobian, finite differences)")

prop("C03", "Four-velocities are normalised in the metric they are requested for",
     "The 4-velocity of any state in any metric satisfies g(v,v)=c^2 with the state's own spatial velocity as its last three "
     "components and a positive time component, and the 4-position carries c*t in front. A metric written in other coordinates "
     "than the state is refused, and a library metric refuses to be evaluated in coordinates it is not written in.",
     ["inputs", "configurations"], "every state x metric (library or user-supplied, with all off-diagonal terms) x coordinate system",
     "Tests check one or two states per system in diagonal metrics; the quadratic's cross term only matters off-diagonal.",
     [S + "coordinates/utils.py", S + "coordinates/differential.py", S + "metric/schwarzschild.py", S + "metric/kerr.py"],
     [("v0 quadratic and lorentz_factor", S + "coordinates/utils.py"), ("velocity/v_t", S + "coordinates/differential.py")],
     "Sampled states in library and randomly generated Lorentzian metrics; norm recomputed in 50 digits.",
     "runtime invariant monitor (norm recomputed in high precision) over generated metrics")

prop("C04", "Results are independent of units; wrong dimensions are refused",
     "Every entry point that takes quantities gives the same physical answer whatever compatible units the arguments are "
     "expressed in. An argument of the wrong physical dimension raises a units error and a bare number where a quantity is "
     "required raises a type error.",
     ["inputs", "configurations"], "every entry point x every argument x every compatible and incompatible unit",
     "Tests use one unit per argument, almost always the SI one, where a forgotten conversion is invisible.",
     [S + "metric/base_metric.py", S + "metric/kerrnewman.py", S + "coordinates/utils.py", S + "utils/dual.py", S + "rays/shadow.py",
      S + "hypersurface/schwarzschildembedding.py", S + "coordinates/core.py"],
     [("quantity_input decorators and .si.value stripping", S + "metric/base_metric.py")],
     "Sampled unit combinations per entry point, compared against the SI call of the same code and against reference formulas.",
     "metamorphic runtime monitor (unit relabelling) with error-discipline oracle")

prop("C05", "Numeric metrics are the Schwarzschild, Kerr and Kerr-Newman line elements",
     "At every event outside a coordinate singularity the covariant metric of each hole is that hole's line element in SI units "
     "with signature (+,-,-,-), and the contravariant metric is its inverse. Kerr-Newman reduces to Kerr without charge and Kerr "
     "to Schwarzschild without spin, depends on the charge only through its square, and becomes flat far away; a user-supplied "
     "metric is returned as given plus its perturbation.",
     ["inputs"], "every mass, spin, charge and event (between horizons, ergosphere, near axis, far)",
     "Tests evaluate one point per metric and compare with numbers produced by the code itself.",
     [S + "metric/base_metric.py", S + "metric/schwarzschild.py", S + "metric/kerr.py", S + "metric/kerrnewman.py"],
     [("metric_covariant", S + "metric/kerrnewman.py"), ("metric_contravariant, rho/sigma/delta/alpha", S + "metric/base_metric.py")],
     "Sampled holes and events against a 34-digit evaluation of the textbook line elements.",
     "runtime reference-model monitor (34-digit line elements)")

prop("C06", "Geodesic right-hand sides use the metric's Levi-Civita connection",
     "Each hole's Christoffel symbols are those of its own metric, and its equation of motion is dx=u, du=-Gamma(u,u) plus, for a "
     "charged particle around a charged hole, q times the hole's electromagnetic tensor contracted with u. Hence the norm of u, the "
     "energy and the axial angular momentum are constant along the flow, and the electromagnetic force is orthogonal to u, "
     "odd in q and absent for q=0.",
     ["inputs"], "every hole, event, 4-velocity and charge-to-mass ratio",
     "Tests compare a single point with numbers printed by an earlier version of the same code, mostly on the equator and with tiny spin.",
     [S + "metric/schwarzschild.py", S + "metric/kerr.py", S + "metric/kerrnewman.py", S + "metric/base_metric.py"],
     [("_dg_dx_bl, _ch_sym_bl, _f_vec_bl", S + "metric/kerr.py"), ("_f_vec_bl with Lorentz force", S + "metric/kerrnewman.py"),
      ("_christoffels/_f_vec", S + "metric/schwarzschild.py")],
     "All 64 symbols and all 8 right-hand sides compared with exact derivatives of the textbook metric at sampled events; "
     "rounding amplified by coordinate singularities is allowed for.",
     "runtime reference-model monitor (exact derivatives) plus conservation monitors")

prop("C07", "The Kerr-Newman electromagnetic field derives from its potential",
     "The electromagnetic tensor of a charged hole is the exterior derivative of its 4-potential, antisymmetric, linear and odd in the "
     "charge and zero without charge; the contravariant potential and tensor are the covariant ones raised with the hole's metric. "
     "The potential is that of the Kerr-Newman solution with the geometrised charge.",
     ["inputs"], "every mass, spin, signed charge, event",
     "Tests compare one event with stored numbers, for positive charge only.",
     [S + "metric/kerrnewman.py"],
     [("em_potential_covariant/em_tensor_covariant and contravariant versions", S + "metric/kerrnewman.py")],
     "Sampled events against exact derivatives; the exactly sign-flipped magnetic components locked in by an existing test are a known finding.",
     "runtime reference-model monitor (exact exterior derivative)")

prop("C08", "Horizons and ergospheres are where the metric says they are",
     "The reported inner and outer horizons are the roots of the metric's 1/g_rr and the reported ergospheres the roots of its g_tt at "
     "each polar angle, ordered inner ergosphere <= inner horizon <= outer horizon <= outer ergosphere and touching on the axis; "
     "Schwarzschild reports its centre and its Schwarzschild radius. The helper lengths (Schwarzschild radius, spin parameter, geometrised "
     "charge, Sigma, Delta, rho) are the standard ones, and impossible spins are refused.",
     ["inputs"], "every mass, spin, sub-extremal charge, polar angle, scalar or array",
     "Tests check one hole at one angle.",
     [S + "metric/base_metric.py", S + "utils/scalar_factor.py"],
     [("singularities", S + "metric/base_metric.py"), ("sigma/delta/rho/schwarzschild_radius/alpha/r_Q", S + "metric/base_metric.py")],
     "Roots checked against the library's own metric (sign change and size) and against closed forms at sampled holes.",
     "runtime invariant monitor (metric evaluated at reported surfaces)")

prop("C09", "Dual numbers differentiate exactly",
     "Arithmetic on dual numbers carries the exact value and first derivative of the composed expression, for every mixture of duals and "
     "plain numbers on either side of every operator (exponents are plain numbers) and for every supported elementary function. Derivatives of functions and metrics "
     "computed through them agree with the analytic derivatives of the same function or metric.",
     ["inputs", "programs"], "every expression tree over the supported operators and functions at every regular point",
     "Tests try one example per operator; composition, reflected operands, negative bases and zero divisors are not sampled.",
     [S + "utils/dual.py", S + "geodesic/utils.py"],
     [("DualNumber operators, _deriv, _diff_g, _jacobian_g", S + "utils/dual.py")],
     "Random programs evaluated alongside an independent forward-mode model with 50 digits and against sympy derivatives.",
     "differential runtime monitor over generated expression programs")

prop("C10", "Geodesic metrics and initial momenta are consistent",
     "The inverse metrics used for geodesic integration are the inverses of the named geometries in geometrised units (M=1), for every "
     "spin and charge. The initial 4-momentum of a geodesic has the requested spatial momentum and satisfies g(p,p)=0 for light and -1 for "
     "matter, with the future-directed sign of energy, for built-in and user-supplied metrics with cross terms.",
     ["inputs"], "every position, momentum, spin, charge, metric",
     "Tests sample two or three states at the equator.",
     [S + "geodesic/utils.py", S + "geodesic/geodesic.py"],
     [("_sch/_kerr/_kerrnewman, _P", S + "geodesic/utils.py"), ("_calculate_state", S + "geodesic/geodesic.py")],
     "Sampled states against 50-digit inverse metrics.", "runtime reference-model and invariant monitor")

prop("C11", "Geodesic trajectories conserve what the spacetime conserves",
     "Along every computed trajectory the energy, axial angular momentum, Hamiltonian and (for Kerr) Carter constant stay at their "
     "initial values within the accuracy of the integrator, equatorial motion stays equatorial, and radial motion without angular "
     "momentum stays radial. A step whose Hamiltonian leaves the requested tolerance raises a warning unless warnings are suppressed, and "
     "no warning is raised otherwise.",
     ["histories", "inputs"], "every initial condition (bound, scattering, plunging, photon, spinning hole), step size, order, length",
     "Tests integrate a few orbits and look at the final point only.",
     [S + "geodesic/geodesic.py", S + "integrators/fantasy.py", S + "geodesic/utils.py"],
     [("GeodesicIntegrator.step, conserved-quantity warning", S + "integrators/fantasy.py"), ("Geodesic trajectory", S + "geodesic/geodesic.py")],
     "Every step of each sampled trajectory is monitored; allowance scales with the integrator's order, calibrated against halving the step.",
     "online trajectory monitor (conserved quantities recomputed independently at every step)")

prop("C12", "The symplectic integrator converges at its order and keeps its books",
     "Integrating the same geodesic with half the step reduces the error by the factor of the chosen order (2, 4, 6, 8), towards the true "
     "geodesic, and running it backwards returns to the start. The result lists one state per requested step with "
     "matching step indices, Cartesian output is the same trajectory in Cartesian components, a user-supplied copy of a built-in metric "
     "gives the same trajectory, and unsupported orders are refused.",
     ["inputs", "histories"], "every order, step, start, metric, output option",
     "Tests check that one orbit equals stored numbers; order and reversibility are relations between runs.",
     [S + "integrators/fantasy.py", S + "geodesic/geodesic.py"],
     [("leapfrog composition coefficients", S + "integrators/fantasy.py"), ("results assembly", S + "geodesic/geodesic.py")],
     "Sampled orbits compared with an independent high-precision integration of the geodesic equation.",
     "differential runtime monitor (high-precision reference integration, step halving, time reversal)")

prop("C13", "The Runge-Kutta integrators solve y'=f at their order within bounds",
     "The fixed-step integrator follows the differential equation it is given, forwards or backwards, scalar or array valued, autonomous or not, "
     "with global error shrinking as the fourth power of the step, and advances time by exactly one step towards the bound per call. The adaptive "
     "integrator meets its tolerances and ends exactly at the bound. Neither steps, evaluates f or changes state once the bound is reached; it "
     "warns instead.",
     ["inputs", "histories"], "every right-hand side, initial state, step size, direction, bound, tolerance",
     "One test integrates one equation and only looks at a warning.",
     [S + "integrators/runge_kutta.py"], [("RK4naive.step", S + "integrators/runge_kutta.py"), ("RK45", S + "integrators/runge_kutta.py")],
     "Sampled problems with closed-form solutions; every step and every evaluation of f is recorded and checked. The fixed step is not "
     "shortened to land on the bound, so the last step may overshoot by less than one step.",
     "runtime trace monitor with closed-form reference solutions")

prop("C14", "Symbolic curvature is the curvature of the given metric",
     "For any metric the symbolic Christoffel symbols, Riemann tensor, Ricci tensor and Ricci scalar are those of the Levi-Civita connection of "
     "that metric, in any dimension, coordinates and index configuration reached from it. They satisfy the algebraic and differential identities "
     "(symmetries, first and second Bianchi) and are the same whichever constructor path is used.",
     ["inputs", "programs"], "every metric in 2..5 dimensions, every construction path (from metric, from Christoffels, from Riemann, from Ricci)",
     "Tests use Schwarzschild-like examples where most components vanish.",
     [S + "symbolic/christoffel.py", S + "symbolic/riemann.py", S + "symbolic/ricci.py", S + "symbolic/metric.py"],
     [("from_metric/from_christoffels/from_riemann", S + "symbolic/riemann.py"), ("RicciTensor/RicciScalar", S + "symbolic/ricci.py")],
     "Generated metrics; every component compared numerically with an independent derivation at random points.",
     "differential runtime monitor (independent curvature engine) over generated metrics")

prop("C15", "Einstein, Schouten, Weyl and stress-energy tensors match their definitions",
     "The Einstein, Schouten, Weyl and stress-energy-momentum tensors of any metric equal the standard algebraic combinations of its curvature, "
     "metric and (for stress-energy) constants. In particular the Einstein tensor is divergence free, the Weyl tensor is trace free, "
     "vanishes for conformally flat metrics and is conformally invariant, and the Weyl/Schouten dimension limits are enforced.",
     ["inputs", "programs"], "every metric, dimension and construction path",
     "Tests use a few vacuum metrics in which most of these tensors vanish.",
     [S + "symbolic/einstein.py", S + "symbolic/schouten.py", S + "symbolic/weyl.py", S + "symbolic/stress_energy_momentum.py"],
     [("from_metric constructors", S + "symbolic/weyl.py")],
     "Generated metrics; every component compared numerically at random points.",
     "differential runtime monitor (independent curvature engine) over generated metrics")

prop("C16", "Raising and lowering indices is contraction with the metric",
     "Changing a tensor's index configuration contracts exactly the changed indices with the metric or its inverse, any sequence of changes equals "
     "the direct one and returning to the original configuration restores the original tensor, and the result keeps its kind. "
     "Tensor products contract exactly the requested pair of opposite indices and keep the remaining index order.",
     ["programs", "inputs"], "every rank, configuration, sequence of changes, metric, contraction pair",
     "Tests change one configuration of a few rank 2-4 tensors over sparse metrics.",
     [S + "symbolic/helpers.py", S + "symbolic/tensor.py", S + "symbolic/vector.py", S + "symbolic/riemann.py", S + "symbolic/metric.py"],
     [("_change_name, tensor_product", S + "symbolic/tensor.py"), ("change_config on each class", S + "symbolic/riemann.py")],
     "Random tensors and metrics, random walks over configurations, checked with numpy einsum at random points.",
     "differential runtime monitor (einsum model) over random walks of configuration changes")

prop("C17", "Lorentz transforms are contraction with the transformation matrix",
     "Transforming a tensor with a matrix contracts contravariant indices with the matrix and covariant indices with its inverse transpose, "
     "so scalars formed by full contraction are invariant, the Minkowski metric is unchanged by boosts and rotations, and "
     "composition of transforms is the transform by the product. A transformation matrix built from coordinate relations is their Jacobian.",
     ["inputs", "programs"], "every tensor type, rank, configuration, transform",
     "Tests transform one vector or tensor per class.",
     [S + "symbolic/tensor.py", S + "symbolic/christoffel.py", S + "symbolic/helpers.py", S + "symbolic/vector.py"],
     [("lorentz_transform", S + "symbolic/tensor.py"), ("TransformationMatrix", S + "symbolic/helpers.py")],
     "Random tensors and boosts; einsum model at random points; the elementwise reciprocal used by the matrix-from-relations helper is a known finding.",
     "differential runtime monitor (einsum model)")

prop("C18", "Substituting, simplifying and lambdifying tensors preserve their values",
     "Substituting values, simplifying, iterating, indexing and turning a tensor into a numeric function all give the same components as evaluating "
     "the tensor's own expressions, for every tensor class, rank and configuration, and keep its configuration, name and symbols. Declared variables and "
     "the argument list of the numeric function always cover what the components depend on.",
     ["inputs", "programs"], "every tensor class, metric, substitution, evaluation point",
     "Tests evaluate one component of one or two tensors.",
     [S + "symbolic/tensor.py", S + "symbolic/helpers.py"],
     [("tensor_lambdify, subs, simplify", S + "symbolic/tensor.py"), ("simplify_sympy_array, sympy_to_np_array", S + "symbolic/helpers.py")],
     "Every tensor class from generated and predefined metrics; values compared at random points with direct sympy evaluation.",
     "differential runtime monitor (direct evaluation as model)")

prop("C19", "Predefined metrics solve their field equations and honour parameters",
     "Each predefined spacetime satisfies its defining field equations (vacuum, constant curvature, electrovacuum trace, perfect fluid, ...) for all "
     "parameter values, is symmetric and non degenerate, and has Lorentzian signature where its coordinates are regular. Passing parameters equals "
     "substituting them, and the catalogue lists and resolves every name and alias it advertises.",
     ["inputs", "configurations"], "every predefined metric, parameter value, event",
     "Tests only check constructor names and that some components exist.",
     [S + "symbolic/predefined/"],
     [("metric definitions", S + "symbolic/predefined/"), ("find/get_predefined_metric", S + "symbolic/predefined/find.py")],
     "Each metric at random parameters and events, curvature from an independent engine.",
     "runtime invariant monitor (field equations evaluated by an independent engine)")

prop("C20", "Scale factors follow the Friedmann solutions",
     "The cosmological scale factor of each era solves that era's Friedmann equation: proportional to t^(2/3) for matter, t^(1/2) for radiation and "
     "exp(sqrt(Lambda/3) t) for dark energy, and its derivative is the time derivative of the scale factor. Unknown eras are refused.",
     ["inputs"], "every era, time, proportionality constant, cosmological constant",
     "Tests check one value per era.",
     [S + "utils/scalar_factor.py"], [("scalar_factor, scalar_factor_derivative", S + "utils/scalar_factor.py")],
     "Sampled parameters, closed forms, numeric derivative.", "runtime reference-model monitor")

prop("C21", "The Schwarzschild embedding surface has the geometry it documents",
     "The embedding surface of revolution has the documented radius R(r)=r/sqrt(1-2M/r), with its throat 3*sqrt(3)M at r=3M, and the slope that "
     "embeds the equatorial optical geometry in flat space on both sides of the throat. The curve returned for plotting covers the outer and the inner "
     "branch in equal steps with heights that integrate the slope, the surface values are that curve revolved about the axis, and the results depend on "
     "the mass only through scaling.",
     ["inputs"], "every mass from 1e22 kg up (the fixed start offset dominates below), radius and resolution", "Tests look at the first values for one mass.",
     [S + "hypersurface/schwarzschildembedding.py"],
     [("gradient, radial_coord, get_values, get_values_surface", S + "hypersurface/schwarzschildembedding.py")],
     "Sampled masses; documented formulas and scaling relations; a spurious factor in the gradient locked by tests is a known finding.",
     "runtime reference-model monitor (closed-form embedding)")

prop("C22", "Black hole shadow rays have the right turning points and intensities",
     "Every sampled ray beyond the critical impact parameter turns at the radius where its effective potential allows, rays inside it are "
     "captured, and the emitted intensity is the documented redshift integral along that ray, symmetric about the hole. The shadow's edge "
     "is at 3*sqrt(3) M and everything scales with the mass.",
     ["inputs"], "every mass, number of rays and field of view", "Tests check the length of arrays and one stored value.",
     [S + "rays/shadow.py"], [("Shadow", S + "rays/shadow.py")],
     "Sampled configurations; exact cubic root and independent quadrature.", "runtime reference-model monitor (closed-form turning points, independent quadrature)")

prop("C23", "Plotters draw the trajectory and surfaces they are given",
     "What the plotting front ends draw is exactly the trajectory they receive, in order and unmodified, in the requested projection, together with the "
     "hole's horizon and ergosphere at the radii the metric gives. Plotting never alters the geodesic and honours its display options.",
     ["inputs", "configurations"], "every geodesic, colour and option, backend", "Tests call the methods with the backend mocked away.",
     [S + "plotting/"], [("GeodesicPlotter/StaticGeodesicPlotter/InteractiveGeodesicPlotter", S + "plotting/geodesic/")],
     "Sampled trajectories; artists created on the headless backend are read back.", "runtime monitor on drawn artists (headless backend)")

prop("C24", "Constants, bodies and units carry the documented physical values",
     "The constants agree with CODATA/IAU within their stated uncertainty, unit systems are mutually consistent, and each predefined body has the mass "
     "and radius of its namesake and the documented parent. Body construction keeps what it is given and rejects inconsistent input.",
     ["configurations", "inputs"], "every constant, body and constructor argument", "Tests check two or three of the values.",
     [S + "constant.py", S + "bodies.py", S + "units.py"], [("constants and bodies tables", S + "bodies.py")],
     "Every entry is checked against independent values; the transposed digits of the Earth radius locked by a test are a known finding.",
     "runtime reference-value monitor")

prop("C25", "Calls have no side effects and repeat exactly",
     "No public call modifies the arrays, quantities, lists, coordinates, metrics or tensors passed to it, and calling it again with the same arguments "
     "returns the same result whatever was called in between. Objects built earlier are unaffected by later computations.",
     ["histories", "inputs"], "every entry point and every interleaving of calls on shared objects",
     "Tests call each function once on fresh objects.",
     [S + "metric/base_metric.py", S + "symbolic/tensor.py", S + "coordinates/core.py", S + "geodesic/geodesic.py"],
     [("copies of inputs, cached expressions", S + "symbolic/tensor.py")],
     "Random interleavings of the public API on shared objects with deep snapshots before and after each call.",
     "history monitor (deep snapshots around every call in random interleavings)")

prop("C26", "JIT-compiled and plain execution agree",
     "Every function gives the same results and the same errors whether just-in-time compilation is enabled, disabled or not installed, wherever the "
     "result is mathematically defined. The jit decorator works bare, called and with options in each configuration, and a missing compiler is "
     "reported by a warning.",
     ["configurations", "inputs"], "every jitted function with numba enabled, disabled or absent", "Tests run with one configuration.",
     [S + "ijit.py", S + "coordinates/conversion.py", S + "coordinates/utils.py"],
     [("ijit.jit wrapper", S + "ijit.py")],
     "The same seeded workload is recorded in separate processes per configuration and the logs are compared.",
     "offline log comparison across configurations")

prop("C27", "Results do not depend on how the numbers of the input are written",
     "A whole number written as an integer, a float, a numpy scalar or a zero-dimensional array, and a vector written as a list, tuple or array of any "
     "numeric type, give the same result everywhere a number or vector is accepted. Quantities equal up to their units count as the same input.",
     ["inputs"], "every entry point and every numeric form of its arguments",
     "Tests use one form per function; truncation appears only when an integer array meets a fractional result.",
     [S + "metric/", S + "geodesic/", S + "coordinates/", S + "utils/dual.py", S + "symbolic/helpers.py"],
     [("arrays built from the caller's vectors (dtype)", S + "metric/base_metric.py"), ("zeros_like / asarray of inputs", S + "geodesic/utils.py")],
     "Whole-number inputs sampled and rewritten in every numeric form; the float form is the reference.",
     "runtime differential monitor (same call, other input forms)")

prop("C28", "Objects report what they hold and copies behave like the original",
     "Every way of asking an object for its data (attribute, index, name, values, position, text) reports the data it was built from, each under its own "
     "label, in the documented order. A copy, deep copy or pickled object answers every query like the original and neither disturbs the other.",
     ["inputs", "histories"], "every class, component, option and copy form",
     "Tests look for a few words in the text and copy nothing.",
     [S + "coordinates/", S + "metric/base_metric.py", S + "bodies.py", S + "geodesic/geodesic.py", S + "symbolic/"],
     [("__str__/__repr__/__getitem__ of public classes", S + "coordinates/differential.py"), ("SymbolicConstant.__new__", S + "symbolic/constants.py")],
     "Sampled objects of every public class; the constructor's arguments are the reference.",
     "runtime monitor (constructor arguments as reference; probes on copies)")
