"""Writes properties.jsonl (the list of properties, in one readable place)."""
import json, os

P = []
K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"
TT = "src/exoplanet/orbits/ttv.py"
CO = "src/exoplanet/orbits/constants.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
GI = "src/exoplanet/interp.py"
UN = "src/exoplanet/units.py"
UT = "src/exoplanet/utils.py"
CP = "src/exoplanet/compat.py"
CI = "src/exoplanet/citations.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
DINIT = "src/exoplanet/distributions/__init__.py"
ES = "src/exoplanet/estimators.py"
INIT = "src/exoplanet/__init__.py"


def add(id, title, statement, over, text, why, mech, observe=(), files=None):
    assert len(title) <= 80, (id, len(title))
    mech = [{"name": n, "where": w} for n, w in mech]
    if files is None:
        files = []
        for m in mech:
            f = m["where"].split(":")[0]
            if f not in files:
                files.append(f)
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": mech, "observe_at": list(observe), "hook_needed": None},
    })


IC = ("inputs", "configurations")

add("C01", "Kepler's third law and stellar mass, radius and density are consistent",
    "For every accepted combination of period, semimajor axis, stellar mass, radius and density and planet mass, the derived quantities satisfy a^3 * 4 pi^2 = G (M_star + m_planet) P^2 and rho_star = M_star / (4/3 pi R_star^3), with lengths in R_sun, masses in M_sun, times in days and density in g/cm^3. Quantities that were given are kept as given, and those not given default as documented (solar central body; one solar radius when only a density, or both period and semimajor axis, are given). The barycentric semimajor axes share a in inverse proportion to the masses, and mean motion is 2 pi / P.",
    IC, "all parameter values and all accepted sets of given parameters, including sequences of planets",
    "Tests evaluate a few numeric points for a few combinations; the relation must hold identically for all values in every accepted combination.",
    [("consistent-input resolution", K + ":_get_consistent_inputs"), ("derived masses and axes", K + ":KeplerianOrbit.__init__"), ("constants", CO)],
    ["attributes of a Keplerian orbit"])

add("C02", "Every contradictory or incomplete orbit parameter set is rejected",
    "Constructing a Keplerian orbit raises ValueError when neither period nor semimajor axis is given, when the stellar parameters over-determine the system (both period and semimajor axis with a stellar mass or density, or all of mass, radius and density), when more than one of inclination, impact parameter and (for eccentric orbits) duration is given, when eccentricity comes without an argument of periastron or with it given two ways, when both reference times are given, or when a circular orbit gets a duration together with a semimajor axis or without an impact parameter or period. So does giving only the stellar mass, or only the radius without both period and semimajor axis, as the orbit's scale is then undetermined. Every other documented combination is accepted, and no argument the user gave is silently replaced by a computed value. A timing-variation orbit likewise requires transit times or timing offsets.",
    ("configurations",), "all subsets of the constructor's arguments",
    "Tests exercise a handful of combinations; the argument power set is finite but large and is not enumerated by the tests.",
    [("parameter validation", K + ":_get_consistent_inputs"), ("orbit constructor", K + ":KeplerianOrbit.__init__"), ("TTV constructor", TT + ":TTVOrbit.__init__")],
    ["exceptions from the constructors"])

add("C03", "Unit-tagged inputs are converted and tags are never applied twice",
    "Any quantity that the orbit constructor accepts with a unit tag (period, semimajor axis, planet mass, stellar mass, radius and density, and duration) gives exactly the same orbit as the same quantity expressed in the documented base unit without a tag; converting a tagged quantity multiplies by the conversion factor from its own unit to the target, and untagged input passes unchanged. Tagging something that is already tagged raises TypeError, and the deprecated planet-mass and stellar-density unit keywords act as tags and emit a DeprecationWarning.",
    IC, "all values, all compatible units, all combinations of tagged and untagged arguments",
    "Tests check one or two units for two arguments at single values.",
    [("tagging and conversion", UN + ":with_unit"), ("conversion", UN + ":to_unit"), ("argument conversion", K + ":_get_consistent_inputs"), ("duration conversion", K + ":KeplerianOrbit.__init__")],
    ["attributes of the orbit", "return value of the conversion"])

add("C04", "Star, planet and relative motion are consistent with a fixed barycentre",
    "For each planet and any time, planet minus star position equals the relative position, planet minus star velocity equals the relative velocity, and planet minus star acceleration equals the relative acceleration. The mass-weighted sum of star and planet positions vanishes, and likewise for velocities and accelerations.",
    ("inputs", "configurations"), "all times, orbital elements, masses, numbers of planets, circular and eccentric, with and without node angle",
    "The identities quantify over all times and elements; tests sample them at single parameter values.",
    [("position", K + ":KeplerianOrbit._get_position"), ("velocity", K + ":KeplerianOrbit._get_velocity"), ("acceleration", K + ":KeplerianOrbit._get_acceleration")],
    ["get_{planet,star,relative}_{position,velocity,acceleration}"])

add("C05", "Velocities and accelerations are the exact time derivatives of position",
    "For the star, the planets and the relative orbit, each velocity component returned equals the derivative of the matching position component with respect to time, in R_sun per day, at every time and for every orbit. Each acceleration component equals the derivative of the matching velocity component, in R_sun per day squared.",
    IC, "all times, elements, masses and constructor configurations",
    "Tests compare with automatic derivatives at sampled times for some configurations only.",
    [("velocity", K + ":KeplerianOrbit._get_velocity"), ("semi-amplitude", K + ":KeplerianOrbit.__init__"), ("acceleration", K + ":KeplerianOrbit._get_acceleration")],
    ["get_*_velocity", "get_*_acceleration"])

add("C06", "Radial velocity follows the redshift-positive convention on both routes",
    "The radial velocity is minus the line-of-sight velocity of the star (whose positive axis points to the observer), converted to the requested unit and to m/s by default, with one column per planet. When semi-amplitudes K are given it is K [cos(omega + f) + e cos(omega)] (K cos(omega + f) with omega = 0 for circular orbits), ignoring mass, inclination and output unit, and this equals the dynamical route when K is the dynamical semi-amplitude.",
    IC, "all times, elements, masses, K and output units",
    "Tests compare a few evaluations; sign, unit and eccentric terms must hold for all.",
    [("radial velocity", K + ":KeplerianOrbit.get_radial_velocity")],
    ["get_radial_velocity"])

add("C07", "At the reference transit time the planet is in conjunction at impact parameter b",
    "At t0 plus any whole number of periods the relative position of each planet, before rotation by the node angle, is (0, b_signed, z) with the planet in front of the star (z > 0 for inclinations in (0, pi)), where |b_signed| is the impact parameter times the stellar radius. The impact parameter and inclination satisfy b = (a / R_star) cos(i) (1 - e^2) / (1 + e sin(omega)), whichever of the two was given, and both default to an edge-on orbit.",
    IC, "all elements, including every way of giving omega and the reference time",
    "Tests evaluate one circular and one eccentric example.",
    [("reference anomaly", K + ":KeplerianOrbit.__init__"), ("rotation", K + ":KeplerianOrbit._rotate_vector")],
    ["get_relative_position", "b, incl attributes"])

add("C08", "Reference transit and periastron times are consistent and orbits are periodic",
    "Given either reference time, the other is the matching transit or periastron: the mean anomaly is zero at the periastron time and reaches the transit's mean anomaly at the transit time, the offset being less than one period; when neither is given the transit is at time zero. Positions, velocities, accelerations and radial velocities repeat exactly after one period.",
    IC, "all times, elements and both ways of giving the reference time",
    "Quantifies over all times and eccentricities; tests check single values.",
    [("time reference", K + ":KeplerianOrbit.__init__"), ("mean anomaly", K + ":KeplerianOrbit._get_true_anomaly")],
    ["t0, t_periastron attributes", "get_relative_position"])

add("C09", "Positions lie on the Keplerian ellipse in the documented sky frame",
    "The star's barycentric position has radius a_star (1 - e^2) / (1 + e cos f) and components X = r (cos(Omega) cos(omega+f) - sin(Omega) sin(omega+f) cos i), Y = r (sin(Omega) cos(omega+f) + cos(Omega) sin(omega+f) cos i), Z = -r sin(omega+f) sin i, where f solves Kepler's equation for the time since periastron; the planet's and relative positions are the same vector with the sign reversed and scaled by their own semimajor axes. Leaving out the node angle is the same as a node angle of zero, and giving the sine and cosine of omega is the same as giving omega.",
    IC, "all times, elements and configurations",
    "The documented frame must hold for every angle; tests use one comparison code at sampled elements.",
    [("rotation", K + ":KeplerianOrbit._rotate_vector"), ("position", K + ":KeplerianOrbit._get_position"), ("true anomaly", K + ":KeplerianOrbit._get_true_anomaly")],
    ["get_*_position"])

add("C10", "A circular orbit equals the eccentric orbit with e = 0 and omega = 0",
    "Every position, velocity, acceleration, radial velocity, relative angle, light-delayed position and derived attribute of an orbit built without an eccentricity equals that of the same orbit built with zero eccentricity and zero argument of periastron. Its values for e > 0 converge to the circular ones as e goes to zero because one analytic expression covers both.",
    IC, "all times and elements",
    "Two separate code branches must agree everywhere; tests touch each at isolated points.",
    [("circular branches", K + ":KeplerianOrbit"), ("circular light delay", K + ":KeplerianOrbit._get_retarded_position")],
    ["all orbit evaluation methods"])

add("C11", "Light-delayed positions are evaluated at the correct emission time",
    "With light delay on, every position and relative angle equals the undelayed one at time t - d for that body's own orbit, where d solves, to second order in the body's line-of-sight motion, the light-travel condition c d = -z(t - d) with the true velocity and acceleration (a body nearer to the observer is seen earlier in its delay: d < 0). All other options (angular units, number of planets, one row per time and one column per planet) act as without delay, including for orbits with timing variations.",
    IC, "all times, elements, options",
    "Tests compare to a numerical solve at sampled elements and never combine options.",
    [("retarded position", K + ":KeplerianOrbit._get_retarded_position"), ("dispatch", K + ":KeplerianOrbit._get_position")],
    ["get_*_position(light_delay=True)", "get_relative_angles(light_delay=True)"])

add("C12", "Angular positions scale with parallax and relative angles match positions",
    "When a parallax in arcseconds is given, every position method returns the R_sun position multiplied by parallax times the number of au per solar radius, with or without light delay. Relative angles are the separation sqrt(X^2+Y^2) and the position angle atan2(Y, X), measured from north (X) through east (Y), of the relative position under the same options.",
    IC, "all times, elements, parallaxes and option combinations",
    "Tests use one parallax without light delay.",
    [("parallax scaling", K + ":KeplerianOrbit._get_position"), ("relative angles", K + ":KeplerianOrbit.get_relative_angles")],
    ["get_*_position(parallax=...)", "get_relative_angles"])

add("C13", "Exchanging the roles of star and planet reverses the relative orbit",
    "The exchanged orbit of a Keplerian orbit, used for secondary eclipses, has the two masses swapped, the planet's radius as its central radius, the same period and inclination, and at every time its relative position is the exact negative of the original's (circular, eccentric, any node angle, either way of giving omega). Its total mass and semimajor axis equal the original's.",
    IC, "all times, elements and masses",
    "Tests check one circular and one eccentric orbit at sampled times.",
    [("flip", K + ":KeplerianOrbit._flip")], ["secondary eclipse light curve"])

add("C14", "In-transit selection of a Keplerian orbit covers exactly the transit window",
    "A time is selected exactly when, for at least one planet, its offset from that planet's nearest transit lies within the first- to fourth-contact interval for the sum of stellar and planet radii, widened on each side by half the exposure time. For circular orbits the half-interval is (P / 2 pi) arcsin( R sqrt((1 + r/R)^2 - b^2) / (a sin i) ); for eccentric orbits it is obtained from the contact anomalies, and all times are selected when the contacts cannot be found. The result is a vector of integer indices into the given times, per-time or common exposure times and any number of planets being allowed, and light delay is refused.",
    IC, "all times, elements, radii, exposure times (scalar or one per time), numbers of planets",
    "Tests sample a few grids with a scalar exposure time.",
    [("in transit", K + ":KeplerianOrbit.in_transit")], ["in_transit"])

add("C15", "A transit duration given to a Keplerian orbit is the duration of its transit",
    "For a circular orbit with a given duration, impact parameter and radius ratio, the first-to-fourth contact duration computed from the resulting semimajor axis, inclination and radius ratio is the given one; the relation is (a/R)^2 sin^2(pi T / P) = (1 + k)^2 - b^2 cos^2(pi T / P), and a missing radius ratio means k = 0 and emits a warning. For an eccentric orbit with a given duration, the resulting impact parameter satisfies the same duration relation with the duration scaled by (1 + e sin(omega)) / sqrt(1 - e^2), using the relative semimajor axis and the radius ratio.",
    IC, "all durations, impact parameters, radius ratios, eccentricities",
    "Tests round-trip a few values and mostly with one planet.",
    [("duration to a/R", K + ":get_aor_from_transit_duration"), ("duration branches", K + ":KeplerianOrbit.__init__")],
    ["a, b attributes"])

add("C16", "Reported Jacobians are the true derivatives of the reported quantities",
    "For an orbit parameterised by duration, the reported derivatives of a, a_star, a_planet and rho_star with respect to the duration equal the derivatives of those attributes, in their own units, with the other inputs fixed. The reported derivative of cos(inclination) with respect to impact parameter equals the true one for every orbit, and the derivative returned by the duration-to-semimajor-axis relation is that of its first result.",
    IC, "all parameter values",
    "Tests compare with automatic differentiation at a few values.",
    [("jacobians", K + ":KeplerianOrbit.__init__"), ("duration relation", K + ":get_aor_from_transit_duration")],
    ["orbit.jacobians"])

add("C17", "The simple transit orbit crosses the star in exactly the given duration",
    "At any time the planet's relative position is (v dt, b R_star, z), where dt is the offset in [-P/2, P/2) from the nearest transit time t0 + n P, v = 2 R_star sqrt((1 + k)^2 - b^2) / duration, and z is +1 strictly inside half the duration from transit and -1 otherwise; the star stays at the origin and the planet's position is the relative one. The in-transit selection returns the integer indices of times with |dt| below half the duration, or below sqrt((R_star + r)^2 - (b R_star)^2) / v when a radius r is given, widened by half the exposure time (common or one per time) for any planet. Light delay of the planet and velocities are refused with NotImplementedError rather than ignored, and array-like arguments are accepted everywhere.",
    IC, "all times, parameters, planets, exposure times",
    "Tests sample one system; boundary and multi-planet cases are not covered.",
    [("simple orbit", S + ":SimpleTransitOrbit")], ["get_relative_position", "in_transit"])

add("C18", "Timing-variation orbits place every observed transit at its stated time",
    "Given transit times, the linear ephemeris (t0 and timing period) is the ordinary least-squares line through transit number and time, and the stated offsets are the residuals from it; given offsets, transit times are t0 + period * number + offset. The full list of transit times has the observed time at each observed transit number and the linear-ephemeris time (timing period) at each unobserved number, for non-contiguous numbering too. Without an explicit period the orbital period is the timing period, multiplied by exp(delta) when a log-period difference delta is given; an explicit period is kept.",
    IC, "all transit times, numberings with gaps, numbers of planets, argument combinations",
    "Tests check small examples of complete numberings; gaps are barely sampled.",
    [("ephemeris and transit list", TT + ":TTVOrbit.__init__")],
    ["ttvs, transit_times, ttv_period, t0, period, all_transit_times"])

add("C19", "The time warp centres each transit window on its own transit time",
    "For a timing-variation orbit every model prediction at time t is the Keplerian prediction at the offset of t from the nearest listed transit of that planet: boundaries lie midway between neighbouring listed transits, extend half a timing period beyond the first and last, and outside that range the first or last transit is used. With zero timing offsets the predictions equal those of the plain Keplerian orbit with the same parameters, for scalars, vectors and higher-rank times and each planet independently.",
    IC, "all times and transit lists",
    "Tests compare one or two simulated systems.",
    [("bins", TT + ":TTVOrbit.__init__"), ("lookup", TT + ":TTVOrbit._get_model_dt"), ("warp", TT + ":TTVOrbit._warp_times")],
    ["get_relative_position and light curves of a TTV orbit"])

add("C20", "Expected transit times are exactly the ephemeris times inside the window",
    "For each planet, the expected transit times are exactly all t0 + n P with integer n (of any sign) lying in the closed interval from the start to the end of the window, in increasing order. Scalars and arrays of periods are accepted and one array per planet is returned.",
    ("inputs",), "all windows, periods, reference times",
    "Boundary cases and negative epochs are not sampled.",
    [("expected times", TT + ":compute_expected_transit_times")], ["compute_expected_transit_times"])

add("C21", "The limb-darkened flux is the normalised quadratic law, zero outside transit",
    "The relative flux change of a body at projected separation b (stellar radii) and radius ratio k is the uniform, linear and quadratic occultation integrals combined with the coefficients of the law I = 1 - u1 (1 - mu) - u2 (1 - mu)^2, normalised by the total disk flux pi (1 - u1/3 - u2/6), minus one, so that it is exactly zero when the disks do not overlap. A deprecated two-element coefficient vector is the same as giving the two coefficients, with a DeprecationWarning, and other lengths are refused.",
    IC, "all limb-darkening coefficients, separations, radii",
    "Tests compare to a reference code at sampled values.",
    [("coefficients", LD + ":get_cl"), ("flux", LD + ":quad_limbdark_light_curve"), ("constructor", LD + ":LimbDarkLightCurve.__init__")],
    ["get_light_curve"])

add("C22", "Only bodies in front of the star, measured in stellar radii, dim it",
    "The light curve of each planet at each time is the occultation flux at separation sqrt(x^2 + y^2) / R_star and radius ratio r / R_star when its line-of-sight coordinate (positive towards the observer) is positive, and exactly zero otherwise. Multiplying all lengths (positions, planet radii and stellar radius) by a common factor changes nothing; planets are independent, one column each; a missing orbit, radius or time raises ValueError.",
    IC, "all orbits, radii, times",
    "Quantifies over every geometry, including behind the star; tests sample a few.",
    [("light curve", LD + ":LimbDarkLightCurve.get_light_curve"), ("occultation gate", LD + ":LimbDarkLightCurve._compute_light_curve")],
    ["get_light_curve"])

add("C23", "Exposure-time integration uses the stated quadrature over the exposure",
    "With an exposure time the flux is a weighted mean over instants inside [t - texp/2, t + texp/2]: order 0 is the midpoint rule on equal sub-exposures, order 1 the trapezoid rule and order 2 Simpson's rule, each with an odd number of nodes equal to the requested oversampling rounded up; weights sum to one and the rule integrates affine fluxes exactly (cubics for order 2). Any other order raises ValueError, a scalar exposure time is the same as a vector of equal ones, and per-time exposures stay attached to their own times.",
    IC, "all exposure times, oversampling factors, orders",
    "Tests use one or two oversampling values; rounding and weights are not checked for each.",
    [("integration", LD + ":LimbDarkLightCurve.get_light_curve")], ["get_light_curve(texp=...)"])

add("C24", "The in-transit shortcut returns the light curve at the right times",
    "Evaluating only the in-transit times gives, at every selected time, exactly the value of the full evaluation at that time (including its own exposure time and every planet), and zero at every time not selected, in the original order and shape (one row per time, one column per planet). The shortcut is used by default except with light delay, the selection sees the same times, radii and exposure time, and an explicit request either way is honoured.",
    IC, "all selections, times, planets, exposure times",
    "Tests compare one orbit type with and without the shortcut.",
    [("gather and scatter", LD + ":LimbDarkLightCurve.get_light_curve")], ["get_light_curve(use_in_transit=...)"])

add("C25", "Secondary-eclipse light curves are the flux-weighted sum of both bodies",
    "The result is (L1 + f L2) / (1 + f), where L1 is the primary's light curve for the orbit and planet radius, L2 the secondary's for the exchanged orbit occulted by the star's radius, each with its own limb darkening, and f the surface-brightness ratio times (r / R_star)^2. All light-curve options (times, exposure time, oversampling, order, in-transit shortcut, light delay) reach both parts.",
    IC, "all orbits, radii, ratios, options",
    "Tests compare one configuration to starry.",
    [("combination", SE + ":SecondaryEclipseLightCurve.get_light_curve")], ["get_light_curve"])

add("C26", "The radius ratio from an approximate depth inverts the small-planet depth",
    "The radius ratio returned for depth delta and impact parameter b satisfies delta = k^2 I(mu) / I_mean, with mu = sqrt(1 - b^2), I(mu) = 1 - u1 (1 - mu) - u2 (1 - mu)^2 and I_mean = 1 - u1/3 - u2/6. When requested, the Jacobian returned is the exact derivative of the ratio with respect to delta, and both have the shape of b.",
    ("inputs",), "all depths, impact parameters, coefficients",
    "Tests sample a few values.",
    [("depth inversion", LD + ":LimbDarkLightCurve.get_ror_from_approx_transit_depth")],
    ["get_ror_from_approx_transit_depth"])

add("C27", "The interpolated light curve is a cubic interpolant of the base light curve",
    "At any phase the interpolated light curve equals the cubic Lagrange interpolant through the four grid values of the base light curve that surround that time folded into one period from each planet's own reference transit; it reproduces the base exactly at grid times and any cubic exactly. Each planet uses its own period, reference time and column, and all light-curve options reach the base.",
    IC, "all times, grids, planets, options",
    "The code is documented as untested; tests compare one system within a tolerance.",
    [("interpolation", IL + ":interp"), ("folding", IL + ":InterpolatedLightCurve.get_light_curve")],
    ["get_light_curve"])

add("C28", "Regular-grid interpolation is the multilinear interpolant inside the grid",
    "At any point within the closed grid, in any number of dimensions with uneven spacing, the result is the multilinear interpolant of the 2^n surrounding values (exact at grid points, including both ends, and for multilinear functions), for scalar and vector-valued grids. Points outside take the fill value when one is given and the edge cells' linear extrapolation otherwise.",
    IC, "all grids, values, coordinates, dimensions, fill values",
    "Tests compare to scipy at interior random points of small grids.",
    [("interpolation", GI + ":regular_grid_interp")], ["regular_grid_interp", "RegularGridInterpolator.evaluate"])

add("C29", "The angle parameter is uniform on the circle and starts where asked",
    "The angle is atan2 of two independent standard normal variables, hence uniform in (-pi, pi]; the optional regularisation adds regularisation times log of their squared norm, a function of the norm only, so the angle stays uniform, and nothing is added when it is disabled. An initial value theta0 starts the pair at (sin theta0, cos theta0), so the parameter starts at theta0, for any shape.",
    IC, "all regularisations, shapes, initial values",
    "Tests are statistical on a single configuration.",
    [("angle", DI + ":angle")], ["variables, potentials and deterministics added to the model"])

add("C30", "The unit-disk pair is uniform on the disk and starts where asked",
    "The pair is (x, u sqrt(1 - x^2)) with x and u uniform on (-1, 1) and a log-density correction equal to the logarithm of the Jacobian sqrt(1 - x^2), so the joint density is uniform on the unit disk and never leaves it. An initial value (x0, y0) inside the disk makes the pair start exactly there, for any shape.",
    IC, "all shapes and initial values",
    "Tests are statistical and never use a non-trivial initial value.",
    [("unit disk", DI + ":unit_disk")], ["variables, potentials and deterministics added to the model"])

add("C31", "The quadratic limb-darkening prior is Kipping's uniform triangle",
    "The two coefficients are u1 = 2 sqrt(q1) q2 and u2 = sqrt(q1) (1 - 2 q2) with q1, q2 independent and uniform on (0, 1), so that 0 < u1 + u2 < 1, u1 > 0 and u1 + 2 u2 > 0 always and the density is uniform there. An initial value (u1, u2) starts the pair exactly there, for any shape, and the prior's citation is recorded.",
    IC, "all values of the sampling variables, initial values, shapes",
    "Tests are statistical on one configuration.",
    [("limb darkening prior", DI + ":quad_limb_dark")], ["variables added to the model"])

add("C32", "The impact parameter prior is uniform between zero and one plus the ratio",
    "Given the radius ratio k, the impact parameter is (1 + k) times a variable uniform on (0, 1), one per element of the ratio (or of the explicit shape). An initial value b0 starts the impact parameter exactly at b0 (0.5 by default).",
    IC, "all radius ratios, shapes, initial values",
    "Tests are statistical on one shape.",
    [("impact parameter prior", DI + ":impact_parameter")], ["variables added to the model"])

add("C33", "The Kipping (2013b) eccentricity prior has the published form and options",
    "The eccentricity is Beta distributed with parameters 1.12, 3.09 (full sample and long periods) or 0.697, 3.27 (short periods), or, when not fixed, with hyperparameters normal about these values with widths 0.1, 0.3 (0.4, 0.3 for short) restricted to be positive. Lower and upper bounds truncate (and renormalise) the distribution to exactly [lower, upper], a missing bound being 0 or 1; an observed eccentricity contributes the same log density without creating a new variable; the citation is recorded. This holds for any shape.",
    ("configurations", "inputs"), "all combinations of fixed, long, bounds, observed and initial values",
    "Tests run a few combinations statistically.",
    [("prior", EC + ":kipping13"), ("truncation", EC + ":_truncate")], ["variables and potentials added to the model"])

add("C34", "The Van Eylen (2019) eccentricity prior has the published mixture and options",
    "The log density is the log of (1 - F) HalfNormal(e; s1) + F Rayleigh(e; s2), with s1 = 0.049, s2 = 0.26 and F = 0.76 (0.08 for multi-planet systems), or hyperparameters normal about these with widths 0.02, 0.05 and 0.2 (0.08 for multi), restricted to be positive and F to [0, 1]. The eccentricity itself is flat between the bounds (default 0 and 1); an observed eccentricity contributes the same densities without a new variable; the citation is recorded.",
    ("configurations", "inputs"), "all combinations of fixed, multi, bounds, observed",
    "Tests run a few combinations statistically.",
    [("prior", EC + ":vaneylen19")], ["variables and potentials added to the model"])

add("C35", "Peak finding reports true local maxima with parabola-fit parameters",
    "Every reported peak's index is the position of a strict interior local maximum of the power, peaks are ordered by decreasing power, and at most max_peaks (one by default) are returned. The period, its uncertainty and the peak log power are those of the parabola through the log power at the three samples around that index; with no peak an error is raised in the single-peak mode and an empty list returned otherwise.",
    ("inputs",), "all frequency grids and power arrays",
    "Tests check one signal's period, never the index.",
    [("peak finder", ES + ":find_peaks")], ["find_peaks", "bls_estimator's peak information"])

add("C36", "Semi-amplitude and minimum-mass estimates solve the stated linear model",
    "The semi-amplitudes are the weighted least-squares coefficients (weights 1/yerr^2, one when absent) of sinusoids with the given periods plus a constant: one signed cosine per planet in phase with its transit time when known, otherwise the root sum of squares of the sine and cosine coefficients. All inputs accept tagged quantities (days, m/s, solar masses) or plain array-likes with the same result, and the minimum mass is K / 28.4329 m/s * M_star^(2/3) * (P / yr)^(1/3) Jupiter masses.",
    IC, "all inputs, with or without errors, units, transit times",
    "Tests recover one simulated signal.",
    [("design matrix", ES + ":_get_design_matrix"), ("amplitudes", ES + ":estimate_semi_amplitude"), ("masses", ES + ":estimate_minimum_mass")],
    ["estimate_semi_amplitude", "estimate_minimum_mass"])

add("C37", "Period-search options reach the search and bound the result",
    "In each period search the minimum and maximum period arguments bound the periods searched or reported (as inverse frequencies where needed); in the Lomb-Scargle and box searches the uncertainties, peak count, durations, objective, method, oversampling and all extra keyword arguments (explicit period or frequency limits and frequency factor included) reach the underlying periodogram with their own values. The box search reports transit times in the caller's time system, and the values reported at the peak are those at the peak's own index; the high-pass filter multiplies the power used for peak finding by 1/sqrt(1 + (f0/f)^6) and leaves the returned periodogram unfiltered; without an explicit frequency factor the box search chooses one giving no more periods than data. The autocorrelation search works on a grid `oversample` times finer than the closest two times, smooths by `smooth` times the minimum period, and reports the first peak at or beyond the minimum period, or the next peak if that is higher, if it lies within the maximum.",
    IC, "all option combinations",
    "Tests run each estimator once with default options.",
    [("Lomb-Scargle", ES + ":lomb_scargle_estimator"), ("BLS", ES + ":bls_estimator"), ("ACF", ES + ":autocorr_estimator")],
    ["estimator results"])

add("C38", "Evaluations are pure: no caller input or orbit state is modified",
    "Evaluating an orbit, light curve, interpolator, prior or estimator never modifies the arrays, lists or dictionaries the caller passed in, nor any attribute of an already constructed orbit, light curve or interpolator, nor package-level state, so repeated calls and calls in any order give the same results. The only permitted outward effects are variables and citations added to the active model, the unit tag put on a tensor by explicit tagging, and warnings.",
    ("histories", "inputs"), "all sequences of calls on all public objects",
    "Tests do not check arguments or state afterwards and never interleave calls.",
    [("orbit methods", K + ":KeplerianOrbit"), ("light curves", LD + ":LimbDarkLightCurve"), ("distributions", DI), ("estimators", ES)],
    ["arguments and attributes before and after calls"])

add("C39", "Model functions stay symbolic and differentiable in every parameter",
    "Orbit, light-curve and prior functions never evaluate, branch on, or convert to a plain number the value of a tensor argument, and apply no operation that discards gradients (rounding, integer casts, gradient-blocking) between a physical parameter and an output flux, position or velocity. Only index selection, comparisons inside element-wise switches, and the documented numeric options may depend on values non-differentiably.",
    ("programs", "inputs"), "all paths from parameters to outputs",
    "Tests verify gradients of a few functions at isolated points.",
    [("orbits", K + ":KeplerianOrbit"), ("TTV", TT + ":TTVOrbit"), ("light curves", LD + ":LimbDarkLightCurve"), ("distributions", DI)],
    ["model graph"])

add("C40", "Orbit outputs have one row per time and one column per planet",
    "For times of shape S and planets of shape (N,), every position, velocity, acceleration, relative angle and radial velocity component has shape S + (N,) with unit-length axes squeezed, each entry depending only on its own time and its own planet; a scalar-planet orbit gives shape S. This holds with light delay, parallax, given semi-amplitudes and timing variations alike.",
    IC, "all time shapes, numbers of planets, options",
    "Tests use a few shapes; mismatched broadcasting can be silent when sizes coincide.",
    [("padding", K + ":KeplerianOrbit._warp_times"), ("TTV padding", TT + ":TTVOrbit._warp_times"), ("evaluation", K + ":KeplerianOrbit")],
    ["shapes of outputs"])

add("C41", "Both supported probabilistic back ends give the same model",
    "With the legacy back end selected, every prior creates the same distributions, with the same parameters, bounds, initial values (under that back end's keyword), potentials and deterministics as with the modern one, except for documented unsupported cases, which raise NotImplementedError. Every name that the package imports from the compatibility layer is defined under both back ends, and the package never imports the other back end directly.",
    ("configurations", "programs"), "both back ends, all prior options",
    "The legacy back end is not installed here, so tests never run it.",
    [("compatibility layer", CP), ("priors", EC), ("distributions", DI)],
    ["model contents per back end"])

add("C42", "Every recorded citation resolves and every citation key has an entry",
    "Every citation that a component records is in the registry, and every key cited in the acknowledgement text exists as an entry in the accompanying bibliography, for each combination of components; each citing component records its citations in the model it is given or built in, and the citations of one model do not reach another. Generated text cites the sorted keys of the package and all recorded components with their bibliography entries appended; recording citations without an active model is harmless, and a model with none registered gives two empty strings and a warning.",
    ("configurations", "programs"), "all components and registry entries",
    "Tests look at one model.",
    [("registry", CI + ":CITATIONS"), ("recording", CI + ":add_citations_to_model"), ("text", CI + ":get_citations_for_model")],
    ["get_citations_for_model"])

add("C43", "Every public name exists and deprecated aliases forward faithfully",
    "Every name a module declares public is defined there, every name re-exported by the package exists in its source module, and every documented public class, function and constant can be reached from the package namespace. Deprecated aliases call their replacement with the same arguments, return its result and emit a DeprecationWarning naming the replacement.",
    ("programs",), "all modules and exported names",
    "Tests import only the names they use.",
    [("package exports", INIT), ("distribution aliases", DINIT), ("deprecation wrapper", UT + ":deprecated")],
    ["import of public names"])

add("C44", "Physical constants are the stated physical quantities in the stated units",
    "The gravitational constant is in R_sun^3 / M_sun / day^2, the speed of light in R_sun/day, the density factor is g/cm^3 per M_sun/R_sun^3, the length factor is au per R_sun, and the remaining factor is days per (year / 2 pi), each computed from the unit library. The fallback literals used when that library fails agree with them to a relative precision of 1e-4, each name defined.",
    ("configurations",), "both the computed and the fallback definitions",
    "The fallback branch never runs under test.",
    [("constants", CO)], ["constants module"])

add("C45", "No accepted option is silently ignored",
    "Every parameter that a public function or constructor accepts by name influences its result or raises an error saying it is unsupported; in particular options forwarded by a wrapper (light delay, exposure time, oversampling, order, in-transit flag, parallax, model, initial value, shape) reach the call that implements them with their own value. Documented placeholders that have no effect are listed explicitly and nothing else may join them.",
    ("programs", "configurations"), "all public callables and their parameters",
    "A dropped argument is invisible unless a test varies exactly that option.",
    [("orbits", K + ":KeplerianOrbit"), ("simple orbit", S + ":SimpleTransitOrbit"), ("light curves", LD + ":LimbDarkLightCurve"), ("secondary eclipse", SE + ":SecondaryEclipseLightCurve"), ("interpolated", IL + ":InterpolatedLightCurve"), ("distributions", DI), ("estimators", ES)],
    ["results of public callables"])

# ---- not applicable to static analysis ------------------------------------
add("N01", "Kepler's equation is solved to machine precision for every M and e",
    "The true anomaly returned satisfies Kepler's equation to near machine precision for every mean anomaly and eccentricity in [0, 1).",
    ("inputs",), "all floating-point M and e", "Tests sample a grid.",
    [("compiled solver call", K + ":get_true_anomaly")], ["get_true_anomaly"])
add("N02", "Contact points are found accurately for every transiting orbit",
    "The contact anomalies delivered by the compiled solver are the true first and fourth contacts to solver tolerance for every transiting geometry.",
    ("inputs",), "all elements", "Tests sample elements.",
    [("compiled solver call", K + ":KeplerianOrbit.in_transit")], ["in_transit"])
add("N03", "The occultation integrals are accurate for every separation and radius",
    "The compiled uniform, linear and quadratic occultation integrals are accurate to near machine precision for all separations and radius ratios, including contact points.",
    ("inputs",), "all floating-point b, r", "Tests sample.",
    [("compiled op call", LD + ":quad_limbdark_light_curve")], ["get_light_curve"])
add("N04", "Period estimators recover injected signals",
    "On data with a sufficiently strong periodic signal each estimator's first peak is within its uncertainty of the injected period.",
    ("inputs",), "all data sets", "Statistical statement over data.",
    [("estimators", ES)], ["estimator results"])
add("N05", "Samplers draw from the priors without divergences",
    "Sampling a model containing any of the package's priors with the default sampler produces draws from the stated distributions.",
    ("histories",), "all sampler runs", "Statistical statement over random runs.",
    [("priors", DI)], ["posterior samples"])
add("N06", "Evaluations are numerically stable in floating point",
    "Rounding error in positions, velocities and fluxes stays within a small multiple of machine precision for all physically valid inputs, including e close to 1 and very long baselines.",
    ("inputs",), "all floating-point inputs", "Tests sample moderate values.",
    [("orbits", K), ("light curves", LD)], ["all numeric outputs"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
