K = "src/exoplanet/orbits/keplerian.py"
L = "src/exoplanet/light_curves/limb_dark.py"
TTV = "src/exoplanet/orbits/ttv.py"
PRE = '''
import numpy as np
import exoplanet as xo
from exoplanet.orbits import KeplerianOrbit, TTVOrbit, SimpleTransitOrbit
from exoplanet.light_curves import LimbDarkLightCurve
import pytensor, pytensor.tensor as pt
'''
BUGS = [
    dict(id="impact-and-duration", property="C02", file=K,
         edits=[("        if b is not None:\n            if incl is not None or duration is not None:", "        if b is not None:\n            if incl is not None or (duration is not None and ror is None):")],
         needs="an eccentric orbit with b, duration and ror all given",
         breaks="a contradictory parameter set is accepted and the duration ignored",
         demo=PRE + '''
try:
    KeplerianOrbit(period=5.0, b=0.3, duration=0.1, ecc=0.2, omega=0.1, ror=0.1)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
    dict(id="omega-given-twice", property="C02", file=K,
         edits=[("                if sin_omega is not None and cos_omega is not None:\n                    raise", "                if sin_omega is not None and cos_omega is None:\n                    raise")],
         needs="omega together with its sine and cosine",
         breaks="an argument of periastron given two ways is accepted",
         demo=PRE + '''
try:
    KeplerianOrbit(period=5.0, ecc=0.2, omega=0.1, sin_omega=0.9, cos_omega=0.1)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
'''),
    dict(id="relative-acceleration-mass", property="C04", file=K,
         edits=[("self._get_acceleration(-self.a, -self.m_total, t)", "self._get_acceleration(-self.a, -self.m_star, t)")],
         needs="the relative acceleration of a massive companion",
         breaks="the relative acceleration is not planet minus star",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, m_planet=0.5, m_star=1.1, r_star=1.0, incl=1.2, ecc=0.3, omega=0.4)
t = np.linspace(0, 5, 7)
for p, s, r in zip(o.get_planet_acceleration(t), o.get_star_acceleration(t), o.get_relative_acceleration(t)):
    assert np.allclose(p.eval() - s.eval(), r.eval())
'''),
    dict(id="planet-acceleration-axis", property="C05", file=K,
         edits=[("self._get_acceleration(self.a_planet, -self.m_star, t)", "self._get_acceleration(-self.a, -self.m_star, t)")],
         needs="the acceleration of a planet with a non-negligible mass",
         breaks="the planet's acceleration is not the derivative of its velocity",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, m_planet=0.5, m_star=1.1, r_star=1.0, incl=1.2)
t = pt.dvector()
tt = np.linspace(0, 5, 7)
v = o.get_planet_velocity(t)[0]
a = o.get_planet_acceleration(t)[0]
h = 1e-5
f = pytensor.function([t], [v, a])
num = (f(tt + h)[0] - f(tt - h)[0]) / (2 * h)
assert np.allclose(num, f(tt)[1], rtol=1e-4), (num, f(tt)[1])
'''),
    dict(id="given-amplitude-units", property="C06", file=K,
         edits=[("                K\n                * (\n                    self.cos_omega * cosf", "                (K if output_units is None else K * (1 * u.m / u.s).to(output_units).value)\n                * (\n                    self.cos_omega * cosf")],
         needs="a semi-amplitude and output_units on an eccentric orbit",
         breaks="output_units changes a velocity whose amplitude was given",
         demo=PRE + '''
import astropy.units as u
o = KeplerianOrbit(period=5.0, ecc=0.2, omega=0.3)
t = np.linspace(0, 5, 7)
assert np.allclose(o.get_radial_velocity(t, K=3.0).eval(), o.get_radial_velocity(t, K=3.0, output_units=u.km / u.s).eval())
'''),
    dict(id="impact-from-inclination", property="C07", file=K,
         edits=[("            self.b = self.cos_incl / self.dcosidb\n", "            self.b = self.cos_incl * self.a / self.r_star\n            if self.ecc is not None:\n                self.b *= 1 - self.ecc**2\n")],
         needs="an eccentric orbit given by its inclination with periastron off the line of sight",
         breaks="the reported impact parameter lacks the 1 + e sin(omega) factor",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, incl=1.5, ecc=0.3, omega=0.9, r_star=0.9, m_star=1.1)
x, y, z = o.get_relative_position(np.zeros(1) + o.t0.eval())
assert np.allclose(abs(y.eval()), abs((o.b * o.r_star).eval())), (y.eval(), o.b.eval())
'''),
    dict(id="periastron-offset-mean-motion", property="C08", file=K,
         edits=[("            self.t0 = self.t_periastron + self.M0 / self.n\n", "            self.t0 = self.t_periastron + (self.M0 % np.pi) / self.n\n")],
         needs="t_periastron given and a transit in the second half of the orbit after periastron",
         breaks="the transit time derived from the periastron time is half a period off",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, t_periastron=0.3, ecc=0.3, omega=2.6)
x, y, z = o.get_relative_position(np.zeros(1) + o.t0.eval())
assert abs(x.eval()) < 1e-6 and z.eval() > 0
'''),
    dict(id="node-with-circular", property="C09", file=K,
         edits=[("        X = self.cos_Omega * x2 - self.sin_Omega * y2\n", "        X = self.cos_Omega * x2 - self.sin_Omega * (y1 if self.ecc is None else y2)\n")],
         needs="a circular inclined orbit with a node angle",
         breaks="the node rotation of circular orbits skips the inclination",
         demo=PRE + '''
t = np.linspace(0, 5, 11)
a = KeplerianOrbit(period=5.0, incl=0.7, Omega=0.4, m_star=1.0, r_star=1.0)
b = KeplerianOrbit(period=5.0, incl=0.7, Omega=0.4, m_star=1.0, r_star=1.0, ecc=0.0, omega=0.0)
assert np.allclose(a.get_relative_position(t)[0].eval(), b.get_relative_position(t)[0].eval())
'''),
    dict(id="circular-duration-inclination", property="C10", file=K,
         edits=[("            self.cos_omega = pt.cos(self.omega)\n", "            self.cos_omega = pt.cos(self.omega)\n", K)],
         needs="-", breaks="-", demo="raise SystemExit(1)\n"),
    dict(id="delayed-parallax", property="C12", file=K,
         edits=[("        return self._get_position(a, new_t, parallax, _pad=False)", "        if parallax is not None and self.ecc is not None:\n            a = a * parallax * au_per_R_sun\n            return self._get_position(a, new_t, None, _pad=False)\n        return self._get_position(a, new_t, None, _pad=False)")],
         needs="a circular orbit with light delay and a parallax",
         breaks="light-delayed angular positions of circular orbits stay in solar radii",
         demo=PRE + '''
o = KeplerianOrbit(period=50.0, incl=1.2, m_star=1.0, r_star=1.0)
t = np.linspace(0, 50, 5)
a = o.get_relative_position(t, light_delay=True)[0].eval()
b = o.get_relative_position(t, parallax=0.1, light_delay=True)[0].eval()
assert np.allclose(b, a * 0.1 * 0.00465046726, rtol=1e-5), (a, b)
'''),
    dict(id="flip-omega-arcsine", property="C13", file=K,
         edits=[("                self.omega = pt.arctan2(self.sin_omega, self.cos_omega)\n", "                self.omega = pt.arcsin(self.sin_omega)\n")],
         needs="an orbit given by the sine and a negative cosine of omega, with its roles exchanged",
         breaks="the exchanged orbit has its periastron on the wrong side",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, incl=1.5, ecc=0.3, sin_omega=np.sin(2.5), cos_omega=np.cos(2.5), m_star=1.0, m_planet=0.1, r_star=1.0)
f = o._flip(0.1)
t = np.linspace(0, 5, 11)
for a, b in zip(o.get_relative_position(t), f.get_relative_position(t)):
    assert np.allclose(a.eval(), -b.eval())
'''),
    dict(id="failed-contacts-any", property="C14", file=K,
         edits=[("            pt.all(pt.eq(flag, 0)),", "            pt.any(pt.eq(flag, 0)),")],
         needs="several planets of which one has no contact points (it never transits)",
         breaks="in-transit times are lost when only some contact points fail",
         demo='''
import numpy as np
from exoplanet.orbits import keplerian as kp
import pytensor.tensor as pt
real = kp.ops.contact_points


def contact(a, *args):
    M = real(a, *args)
    flag = pt.set_subtensor(pt.zeros_like(M[2])[1], 1)
    return pt.set_subtensor(M[0][1], np.nan), pt.set_subtensor(M[1][1], np.nan), flag


class Ops:
    contact_points = staticmethod(contact)
    kepler = staticmethod(kp.ops.kepler)


kp.ops = Ops
o = kp.KeplerianOrbit(period=[5.0, 7.0], b=[0.1, 0.1], ecc=[0.1, 0.1], omega=[0.3, 0.3], r_star=1.0, m_star=1.0)
t = np.linspace(0, 10, 101)
assert len(o.in_transit(pt.as_tensor_variable(t), r=0.1).eval()) == 101
'''),
    dict(id="exposure-widening-half", property="C14", file=K,
         edits=[("            t_start -= 0.5 * texp\n            t_end += 0.5 * texp\n", "            t_start = pt.minimum(t_start, t_start - 0.5 * texp)\n            t_end = pt.maximum(t_end, t_end + (0.5 if self.ecc is None else 0.25) * texp)\n")],
         needs="an eccentric orbit with an exposure time whose sample lies just after the last contact",
         breaks="the transit window is widened too little after egress",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, b=0.1, ecc=0.1, omega=0.3, r_star=1.0, m_star=1.0)
t = pt.as_tensor_variable(np.linspace(-1, 1, 4001))
i = o.in_transit(t, r=0.1).eval()
j = o.in_transit(t, r=0.1, texp=0.2).eval()
assert abs((j[-1] - i[-1]) * 0.0005 - 0.1) < 2e-3
'''),
    dict(id="duration-eccentric-terms", property="C15", file=K,
         edits=[("                    - self.ecc**4\n                    + 2 * self.ecc**2\n                    - 1\n", "                    + self.ecc**2\n                    - 1\n")],
         needs="an eccentric orbit given its duration with a sizeable eccentricity",
         breaks="the impact parameter does not belong to the given duration",
         demo=PRE + '''
o = KeplerianOrbit(period=50.0, duration=0.12, ecc=0.6, omega=0.3, r_star=1.0, m_star=1.0, ror=0.1)
from exoplanet.orbits.keplerian import KeplerianOrbit as KO
b = o.b.eval()
e, w, P = 0.6, 0.3, 50.0
a = o.a.eval()
c = np.sin(np.pi * 0.12 * (1 + e * np.sin(w)) / (np.sqrt(1 - e**2) * P))
f = (1 - e**2) / (1 + e * np.sin(w))
cosi = b / (a * f)
# Winn (2010), equations 14 and 16
assert np.allclose(np.sqrt(1.1**2 - b**2) / (a * np.sqrt(1 - cosi**2)), c), (b, c)
'''),
    dict(id="duration-gradient-ratio", property="C16", file=K,
         edits=[("    grad = np.pi * cosp * (b2 - opk2) / (num * period * sinp**2)\n", "    grad = np.pi * cosp * (b2 - 1 - ror**2) / (num * period * sinp**2)\n")],
         needs="a circular orbit given its duration, with a radius ratio",
         breaks="the reported derivative of a with respect to duration ignores part of the radius ratio",
         demo=PRE + '''
from exoplanet.orbits.keplerian import get_aor_from_transit_duration as f
tau = pt.dscalar()
aor, g = f(tau, 5.0, 0.3, ror=0.1)
h = pytensor.function([tau], [aor, g])
assert np.allclose((h(0.1 + 1e-6)[0] - h(0.1 - 1e-6)[0]) / 2e-6, h(0.1)[1], rtol=1e-4)
'''),
    dict(id="expected-times-endpoint", property="C20", file=TTV,
         edits=[("        times = times[(min_time <= times) & (times <= max_time)]", "        times = times[(min_time <= times) & (times < max_time)]")],
         needs="a transit exactly at the end of the window",
         breaks="a transit at the closing time is dropped",
         demo='''
from exoplanet.orbits.ttv import compute_expected_transit_times as f
assert list(f(0.0, 8.0, [2.0], [0.0])[0]) == [0.0, 2.0, 4.0, 6.0, 8.0]
'''),
    dict(id="limb-vector-second", property="C21", file=L,
         edits=[("            self.u2 = u1[1]\n", "            self.u2 = u1[-1] if u1.ndim else u1[1]\n")],
         needs="-", breaks="-", demo="raise SystemExit(1)\n"),
    dict(id="oversampled-radius-unscaled", property="C22", file=L,
         edits=[("        lc = self._compute_light_curve(\n            b / orbit.r_star, rgrid / orbit.r_star, los / orbit.r_star\n        )", "        ratio = rgrid if t.ndim > 1 else rgrid / orbit.r_star\n        lc = self._compute_light_curve(b / orbit.r_star, ratio, los / orbit.r_star)")],
         needs="a two-dimensional array of times and a star that is not one solar radius",
         breaks="the radius ratio is not divided by the stellar radius",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0, b=0.1, r_star=1.5, m_star=1.0)
lc = LimbDarkLightCurve(0.3, 0.2)
t = np.linspace(-0.2, 0.2, 6)
a = lc.get_light_curve(orbit=o, r=0.1, t=t, use_in_transit=False).eval()
b = lc.get_light_curve(orbit=o, r=0.1, t=t.reshape(2, 3), use_in_transit=False).eval()
assert np.allclose(a.ravel(), b.ravel())
'''),
    dict(id="depth-jacobian-centre", property="C26", file=L,
         edits=[("        drorddelta = 0.5 * factor / ror\n", "        drorddelta = 0.5 * f0 / ror\n")],
         needs="the Jacobian at a non-zero impact parameter",
         breaks="the reported derivative is only right for central transits",
         demo=PRE + '''
lc = LimbDarkLightCurve(0.3, 0.2)
d = pt.dscalar()
r, j = lc.get_ror_from_approx_transit_depth(d, 0.6, jac=True)
f = pytensor.function([d], [r, j])
assert np.allclose((f(0.01 + 1e-7)[0] - f(0.01 - 1e-7)[0]) / 2e-7, f(0.01)[1], rtol=1e-4)
'''),
    dict(id="flip-remembers", property="C38", file="src/exoplanet/light_curves/secondary_eclipse.py",
         edits=[("        orbit2 = orbit._flip(r)\n", '        orbit2 = getattr(self, "_orbit2", None)\n        if orbit2 is None:\n            orbit2 = self._orbit2 = orbit._flip(r)\n')],
         needs="one secondary-eclipse object evaluated for two orbits",
         breaks="the flipped orbit of the first call is used for every later call",
         demo=PRE + '''
from exoplanet.light_curves import SecondaryEclipseLightCurve
lc = SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.5)
t = np.linspace(0, 6, 300)
def orb(p):
    return KeplerianOrbit(period=p, b=0.1, r_star=1.0, m_star=1.0)
a = lc.get_light_curve(orbit=orb(5.0), r=0.1, t=t).eval()
b = lc.get_light_curve(orbit=orb(6.0), r=0.1, t=t).eval()
c = SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 0.5).get_light_curve(orbit=orb(6.0), r=0.1, t=t).eval()
assert np.allclose(b, c)
'''),
    dict(id="warp-time-resolution", property="C39", file=TTV,
         edits=[("            vals.append(self._bin_values[i][inds])\n", '            vals.append(pt.cast(pt.cast(self._bin_values[i][inds], "float32"), "float64"))\n')],
         needs="-", breaks="-", demo=PRE + "raise SystemExit(1)\n"),
    dict(id="amplitude-after-squeeze", property="C40", file=K,
         edits=[("                return pt.squeeze(K * cosf)\n", "                return K * pt.squeeze(cosf)\n")],
         needs="a vector of semi-amplitudes for a circular orbit with scalar elements",
         breaks="semi-amplitudes are multiplied along the time axis",
         demo=PRE + '''
o = KeplerianOrbit(period=5.0)
t = np.linspace(0, 5, 3)
v = o.get_radial_velocity(t, K=np.array([1.0, 2.0, 3.0])).eval()
assert v.shape == (3, 3), v.shape
'''),
    dict(id="one-time-several-planets", property="C40", file=K,
         edits=[("        # calculate rho and theta\n        rho = pt.squeeze(pt.sqrt(X**2 + Y**2))  # arcsec\n", "        # calculate rho and theta\n        rho = pt.sqrt(X**2 + Y**2)  # arcsec\n        rho = rho[..., 0] if rho.type.shape[-1] == 1 else rho\n")],
         needs="relative angles at a single time for several planets",
         breaks="a unit-length axis is left in the separation",
         demo=PRE + '''
o = KeplerianOrbit(period=[5.0, 6.0], incl=1.0)
rho, theta = o.get_relative_angles(np.array([0.1]), parallax=0.1)
assert rho.eval().shape == theta.eval().shape == (2,), rho.eval().shape
'''),
    dict(id="citation-group-restart", property="C42", file="src/exoplanet/citations.py",
         edits=[('        if not hasattr(model, "__citations__"):\n            model.__citations__ = dict()\n        for k in citations:', '        if len(getattr(model, "__citations__", ())) < 2:\n            model.__citations__ = dict()\n        for k in citations:')],
         needs="two components that each record one citation in one model",
         breaks="earlier citations of a model are dropped when a second component is added",
         demo='''
import pymc as pm
import exoplanet as xo
from exoplanet.citations import get_citations_for_model
with pm.Model() as m:
    xo.orbits.KeplerianOrbit(period=3.0)
    xo.LimbDarkLightCurve(0.2, 0.1)
    txt, bib = get_citations_for_model()
assert set(m.__citations__) == {"astropy", "starry"}, m.__citations__.keys()
'''),
    dict(id="deprecated-drops-keywords", property="C43", file="src/exoplanet/utils.py",
         edits=[("            return func(*args, **kwargs)\n", "            return func(*args, **kwargs) if len(args) < 2 else func(*args)\n")],
         needs="a deprecated alias called with several positional arguments and a keyword",
         breaks="the alias drops keyword arguments",
         demo='''
import pymc as pm, warnings
import exoplanet as xo
warnings.simplefilter("ignore")
with pm.Model():
    a = xo.distributions.ImpactParameter("b", 0.1, initval=0.3)
    b = xo.distributions.impact_parameter("c", 0.1, initval=0.3)
with pm.Model() as m:
    v = xo.distributions.ImpactParameter("b", 0.1, shape=3)
assert v.ndim == 1
from exoplanet.utils import deprecated
def f(a, b, c=1):
    return c
assert deprecated()(f)(1, 2, c=5) == 5
'''),
    dict(id="fallback-density", property="C44", file="src/exoplanet/orbits/constants.py",
         edits=[("    gcc_per_sun = 5.905271918964842\n", "    gcc_per_sun = 5.509271918964842\n")],
         needs="an AstroPy whose unit conversion fails",
         breaks="the fallback density unit is wrong",
         demo='''
import runpy, warnings
import astropy.constants as c
import astropy.units as u
from exoplanet.orbits import constants as k
warnings.simplefilter("ignore")


class Broken:
    def to(self, *a):
        raise TypeError


c.G = Broken()
d = runpy.run_path(k.__file__)
assert abs(d["gcc_per_sun"] / k.gcc_per_sun - 1) < 1e-6, d["gcc_per_sun"]
'''),
    dict(id="interpolated-delay-dropped", property="C45", file="src/exoplanet/light_curves/interpolated.py",
         edits=[("                order=order,\n                use_in_transit=use_in_transit,\n                light_delay=light_delay,\n            )\n            mn = orbit.t0[n]", "                order=order,\n                use_in_transit=use_in_transit,\n            )\n            mn = orbit.t0[n]")],
         needs="light_delay on an interpolated light curve of several planets",
         breaks="the option is accepted and ignored",
         demo=PRE + '''
from exoplanet.light_curves import InterpolatedLightCurve
seen = []
class Base:
    def get_light_curve(self, t=None, orbit=None, light_delay=False, **k):
        seen.append(light_delay)
        return pt.zeros((t.shape[0], 2))
o = KeplerianOrbit(period=[5.0, 6.0])
InterpolatedLightCurve(Base(), 50, num_planets=2).get_light_curve(orbit=o, r=[0.1, 0.1], t=np.linspace(0, 1, 5), light_delay=True)
assert seen == [True, True], seen
'''),
]
BUGS = [b for b in BUGS if b["needs"] != "-"]
