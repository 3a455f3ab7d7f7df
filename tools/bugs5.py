K = "src/exoplanet/orbits/keplerian.py"
L = "src/exoplanet/light_curves/limb_dark.py"
TTV = "src/exoplanet/orbits/ttv.py"
PRE = '''
import numpy as np
import exoplanet as xo
from exoplanet.orbits import KeplerianOrbit, TTVOrbit, SimpleTransitOrbit
from exoplanet.light_curves import LimbDarkLightCurve
import pytensor, pytensor.tensor as pt
def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol):
        raise SystemExit("%r != %r" % (a, b))
'''
BUGS = [
    dict(id="period-of-heavy-companion", property="C01", file=K,
         edits=[("(pt.sqrt(G_grav * (m_star + m_planet)))", "(pt.sqrt(G_grav * m_star * (1 + m_planet)))")],
         needs="an orbit given by its axis with a star of another mass than one and a massive companion",
         breaks="Kepler's third law does not hold for the derived period",
         demo=PRE + '''
from exoplanet.orbits.constants import G_grav
o = KeplerianOrbit(a=30.0, m_star=1.7, r_star=1.1, m_planet=0.4)
P = o.period.eval()
close(30.0 ** 3 * 4 * np.pi ** 2 / (G_grav * P ** 2), 2.1)
'''),
    dict(id="density-of-total-mass", property="C01", file=K,
         edits=[("        rho_star = m_star / vol_star\n", "        rho_star = m_tot / vol_star\n")],
         needs="axis and period given together with a massive companion",
         breaks="the stellar density is not the stellar mass over its volume",
         demo=PRE + '''
from exoplanet.orbits.constants import gcc_per_sun
o = KeplerianOrbit(a=30.0, period=10.0, r_star=1.3, m_planet=0.5)
rho = np.asarray(o.rho_star.eval()) / getattr(gcc_per_sun, "value", gcc_per_sun)
close(rho * 4 * np.pi * 1.3 ** 3 / 3, o.m_star.eval())
'''),
    dict(id="circular-window-inclination", property="C14", file=K,
         edits=[("            factor = R / (self.a * self.sin_incl)\n", "            factor = R / self.a\n")],
         needs="an inclined circular orbit of a star that fills much of the orbit",
         breaks="the transit window of a circular orbit is shorter than that of the eccentric one with e = 0",
         demo=PRE + '''
t = np.linspace(-1.0, 1.0, 200001)
kw = dict(period=2.0, a=2.0, r_star=1.0, b=0.9)
c = KeplerianOrbit(**kw).in_transit(t, r=0.1).eval()
e = KeplerianOrbit(ecc=1e-12, omega=0.0, **kw).in_transit(t, r=0.1).eval()
assert abs(len(c) - len(e)) < 4, (len(c), len(e))
'''),
    dict(id="grazing-smallest", property="C21", file=L,
         edits=[("        return pt.switch(pt.gt(los, 0), lc, pt.zeros_like(lc))", "        near = pt.and_(pt.gt(los, 0), pt.lt(b, 1 + pt.min(r)))\n        return pt.switch(near, lc, pt.zeros_like(lc))")],
         needs="several planets of different radii, the larger one grazing",
         breaks="the larger planets' ingress is cut by the radius of the smallest",
         demo=PRE + '''
lc = LimbDarkLightCurve([0.3, 0.2])
o = KeplerianOrbit(period=np.array([3.0, 7.0]), b=np.array([0.1, 1.1]))
f = lc.get_light_curve(orbit=o, r=np.array([0.01, 0.2]), t=np.array([0.0])).eval()
assert f[0, 1] < 0, f
'''),
    dict(id="depth-negative-impact", property="C26", file=L,
         edits=[("        arg = 1 - pt.sqrt(1 - b**2)\n", "        arg = 1 - pt.sqrt((1 - b) * (1 + pt.abs(b)))\n")],
         needs="a negative impact parameter",
         breaks="the depth is inverted at the wrong place on the disk",
         demo=PRE + '''
lc = LimbDarkLightCurve([0.3, 0.2])
close(lc.get_ror_from_approx_transit_depth(0.01, np.array([-0.5])).eval(), lc.get_ror_from_approx_transit_depth(0.01, np.array([0.5])).eval())
'''),
    dict(id="delay-without-gradient", property="C39", file=K,
         edits=[("            new_t = pt.shape_padright(t) - delay\n", "            from pytensor.gradient import disconnected_grad\n\n            new_t = pt.shape_padright(t) - disconnected_grad(delay)\n")],
         needs="the gradient of a light-delayed position",
         breaks="the gradient lacks the dependence of the delay on the parameters",
         demo=PRE + '''
a = pt.dscalar()
x = KeplerianOrbit(a=a, period=5.0, b=0.2, r_star=1.0).get_relative_position(np.array([1.3]), light_delay=True)[0]
f = pytensor.function([a], x); g = pytensor.function([a], pytensor.grad(pt.sum(x), a))
close(g(2000.0), float((f(2000.1) - f(1999.9)) / 0.2), 1e-5)
'''),
    dict(id="after-last-transit", property="C19", file=TTV,
         edits=[("            pt.concatenate(([tts[0]], tts, [tts[-1]]))\n", "            pt.concatenate(([tts[0]], tts, [tts[-1] + self.ttv_period[i]]))\n")],
         needs="times later than half a period after the last transit",
         breaks="late times are measured from a transit that is not listed",
         demo=PRE + '''
o = TTVOrbit(transit_times=[np.array([0.0, 3.1, 6.0])], delta_log_period=np.array([0.05]), b=np.array([0.1]))
last = np.asarray(o.all_transit_times[0].eval())[-1]
p = KeplerianOrbit(period=o.period, t0=o.t0, b=np.array([0.1]))
close(o.get_relative_position(np.array([8.0]))[0].eval(), p.get_relative_position(np.array([8.0]) - last + o.t0.eval()[0])[0].eval())
'''),
    dict(id="stencil-remembered", property="C38", file=L,
         edits=[("            stencil /= np.sum(stencil)\n", "            stencil /= np.sum(stencil)\n            dt, stencil = self.__dict__.setdefault(\"_stencils\", {}).setdefault(\n                oversample, (dt, stencil)\n            )\n"),
                ("            if texp.ndim == 0:\n                dt = texp * dt\n", "            if not texp.ndim:\n                dt = texp * dt\n")],
         needs="two light curves of one object with different orders of integration",
         breaks="the second call integrates with the first one's rule",
         demo=PRE + '''
o = KeplerianOrbit(period=3.0); t = np.array([0.0, 0.04, 0.06])
a = LimbDarkLightCurve([0.3, 0.2]); b = LimbDarkLightCurve([0.3, 0.2])
a.get_light_curve(orbit=o, r=0.1, t=t, texp=0.05, order=0)
close(a.get_light_curve(orbit=o, r=0.1, t=t, texp=0.05, order=2).eval(), b.get_light_curve(orbit=o, r=0.1, t=t, texp=0.05, order=2).eval())
'''),
    dict(id="velocity-unit-remembered", property="C06", file=K,
         edits=[("        conv = (1 * u.R_sun / u.day).to(output_units).value\n", "        if getattr(self, \"_rv_conv\", None) is None:\n            self._rv_conv = (1 * u.R_sun / u.day).to(output_units).value\n        conv = self._rv_conv\n")],
         needs="two radial velocities of one orbit in different units",
         breaks="the second velocity is in the first one's unit",
         demo=PRE + '''
import astropy.units as u
o = KeplerianOrbit(period=3.0, m_planet=0.01); t = np.array([0.4])
a = o.get_radial_velocity(t).eval(); b = o.get_radial_velocity(t, output_units=u.km / u.s).eval()
close(a, 1000 * b)
'''),
]
