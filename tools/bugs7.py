import runpy, os
B6 = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs6.py"))
PRE = B6["PRE"]
K, S, L = B6["K"], B6["S"], B6["L"]
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
BUGS = [
    dict(id="flux-ratio-capped", property="C25", file=SE,
         edits=[("        flux_ratio = self.surface_brightness_ratio * k**2\n",
                 "        flux_ratio = pt.minimum(self.surface_brightness_ratio * k**2, 1.0)\n")],
         needs="a secondary that is brighter than the primary",
         breaks="the depths of both eclipses saturate when the secondary dominates the light",
         demo=PRE + '''
from exoplanet.light_curves import SecondaryEclipseLightCurve
o = KeplerianOrbit(period=2.0, ecc=0.0, omega=0.0, b=0.0, m_planet=0.1)
t = np.array([-0.02, 0.0, 1.0])
f = SecondaryEclipseLightCurve([0.3, 0.2], [0.1, 0.1], 9.0).get_light_curve(orbit=o, r=0.5, t=t, use_in_transit=False).eval()
p = LimbDarkLightCurve(0.3, 0.2).get_light_curve(orbit=o, r=0.5, t=t, use_in_transit=False).eval()
q = LimbDarkLightCurve(0.1, 0.1).get_light_curve(orbit=o._flip(pt.as_tensor_variable(0.5)), r=1.0, t=t, use_in_transit=False).eval()
close(f, (p + 2.25 * q) / 3.25)
'''),
    dict(id="low-eccentricity-series", property="C09", file=K,
         edits=[('''        sinf, cosf = ops.kepler(M, self.ecc + pt.zeros_like(M))
        return sinf, cosf
''', '''        sinf, cosf = ops.kepler(M, self.ecc + pt.zeros_like(M))
        # the equation of the centre is good enough for nearly circular orbits
        f = M + 2 * self.ecc * pt.sin(M)
        small = pt.lt(self.ecc, 1e-3) & pt.ones_like(M, dtype=bool)
        return (
            pt.switch(small, pt.sin(f), sinf),
            pt.switch(small, pt.cos(f), cosf),
        )
''')],
         needs="an eccentricity below one thousandth",
         breaks="the position of a nearly circular orbit is only a first-order approximation",
         demo=PRE + '''
from scipy.optimize import brentq
e, P = 9e-4, 10.0
o = KeplerianOrbit(period=P, ecc=e, omega=0.0, t_periastron=0.0, a=10.0)
t = 1.7
M = 2 * np.pi * t / P
E = brentq(lambda E: E - e * np.sin(E) - M, 0, 7, xtol=1e-15)
x = float(o.get_relative_position(t)[0].eval())
close(x, -10.0 * (np.cos(E) - e), 1e-9)
'''),
    dict(id="widest-window", property="C17", file=S,
         edits=[("        mask = pt.any(pt.abs(dt) < tol, axis=-1)\n",
                 "        mask = pt.min(pt.abs(dt), axis=-1) < pt.max(tol)\n")],
         needs="several planets with transits of different durations",
         breaks="times are selected that are only within the duration of another planet's transit",
         demo=PRE + '''
o = SimpleTransitOrbit(period=np.array([10.0, 11.0]), t0=np.array([0.0, 5.0]), duration=np.array([0.1, 0.4]))
t = pt.as_tensor_variable(np.array([0.0, 0.1, 5.1]))
close(o.in_transit(t).eval(), [0, 2])
'''),
]
