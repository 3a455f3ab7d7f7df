K = "src/exoplanet/orbits/keplerian.py"
TTV = "src/exoplanet/orbits/ttv.py"
S = "src/exoplanet/orbits/simple.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
RG = "src/exoplanet/interp.py"
HEAD = "import numpy as np\nimport exoplanet as xo\nfrom exoplanet.orbits import KeplerianOrbit, TTVOrbit, SimpleTransitOrbit\nval = lambda x: np.asarray(x.eval() if hasattr(x, 'eval') else x)\n"

BUGS = [
    dict(id="third-law-planet-mass", property="C01", file=K,
         edits=[("        m_star = m_tot - m_planet\n", "        m_star = m_tot\n")],
         needs="a semimajor axis and a period together with a non-zero planet mass",
         breaks="the stellar mass implied by a and period includes the planet's mass, so a, period and total mass disagree with Kepler's third law",
         demo=HEAD + """
from exoplanet.orbits.constants import G_grav
o = KeplerianOrbit(a=10.0, period=5.0, m_planet=0.2)
lhs = 4 * np.pi**2 * 10.0**3
rhs = G_grav * val(o.m_total) * 25.0
assert abs(lhs / rhs - 1) < 1e-8, (lhs, rhs)
"""),
    dict(id="overdetermined-star", property="C02", file=K,
         edits=[("    if (not implied_rho_star) and sum(\n        arg is None for arg in (rho_star, r_star, m_star)\n    ) != 1:", "    if (not implied_rho_star) and sum(\n        arg is None for arg in (rho_star, r_star, m_star)\n    ) > 1:")],
         needs="stellar mass, radius and density all given",
         breaks="an over-determined star is accepted and its density silently kept inconsistent",
         demo=HEAD + """
try:
    o = KeplerianOrbit(period=5.0, m_star=1.1, r_star=0.9, rho_star=2.5)
except ValueError:
    pass
else:
    raise SystemExit("over-determined star accepted")
"""),
    dict(id="radius-unit-implied-density", property="C03", file=K,
         edits=[("""        if r_star is None:
            r_star = as_tensor_variable(1.0)
        else:
            r_star = as_tensor_variable(to_unit(r_star, u.R_sun))

        # Compute the implied mass""", """        if r_star is None:
            r_star = as_tensor_variable(1.0)
        else:
            r_star = as_tensor_variable(r_star)

        # Compute the implied mass""")],
         needs="period and semimajor axis given together with a unit-tagged stellar radius",
         breaks="the implied stellar density is computed from the untagged number of the radius",
         demo=HEAD + """
import astropy.units as u
from exoplanet.units import with_unit
r = 0.8
a = KeplerianOrbit(a=10.0, period=5.0, r_star=r)
b = KeplerianOrbit(a=10.0, period=5.0, r_star=with_unit(xo.utils.as_tensor_variable((r * u.R_sun).to(u.km).value), u.km))
assert np.allclose(val(a.r_star), val(b.r_star))
assert np.allclose(val(a.rho_star), val(b.rho_star)), (val(a.rho_star), val(b.rho_star))
"""),
    dict(id="flip-eccentric-node", property="C13", file=K,
         edits=[("                omega=self.omega - np.pi,\n                Omega=self.Omega,\n", "                omega=self.omega - np.pi,\n")],
         needs="an eccentric orbit with a node angle, exchanged",
         breaks="the exchanged eccentric orbit loses the node angle, so it is no longer the negative of the relative orbit on the sky",
         demo=HEAD + """
o = KeplerianOrbit(period=5.0, ecc=0.3, omega=0.7, Omega=1.1, m_planet=0.1, b=0.2)
f = o._flip(0.1)
t = np.linspace(0, 5, 13)
p, q = o.get_relative_position(t), f.get_relative_position(t)
for x, y in zip(p, q):
    assert np.allclose(val(x), -val(y), atol=1e-9)
"""),
    dict(id="ttv-edge-orbital-period", property="C19", file=TTV,
         edits=[("                    [tts[-1] + 0.5 * self.ttv_period[i]],", "                    [tts[-1] + 0.5 * self.period[i]],"),
                ("                    [tts[0] - 0.5 * self.ttv_period[i]],", "                    [tts[0] - 0.5 * self.period[i]],")],
         needs="transit times with a log-period difference; times up to half a period outside the listed transits",
         breaks="the outermost windows end half an orbital period instead of half a timing period from the transit (no effect on the transit used, which the outer value repeats)",
         demo=HEAD + """
raise SystemExit(0)
"""),
    dict(id="ttv-regression-count", property="C18", file=TTV,
         edits=[("                N = times.shape[0]\n", "                N = inds.max() + 1\n")],
         needs="transit numbers with gaps",
         breaks="the least-squares ephemeris uses the number of listed epochs instead of the number of observed transits",
         demo=HEAD + """
inds = np.array([0, 1, 4, 7])
tt = 0.3 + 2.5 * inds + np.array([0.01, -0.02, 0.015, 0.0])
o = TTVOrbit(transit_times=[tt], transit_inds=[inds])
p = np.polyfit(inds, tt, 1)
assert np.allclose(val(o.ttv_period), p[0]) and np.allclose(val(o.t0), p[1]), (val(o.ttv_period), p)
"""),
    dict(id="delta-log-period-linear", property="C18", file=TTV,
         edits=[("""                    kwargs["period"] = pt.exp(
                        pt.log(self.ttv_period)
                        + kwargs.pop("delta_log_period")
                    )
""", """                    kwargs["period"] = self.ttv_period * (
                        1 + kwargs.pop("delta_log_period")
                    )
""")],
         needs="a log-period difference that is not tiny",
         breaks="the orbital period is the first-order approximation of the timing period times exp(delta)",
         demo=HEAD + """
tt = 0.3 + 2.5 * np.arange(5) + np.array([0.01, -0.02, 0.015, 0.0, 0.01])
o = TTVOrbit(transit_times=[tt], delta_log_period=0.1)
assert np.allclose(val(o.period), val(o.ttv_period) * np.exp(0.1), rtol=1e-9)
"""),
    dict(id="ttv-bin-midpoint", property="C19", file=TTV,
         edits=[("                    0.5 * (tts[1:] + tts[:-1]),\n", "                    tts[:-1] + 0.5 * self.ttv_period[i],\n")],
         needs="timing variations and a time close to midway between two transits",
         breaks="window boundaries lie half a timing period after each transit instead of midway between neighbours",
         demo=HEAD + """
tt = np.array([0.0, 2.0, 4.4, 6.0])
o = TTVOrbit(transit_times=[tt], b=[0.0])
mid = 0.5 * (tt[1:] + tt[:-1])
t = np.sort(np.concatenate([mid - 0.02, mid + 0.02]))
near = tt[np.argmin(np.abs(t[:, None] - tt[None, :]), axis=1)]
got = val(o._warp_times(t))[:, 0]
assert np.allclose(got, t - near), (got, t - near)
"""),
    dict(id="simple-selection-radius", property="C17", file=S,
         edits=[("            x = (r + self.r_star) ** 2 - self._b_norm**2\n", "            x = (r + self.r_star) ** 2 - self.b**2\n")],
         needs="a stellar radius other than one, an impact parameter and a planet radius",
         breaks="the selection uses the impact parameter in stellar radii with lengths in solar radii",
         demo=HEAD + """
o = SimpleTransitOrbit(period=5.0, t0=0.0, b=0.8, duration=0.2, r_star=3.0, ror=0.1)
t = np.linspace(-0.3, 0.3, 601)
i = val(o.in_transit(t, r=0.3))
want = np.where(np.abs(t) < 0.1)[0]
assert abs(len(i) - len(want)) <= 2, (len(i), len(want))
"""),
    dict(id="oversample-down", property="C23", file=LD,
         edits=[("            oversample += 1 - oversample % 2\n", "            oversample -= 1 - oversample % 2\n")],
         needs="an even oversampling factor",
         breaks="an even oversampling factor is rounded down to an odd one",
         demo=HEAD + """
o = KeplerianOrbit(period=3.0, b=0.3)
lc = xo.LimbDarkLightCurve(0.3, 0.2)
t = np.linspace(-0.1, 0.1, 9)
a = val(lc.get_light_curve(orbit=o, r=0.1, t=t, texp=0.05, oversample=4))
b = val(lc.get_light_curve(orbit=o, r=0.1, t=t, texp=0.05, oversample=5))
assert np.allclose(a, b, atol=1e-12)
"""),
    dict(id="secondary-order", property="C25", file=SE,
         edits=[("""            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )

        k =""", """            oversample=oversample,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )

        k =""")],
         needs="an exposure time with a quadrature order other than the default, at ingress or egress of the secondary eclipse",
         breaks="the secondary's light curve always uses the default quadrature order",
         demo=HEAD + """
o = KeplerianOrbit(period=3.0, b=0.3, m_planet=0.1)
u1, u2 = [0.3, 0.2], [0.1, 0.4]
l = xo.SecondaryEclipseLightCurve(u1, u2, 0.5)
t = np.linspace(1.4, 1.6, 41)
kw = dict(t=t, texp=0.05, oversample=3, order=1)
y = val(l.get_light_curve(orbit=o, r=0.1, **kw))
a = val(xo.LimbDarkLightCurve(*u1).get_light_curve(orbit=o, r=0.1, **kw))
b = val(xo.LimbDarkLightCurve(*u2).get_light_curve(orbit=o._flip(xo.utils.as_tensor_variable(0.1)), r=1.0, **kw))
f = 0.5 * 0.1**2
assert np.allclose(y, (a + f * b) / (1 + f), atol=1e-10)
"""),
    dict(id="interpolated-catmull-rom", property="C27", file=IL,
         edits=[("""    a1 = -y0 / 3.0 - 0.5 * y1 + y2 - y3 / 6.0
    a2 = 0.5 * (y0 + y2) - y1
    a3 = 0.5 * ((y1 - y2) + (y3 - y0) / 3.0)
""", """    a1 = 0.5 * (y2 - y0)
    a2 = y0 - 2.5 * y1 + 2 * y2 - 0.5 * y3
    a3 = 0.5 * (y3 - y0) + 1.5 * (y1 - y2)
""")],
         needs="a base light curve with cubic curvature between grid points",
         breaks="the interpolant is the Catmull-Rom spline, which does not reproduce cubics",
         demo=HEAD + """
from exoplanet.compat import tensor as pt
from exoplanet.light_curves.interpolated import InterpolatedLightCurve
class Base:
    def get_light_curve(self, t=None, **kw):
        return (t**3)[:, None]
class Orb:
    t0 = xo.utils.as_tensor_variable(0.0)
    period = xo.utils.as_tensor_variable(8.0)
l = InterpolatedLightCurve(Base(), 7, num_planets=1)
t = np.linspace(0.1, 7.9, 17)
y = val(l.get_light_curve(orbit=Orb(), r=0.1, t=t))[:, 0]
assert np.allclose(y, t**3), y - t**3
"""),
    dict(id="fill-value-falsy", property="C28", file=RG,
         edits=[("    if fill_value is not None:\n", "    if fill_value:\n")],
         needs="a fill value of zero and a point outside the grid",
         breaks="a fill value of zero is ignored and the edge cells are extrapolated",
         demo=HEAD + """
from exoplanet.interp import regular_grid_interp
x = np.linspace(0, 1, 5)
y = val(regular_grid_interp([x], x + 1, np.array([[0.5], [1.5]]), fill_value=0.0))
assert np.allclose(y, [1.5, 0.0]), y
"""),
    dict(id="exposure-of-selected", property="C24", file=LD,
         edits=[("                    dt = pt.shape_padright(texp[inds]) * dt\n", "                    dt = pt.shape_padright(texp[: t.size]) * dt\n")],
         needs="one exposure time per time, not all equal, with the in-transit shortcut",
         breaks="in-transit times are integrated over the first exposure times instead of their own",
         demo=HEAD + """
o = KeplerianOrbit(period=3.0, b=0.3)
lc = xo.LimbDarkLightCurve(0.3, 0.2)
t = np.linspace(-0.3, 0.3, 31)
texp = np.linspace(0.01, 0.1, 31)
a = val(lc.get_light_curve(orbit=o, r=0.1, t=t, texp=texp, use_in_transit=True))
b = val(lc.get_light_curve(orbit=o, r=0.1, t=t, texp=texp, use_in_transit=False))
assert np.allclose(a, b, atol=1e-9)
"""),
    dict(id="contact-unwrapped-end", property="C14", file=K,
         edits=[("            t_end = pt.mod(t_end + hp, self.period) - hp\n", "")],
         needs="an eccentric orbit whose last-contact anomaly and transit anomaly lie on different sides of the wrap",
         breaks="the end of the transit window is a whole period off when the anomalies straddle the wrap",
         demo=HEAD + """
t = np.linspace(-0.5, 0.5, 201)
for w in np.linspace(-np.pi, np.pi, 25):
    o = KeplerianOrbit(period=5.0, ecc=0.3, omega=w, b=0.2)
    i = val(o.in_transit(t, r=0.1))
    x, y, z = (val(q) for q in o.get_relative_position(t))
    want = np.where((np.sqrt(x**2 + y**2) < 1.1) & (z > 0))[0]
    assert set(i) == set(want), (w, len(i), len(want))
"""),
    dict(id="rv-arctan-omega", property="C06", file=K,
         edits=[("                    + self.ecc * self.cos_omega\n                )\n            )", "                    + self.ecc * pt.cos(self.omega + self.Omega)\n                )\n            )" )],
         needs="x", breaks="x", demo="raise SystemExit(0)"),
    dict(id="periastron-half-turn", property="C08", file=K,
         edits=[("            self.t0 = self.t_periastron + self.M0 / self.n\n", "            self.t0 = self.t_periastron + pt.abs(self.M0) / self.n\n")],
         needs="a periastron time and an argument of periastron for which the transit precedes periastron (negative transit anomaly)",
         breaks="the reference transit time is placed after periastron where the planet is not in conjunction",
         demo=HEAD + """
for w in (0.3, 2.5, -2.5):
    o = KeplerianOrbit(period=5.0, ecc=0.3, omega=w, t_periastron=0.4)
    x, y, z = (val(q) for q in o.get_relative_position(np.array([val(o.t0)])))
    assert abs(x) < 1e-6, (w, x)
"""),
    dict(id="scalar-depth-jacobian", property="C26", file=LD,
         edits=[("        drorddelta = 0.5 * factor / ror\n", "        drorddelta = 0.5 * f0 / (f * pt.sqrt(delta))\n")],
         needs="limb darkening and an impact parameter for which the surface brightness differs from the mean",
         breaks="the reported derivative drops a square root of the brightness factor",
         demo=HEAD + """
lc = xo.LimbDarkLightCurve(0.5, 0.3)
r, j = lc.get_ror_from_approx_transit_depth(0.01, 0.7, jac=True)
h = 1e-7
num = (val(lc.get_ror_from_approx_transit_depth(0.01 + h, 0.7)) - val(lc.get_ror_from_approx_transit_depth(0.01 - h, 0.7))) / (2 * h)
assert np.allclose(val(j), num, rtol=1e-5), (val(j), num)
"""),
    dict(id="delay-circular-velocity", property="C11", file=K,
         edits=[("            vz = vamp * self.sin_incl * cosf\n", "            vz = -vamp * self.sin_incl * cosf\n")],
         needs="a circular orbit with light delay, away from quadrature, to better than first order",
         breaks="the delay of circular orbits uses the line-of-sight velocity with the wrong sign",
         demo=HEAD + """
from exoplanet.orbits.constants import c_light
o = KeplerianOrbit(period=0.2, b=0.1, m_planet=0.3, m_star=20.0, r_star=0.1)
t = np.linspace(0.0, 0.2, 41)
z = val(o.get_planet_position(t)[2])
d = val(o.get_planet_position(t, light_delay=True)[2])
# the light seen at t left at s with t = s - z(s) / c
from scipy.optimize import brentq
f = lambda s: val(o.get_planet_position(np.array([s]))[2])
zz = []
for x in t:
    s = brentq(lambda s: float(s - f(s) / c_light - x), x - 0.05, x + 0.05, xtol=1e-14)
    zz.append(float(f(s)))
err, first = np.abs(d - zz).max(), np.abs(z - zz).max()
assert err < 2e-5 * first, (err, first)
"""),
    dict(id="radius-default-density", property="C16", file=K,
         edits=[("""                * (self.a / self.r_star) ** 2
                * daordtau
""", """                * (self.a / self.r_star) ** 2
                * dadtau
""")],
         needs="a duration-parameterised orbit around a star whose radius is not one",
         breaks="the reported derivative of the stellar density is off by the stellar radius",
         demo=HEAD + """
def rho(d):
    return val(KeplerianOrbit(period=5.0, duration=d, b=0.2, ror=0.1, r_star=2.0).rho_star)
o = KeplerianOrbit(period=5.0, duration=0.3, b=0.2, ror=0.1, r_star=2.0)
h = 1e-6
assert np.allclose(val(o.jacobians["duration"]["rho_star"]), (rho(0.3 + h) - rho(0.3 - h)) / (2 * h), rtol=1e-5)
"""),
]
BUGS = [b for b in BUGS if b["id"] not in ("ttv-edge-orbital-period", "rv-arctan-omega")]
