K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"
L = "src/exoplanet/light_curves/limb_dark.py"
E = "src/exoplanet/estimators.py"
PRE = '''
import numpy as np
import exoplanet as xo
from exoplanet.orbits import KeplerianOrbit, TTVOrbit, SimpleTransitOrbit
from exoplanet.light_curves import LimbDarkLightCurve
import pytensor, pytensor.tensor as pt
def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol):
        raise SystemExit("%r != %r" % (a, b))
'''
BUGS = [
    dict(id="relative-to-whole-star", property="C04", file=K,
         edits=[('''        return tuple(
            pt.squeeze(x) for x in self._get_velocity(-self.m_total, t)
        )
''', '''        planet = self._get_velocity(-self.m_star, t)
        star = self._get_velocity(self.m_planet, t)
        return tuple(
            pt.squeeze(p - pt.sum(s, axis=-1, keepdims=True))
            for p, s in zip(planet, star)
        )
''')],
         needs="several planets, one of them massive",
         breaks="the relative velocity of a planet includes the reflex motion due to the other planets, unlike its relative position",
         demo=PRE + '''
o = KeplerianOrbit(period=np.array([3.0, 8.0]), m_planet=np.array([1e-3, 2e-2]), ecc=np.array([0.1, 0.3]), omega=np.array([0.4, -1.0]))
t = np.linspace(0, 9, 7)
for p, s, r in zip(o.get_planet_velocity(t), o.get_star_velocity(t), o.get_relative_velocity(t)):
    close(p.eval() - s.eval(), r.eval())
'''),
    dict(id="eccentricity-guard", property="C05", file=K,
         edits=[("            self.K0 /= pt.sqrt(ome2)\n", "            self.K0 /= pt.sqrt(pt.maximum(ome2, 1e-3))\n")],
         needs="an eccentricity above 0.9995",
         breaks="the velocity of a nearly parabolic orbit is not the derivative of its position",
         demo=PRE + '''
o = KeplerianOrbit(period=10.0, ecc=0.9998, omega=0.4)
t = pt.dscalar()
x = o.get_relative_position(t)[0]
v = o.get_relative_velocity(t)[0]
h = 1e-4
f = pytensor.function([t], [x, v])
close((f(3.0 + h)[0] - f(3.0 - h)[0]) / (2 * h), f(3.0)[1], 1e-4)
'''),
    dict(id="circular-parallax", property="C10", file=K,
         edits=[('''            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)

        if parallax is not None:
            # convert r into arcseconds
            r = r * parallax * au_per_R_sun

        return self._rotate_vector(r * cosf, r * sinf)
''', '''            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)

            if parallax is not None:
                # convert r into arcseconds
                r = r * parallax * au_per_R_sun

        return self._rotate_vector(r * cosf, r * sinf)
''')],
         needs="a circular orbit and a parallax",
         breaks="the position of a circular orbit is left in solar radii when a parallax is given",
         demo=PRE + '''
kw = dict(period=100.0, b=0.3)
t = np.linspace(0, 9, 7)
a = KeplerianOrbit(**kw).get_relative_position(t, parallax=0.1)
b = KeplerianOrbit(ecc=0.0, omega=0.0, **kw).get_relative_position(t, parallax=0.1)
for x, y in zip(a, b):
    close(x.eval(), y.eval())
'''),
    dict(id="jacobian-circular", property="C16", file=K,
         edits=[('''        self.dcosidb = self.jacobians["b"]["cos_incl"] = (
            incl_factor * self.r_star / self.a
        )
''', '''        self.jacobians["b"]["cos_incl"] = self.r_star / self.a
        self.dcosidb = incl_factor * self.r_star / self.a
''')],
         needs="an eccentric orbit whose reported Jacobian is used",
         breaks="the reported derivative of the cosine of the inclination is that of a circular orbit",
         demo=PRE + '''
b = pt.dscalar()
o = KeplerianOrbit(period=10.0, b=b, ecc=0.3, omega=0.4)
f = pytensor.function([b], [pytensor.grad(o.cos_incl, b), o.jacobians["b"]["cos_incl"]])
close(*f(0.4))
'''),
    dict(id="duration-gradient-late", property="C16", file=K,
         edits=[("    cosp = pt.cos(phi)\n", "    cosp = pt.sqrt(1 - sinp**2)\n")],
         needs="a transit longer than half a period",
         breaks="the derivative of the semimajor axis has the wrong sign beyond a quarter turn",
         demo=PRE + '''
from exoplanet.orbits.keplerian import get_aor_from_transit_duration
d = pt.dscalar()
a, g = get_aor_from_transit_duration(d, pt.as_tensor_variable(1.0), pt.as_tensor_variable(0.1), ror=pt.as_tensor_variable(0.1))
f = pytensor.function([d], [pytensor.grad(a, d), g])
close(*f(0.6))
'''),
    dict(id="weights-not-squared", property="C36", file=E,
         edits=[("        np.dot(D.T, D * ivar.value[:, None]), np.dot(D.T, y.value * ivar.value)\n",
                 "        np.dot(D.T, D * np.sqrt(ivar.value)[:, None]),\n        np.dot(D.T, y.value * np.sqrt(ivar.value)),\n")],
         needs="uncertainties that differ between the measurements, and noise",
         breaks="the measurements are weighted by the inverse of their uncertainty and not of its square",
         demo=PRE + '''
rng = np.random.default_rng(1)
x = np.sort(rng.uniform(0, 50, 40)); y = 3 * np.sin(x) + rng.normal(size=40)
s = np.where(np.arange(40) % 2, 0.1, 5.0)
P = 2 * np.pi
D = np.array([np.sin(x), np.cos(x), np.ones(40)]).T / s[:, None]
w = np.linalg.lstsq(D, y / s, rcond=None)[0]
close(np.atleast_1d(xo.estimate_semi_amplitude(P, x, y, yerr=s)), [np.hypot(w[0], w[1])], 1e-6)
'''),
    dict(id="anomaly-remembered", property="C05", file=K,
         edits=[('''        M = (self._warp_times(t, _pad=_pad) - self.tref) * self.n
        if self.ecc is None:
            return pt.sin(M), pt.cos(M)
        sinf, cosf = ops.kepler(M, self.ecc + pt.zeros_like(M))
        return sinf, cosf
''', '''        # solving for the anomaly is the expensive step; the position and the
        # velocity are usually wanted at the same times
        key, result = getattr(self, "_anomaly", (None, None))
        if key is t and t is not None and _pad:
            return result
        M = (self._warp_times(t, _pad=_pad) - self.tref) * self.n
        if self.ecc is None:
            result = pt.sin(M), pt.cos(M)
        else:
            result = ops.kepler(M, self.ecc + pt.zeros_like(M))
        self._anomaly = (t, result)
        return result
''')],
         needs="the same array of times modified in place between two calls",
         breaks="the second call is evaluated at the earlier times",
         demo=PRE + '''
o = KeplerianOrbit(period=10.0, ecc=0.3, omega=0.4)
t = np.linspace(0, 1, 5)
x = [q.eval() for q in o.get_relative_position(t)]
t += 2.0
x2 = [q.eval() for q in o.get_relative_position(t)]
y2 = [q.eval() for q in KeplerianOrbit(period=10.0, ecc=0.3, omega=0.4).get_relative_position(t)]
for a, b in zip(x2, y2):
    close(a, b)
'''),
    dict(id="simple-contact-los", property="C17", file=S,
         edits=[("        m = pt.abs(dt) < 0.5 * self.duration\n", "        m = pt.lt(x**2 + y**2, self.r_star**2)\n"),
                ("        z = pt.squeeze(m * 1.0 - (~m) * 1.0)\n", "        z = m * 1.0 - (~m) * 1.0\n")],
         needs="a planet of finite radius during ingress",
         breaks="the planet is in front of the star only while its centre is, so ingress and egress are cut off",
         demo=PRE + '''
o = SimpleTransitOrbit(period=10.0, duration=0.2, b=0.2, ror=0.1)
f = LimbDarkLightCurve(0.3, 0.2).get_light_curve(orbit=o, r=0.1, t=np.array([0.098])).eval()
assert f[0, 0] < 0, f
'''),
    dict(id="exposure-half-padding", property="C24", file=S,
         edits=[("            tol += 0.5 * texp\n", "            tol = pt.maximum(tol, 0.5 * texp)\n")],
         needs="an exposure that starts out of transit and ends in transit",
         breaks="exposures that overlap the ingress are left out of the in-transit selection",
         demo=PRE + '''
o = SimpleTransitOrbit(period=10.0, duration=0.2, b=0.2, ror=0.1)
t = np.linspace(-0.3, 0.3, 61)
lc = LimbDarkLightCurve(0.3, 0.2)
a = lc.get_light_curve(orbit=o, r=0.1, t=t, texp=0.1, use_in_transit=True).eval()
b = lc.get_light_curve(orbit=o, r=0.1, t=t, texp=0.1, use_in_transit=False).eval()
close(a, b)
'''),
    dict(id="whole-star-acceleration", property="C04", file=K,
         edits=[('''            for x in self._get_acceleration(self.a_star, self.m_planet, t)
''', '''            for x in self._get_acceleration(
                self.a_star, self.m_planet, pt.reshape(t, (-1,))
            )
''')],
         needs="times in an array of more than one dimension",
         breaks="the acceleration of the star has other axes than that of the planet",
         demo=PRE + '''
o = KeplerianOrbit(period=10.0, m_planet=0.1, ecc=0.3, omega=0.4)
t = np.linspace(0, 1, 6).reshape(2, 3)
for p, s, r in zip(o.get_planet_acceleration(t), o.get_star_acceleration(t), o.get_relative_acceleration(t)):
    close(p.eval() - s.eval(), r.eval())
'''),
]
