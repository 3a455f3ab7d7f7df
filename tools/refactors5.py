"""Behaviour-preserving edits, fifth batch: flattened times, other spellings of windows."""
K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"

REFACTORS = [
    ("flat-acceleration", K, [
        ("""        return tuple(
            pt.squeeze(x)
            for x in self._get_acceleration(self.a_star, self.m_planet, t)
        )
""", """        t = pt.as_tensor_variable(t)
        flat = pt.flatten(t)
        shape = tuple(t.shape)
        return tuple(
            pt.squeeze(pt.reshape(x, shape + (x.shape[-1],)))
            for x in self._get_acceleration(self.a_star, self.m_planet, flat)
        )
""")]),
    ("ravel-velocity", K, [
        ("""        return tuple(
            pt.squeeze(x) for x in self._get_velocity(-self.m_total, t)
        )
""", """        t = pt.as_tensor_variable(t)
        out = []
        for x in self._get_velocity(-self.m_total, t.ravel()):
            out.append(pt.squeeze(x.reshape((*t.shape, -1))))
        return tuple(out)
""")]),
    ("window-two-sided", S, [
        ("        mask = pt.any(pt.abs(dt) < tol, axis=-1)\n",
         "        inside = pt.and_(pt.gt(dt, -tol), pt.lt(dt, tol))\n        mask = inside.any(axis=-1)\n")]),
    ("nearest-offset", S, [
        ("""        dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
        dt -= self._half_period
        if r is None:
""", """        phase = (pt.shape_padright(t) - self._ref_time) / self.period
        dt = self.period * (phase - pt.floor(phase) - 0.5)
        if r is None:
""")]),
    ("semi-amplitude-other-form", K, [
        ("        self.K0 = self.n * self.a / self.m_total\n",
         "        self.K0 = pt.sqrt(G_grav / (self.a * self.m_total))\n")]),
    ("tan-half", K, [
        ("""        r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)

        if parallax is not None:""", """        p = a * (1.0 - self.ecc) * (1.0 + self.ecc)
            r = p / (1.0 + self.ecc * cosf)

        if parallax is not None:""")]),
    ("contact-guard", K, [
        ("            self.K0 /= pt.sqrt(ome2)\n",
         "            self.K0 = self.K0 * pt.switch(pt.gt(ome2, 0.5), ome2**-0.5, 1 / pt.sqrt(ome2))\n")]),
]
