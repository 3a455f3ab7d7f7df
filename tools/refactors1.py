"""Behaviour-preserving edits: the checks have to stay quiet on all of them."""
K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"
TT = "src/exoplanet/orbits/ttv.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
ES = "src/exoplanet/estimators.py"
GI = "src/exoplanet/interp.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
CI = "src/exoplanet/citations.py"
UT = "src/exoplanet/utils.py"
UN = "src/exoplanet/units.py"

REFACTORS = [
    # -- keplerian
    ("kep-squeeze-helper", K, [
        ("""        return tuple(
            pt.squeeze(x)
            for x in self._get_position(
                self.a_planet, t, parallax, light_delay=light_delay
            )
        )
""", """        return _squeeze_all(
            self._get_position(
                self.a_planet, t, parallax=parallax, light_delay=light_delay
            )
        )
"""),
        ("""        return tuple(
            pt.squeeze(x) for x in self._get_velocity(-self.m_star, t)
        )
""", """        vx, vy, vz = self._get_velocity(-self.m_star, t)
        return pt.squeeze(vx), pt.squeeze(vy), pt.squeeze(vz)
"""),
        ("""def get_true_anomaly(M, e, **kwargs):
""", """def _squeeze_all(components):
    out = []
    for component in components:
        out.append(pt.squeeze(component))
    return tuple(out)


def get_true_anomaly(M, e, **kwargs):
"""),
    ]),
    ("kep-radius-helper", K, [
        ("""        sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
        if self.ecc is None:
            r = a
        else:
            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)

        if parallax is not None:
            # convert r into arcseconds
            r = r * parallax * au_per_R_sun

        return self._rotate_vector(r * cosf, r * sinf)
""", """        sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
        r = self._orbital_radius(a, cosf)
        scale = 1.0 if parallax is None else parallax * au_per_R_sun
        r = scale * r
        x_orb = r * cosf
        y_orb = r * sinf
        return self._rotate_vector(x_orb, y_orb)

    def _orbital_radius(self, a, cosf):
        if self.ecc is None:
            return a
        semi_latus_rectum = a * (1.0 - self.ecc) * (1.0 + self.ecc)
        return semi_latus_rectum / (1 + self.ecc * cosf)
"""),
        ("""            r = a
            vamp = angvel * a
            vz = vamp * self.sin_incl * cosf
        else:
            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
""", """            r = self._orbital_radius(a, cosf)
            vz = angvel * a * self.sin_incl * cosf
        else:
            r = self._orbital_radius(a, cosf)
"""),
    ]),
    ("kep-anomaly-inline", K, [
        ("""        M = (self._warp_times(t, _pad=_pad) - self.tref) * self.n
        if self.ecc is None:
            return pt.sin(M), pt.cos(M)
        sinf, cosf = ops.kepler(M, self.ecc + pt.zeros_like(M))
        return sinf, cosf
""", """        elapsed = self._warp_times(t, _pad=_pad) - self.tref
        M = 2 * np.pi * elapsed / self.period
        if self.ecc is not None:
            return tuple(ops.kepler(M, pt.zeros_like(M) + self.ecc))
        return pt.sin(M), pt.cos(M)
"""),
    ]),
    ("kep-delay-terms", K, [
        ("""        delay = pt.switch(
            pt.lt(pt.abs(az), 1.0e-10),
            (z0 - z) / (c_light + vz),
            (c_light / az)
            * (
                (1 + vz / c_light)
                - pt.sqrt(
                    (1 + vz / c_light) * (1 + vz / c_light)
                    - 2 * az * (z0 - z) / c_light**2
                )
            ),
        )

        if _pad:
            new_t = pt.shape_padright(t) - delay
        else:
            new_t = t - delay
""", """        dz = z0 - z
        beta = 1 + vz / c_light
        disc = beta**2 - 2 * az * dz / c_light**2
        linear = dz / (c_light + vz)
        quadratic = (c_light / az) * (beta - pt.sqrt(disc))
        delay = pt.where(pt.abs(az) < 1.0e-10, linear, quadratic)

        padded = pt.shape_padright(t) if _pad else t
        new_t = padded - delay
"""),
    ]),
    ("kep-rotation-loop", K, [
        ("""        if self.ecc is None:
            x1 = x
            y1 = y
        else:
            x1 = self.cos_omega * x - self.sin_omega * y
            y1 = self.sin_omega * x + self.cos_omega * y
""", """        if self.ecc is None:
            x1, y1 = x, y
        else:
            x1, y1 = _rotate(self.cos_omega, self.sin_omega, x, y)
"""),
        ("""        X = self.cos_Omega * x2 - self.sin_Omega * y2
        Y = self.sin_Omega * x2 + self.cos_Omega * y2
        return X, Y, Z
""", """        X, Y = _rotate(self.cos_Omega, self.sin_Omega, x2, y2)
        return X, Y, Z
"""),
        ("""class KeplerianOrbit:
""", """def _rotate(c, s, x, y):
    return c * x - s * y, s * x + c * y


class KeplerianOrbit:
"""),
    ]),
    ("kep-flip-kwargs", K, [
        ("""        if self.ecc is None:
            orbit = type(self)(
                period=self.period,
                t_periastron=self.t_periastron + 0.5 * self.period,
                incl=self.incl,
                Omega=self.Omega,
                m_star=self.m_planet,
                m_planet=self.m_star,
                r_star=r_planet,
                model=model,
            )
        else:
            orbit = type(self)(
                period=self.period,
                t_periastron=self.t_periastron,
                incl=self.incl,
                ecc=self.ecc,
                omega=self.omega - np.pi,
                Omega=self.Omega,
                m_star=self.m_planet,
                m_planet=self.m_star,
                r_star=r_planet,
                model=model,
            )
        return orbit
""", """        kwargs = dict(
            period=self.period,
            incl=self.incl,
            Omega=self.Omega,
            m_star=self.m_planet,
            m_planet=self.m_star,
            r_star=r_planet,
            model=model,
        )
        if self.ecc is None:
            kwargs["t_periastron"] = self.t_periastron + 0.5 * self.period
        else:
            kwargs.update(
                t_periastron=self.t_periastron,
                ecc=self.ecc,
                omega=self.omega - np.pi,
            )
        return self.__class__(**kwargs)
"""),
    ]),
    ("kep-in-transit-half", K, [
        ("""        hp = 0.5 * self.period
        dt = pt.mod(self._warp_times(t) + hp, self.period) - hp
""", """        hp = 0.5 * self.period

        def wrap(time):
            return pt.mod(time + hp, self.period) - hp

        dt = wrap(self._warp_times(t))
"""),
        ("""            t_start = (M_contact[0] - self.M0) / self.n
            t_start = pt.mod(t_start + hp, self.period) - hp
            t_end = (M_contact[1] - self.M0) / self.n
            t_end = pt.mod(t_end + hp, self.period) - hp
""", """            t_start, t_end = [
                wrap((M - self.M0) / self.n) for M in M_contact[:2]
            ]
"""),
        ("""        if texp is not None:
            texp = as_tensor_variable(texp)
            if texp.ndim:
                texp = pt.shape_padright(texp)
            t_start -= 0.5 * texp
            t_end += 0.5 * texp

        mask = pt.any(pt.and_(dt >= t_start, dt <= t_end), axis=-1)

        result = ifelse(
            pt.all(pt.eq(flag, 0)),
            pt.arange(t.shape[0])[mask],
            pt.arange(t.shape[0]),
        )

        return result
""", """        if texp is not None:
            half = 0.5 * as_tensor_variable(texp)
            if half.ndim > 0:
                half = half[..., None]
            t_start = t_start - half
            t_end = t_end + half

        inside = (dt >= t_start) & (dt <= t_end)
        every = pt.arange(t.shape[0])
        return ifelse(
            pt.all(pt.eq(flag, 0)), every[pt.any(inside, axis=-1)], every
        )
"""),
    ]),
    ("kep-inputs-reorder", K, [
        ("""    # Work out the stellar parameters
    if rho_star is None:
        rho_star = 3 * m_star / (4 * np.pi * r_star**3)
    elif r_star is None:
        r_star = (3 * m_star / (4 * np.pi * rho_star)) ** (1 / 3)
    elif m_star is None:
        m_star = 4 * np.pi * r_star**3 * rho_star / 3.0
""", """    # Work out the stellar parameters
    sphere = 4 * np.pi / 3.0
    if m_star is None:
        m_star = rho_star * (sphere * r_star**3)
    elif rho_star is None:
        rho_star = m_star / (sphere * r_star**3)
    elif r_star is None:
        r_star = (m_star / (sphere * rho_star)) ** (1.0 / 3.0)
"""),
        ("""    # Make sure that the right combination of stellar parameters are given
    if r_star is None and m_star is None:
        r_star = 1.0
        if rho_star is None:
            m_star = 1.0
    if (not implied_rho_star) and sum(
        arg is None for arg in (rho_star, r_star, m_star)
    ) != 1:
        raise ValueError(
""", """    # Make sure that the right combination of stellar parameters are given
    if r_star is None and m_star is None:
        r_star = 1.0
        if rho_star is None:
            m_star = 1.0
    given = [arg for arg in (rho_star, r_star, m_star) if arg is not None]
    if not implied_rho_star and len(given) != 2:
        raise ValueError(
"""),
    ]),
    ("kep-K0-order", K, [
        ("""        self.K0 = self.n * self.a / self.m_total

        if Omega is None:
            self.Omega = None
        else:
            self.Omega = as_tensor_variable(Omega)
            self.cos_Omega = pt.cos(self.Omega)
            self.sin_Omega = pt.sin(self.Omega)
""", """        self.Omega = None
        if Omega is not None:
            self.Omega = as_tensor_variable(Omega)
            self.sin_Omega = pt.sin(self.Omega)
            self.cos_Omega = pt.cos(self.Omega)

        self.K0 = self.a * self.n / self.m_total
"""),
        ("""            ome2 = 1 - self.ecc**2
            self.K0 /= pt.sqrt(ome2)
            incl_factor = (1 + self.ecc * self.sin_omega) / ome2
""", """            ome2 = (1 - self.ecc) * (1 + self.ecc)
            self.K0 = self.K0 / pt.sqrt(ome2)
            incl_factor = (self.ecc * self.sin_omega + 1) / ome2
"""),
    ]),
    ("kep-rv", K, [
        ("""        conv = (1 * u.R_sun / u.day).to(output_units).value
        v = self.get_star_velocity(t)
        return -conv * v[2]
""", """        conv = (u.R_sun / u.day).to(output_units)
        _, _, vz = self.get_star_velocity(t)
        return conv * (-vz)
"""),
        ("""        if K is not None:
            sinf, cosf = self._get_true_anomaly(t)
            if self.ecc is None:
                return pt.squeeze(K * cosf)
            # cos(w + f) + e * cos(w) from Lovis & Fischer
            return pt.squeeze(
                K
                * (
                    self.cos_omega * cosf
                    - self.sin_omega * sinf
                    + self.ecc * self.cos_omega
                )
            )
""", """        if K is not None:
            sinf, cosf = self._get_true_anomaly(t)
            phase = cosf
            if self.ecc is not None:
                # cos(w + f) + e * cos(w) from Lovis & Fischer
                phase = self.cos_omega * (cosf + self.ecc)
                phase = phase - self.sin_omega * sinf
            return pt.squeeze(K * phase)
"""),
    ]),
    ("kep-acceleration", K, [
        ("""        if self.ecc is None:
            factor = -(K**2) / a
        else:
            factor = (
                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
            )
""", """        factor = -pt.square(K) / a
        if self.ecc is not None:
            factor *= (1 + self.ecc * cosf) ** 2 / (1 - self.ecc**2)
"""),
    ]),
    ("kep-duration", K, [
        ("""            self.b = pt.sqrt(
                (aor**2 * c2 - opk2)
                / (
                    c2 * esinw**2
                    + 2 * c2 * esinw
                    + c2
                    - self.ecc**4
                    + 2 * self.ecc**2
                    - 1
                )
            )
            self.b *= 1 - self.ecc**2
""", """            numer = aor**2 * c2 - opk2
            denom = c2 * (1 + esinw) ** 2 - (1 - self.ecc**2) ** 2
            self.b = (1 - self.ecc**2) * pt.sqrt(numer / denom)
"""),
        ("""    if ror is None:
        ror = as_tensor_variable(0.0)
    b2 = b**2
    opk2 = (1 + ror) ** 2
    phi = np.pi * duration / period
    sinp = pt.sin(phi)
    cosp = pt.cos(phi)
    num = pt.sqrt(opk2 - b2 * cosp**2)
    aor = num / sinp
""", """    k = as_tensor_variable(0.0) if ror is None else ror
    b2 = b * b
    opk2 = (1 + k) ** 2
    phi = duration / period * np.pi
    sinp, cosp = pt.sin(phi), pt.cos(phi)
    num = pt.sqrt(opk2 - b2 * cosp**2)
    aor = num / sinp
"""),
    ]),
    ("kep-t0-branch", K, [
        ("""        if t0 is not None and t_periastron is not None:
            raise ValueError("you can't define both t0 and t_periastron")
        if t0 is None and t_periastron is None:
            t0 = pt.zeros_like(self.period)

        if t0 is None:
            self.t_periastron = as_tensor_variable(t_periastron)
            self.t0 = self.t_periastron + self.M0 / self.n
        else:
            self.t0 = as_tensor_variable(t0)
            self.t_periastron = self.t0 - self.M0 / self.n

        self.tref = self.t_periastron - self.t0
""", """        offset = self.M0 / self.n
        if t_periastron is None:
            if t0 is None:
                t0 = pt.zeros_like(self.period)
            self.t0 = as_tensor_variable(t0)
            self.t_periastron = self.t0 - offset
        elif t0 is None:
            self.t_periastron = as_tensor_variable(t_periastron)
            self.t0 = self.t_periastron + offset
        else:
            raise ValueError("you can't define both t0 and t_periastron")

        self.tref = self.t_periastron - self.t0
"""),
    ]),
    # -- simple, ttv
    ("simple-phase-helper", S, [
        ("""        dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
        dt -= self._half_period
        x = pt.squeeze(self.speed * dt)
        y = pt.squeeze(self._b_norm + pt.zeros_like(dt))
        m = pt.abs(dt) < 0.5 * self.duration
        z = pt.squeeze(m * 1.0 - (~m) * 1.0)
        return x, y, z
""", """        dt = self._time_since_transit(t)
        x = self.speed * dt
        y = pt.zeros_like(dt) + self._b_norm
        z = pt.switch(pt.lt(pt.abs(dt), 0.5 * self.duration), 1.0, -1.0)
        return pt.squeeze(x), pt.squeeze(y), pt.squeeze(z)

    def _time_since_transit(self, t):
        phase = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
        return phase - self._half_period
"""),
        ("""        dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
        dt -= self._half_period
        if r is None:
            tol = 0.5 * self.duration
        else:
            x = (r + self.r_star) ** 2 - self._b_norm**2
            tol = pt.sqrt(x) / self.speed
        if texp is not None:
            texp = as_tensor_variable(texp)
            if texp.ndim:
                texp = pt.shape_padright(texp)
            tol += 0.5 * texp
        mask = pt.any(pt.abs(dt) < tol, axis=-1)
        return pt.arange(t.size)[mask]
""", """        dt = self._time_since_transit(t)
        tol = 0.5 * self.duration
        if r is not None:
            chord = pt.sqrt((r + self.r_star) ** 2 - self._b_norm**2)
            tol = chord / self.speed
        if texp is not None:
            texp = as_tensor_variable(texp)
            tol = tol + 0.5 * (pt.shape_padright(texp) if texp.ndim else texp)
        return pt.nonzero(pt.any(pt.abs(dt) < tol, axis=-1))[0]
"""),
    ]),
    ("ttv-regression-helper", TT, [
        ("""                # A convoluted version of linear regression; don't ask
                N = times.shape[0]
                sumx = pt.sum(inds)
                sumx2 = pt.sum(inds**2)
                sumy = pt.sum(times)
                sumxy = pt.sum(inds * times)
                denom = N * sumx2 - sumx**2
                slope = (N * sumxy - sumx * sumy) / denom
                intercept = (sumx2 * sumy - sumx * sumxy) / denom
                expect = intercept + inds * slope
""", """                intercept, slope = _fit_line(inds, times)
                expect = intercept + inds * slope
"""),
        ("""class TTVOrbit(KeplerianOrbit):
""", """def _fit_line(x, y):
    xm = pt.mean(x)
    ym = pt.mean(y)
    slope = pt.sum((x - xm) * (y - ym)) / pt.sum((x - xm) ** 2)
    return ym - slope * xm, slope


class TTVOrbit(KeplerianOrbit):
"""),
        ("""        self._bin_edges = [
            pt.concatenate(
                (
                    [tts[0] - 0.5 * self.ttv_period[i]],
                    0.5 * (tts[1:] + tts[:-1]),
                    [tts[-1] + 0.5 * self.ttv_period[i]],
                )
            )
            for i, tts in enumerate(self.all_transit_times)
        ]
        self._bin_values = [
            pt.concatenate(([tts[0]], tts, [tts[-1]]))
            for i, tts in enumerate(self.all_transit_times)
        ]
""", """        self._bin_edges = []
        self._bin_values = []
        for i, tts in enumerate(self.all_transit_times):
            half = 0.5 * self.ttv_period[i]
            first, last = tts[0], tts[-1]
            middle = (tts[:-1] + tts[1:]) / 2
            self._bin_edges.append(
                pt.concatenate(([first - half], middle, [last + half]))
            )
            self._bin_values.append(pt.concatenate(([first], tts, [last])))
"""),
        ("""        vals = []
        for i in range(len(self.ttvs)):
            # If the times aren't padded, there is already one column of
            # times for each planet
            ti = t if _pad else t[..., i]
            inds = pt.extra_ops.searchsorted(self._bin_edges[i], ti)
            vals.append(self._bin_values[i][inds])
        return pt.stack(vals, -1)
""", """        return pt.stack(
            [
                values[
                    pt.extra_ops.searchsorted(edges, t if _pad else t[..., i])
                ]
                for i, (edges, values) in enumerate(
                    zip(self._bin_edges, self._bin_values)
                )
            ],
            axis=-1,
        )
"""),
        ("""    for period, t0 in zip(periods, t0s):
        min_ind = np.floor((min_time - t0) / period)
        max_ind = np.ceil((max_time - t0) / period)
        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
        times = times[(min_time <= times) & (times <= max_time)]
        transit_times.append(times)
    return transit_times
""", """    for p, ref in zip(periods, t0s):
        first = np.floor((min_time - ref) / p)
        last = np.ceil((max_time - ref) / p)
        times = ref + p * np.arange(first, last + 1)
        keep = (times >= min_time) & (times <= max_time)
        transit_times.append(times[keep])
    return transit_times
"""),
    ]),
    # -- light curves
    ("ld-stencil-helper", LD, [
        ("""            oversample = int(oversample)
            oversample += 1 - oversample % 2
            stencil = np.ones(oversample)

            # Construct the exposure time integration stencil
            if order == 0 or (oversample == 1 and order in (1, 2)):
                dt = np.linspace(-0.5, 0.5, 2 * oversample + 1)[1:-1:2]
            elif order == 1:
                dt = np.linspace(-0.5, 0.5, oversample)
                stencil[1:-1] = 2
            elif order == 2:
                dt = np.linspace(-0.5, 0.5, oversample)
                stencil[1:-1:2] = 4
                stencil[2:-1:2] = 2
            else:
                raise ValueError("order must be <= 2")
            stencil /= np.sum(stencil)
""", """            dt, stencil = _get_stencil(oversample, order)
"""),
        ("""class LimbDarkLightCurve:
""", """def _get_stencil(oversample, order):
    num = int(oversample)
    if num % 2 == 0:
        num += 1
    if order not in (0, 1, 2):
        raise ValueError("order must be <= 2")
    weights = np.ones(num)
    if order == 0 or num == 1:
        offsets = (np.arange(num) + 0.5) / num - 0.5
    else:
        offsets = np.linspace(-0.5, 0.5, num)
        if order == 1:
            weights[1:-1] = 2
        else:
            weights[1:-1:2] = 4
            weights[2:-1:2] = 2
    return offsets, weights / weights.sum()


class LimbDarkLightCurve:
"""),
        ("""        if use_in_transit:
            transit_model = pt.set_subtensor(transit_model[inds], lc)
            return transit_model
        else:
            return lc
""", """        if not use_in_transit:
            return lc
        return pt.set_subtensor(transit_model[inds], lc)
"""),
        ("""        use_in_transit = (
            not light_delay if use_in_transit is None else use_in_transit
        )
""", """        if use_in_transit is None:
            use_in_transit = not light_delay
"""),
        ("""        if orbit is None:
            raise ValueError("missing required argument 'orbit'")
        if r is None:
            raise ValueError("missing required argument 'r'")
        if t is None:
            raise ValueError("missing required argument 't'")
""", """        for name, value in [("orbit", orbit), ("r", r), ("t", t)]:
            if value is None:
                raise ValueError(f"missing required argument '{name}'")
"""),
        ("""        lc = quad_limbdark_light_curve(self.c, b, r)
        return pt.switch(pt.gt(los, 0), lc, pt.zeros_like(lc))
""", """        lc = quad_limbdark_light_curve(self.c, b, r)
        return pt.where(los > 0, lc, 0.0)
"""),
        ("""        f0 = 1 - 2 * self.u1 / 6.0 - 2 * self.u2 / 12.0
        arg = 1 - pt.sqrt(1 - b**2)
        f = 1 - self.u1 * arg - self.u2 * arg**2
        factor = f0 / f
        ror = pt.sqrt(delta * factor)
        if not jac:
            return pt.reshape(ror, b.shape)
        drorddelta = 0.5 * factor / ror
        return pt.reshape(ror, b.shape), pt.reshape(drorddelta, b.shape)
""", """        mean = 1 - self.u1 / 3 - self.u2 / 6
        arg = 1 - pt.sqrt(1 - b**2)
        local = 1 - arg * (self.u1 + self.u2 * arg)
        factor = mean / local
        ror = pt.reshape(pt.sqrt(delta * factor), b.shape)
        if jac:
            return ror, pt.reshape(0.5 * factor, b.shape) / ror
        return ror
"""),
        ("""    c0 = 1 - u1 - 1.5 * u2
    c1 = u1 + 2 * u2
    c2 = -0.25 * u2
    norm = np.pi * (c0 + c1 / 1.5)
    return pt.stack([c0, c1, c2]) / norm
""", """    c = pt.stack([1 - u1 - 1.5 * u2, u1 + 2 * u2, -u2 / 4])
    norm = np.pi * (1 - u1 / 3 - u2 / 6)
    return c / norm
"""),
        ("""    return pt.dot(ops.quad_solution_vector(b, r), c) - 1.0
""", """    s = ops.quad_solution_vector(b, r)
    return pt.sum(s * c, axis=-1) - 1.0
"""),
    ]),
    ("se-common-kwargs", SE, [
        ("""        lc1 = self.primary.get_light_curve(
            orbit=orbit,
            r=r,
            t=t,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )
        lc2 = self.secondary.get_light_curve(
            orbit=orbit2,
            r=orbit.r_star + pt.zeros_like(r),
            t=t,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )

        k = r / orbit.r_star
        flux_ratio = self.surface_brightness_ratio * k**2
        return (lc1 + flux_ratio * lc2) / (1 + flux_ratio)
""", """        options = {
            "t": t,
            "texp": texp,
            "oversample": oversample,
            "order": order,
            "use_in_transit": use_in_transit,
            "light_delay": light_delay,
        }
        flux_ratio = self.surface_brightness_ratio * (r / orbit.r_star) ** 2
        norm = 1 / (1 + flux_ratio)
        total = 0.0
        for source, body, radius, weight in (
            (self.primary, orbit, r, norm),
            (
                self.secondary,
                orbit2,
                orbit.r_star + pt.zeros_like(r),
                flux_ratio * norm,
            ),
        ):
            total = total + weight * source.get_light_curve(
                orbit=body, r=radius, **options
            )
        return total
"""),
    ]),
    ("il-unify", IL, [
        ("""        if num_planets <= 1:
            func = _wrapper(
                self.base_light_curve,
                orbit=orbit,
                r=r,
                texp=texp,
                oversample=oversample,
                order=order,
                use_in_transit=use_in_transit,
                light_delay=light_delay,
            )
""", """        func = _wrapper(
            self.base_light_curve,
            orbit=orbit,
            r=r,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )
        if num_planets <= 1:
"""),
        ("""        for n in range(num_planets):
            func = _wrapper(
                self.base_light_curve,
                orbit=orbit,
                r=r,
                texp=texp,
                oversample=oversample,
                order=order,
                use_in_transit=use_in_transit,
                light_delay=light_delay,
            )
            mn = orbit.t0[n]
            mx = orbit.t0[n] + orbit.period[n]
            ys.append(
                interp(
                    n,
                    pt.mod(t - orbit.t0[n], orbit.period[n]) + orbit.t0[n],
                    mn,
                    mx,
                    (mx - mn) / (self.num_phase + 1),
                    func,
                )
            )
""", """        for n in range(num_planets):
            t0, period = orbit.t0[n], orbit.period[n]
            folded = t0 + pt.mod(t - t0, period)
            step = period / (self.num_phase + 1)
            ys.append(interp(n, folded, t0, t0 + period, step, func))
"""),
        ("""    a0 = y1
    a1 = -y0 / 3.0 - 0.5 * y1 + y2 - y3 / 6.0
    a2 = 0.5 * (y0 + y2) - y1
    a3 = 0.5 * ((y1 - y2) + (y3 - y0) / 3.0)

    inds = pt.cast(pt.floor((x - xmin) / dx), "int64")
    x0 = (x - xp[inds + 1]) / dx
    return a0[inds] + a1[inds] * x0 + a2[inds] * x0**2 + a3[inds] * x0**3
""", """    inds = pt.cast(pt.floor((x - xmin) / dx), "int64")
    s = (x - xp[inds + 1]) / dx
    y0, y1, y2, y3 = (y[inds] for y in (y0, y1, y2, y3))

    # Lagrange polynomials on the nodes -1, 0, 1, 2
    w0 = -s * (s - 1) * (s - 2) / 6
    w1 = (s + 1) * (s - 1) * (s - 2) / 2
    w2 = -(s + 1) * s * (s - 2) / 2
    w3 = (s + 1) * s * (s - 1) / 6
    return w0 * y0 + w1 * y1 + w2 * y2 + w3 * y3
"""),
    ]),
    # -- grids
    ("grid-weights", GI, [
        ("""    for edge_indices in itertools.product(*((i, i + 1) for i in indices)):
        weight = pt.ones(coords.shape[:-1])
        for ei, i, yi in zip(edge_indices, indices, norm_distances):
            weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
        result += values[edge_indices] * pt.shape_padright(
            weight, values.ndim - ndim
        )
""", """    for corner in itertools.product((0, 1), repeat=ndim):
        weight = pt.ones(coords.shape[:-1])
        for upper, yi in zip(corner, norm_distances):
            weight = weight * (yi if upper else 1 - yi)
        corner_inds = tuple(i + upper for i, upper in zip(indices, corner))
        result = result + values[corner_inds] * pt.shape_padright(
            weight, values.ndim - ndim
        )
"""),
    ]),
    # -- estimators
    ("est-design-lists", ES, [
        ("""    if t0s is not None:
        return np.vstack(
            [
                np.cos(
                    2 * np.pi * (x - (t0s[i] - 0.25 * periods[i])) / periods[i]
                )
                for i in range(len(periods))
            ]
            + [np.ones(len(x))]
        ).T
    return np.concatenate(
        [
            (
                np.sin(2 * np.pi * x / periods[i]),
                np.cos(2 * np.pi * x / periods[i]),
            )
            for i in range(len(periods))
        ]
        + [np.ones((1, len(x)))],
        axis=0,
    ).T
""", """    columns = []
    for i, period in enumerate(periods):
        if t0s is None:
            phase = 2 * np.pi * x / period
            columns += [np.sin(phase), np.cos(phase)]
        else:
            columns.append(-np.sin(2 * np.pi * (x - t0s[i]) / period))
    columns.append(np.ones_like(x))
    return np.stack(columns, axis=-1)
"""),
        ("""    D = _get_design_matrix(periods.value, t0s, x.value)
    w = np.linalg.solve(
        np.dot(D.T, D * ivar.value[:, None]), np.dot(D.T, y.value * ivar.value)
    )
    if t0s is not None:
        K = w[:-1]
    else:
        w = w[:-1]
        K = np.sqrt(w[::2] ** 2 + w[1::2] ** 2)
    return K
""", """    D = _get_design_matrix(periods.value, t0s, x.value)
    weights = ivar.value
    DTCinv = D.T * weights
    w = np.linalg.solve(DTCinv @ D, DTCinv @ y.value)[:-1]
    if t0s is not None:
        return w
    return np.hypot(w[::2], w[1::2])
"""),
    ]),
    ("est-peaks-loop", ES, [
        ("""    inds = (power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])
    inds = np.arange(1, len(power) - 1)[inds]
    inds = inds[np.argsort(power[inds])][::-1]
    peaks = []
    for i in inds[: max(1, max_peaks)]:
        A = np.vander(freq[i - 1 : i + 2], 3)
        w = np.linalg.solve(A, np.log(power[i - 1 : i + 2]))
        sigma2 = -0.5 / w[0]
        freq0 = w[1] * sigma2
        peaks.append(
            dict(
                index=i,
                log_power=w[2] + 0.5 * freq0**2 / sigma2,
                period=1.0 / freq0,
                period_uncert=np.sqrt(sigma2 / freq0**4),
            )
        )
    if max_peaks:
        return peaks
    if not len(peaks):
        raise ValueError("no peaks were found")
    return peaks[0]
""", """    above = (power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])
    inds = np.flatnonzero(above) + 1
    inds = inds[np.argsort(power[inds])[::-1]]
    peaks = [_fit_peak(freq, power, i) for i in inds[: max(1, max_peaks)]]
    if max_peaks:
        return peaks
    if len(peaks) == 0:
        raise ValueError("no peaks were found")
    return peaks[0]


def _fit_peak(freq, power, i):
    window = slice(i - 1, i + 2)
    a, b, c = np.linalg.solve(np.vander(freq[window], 3), np.log(power[window]))
    sigma2 = -1 / (2 * a)
    freq0 = b * sigma2
    return {
        "index": i,
        "log_power": c + freq0**2 / (2 * sigma2),
        "period": 1.0 / freq0,
        "period_uncert": np.sqrt(sigma2) / freq0**2,
    }
"""),
    ]),
    ("est-ls-limits", ES, [
        ("""    if min_period is not None:
        kwargs["maximum_frequency"] = 1.0 / min_period
    if max_period is not None:
        kwargs["minimum_frequency"] = 1.0 / max_period
""", """    limits = {"maximum_frequency": min_period, "minimum_frequency": max_period}
    for key, period in limits.items():
        if period is not None:
            kwargs[key] = 1.0 / period
"""),
        ("""    power /= len(x)
    power_est = np.array(power)

    # Filter long periods
    if filter_period is not None:
        freq0 = 1.0 / filter_period
        filt = 1.0 / np.sqrt(1 + (freq0 / freq) ** (2 * 3))
        power *= filt
""", """    power_est = power / len(x)
    power = power_est

    # Filter long periods
    if filter_period is not None:
        ratio = 1.0 / (filter_period * freq)
        power = power_est / np.sqrt(1 + ratio**6)
"""),
    ]),
    ("est-acf-flow", ES, [
        ("""    # No peaks were found
    if len(peak_inds) == 0 or tau[peak_inds[0]] > max_period:
        return result

    # Only one peak was found
    if len(peak_inds) == 1:
        result["peaks"] = [
            dict(period=tau[peak_inds[0]], period_uncert=np.nan)
        ]
        return result

    # Check to see if second peak is higher
    if acor[peak_inds[1]] > acor[peak_inds[0]]:
        peak_inds = peak_inds[1:]

    # The first peak is larger than the maximum period
    if tau[peak_inds[0]] > max_period:
        return result

    result["peaks"] = [dict(period=tau[peak_inds[0]], period_uncert=np.nan)]
    return result
""", """    if len(peak_inds) == 0:
        return result

    best = peak_inds[0]
    if tau[best] <= max_period:
        # Check to see if second peak is higher
        if len(peak_inds) > 1 and acor[peak_inds[1]] > acor[best]:
            best = peak_inds[1]
        if tau[best] <= max_period:
            result["peaks"].append(
                dict(period=tau[best], period_uncert=np.nan)
            )
    return result
"""),
        ("""    peak_inds = (acor[1:-1] > acor[:-2]) & (acor[1:-1] > acor[2:])
    peak_inds = np.arange(1, len(acor) - 1)[peak_inds]
    peak_inds = peak_inds[tau[peak_inds] >= min_period]
""", """    middle = acor[1:-1]
    is_peak = (middle > acor[:-2]) & (middle > acor[2:])
    is_peak &= tau[1:-1] >= min_period
    peak_inds = 1 + np.where(is_peak)[0]
"""),
        ("""    i = 1
    while i < n:
        i = i << 1
    return i
""", """    i = 1
    while n > i:
        i *= 2
    return i
"""),
    ]),
    ("est-bls-flow", ES, [
        ("""    if "frequency_factor" not in kwargs:
        kwargs["frequency_factor"] = 1.0
        periods = bls.autoperiod(duration, **kwargs)
        while len(periods) > len(x):
            kwargs["frequency_factor"] *= 2
            periods = bls.autoperiod(duration, **kwargs)
""", """    if "frequency_factor" not in kwargs:
        factor = 1.0
        while (
            len(bls.autoperiod(duration, frequency_factor=factor, **kwargs))
            > len(x)
        ):
            factor *= 2
        kwargs["frequency_factor"] = factor
"""),
        ("""    results = dict(bls=pg, peaks=peaks, peak_info=None)
    if not len(peaks):
        return results

    # Extract the relevant information at the peak
    ind = peaks[0]["index"]
    results["peak_info"] = dict(
        (k, v[ind]) for k, v in pg.items() if k != "objective"
    )
    return results
""", """    peak_info = None
    if peaks:
        # Extract the relevant information at the peak
        ind = peaks[0]["index"]
        peak_info = {k: v[ind] for k, v in pg.items() if k != "objective"}
    return {"bls": pg, "peaks": peaks, "peak_info": peak_info}
"""),
        ("""    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
    kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
""", """    kwargs.setdefault("minimum_period", min_period)
    kwargs.setdefault("maximum_period", max_period)
"""),
    ]),
    # -- distributions
    ("dist-angle", DI, [
        ("""    x1 = pm.Normal(
        f"__{name}_angle1", **_with_initval(initval=np.sin(initval), **kwargs)
    )
    x2 = pm.Normal(
        f"__{name}_angle2", **_with_initval(initval=np.cos(initval), **kwargs)
    )
    if regularization is not None:
        pm.Potential(
            f"{name}_regularization",
            regularization * pt.log(x1**2 + x2**2),
        )
    return pm.Deterministic(name, pt.arctan2(x1, x2))
""", """    x1, x2 = (
        pm.Normal(
            f"__{name}_angle{i + 1}",
            mu=0.0,
            sigma=1.0,
            **_with_initval(initval=func(initval), **kwargs),
        )
        for i, func in enumerate((np.sin, np.cos))
    )
    if regularization is not None:
        radius2 = pt.square(x1) + pt.square(x2)
        pm.Potential(
            "{0}_regularization".format(name), regularization * pt.log(radius2)
        )
    theta = pt.arctan2(x1, x2)
    return pm.Deterministic(name, theta)
"""),
        ("""    norm = pt.sqrt(1 - x1**2)
    pm.Potential(f"{name_y}_jacobian", pt.log(norm))
    return x1, pm.Deterministic(name_y, x2 * norm)
""", """    norm2 = 1 - x1**2
    pm.Potential(f"{name_y}_jacobian", 0.5 * pt.log(norm2))
    y = pm.Deterministic(name_y, pt.sqrt(norm2) * x2)
    return x1, y
"""),
        ("""    u1 = u[0]
    u2 = u[1]
    kwargs["lower"] = 0.0
    kwargs["upper"] = 1.0
    q1 = pm.Uniform(
        f"__{name}_q1", **_with_initval(initval=(u1 + u2) ** 2, **kwargs)
    )
    q2 = pm.Uniform(
        f"__{name}_q2", **_with_initval(initval=0.5 * u1 / (u1 + u2), **kwargs)
    )
    sqrtq1 = pt.sqrt(q1)
    twoq2 = 2 * q2
    return pm.Deterministic(
        name, pt.stack([sqrtq1 * twoq2, sqrtq1 * (1 - twoq2)], axis=0)
    )
""", """    u1, u2 = u[0], u[1]
    total = u1 + u2
    kwargs.update(lower=0.0, upper=1.0)
    q1 = pm.Uniform(
        f"__{name}_q1", **_with_initval(initval=total**2, **kwargs)
    )
    q2 = pm.Uniform(
        f"__{name}_q2", **_with_initval(initval=u1 / (2 * total), **kwargs)
    )
    sqrtq1 = pt.sqrt(q1)
    first = 2 * sqrtq1 * q2
    return pm.Deterministic(name, pt.stack([first, sqrtq1 - first], axis=0))
"""),
        ("""    val = kwargs.pop("initval", kwargs.pop("testval", None))
    if USING_PYMC3:
        return dict(kwargs, testval=val)
    return dict(kwargs, initval=val)
""", """    val = kwargs.pop("testval", None)
    val = kwargs.pop("initval", val)
    key = "testval" if USING_PYMC3 else "initval"
    kwargs[key] = val
    return kwargs
"""),
    ]),
    ("ecc-tables", EC, [
        ("""    if long is None:
        # If 'long' is not provided, use the fit for the parameters from the
        # full dataset
        alpha_mu = 1.12
        alpha_sd = 0.1
        beta_mu = 3.09
        beta_sd = 0.3
    else:
        # If 'long' is set, select either the long or short period model
        # parameters
        if long:
            alpha_mu = 1.12
            alpha_sd = 0.1
            beta_mu = 3.09
            beta_sd = 0.3
        else:
            alpha_mu = 0.697
            alpha_sd = 0.4
            beta_mu = 3.27
            beta_sd = 0.3
""", """    if long is None or long:
        (alpha_mu, alpha_sd), (beta_mu, beta_sd) = _KIPPING13["long"]
    else:
        (alpha_mu, alpha_sd), (beta_mu, beta_sd) = _KIPPING13["short"]
"""),
        ("""def kipping13(
""", """_KIPPING13 = {
    "long": ((1.12, 0.1), (3.09, 0.3)),
    "short": ((0.697, 0.4), (3.27, 0.3)),
}


def kipping13(
"""),
        ("""    if multi:
        frac_mu = 0.08
        frac_sd = 0.08
    else:
        frac_mu = 0.76
        frac_sd = 0.2
""", """    frac_mu, frac_sd = (0.08, 0.08) if multi else (0.76, 0.2)
"""),
        ("""            pm.Potential(
                "prior",
                pm.math.logaddexp(
                    pt.log(1 - frac) + _logp(gauss, ecc),
                    pt.log(frac) + _logp(rayleigh, ecc),
                ),
            )
""", """            terms = [
                pt.log(weight) + _logp(component, ecc)
                for weight, component in ((1 - frac, gauss), (frac, rayleigh))
            ]
            pm.Potential("prior", pm.math.logaddexp(*terms))
"""),
    ]),
    # -- citations, utilities
    ("cite-flow", CI, [
        ("""        for k in citations:
            model.__citations__[k] = CITATIONS[k]
""", """        model.__citations__.update({k: CITATIONS[k] for k in citations})
"""),
        ("""    for _, v in model.__citations__.items():
        cite += list(v[0])
        bib.append(v[1])
""", """    for keys, entry in model.__citations__.values():
        cite.extend(keys)
        bib.append(entry)
"""),
    ]),
    ("units-getattr", UN, [
        ("""    if not has_unit(obj):
        return obj
    base = getattr(obj, UNIT_ATTR_NAME)
    return obj * base.to(target)
""", """    base = getattr(obj, UNIT_ATTR_NAME, None)
    if base is None:
        return obj
    factor = base.to(target)
    return factor * obj
"""),
    ]),
    ("utils-names", UT, [
        ("""    t = tensor.as_tensor_variable(x, **kwargs)
    if dtype is None:
        return t
    return t.astype(dtype)
""", """    result = tensor.as_tensor_variable(x, **kwargs)
    return result if dtype is None else result.astype(dtype)
"""),
    ]),
]
