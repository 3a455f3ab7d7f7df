"""Behaviour-preserving edits, fourth batch: larger restructurings."""
K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"
TT = "src/exoplanet/orbits/ttv.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
ES = "src/exoplanet/estimators.py"
GI = "src/exoplanet/interp.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
UT = "src/exoplanet/utils.py"
UN = "src/exoplanet/units.py"

REFACTORS = [
    ("kep-init-methods", K, [
        ("""        # Eccentricity
        if ecc is None:
            self.ecc = None
            self.M0 = 0.5 * np.pi + pt.zeros_like(self.n)
            incl_factor = 1
        else:
            self.ecc = as_tensor_variable(ecc)
            if omega is not None:
                if sin_omega is not None and cos_omega is not None:
                    raise ValueError(
                        "either 'omega' or 'sin_omega' and 'cos_omega' can be "
                        "provided"
                    )
                self.omega = as_tensor_variable(omega)
                self.cos_omega = pt.cos(self.omega)
                self.sin_omega = pt.sin(self.omega)
            elif sin_omega is not None and cos_omega is not None:
                self.cos_omega = as_tensor_variable(cos_omega)
                self.sin_omega = as_tensor_variable(sin_omega)
                self.omega = pt.arctan2(self.sin_omega, self.cos_omega)
            else:
                raise ValueError("both e and omega must be provided")
            opsw = 1 + self.sin_omega
            E0 = 2 * pt.arctan2(
                pt.sqrt(1 - self.ecc) * self.cos_omega,
                pt.sqrt(1 + self.ecc) * opsw,
            )
            self.M0 = E0 - self.ecc * pt.sin(E0)
            ome2 = 1 - self.ecc**2
            self.K0 /= pt.sqrt(ome2)
            incl_factor = (1 + self.ecc * self.sin_omega) / ome2
""", """        incl_factor = self._set_eccentricity(
            ecc, omega, sin_omega=sin_omega, cos_omega=cos_omega
        )
"""),
        ("""            esinw = self.ecc * self.sin_omega
            # Equations 14 and 16 from Winn (2010)
            c = pt.sin(
                np.pi
                * self.duration
                * (1 + esinw)
                / (pt.sqrt(ome2) * self.period)
            )
""", """            esinw = self.ecc * self.sin_omega
            # Equations 14 and 16 from Winn (2010)
            c = pt.sin(
                np.pi
                * self.duration
                * (1 + esinw)
                / (pt.sqrt(1 - pt.square(self.ecc)) * self.period)
            )
"""),
        ("""        if t0 is not None and t_periastron is not None:
            raise ValueError("you can't define both t0 and t_periastron")
        if t0 is None and t_periastron is None:
            t0 = pt.zeros_like(self.period)
        if t0 is None:
            self.t_periastron = as_tensor_variable(t_periastron)
            self.t0 = self.t_periastron + self.M0 / self.n
        else:
            self.t0 = as_tensor_variable(t0)
            self.t_periastron = self.t0 - self.M0 / self.n
        self.tref = self.t_periastron - self.t0
        self.sin_incl = pt.sin(self.incl)
    def _rotate_vector(self, x, y):
""", """        self._set_reference_times(t0, t_periastron)
        self.sin_incl = pt.sin(self.incl)

    def _set_eccentricity(self, ecc, omega, *, sin_omega, cos_omega):
        if ecc is None:
            self.ecc = None
            self.M0 = 0.5 * np.pi + pt.zeros_like(self.n)
            return 1

        self.ecc = e = as_tensor_variable(ecc)
        both = not (sin_omega is None or cos_omega is None)
        if omega is None and not both:
            raise ValueError("both e and omega must be provided")
        if omega is not None and both:
            raise ValueError(
                "either 'omega' or 'sin_omega' and 'cos_omega' can be "
                "provided"
            )
        if both:
            self.sin_omega, self.cos_omega = map(
                as_tensor_variable, (sin_omega, cos_omega)
            )
            self.omega = pt.arctan2(self.sin_omega, self.cos_omega)
        else:
            self.omega = as_tensor_variable(omega)
            self.sin_omega = pt.sin(self.omega)
            self.cos_omega = pt.cos(self.omega)

        num = pt.sqrt(1 - e) * self.cos_omega
        den = pt.sqrt(1 + e) * (self.sin_omega + 1)
        E0 = 2 * pt.arctan2(num, den)
        self.M0 = E0 - e * pt.sin(E0)
        one_minus_e2 = (1 - e) * (1 + e)
        self.K0 = self.K0 / pt.sqrt(one_minus_e2)
        return (e * self.sin_omega + 1) / one_minus_e2

    def _set_reference_times(self, t0=None, t_periastron=None):
        if not (t0 is None or t_periastron is None):
            raise ValueError("you can't define both t0 and t_periastron")
        offset = self.M0 / self.n
        if t_periastron is not None:
            self.t_periastron = as_tensor_variable(t_periastron)
            self.t0 = self.t_periastron + offset
        else:
            if t0 is None:
                t0 = pt.zeros_like(self.period)
            self.t0 = as_tensor_variable(t0)
            self.t_periastron = self.t0 - offset
        self.tref = self.t_periastron - self.t0

    def _rotate_vector(self, x, y):
"""),
    ]),
    ("kep-window-methods", K, [
        ("""        if self.ecc is None:
            # Equation 14 from Winn (2010)
            k = r / R
            arg = pt.square(1 + k) - pt.square(self.b)
            factor = R / (self.a * self.sin_incl)
            hdur = hp * pt.arcsin(factor * pt.sqrt(arg)) / np.pi
            t_start = -hdur
            t_end = hdur
            flag = z
        else:
            M_contact = ops.contact_points(
                self.a,
                self.ecc,
                self.cos_omega,
                self.sin_omega,
                self.cos_incl + z,
                self.sin_incl + z,
                R + r,
            )
            flag = M_contact[2]
            t_start = (M_contact[0] - self.M0) / self.n
            t_start = pt.mod(t_start + hp, self.period) - hp
            t_end = (M_contact[1] - self.M0) / self.n
            t_end = pt.mod(t_end + hp, self.period) - hp
            t_start = pt.switch(
                pt.gt(t_start, 0.0), t_start - self.period, t_start
            )
            t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
        if texp is not None:
            texp = as_tensor_variable(texp)
            if texp.ndim:
                texp = pt.shape_padright(texp)
            t_start -= 0.5 * texp
            t_end += 0.5 * texp
        mask = pt.any(pt.and_(dt >= t_start, dt <= t_end), axis=-1)
        result = ifelse(
            pt.all(pt.eq(flag, 0)),
            pt.arange(t.shape[0])[mask],
            pt.arange(t.shape[0]),
        )
        return result
""", """        window = (
            self._circular_window
            if self.ecc is None
            else self._eccentric_window
        )
        t_start, t_end, flag = window(r, R, z, hp)

        if texp is not None:
            half = 0.5 * as_tensor_variable(texp)
            half = half[..., None] if half.ndim else half
            t_start, t_end = t_start - half, t_end + half

        outside = pt.or_(pt.lt(dt, t_start), pt.gt(dt, t_end))
        everything = pt.arange(t.shape[0])
        selected = everything[~pt.all(outside, axis=-1)]
        return ifelse(pt.any(pt.neq(flag, 0)), everything, selected)

    def _circular_window(self, r, R, z, hp):
        # Equation 14 from Winn (2010)
        chord = pt.sqrt((1 + r / R) ** 2 - self.b**2)
        hdur = hp / np.pi * pt.arcsin(R * chord / (self.a * self.sin_incl))
        return -hdur, hdur, z

    def _eccentric_window(self, r, R, z, hp):
        left, right, flag = ops.contact_points(
            self.a,
            self.ecc,
            self.cos_omega,
            self.sin_omega,
            self.cos_incl + z,
            self.sin_incl + z,
            R + r,
        )

        def to_time(M):
            return pt.mod((M - self.M0) / self.n + hp, self.period) - hp

        start, end = to_time(left), to_time(right)
        start = pt.switch(start > 0, start - self.period, start)
        end = pt.switch(end < 0, end + self.period, end)
        return start, end, flag
"""),
    ]),
    ("kep-consistent-class", K, [
        ("""    # Work out the stellar parameters
    if rho_star is None:
        rho_star = 3 * m_star / (4 * np.pi * r_star**3)
    elif r_star is None:
        r_star = (3 * m_star / (4 * np.pi * rho_star)) ** (1 / 3)
    elif m_star is None:
        m_star = 4 * np.pi * r_star**3 * rho_star / 3.0
    # Work out the planet parameters
    if a is None:
        a = (
            G_grav * (m_star + m_planet) * period**2 / (4 * np.pi**2)
        ) ** (1.0 / 3)
    elif period is None:
        period = (
            2 * np.pi * a ** (3 / 2) / (pt.sqrt(G_grav * (m_star + m_planet)))
        )
    return a, period, rho_star * gcc_per_sun, r_star, m_star, m_planet
""", """    m_star, r_star, rho_star = _complete_star(m_star, r_star, rho_star)
    if a is None or period is None:
        mu = G_grav * (m_star + m_planet)
        if a is None:
            a = pt.power(mu * (period / (2 * np.pi)) ** 2, 1.0 / 3)
        else:
            period = 2 * np.pi * pt.sqrt(a**3 / mu)

    return a, period, rho_star * gcc_per_sun, r_star, m_star, m_planet


def _complete_star(m_star, r_star, rho_star):
    # mass = density * volume, with one of the three missing at most
    unit_volume = 4 * np.pi / 3
    if m_star is None:
        m_star = unit_volume * r_star**3 * rho_star
    elif r_star is None:
        r_star = (m_star / rho_star / unit_volume) ** (1.0 / 3.0)
    elif rho_star is None:
        rho_star = m_star / (unit_volume * r_star**3)
    return m_star, r_star, rho_star
"""),
    ]),
    ("kep-rv-split", K, [
        ("""        # Special case for K given: m_planet, incl, etc. is ignored
        if K is not None:
            sinf, cosf = self._get_true_anomaly(t)
            if self.ecc is None:
                return pt.squeeze(K * cosf)
            # cos(w + f) + e * cos(w) from Lovis & Fischer
            return pt.squeeze(
                K
                * (
                    self.cos_omega * cosf
                    - self.sin_omega * sinf
                    + self.ecc * self.cos_omega
                )
            )
        # Compute the velocity using the full orbit solution
        if output_units is None:
            output_units = u.m / u.s
        conv = (1 * u.R_sun / u.day).to(output_units).value
        v = self.get_star_velocity(t)
        return -conv * v[2]
""", """        if K is None:
            _, _, vz = self.get_star_velocity(t)
            unit = output_units if output_units is not None else u.m / u.s
            return -vz * (u.R_sun / u.day).to(unit)
        return pt.squeeze(self._unit_radial_velocity(t) * K)

    def _unit_radial_velocity(self, t):
        \"\"\"cos(w + f) + e * cos(w) from Lovis & Fischer\"\"\"
        sinf, cosf = self._get_true_anomaly(t)
        if self.ecc is None:
            return cosf
        return (cosf + self.ecc) * self.cos_omega - sinf * self.sin_omega
"""),
    ]),
    ("kep-deprecated-units", K, [
        ("""        if "m_planet_units" in kwargs:
            deprecation_warning(
                "'m_planet_units' is deprecated; Use `with_unit` instead"
            )
            m_planet = with_unit(m_planet, kwargs.pop("m_planet_units"))
        if "rho_star_units" in kwargs:
            deprecation_warning(
                "'rho_star_units' is deprecated; Use `with_unit` instead"
            )
            rho_star = with_unit(rho_star, kwargs.pop("rho_star_units"))
""", """        tagged = {"m_planet": m_planet, "rho_star": rho_star}
        for arg in tagged:
            key = f"{arg}_units"
            if key not in kwargs:
                continue
            deprecation_warning(
                f"'{key}' is deprecated; Use `with_unit` instead"
            )
            tagged[arg] = with_unit(tagged[arg], kwargs.pop(key))
        m_planet, rho_star = tagged["m_planet"], tagged["rho_star"]
"""),
    ]),
    ("simple-window", S, [
        ("""        dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
        dt -= self._half_period
        x = pt.squeeze(self.speed * dt)
        y = pt.squeeze(self._b_norm + pt.zeros_like(dt))
        m = pt.abs(dt) < 0.5 * self.duration
        z = pt.squeeze(m * 1.0 - (~m) * 1.0)
        return x, y, z
""", """        dt = self._time_from_transit(t)
        front = pt.lt(pt.abs(dt), 0.5 * self.duration)
        coords = (
            self.speed * dt,
            pt.ones_like(dt) * self._b_norm,
            pt.switch(front, 1.0, -1.0),
        )
        return tuple(pt.squeeze(c) for c in coords)

    def _time_from_transit(self, t):
        since = pt.shape_padright(t) - self._ref_time
        return pt.mod(since, self.period) - self._half_period
"""),
        ("""        dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
        dt -= self._half_period
        if r is None:
            tol = 0.5 * self.duration
        else:
            x = (r + self.r_star) ** 2 - self._b_norm**2
            tol = pt.sqrt(x) / self.speed
        if texp is not None:
            texp = as_tensor_variable(texp)
            if texp.ndim:
                texp = pt.shape_padright(texp)
            tol += 0.5 * texp
        mask = pt.any(pt.abs(dt) < tol, axis=-1)
        return pt.arange(t.size)[mask]
""", """        reach = (
            0.5 * self.duration
            if r is None
            else pt.sqrt((r + self.r_star) ** 2 - self._b_norm**2)
            / self.speed
        )
        if texp is not None:
            texp = as_tensor_variable(texp)
            reach = reach + 0.5 * (
                texp if texp.ndim == 0 else pt.shape_padright(texp)
            )
        dt = self._time_from_transit(t)
        near = pt.and_(-reach < dt, dt < reach)
        return pt.arange(t.size)[pt.any(near, axis=-1)]
"""),
    ]),
    ("ttv-methods", TT, [
        ("""                # A convoluted version of linear regression; don't ask
                N = times.shape[0]
                sumx = pt.sum(inds)
                sumx2 = pt.sum(inds**2)
                sumy = pt.sum(times)
                sumxy = pt.sum(inds * times)
                denom = N * sumx2 - sumx**2
                slope = (N * sumxy - sumx * sumy) / denom
                intercept = (sumx2 * sumy - sumx * sumxy) / denom
                expect = intercept + inds * slope
                period.append(slope)
                t0.append(intercept)
                self.ttvs.append(times - expect)
                self.transit_times.append(times)
            kwargs["t0"] = pt.stack(t0)
""", """                slope, intercept, expect = _ephemeris(inds, times)
                period.append(slope)
                t0.append(intercept)
                self.transit_times.append(times)
                self.ttvs.append(times - expect)
            kwargs["t0"] = pt.stack(t0)
"""),
        ("""        # Compute the full set of transit times
        self.all_transit_times = []
        for i, inds in enumerate(self.transit_inds):
            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
                inds.max() + 1
            )
            self.all_transit_times.append(
                pt.set_subtensor(expect[inds], self.transit_times[i])
            )
        # Set up a histogram for identifying the transit offsets
        self._bin_edges = [
            pt.concatenate(
                (
                    [tts[0] - 0.5 * self.ttv_period[i]],
                    0.5 * (tts[1:] + tts[:-1]),
                    [tts[-1] + 0.5 * self.ttv_period[i]],
                )
            )
            for i, tts in enumerate(self.all_transit_times)
        ]
        self._bin_values = [
            pt.concatenate(([tts[0]], tts, [tts[-1]]))
            for i, tts in enumerate(self.all_transit_times)
        ]
    def _get_model_dt(self, t, _pad=True):
""", """        self.all_transit_times = []
        self._bin_edges, self._bin_values = [], []
        for i, (inds, times) in enumerate(
            zip(self.transit_inds, self.transit_times)
        ):
            tts = self._fill(i, inds, times)
            self.all_transit_times.append(tts)
            edges, values = self._bins(tts, self.ttv_period[i])
            self._bin_edges.append(edges)
            self._bin_values.append(values)

    def _fill(self, i, inds, times):
        \"\"\"Insert the observed transits into the linear ephemeris\"\"\"
        count = pt.max(inds) + 1
        linear = pt.arange(count) * self.ttv_period[i] + self.t0[i]
        return pt.set_subtensor(linear[inds], times)

    @staticmethod
    def _bins(tts, period):
        half = 0.5 * period
        first, last = tts[:1], tts[-1:]
        inner = tts[:-1] + 0.5 * (tts[1:] - tts[:-1])
        return (
            pt.concatenate((first - half, inner, last + half)),
            pt.concatenate((first, tts, last)),
        )

    def _get_model_dt(self, t, _pad=True):
"""),
        ("""class TTVOrbit(KeplerianOrbit):
""", """def _ephemeris(inds, times):
    \"\"\"The least squares line through the transit times\"\"\"
    N = times.shape[0]
    sx, sy = pt.sum(inds), pt.sum(times)
    sxx, sxy = pt.sum(inds * inds), pt.sum(times * inds)
    slope = (N * sxy - sx * sy) / (N * sxx - sx**2)
    intercept = (sy - slope * sx) / N
    return slope, intercept, slope * inds + intercept


class TTVOrbit(KeplerianOrbit):
"""),
    ]),
    ("ld-exposure-object", LD, [
        ("""            oversample = int(oversample)
            oversample += 1 - oversample % 2
            stencil = np.ones(oversample)
            # Construct the exposure time integration stencil
            if order == 0 or (oversample == 1 and order in (1, 2)):
                dt = np.linspace(-0.5, 0.5, 2 * oversample + 1)[1:-1:2]
            elif order == 1:
                dt = np.linspace(-0.5, 0.5, oversample)
                stencil[1:-1] = 2
            elif order == 2:
                dt = np.linspace(-0.5, 0.5, oversample)
                stencil[1:-1:2] = 4
                stencil[2:-1:2] = 2
            else:
                raise ValueError("order must be <= 2")
            stencil /= np.sum(stencil)
            if texp.ndim == 0:
                dt = texp * dt
            else:
                if use_in_transit:
                    dt = pt.shape_padright(texp[inds]) * dt
                else:
                    dt = pt.shape_padright(texp) * dt
            tgrid = pt.shape_padright(t) + dt
""", """            rule = _Stencil.build(oversample, order)
            stencil = rule.weights

            if texp.ndim:
                texp = pt.shape_padright(texp[inds] if use_in_transit else texp)
            tgrid = pt.shape_padright(t) + texp * rule.nodes
"""),
        ("""class LimbDarkLightCurve:
""", """class _Stencil(NamedTuple):
    nodes: np.ndarray
    weights: np.ndarray

    @classmethod
    def build(cls, oversample, order):
        n = int(oversample)
        if n % 2 == 0:
            n += 1
        if order not in (0, 1, 2):
            raise ValueError("order must be <= 2")
        if order == 0 or n == 1:
            nodes = (np.arange(n) + 0.5) / n - 0.5
            return cls(nodes, np.full(n, 1.0 / n))
        if order == 1:
            inner = [2.0] * (n - 2)
        else:
            inner = [4.0 if k % 2 else 2.0 for k in range(1, n - 1)]
        weights = np.array([1.0, *inner, 1.0])
        return cls(np.linspace(-0.5, 0.5, n), weights / weights.sum())


class LimbDarkLightCurve:
"""),
        ("""import numpy as np
""", """from typing import NamedTuple

import numpy as np
"""),
    ]),
    ("se-mixin", SE, [
        ("""        k = r / orbit.r_star
        flux_ratio = self.surface_brightness_ratio * k**2

        return (lc1 + flux_ratio * lc2) / (1 + flux_ratio)
""", """        weight = self._secondary_weight(orbit, r)
        return lc1 + weight * (lc2 - lc1)

    def _secondary_weight(self, orbit, r):
        ratio = self.surface_brightness_ratio * pt.sqr(r / orbit.r_star)
        return ratio / (1 + ratio)
"""),
    ]),
    ("il-per-planet", IL, [
        ("""        ys = []
        for n in range(num_planets):
            func = _wrapper(
                self.base_light_curve,
                orbit=orbit,
                r=r,
                texp=texp,
                oversample=oversample,
                order=order,
                use_in_transit=use_in_transit,
                light_delay=light_delay,
            )
            mn = orbit.t0[n]
            mx = orbit.t0[n] + orbit.period[n]
            ys.append(
                interp(
                    n,
                    pt.mod(t - orbit.t0[n], orbit.period[n]) + orbit.t0[n],
                    mn,
                    mx,
                    (mx - mn) / (self.num_phase + 1),
                    func,
                )
            )
        return pt.stack(ys, axis=-1)
""", """        options = dict(
            orbit=orbit,
            r=r,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )

        def column(n):
            mn, period = orbit.t0[n], orbit.period[n]
            phase = pt.mod(t - mn, period)
            return interp(
                n,
                phase + mn,
                mn,
                mn + period,
                period / (self.num_phase + 1),
                _wrapper(self.base_light_curve, **options),
            )

        return pt.stack(list(map(column, range(num_planets))), axis=-1)
"""),
    ]),
    ("est-design-columns", ES, [
        ("""    if t0s is not None:
        return np.vstack(
            [
                np.cos(
                    2 * np.pi * (x - (t0s[i] - 0.25 * periods[i])) / periods[i]
                )
                for i in range(len(periods))
            ]
            + [np.ones(len(x))]
        ).T
    return np.concatenate(
        [
            (
                np.sin(2 * np.pi * x / periods[i]),
                np.cos(2 * np.pi * x / periods[i]),
            )
            for i in range(len(periods))
        ]
        + [np.ones((1, len(x)))],
        axis=0,
    ).T
""", """    columns = []
    for i, period in enumerate(periods):
        freq = 2 * np.pi / period
        if t0s is None:
            columns += [np.sin(freq * x), np.cos(freq * x)]
        else:
            columns.append(np.cos(freq * (x - t0s[i] + 0.25 * period)))
    columns.append(np.ones_like(x))
    return np.stack(columns, axis=-1)
"""),
        ("""    D = _get_design_matrix(periods.value, t0s, x.value)
    w = np.linalg.solve(
        np.dot(D.T, D * ivar.value[:, None]), np.dot(D.T, y.value * ivar.value)
    )
    if t0s is not None:
        K = w[:-1]
    else:
        w = w[:-1]
        K = np.sqrt(w[::2] ** 2 + w[1::2] ** 2)
    return K
""", """    D = _get_design_matrix(periods.value, t0s, x.value)
    DTC = (D * ivar.value[:, None]).T
    *_, = w = np.linalg.solve(DTC @ D, DTC @ y.value)
    amplitudes = w[:-1]
    if t0s is None:
        amplitudes = np.hypot(amplitudes[0::2], amplitudes[1::2])
    return amplitudes
"""),
    ]),
    ("est-peaks-while", ES, [
        ("""    inds = (power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])
    inds = np.arange(1, len(power) - 1)[inds]
    inds = inds[np.argsort(power[inds])][::-1]
""", """    middle = power[1:-1]
    inds = 1 + np.flatnonzero(
        np.logical_and(middle > power[:-2], middle > power[2:])
    )
    inds = inds[np.argsort(power[inds])[::-1]]
"""),
    ]),
    ("dist-starts", DI, [
        ("""    ror = as_tensor_variable(ror)
    bhat = kwargs.pop("initval", kwargs.pop("testval", 0.5))
    if not USING_PYMC3:
        shape = kwargs.setdefault("shape", ror.shape)
        if isinstance(shape, int):
            shape = (shape,)
        bhat = pt.broadcast_to(bhat, shape)
    kwargs["lower"] = 0.0
    kwargs["upper"] = 1.0
    norm = pm.Uniform(
        f"__{name}_impact_parameter",
        **_with_initval(initval=bhat / (1 + ror), **kwargs),
    )
    return pm.Deterministic(name, norm * (1 + ror))
""", """    scale = 1 + as_tensor_variable(ror)
    start = kwargs.pop("testval", 0.5)
    start = kwargs.pop("initval", start)
    if not USING_PYMC3:
        if "shape" not in kwargs:
            kwargs["shape"] = scale.shape
        shape = kwargs["shape"]
        start = pt.broadcast_to(
            start, (shape,) if isinstance(shape, int) else shape
        )
    options = {**kwargs, "lower": 0.0, "upper": 1.0}
    unit = pm.Uniform(
        "__" + name + "_impact_parameter",
        **_with_initval(initval=start / scale, **options),
    )
    return pm.Deterministic(name, scale * unit)
"""),
    ]),
    ("grid-enumerate", GI, [
        ("""    result = pt.zeros(tuple(coords.shape[:-1]) + tuple(values.shape[ndim:]))
    for edge_indices in itertools.product(*((i, i + 1) for i in indices)):
        weight = pt.ones(coords.shape[:-1])
        for ei, i, yi in zip(edge_indices, indices, norm_distances):
            weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
        result += values[edge_indices] * pt.shape_padright(
            weight, values.ndim - ndim
        )
""", """    nout = values.ndim - ndim
    result = 0.0
    for corner in itertools.product((0, 1), repeat=ndim):
        weight = pt.ones(coords.shape[:-1])
        for upper, yi in zip(corner, norm_distances):
            weight = weight * (yi if upper else 1 - yi)
        edge = tuple(i + c for i, c in zip(indices, corner))
        result = result + pt.shape_padright(weight, nout) * values[edge]
"""),
    ]),
    ("units-sentinel", UN, [
        ("""    if not has_unit(obj):
        return obj
    base = getattr(obj, UNIT_ATTR_NAME)
    return obj * base.to(target)
""", """    base = getattr(obj, UNIT_ATTR_NAME, None)
    return obj if base is None else obj * base.to(target)
"""),
    ]),
]
