"""More behaviour-preserving edits, with less common Python."""
K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"
TT = "src/exoplanet/orbits/ttv.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
ES = "src/exoplanet/estimators.py"
GI = "src/exoplanet/interp.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
CI = "src/exoplanet/citations.py"
UT = "src/exoplanet/utils.py"
UN = "src/exoplanet/units.py"
DN = "src/exoplanet/distributions/__init__.py"

REFACTORS = [
    ("kep-setattr", K, [
        ("""        inputs = _get_consistent_inputs(
            a, period, rho_star, r_star, m_star, m_planet
        )
        (
            self.a,
            self.period,
            self.rho_star,
            self.r_star,
            self.m_star,
            self.m_planet,
        ) = inputs
        self.m_total = self.m_star + self.m_planet

        self.n = 2 * np.pi / self.period
""", """        names = ("a", "period", "rho_star", "r_star", "m_star", "m_planet")
        for attr, value in zip(
            names,
            _get_consistent_inputs(
                a, period, rho_star, r_star, m_star, m_planet
            ),
        ):
            setattr(self, attr, value)

"""),
        ("""    def _rotate_vector(self, x, y):
""", """    @property
    def m_total(self):
        return self.m_star + self.m_planet

    @property
    def n(self):
        return 2 * np.pi / self.period

    def _rotate_vector(self, x, y):
"""),
    ]),
    ("kep-posvel-generic", K, [
        ("""    def get_planet_velocity(self, t):
""", """    @staticmethod
    def _squeezed(vector):
        return tuple(map(pt.squeeze, vector))

    def get_planet_velocity(self, t):
"""),
        ("""        return tuple(
            pt.squeeze(x) for x in self._get_velocity(-self.m_star, t)
        )
""", """        return self._squeezed(self._get_velocity(-self.m_star, t))
"""),
        ("""        return tuple(
            pt.squeeze(x) for x in self._get_velocity(self.m_planet, t)
        )
""", """        return self._squeezed(self._get_velocity(self.m_planet, t))
"""),
        ("""        return tuple(
            pt.squeeze(x)
            for x in self._get_acceleration(self.a_planet, -self.m_star, t)
        )
""", """        return self._squeezed(
            self._get_acceleration(m=-self.m_star, a=self.a_planet, t=t)
        )
"""),
        ("""        X, Y, Z = self._get_position(
            -self.a, t, parallax, light_delay=light_delay
        )

        # calculate rho and theta
        rho = pt.squeeze(pt.sqrt(X**2 + Y**2))  # arcsec
        theta = pt.squeeze(pt.arctan2(Y, X))  # radians between [-pi, pi]

        return (rho, theta)
""", """        X, Y, _ = self.get_relative_position(
            t, parallax=parallax, light_delay=light_delay
        )
        return pt.sqrt(X**2 + Y**2), pt.arctan2(Y, X)
"""),
    ]),
    ("kep-delay-split", K, [
        ("""        if light_delay:
            return self._get_retarded_position(
                a, t, parallax=parallax, _pad=_pad
            )

        sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
""", """        if light_delay:
            new_t = self._get_retarded_time(a, t, _pad=_pad)
            return self._get_position(a, new_t, parallax, _pad=False)

        sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
"""),
        ("""    def _get_retarded_position(self, a, t, parallax=None, z0=0.0, _pad=True):
        \"\"\"Get the retarded position of a body, accounting for light delay.
""", """    def _get_retarded_time(self, a, t, z0=0.0, _pad=True):
        \"\"\"Get the retarded time of a body, accounting for light delay.
"""),
        ("""        if _pad:
            new_t = pt.shape_padright(t) - delay
        else:
            new_t = t - delay

        # Re-compute Kepler's equation, this time at the **retarded** position
        return self._get_position(a, new_t, parallax, _pad=False)
""", """        if _pad:
            t = pt.shape_padright(t)
        return t - delay
"""),
    ]),
    ("kep-dispatch", K, [
        ("""        if b is not None:
            if incl is not None or duration is not None:
                raise ValueError(
                    "only one of 'incl', 'b', and 'duration' can be given"
                )
            self.b = as_tensor_variable(b)
            self.cos_incl = self.dcosidb * self.b
            self.incl = pt.arccos(self.cos_incl)
        elif incl is not None:
            if duration is not None:
                raise ValueError(
                    "only one of 'incl', 'b', and 'duration' can be given"
                )
            self.incl = as_tensor_variable(incl)
""", """        if sum(arg is not None for arg in (b, incl, duration)) > 1:
            raise ValueError(
                "only one of 'incl', 'b', and 'duration' can be given"
            )

        if b is not None:
            self.b = as_tensor_variable(b)
            self.cos_incl = self.dcosidb * self.b
            self.incl = pt.arccos(self.cos_incl)
        elif incl is not None:
            self.incl = as_tensor_variable(incl)
"""),
        ("""            if omega is not None:
                if sin_omega is not None and cos_omega is not None:
                    raise ValueError(
                        "either 'omega' or 'sin_omega' and 'cos_omega' can be "
                        "provided"
                    )
                self.omega = as_tensor_variable(omega)
                self.cos_omega = pt.cos(self.omega)
                self.sin_omega = pt.sin(self.omega)
            elif sin_omega is not None and cos_omega is not None:
                self.cos_omega = as_tensor_variable(cos_omega)
                self.sin_omega = as_tensor_variable(sin_omega)
                self.omega = pt.arctan2(self.sin_omega, self.cos_omega)

            else:
                raise ValueError("both e and omega must be provided")

            opsw = 1 + self.sin_omega
            E0 = 2 * pt.arctan2(
                pt.sqrt(1 - self.ecc) * self.cos_omega,
                pt.sqrt(1 + self.ecc) * opsw,
            )
            self.M0 = E0 - self.ecc * pt.sin(E0)
""", """            has_sincos = not (sin_omega is None or cos_omega is None)
            if omega is None and not has_sincos:
                raise ValueError("both e and omega must be provided")
            if omega is not None and has_sincos:
                raise ValueError(
                    "either 'omega' or 'sin_omega' and 'cos_omega' can be "
                    "provided"
                )
            if has_sincos:
                self.cos_omega = as_tensor_variable(cos_omega)
                self.sin_omega = as_tensor_variable(sin_omega)
                self.omega = pt.arctan2(self.sin_omega, self.cos_omega)
            else:
                self.omega = as_tensor_variable(omega)
                self.cos_omega, self.sin_omega = (
                    func(self.omega) for func in (pt.cos, pt.sin)
                )

            self.M0 = self._mean_anomaly_at_transit()
"""),
        ("""    def _rotate_vector(self, x, y):
""", """    def _mean_anomaly_at_transit(self):
        num = pt.sqrt(1 - self.ecc) * self.cos_omega
        den = pt.sqrt(1 + self.ecc) * (1 + self.sin_omega)
        half_E0 = pt.arctan2(num, den)
        return 2 * half_E0 - self.ecc * pt.sin(2 * half_E0)

    def _rotate_vector(self, x, y):
"""),
    ]),
    ("kep-inputs-dict", K, [
        ("""    # Work out the planet parameters
    if a is None:
        a = (
            G_grav * (m_star + m_planet) * period**2 / (4 * np.pi**2)
        ) ** (1.0 / 3)
""", """    # Work out the planet parameters
    gm = G_grav * (m_star + m_planet)
    if a is None:
        n = 2 * np.pi / period
        a = (gm / n**2) ** (1.0 / 3)
"""),
        ("""            2 * np.pi * a ** (3 / 2) / (pt.sqrt(G_grav * (m_star + m_planet)))
""", """            2 * np.pi * pt.sqrt(a**3 / gm)
"""),
        ("""    if m_planet is not None:
        m_planet = as_tensor_variable(to_unit(m_planet, u.M_sun))

    if a is not None:
        a = as_tensor_variable(to_unit(a, u.R_sun))
        if m_planet is None:
            m_planet = pt.zeros_like(a)
    if period is not None:
        period = as_tensor_variable(to_unit(period, u.day))
        if m_planet is None:
            m_planet = pt.zeros_like(period)
""", """    def convert(value, unit):
        if value is None:
            return None
        return as_tensor_variable(to_unit(value, unit))

    m_planet = convert(m_planet, u.M_sun)
    a, period = convert(a, u.R_sun), convert(period, u.day)
    if m_planet is None:
        m_planet = pt.zeros_like(period if a is None else a)
"""),
    ]),
    ("kep-stack", K, [
        ("""        pos = pt.stack((x, y, z), axis=-1)
        pos = pt.concatenate(
            (
                pt.sum(
                    pt.shape_padright(self.a_star) * pos, axis=0, keepdims=True
                ),
                pt.shape_padright(self.a_planet) * pos,
            ),
            axis=0,
        )
""", """        pos = pt.stack((x, y, z), axis=-1)
        star = (self.a_star[:, None] * pos).sum(axis=0, keepdims=True)
        planets = self.a_planet[:, None] * pos
        pos = pt.concatenate((star, planets), axis=0)
"""),
    ]) if False else ("kep-circular-contact", K, [
        ("""            k = r / R
            arg = pt.square(1 + k) - pt.square(self.b)
            factor = R / (self.a * self.sin_incl)
            hdur = hp * pt.arcsin(factor * pt.sqrt(arg)) / np.pi
            t_start = -hdur
            t_end = hdur
            flag = z
""", """            chord = pt.sqrt((R + r) ** 2 - (R * self.b) ** 2)
            half_angle = pt.arcsin(chord / (self.a * self.sin_incl))
            hdur = half_angle * self.period / (2 * np.pi)
            t_start, t_end, flag = -hdur, hdur, z
"""),
    ]),
    ("simple-attrs", S, [
        ("""        self._b_norm = self.b * self.r_star
        ror = as_tensor_variable(ror)
        x2 = self.r_star**2 * ((1 + ror) ** 2 - self.b**2)
        self.speed = 2 * pt.sqrt(x2) / self.duration

        self._half_period = 0.5 * self.period
        self._ref_time = self.t0 - self._half_period
""", """        opk = 1 + as_tensor_variable(ror)
        self._b_norm = self.r_star * self.b
        chord = 2 * self.r_star * pt.sqrt((opk - self.b) * (opk + self.b))
        self.speed = chord / self.duration

        self._half_period = self.period / 2
        self._ref_time = self.t0 - self._half_period
"""),
        ("""        nothing = pt.zeros_like(as_tensor_variable(t))
        return nothing, nothing, nothing
""", """        return (pt.zeros_like(as_tensor_variable(t)),) * 3
"""),
    ]),
    ("ttv-init-split", TT, [
        ("""        if ttvs is not None:
            self.ttvs = [as_tensor_variable(ttv, ndim=1) for ttv in ttvs]
            if transit_inds is None:
                self.transit_inds = [
                    pt.arange(ttv.shape[0]) for ttv in self.ttvs
                ]
            else:
                self.transit_inds = [
                    pt.cast(as_tensor_variable(inds, ndim=1), "int64")
                    for inds in transit_inds
                ]

        else:
""", """        if ttvs is not None:
            self.ttvs = [as_tensor_variable(ttv, ndim=1) for ttv in ttvs]
            self.transit_inds = []
            for i, ttv in enumerate(self.ttvs):
                if transit_inds is None:
                    self.transit_inds.append(pt.arange(ttv.shape[0]))
                    continue
                inds = as_tensor_variable(transit_inds[i], ndim=1)
                self.transit_inds.append(inds.astype("int64"))

        else:
"""),
        ("""            if "period" not in kwargs:
                if "delta_log_period" in kwargs:
                    kwargs["period"] = pt.exp(
                        pt.log(self.ttv_period)
                        + kwargs.pop("delta_log_period")
                    )
                else:
                    kwargs["period"] = self.ttv_period
""", """            if "period" not in kwargs:
                delta = kwargs.pop("delta_log_period", None)
                kwargs["period"] = (
                    self.ttv_period
                    if delta is None
                    else self.ttv_period * pt.exp(delta)
                )
"""),
        ("""        self.all_transit_times = []
        for i, inds in enumerate(self.transit_inds):
            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
                inds.max() + 1
            )
            self.all_transit_times.append(
                pt.set_subtensor(expect[inds], self.transit_times[i])
            )
""", """        self.all_transit_times = [
            self._fill_in(i, inds, self.transit_times[i])
            for i, inds in enumerate(self.transit_inds)
        ]
"""),
        ("""    def _get_model_dt(self, t, _pad=True):
""", """    def _fill_in(self, i, inds, times):
        numbers = pt.arange(pt.max(inds) + 1)
        expect = numbers * self.ttv_period[i] + self.t0[i]
        return expect[inds].set(times)

    def _get_model_dt(self, t, _pad=True):
"""),
    ]),
    ("ld-grid-helper", LD, [
        ("""        # Handle exposure time integration
        if texp is None:
            tgrid = t
            rgrid = pt.shape_padleft(r, tgrid.ndim) + pt.shape_padright(
                pt.zeros_like(tgrid), r.ndim
            )
        else:
""", """        # Handle exposure time integration
        stencil = None
        tgrid = t
        if texp is not None:
"""),
        ("""            if texp.ndim == 0:
                dt = texp * dt
            else:
                if use_in_transit:
                    dt = pt.shape_padright(texp[inds]) * dt
                else:
                    dt = pt.shape_padright(texp) * dt
            tgrid = pt.shape_padright(t) + dt

            # Madness to get the shapes to work out...
            rgrid = pt.shape_padleft(r, tgrid.ndim) + pt.shape_padright(
                pt.zeros_like(tgrid), 1
            )
""", """            if texp.ndim:
                if use_in_transit:
                    texp = texp[inds]
                texp = texp[:, None] if texp.ndim == 1 else pt.shape_padright(texp)
            tgrid = t[..., None] + texp * dt

        rgrid = pt.zeros_like(tgrid)[..., None] + r
"""),
        ("""        coords = orbit.get_relative_position(tgrid, light_delay=light_delay)
        b = pt.sqrt(coords[0] ** 2 + coords[1] ** 2)
        b = pt.reshape(b, rgrid.shape)
        los = pt.reshape(coords[2], rgrid.shape)

        lc = self._compute_light_curve(
            b / orbit.r_star, rgrid / orbit.r_star, los / orbit.r_star
        )

        if texp is not None:
            stencil = pt.shape_padright(pt.shape_padleft(stencil, t.ndim), 1)
            lc = pt.sum(stencil * lc, axis=t.ndim)
""", """        x, y, z = (
            pt.reshape(c, rgrid.shape) / orbit.r_star
            for c in orbit.get_relative_position(
                tgrid, light_delay=light_delay
            )
        )
        lc = self._compute_light_curve(
            pt.sqrt(x**2 + y**2), rgrid / orbit.r_star, los=z
        )

        if stencil is not None:
            lc = (lc * stencil[:, None]).sum(axis=-2)
"""),
        ("""        r = as_tensor_variable(r)
        r = pt.reshape(r, (r.size,))
        t = as_tensor_variable(t)
""", """        r = pt.flatten(as_tensor_variable(r))
        t = as_tensor_variable(t)
"""),
        ("""            transit_model = pt.shape_padleft(
                pt.zeros_like(r), t.ndim
            ) + pt.shape_padright(pt.zeros_like(t), r.ndim)
            inds""", """            transit_model = pt.zeros_like(t)[..., None] * pt.zeros_like(r)
            inds""") if False else ("""            t = t[inds]
""", """            t = pt.take(t, inds, axis=0)
"""),
    ]),
    ("se-partial", SE, [
        ("""        lc1 = self.primary.get_light_curve(
            orbit=orbit,
            r=r,
            t=t,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )
        lc2 = self.secondary.get_light_curve(
            orbit=orbit2,
            r=orbit.r_star + pt.zeros_like(r),
            t=t,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )
""", """        evaluate = partial(
            LimbDarkLightCurve.get_light_curve,
            t=t,
            texp=texp,
            oversample=oversample,
            order=order,
            use_in_transit=use_in_transit,
            light_delay=light_delay,
        )
        lc2 = evaluate(
            self.secondary, orbit=orbit2, r=pt.zeros_like(r) + orbit.r_star
        )
        lc1 = evaluate(self.primary, orbit=orbit, r=r)
"""),
        ("""from exoplanet.compat import tensor as pt
""", """from functools import partial

from exoplanet.compat import tensor as pt
"""),
    ]),
    ("il-closure", IL, [
        ("""class _wrapper:
    def __init__(self, base_light_curve, *args, **kwargs):
        self.base_light_curve = base_light_curve
        self.args = args
        self.kwargs = kwargs

    def __call__(self, x):
        kwargs = dict(t=x, **self.kwargs)
        return self.base_light_curve.get_light_curve(*self.args, **kwargs)
""", """def _wrapper(base_light_curve, **kwargs):
    def evaluate(x):
        return base_light_curve.get_light_curve(**{**kwargs, "t": x})

    return evaluate
"""),
        ("""    xp = pt.arange(xmin - dx, xmax + 2.5 * dx, dx)
    yp = func(xp)

    y0 = yp[:-3, n]
    y1 = yp[1:-2, n]
    y2 = yp[2:-1, n]
    y3 = yp[3:, n]

    a0 = y1
    a1 = -y0 / 3.0 - 0.5 * y1 + y2 - y3 / 6.0
    a2 = 0.5 * (y0 + y2) - y1
    a3 = 0.5 * ((y1 - y2) + (y3 - y0) / 3.0)

    inds = pt.cast(pt.floor((x - xmin) / dx), "int64")
    x0 = (x - xp[inds + 1]) / dx
    return a0[inds] + a1[inds] * x0 + a2[inds] * x0**2 + a3[inds] * x0**3
""", """    xp = pt.arange(xmin - dx, xmax + 2.5 * dx, dx)
    yp = func(xp)[:, n]

    inds = pt.floor((x - xmin) / dx).astype("int64")
    y0, y1, y2, y3 = (yp[inds + k] for k in range(4))

    coeffs = (
        (y3 - 3 * y2 + 3 * y1 - y0) / 6.0,
        0.5 * (y0 + y2) - y1,
        y2 - y0 / 3.0 - 0.5 * y1 - y3 / 6.0,
        y1,
    )
    x0 = (x - xp[inds + 1]) / dx
    result = 0.0
    for c in coeffs:
        result = result * x0 + c
    return result
"""),
    ]),
    ("grid-split", GI, [
        ("""    indices = []
    norm_distances = []
    out_of_bounds = pt.zeros(coords.shape[:-1], dtype=bool)
    for n, grid in enumerate(points):
        x = coords[..., n]
        i = pt.extra_ops.searchsorted(grid, x) - 1
        out_of_bounds |= (x < grid[0]) | (i >= grid.shape[0] - 1)
        i = pt.clip(i, 0, grid.shape[0] - 2)
        indices.append(i)
        norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
""", """    indices = []
    norm_distances = []
    outside = []
    for n, grid in enumerate(points):
        x = coords[..., n]
        size = grid.shape[0]
        raw = pt.extra_ops.searchsorted(grid, x) - 1
        outside += [pt.lt(x, grid[0]), pt.ge(raw, size - 1)]
        i = pt.minimum(pt.maximum(raw, 0), size - 2)
        left, right = grid[i], grid[i + 1]
        indices.append(i)
        norm_distances.append((x - left) / (right - left))
    out_of_bounds = functools.reduce(operator.or_, outside)
"""),
        ("""import itertools
""", """import functools
import itertools
import operator
"""),
    ]),
    ("est-lstsq", ES, [
        ("""    w = np.linalg.solve(
        np.dot(D.T, D * ivar.value[:, None]), np.dot(D.T, y.value * ivar.value)
    )
""", """    root = np.sqrt(ivar.value)
    w = np.linalg.lstsq(D * root[:, None], y.value * root, rcond=None)[0]
"""),
        ("""        w = w[:-1]
        K = np.sqrt(w[::2] ** 2 + w[1::2] ** 2)
""", """        K = np.array(
            [np.sqrt(s**2 + c**2) for s, c in zip(w[:-1:2], w[1:-1:2])]
        )
"""),
        ("""    m_J = K / 28.4329 * m_star.value ** (2.0 / 3)
    m_J *= (periods.to(u.year)).value ** (1.0 / 3)
    return m_J * u.M_jupiter
""", """    years = periods.to_value(u.year)
    m_J = (K / 28.4329) * np.cbrt(m_star.value**2 * years)
    return u.Quantity(m_J, unit=u.M_jupiter)
"""),
        ("""    for i in inds[: max(1, max_peaks)]:
        A = np.vander(freq[i - 1 : i + 2], 3)
        w = np.linalg.solve(A, np.log(power[i - 1 : i + 2]))
        sigma2 = -0.5 / w[0]
        freq0 = w[1] * sigma2
        peaks.append(
            dict(
                index=i,
                log_power=w[2] + 0.5 * freq0**2 / sigma2,
                period=1.0 / freq0,
                period_uncert=np.sqrt(sigma2 / freq0**4),
            )
        )
""", """    for i in inds[: max(1, max_peaks)]:
        window = slice(i - 1, i + 2)
        a, b, c = np.polyfit(freq[window], np.log(power[window]), 2)
        freq0 = -0.5 * b / a
        peaks.append(
            {
                "index": i,
                "log_power": c - b**2 / (4 * a),
                "period": 1.0 / freq0,
                "period_uncert": np.sqrt(-0.5 / a) * freq0**-2,
            }
        )
"""),
    ]),
    ("est-sorted", ES, [
        ("""    inds = (power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])
    inds = np.arange(1, len(power) - 1)[inds]
    inds = inds[np.argsort(power[inds])][::-1]
    peaks = []
""", """    inds = [
        i
        for i in range(1, len(power) - 1)
        if power[i] > power[i - 1] and power[i] > power[i + 1]
    ]
    inds = sorted(inds, key=lambda i: power[i], reverse=True)
    peaks = []
"""),
    ]),
    ("est-acf-diff", ES, [
        ("""    if min_period is None:
        min_period = np.min(np.diff(x))
    if max_period is None:
        max_period = x.max() - x.min()

    # Interpolate onto an evenly spaced grid
    dx = np.min(np.diff(x)) / float(oversample)
    xx = np.arange(x.min(), x.max(), dx)
    yy = np.interp(xx, x, y)
""", """    start, stop = np.min(x), np.max(x)
    cadence = np.diff(x).min()
    if min_period is None:
        min_period = cadence
    if max_period is None:
        max_period = np.ptp(x)

    # Interpolate onto an evenly spaced grid
    dx = cadence / oversample
    xx = np.arange(start, stop, dx)
    yy = np.interp(xx, x, y)
"""),
        ("""    f = np.fft.fft(x - np.mean(x), n=2 * n)
    acf = np.fft.ifft(f * np.conjugate(f))[: len(x)].real
    acf /= acf[0]
    return acf
""", """    f = np.fft.fft(x - x.mean(), n=2 * n)
    acf = np.real(np.fft.ifft(f * f.conj())[: x.shape[0]])
    return acf / acf[0]
"""),
    ]),
    ("est-bls-helper", ES, [
        ("""    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
    kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)

    x_ref = 0.5 * (np.min(x) + np.max(x))
    bls = BoxLeastSquares(x - x_ref, y, yerr)
""", """    kwargs = {
        "minimum_period": min_period,
        "maximum_period": max_period,
        **kwargs,
    }

    x_ref = np.mean([np.min(x), np.max(x)])
    bls = BoxLeastSquares(x - x_ref, y, dy=yerr)
"""),
    ]),
    ("dist-shape", DI, [
        ("""    shape_kwarg = kwargs.get("shape", ())
    if isinstance(shape_kwarg, int):
        shape_kwarg = (shape_kwarg,)
    init_shape = (2,) + shape_kwarg
    initval = kwargs.pop(
        "initval", kwargs.pop("testval", np.zeros(init_shape))
    )
    # initval = kwargs.pop("initval", kwargs.pop("testval", [0.0, 0.0]))
    kwargs["lower"] = -1.0
    kwargs["upper"] = 1.0
    x1 = pm.Uniform(name_x, **_with_initval(initval=initval[0], **kwargs))
    x2 = pm.Uniform(
        f"__{name_y}_unit_disk",
        **_with_initval(
            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
        ),
    )
""", """    shape = kwargs.get("shape", ())
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    start = kwargs.pop("testval", None)
    start = kwargs.pop("initval", start)
    if start is None:
        start = np.zeros((2, *shape))
    x0, y0 = start[0], start[1]

    def uniform(label, value):
        return pm.Uniform(
            label,
            lower=-1.0,
            upper=1.0,
            **_with_initval(initval=value, **kwargs),
        )

    x1 = uniform(name_x, x0)
    x2 = uniform(f"__{name_y}_unit_disk", y0 / np.sqrt(1 - x0**2))
"""),
        ("""    norm = pm.Uniform(
        f"__{name}_impact_parameter",
        **_with_initval(initval=bhat / (1 + ror), **kwargs),
    )
    return pm.Deterministic(name, norm * (1 + ror))
""", """    edge = 1 + ror
    unit = pm.Uniform(
        f"__{name}_impact_parameter",
        **_with_initval(initval=bhat / edge, **kwargs),
    )
    b = unit * edge
    return pm.Deterministic(name, b)
"""),
    ]),
    ("ecc-hyper-loop", EC, [
        ("""                sigma_gauss = _truncate(
                    "sigma_gauss",
                    pm.Normal,
                    lower=0,
                    mu=sigma_gauss_mu,
                    sigma=sigma_gauss_sd,
                    **_with_initval(initval=sigma_gauss_mu),
                )
                sigma_rayleigh = _truncate(
                    "sigma_rayleigh",
                    pm.Normal,
                    lower=0,
                    mu=sigma_rayleigh_mu,
                    sigma=sigma_rayleigh_sd,
                    **_with_initval(initval=sigma_rayleigh_mu),
                )
                frac = _truncate(
                    "frac",
                    pm.Normal,
                    lower=0,
                    upper=1,
                    mu=frac_mu,
                    sigma=frac_sd,
                    **_with_initval(initval=frac_mu),
                )
""", """                sigma_gauss, sigma_rayleigh, frac = [
                    _truncate(
                        label,
                        pm.Normal,
                        lower=0,
                        upper=top,
                        mu=mu,
                        sigma=sd,
                        **_with_initval(initval=mu),
                    )
                    for label, mu, sd, top in [
                        ("sigma_gauss", sigma_gauss_mu, sigma_gauss_sd, None),
                        (
                            "sigma_rayleigh",
                            sigma_rayleigh_mu,
                            sigma_rayleigh_sd,
                            None,
                        ),
                        ("frac", frac_mu, frac_sd, 1),
                    ]
                ]
"""),
        ("""                midpoint = 0.5 * (lower + upper) + np.zeros(
                    kwargs.get("shape", ())
                )
                kwargs["initval"] = kwargs.pop(
                    "initval", kwargs.pop("testval", midpoint)
                )
""", """                midpoint = np.full(
                    kwargs.get("shape", ()), (lower + upper) / 2
                )
                start = kwargs.pop("testval", midpoint)
                kwargs.setdefault("initval", start)
""") if False else ("""            lower = 0.0 if lower is None else lower
            upper = 1.0 if upper is None else upper
""", """            if lower is None:
                lower = 0.0
            if upper is None:
                upper = 1.0
"""),
    ]),
    ("cite-context", CI, [
        ("""    try:
        model = pm.modelcontext(model)
        if not hasattr(model, "__citations__"):
            model.__citations__ = dict()
        for k in citations:
            model.__citations__[k] = CITATIONS[k]

    except TypeError:
        pass
""", """    try:
        model = pm.modelcontext(model)
    except TypeError:
        return
    registered = getattr(model, "__citations__", None)
    if registered is None:
        registered = model.__citations__ = {}
    for key in citations:
        registered[key] = CITATIONS[key]
"""),
        ("""    txt = txt.format(", ".join(sorted(cite)))
    txt = textwrap.wrap(txt, width=width)

    return "\\n".join(txt), "\\n".join(bib)
""", """    txt = textwrap.fill(txt.format(", ".join(sorted(cite))), width=width)
    return txt, "\\n".join(bib)
"""),
    ]),
    ("dep-loop", DN, [
        ("""ImpactParameter = deprecated(
    alternate="exoplanet.distributions.impact_parameter"
)(impact_parameter)
QuadLimbDark = deprecated(alternate="exoplanet.distributions.quad_limb_dark")(
    quad_limb_dark
)
""", """def _alias(func):
    name = "exoplanet.distributions." + func.__name__
    return deprecated(alternate=name)(func)


ImpactParameter = _alias(impact_parameter)
QuadLimbDark = _alias(quad_limb_dark)
"""),
    ]),
    ("utils-deprecated", UT, [
        ("""    def wrapper(func, alternate=alternate):
        msg = "'{0}' is deprecated.".format(func.__name__)
        if alternate is not None:
            msg += " Use '{0}' instead.".format(alternate)
""", """    hint = "" if alternate is None else f" Use '{alternate}' instead."

    def wrapper(func):
        msg = f"'{func.__name__}' is deprecated.{hint}"
"""),
    ]),
]
