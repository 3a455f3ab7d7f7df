"""Behaviour-preserving edits, third batch: other numpy and tensor spellings."""
K = "src/exoplanet/orbits/keplerian.py"
S = "src/exoplanet/orbits/simple.py"
TT = "src/exoplanet/orbits/ttv.py"
LD = "src/exoplanet/light_curves/limb_dark.py"
SE = "src/exoplanet/light_curves/secondary_eclipse.py"
IL = "src/exoplanet/light_curves/interpolated.py"
ES = "src/exoplanet/estimators.py"
GI = "src/exoplanet/interp.py"
DI = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
CI = "src/exoplanet/citations.py"
UT = "src/exoplanet/utils.py"
UN = "src/exoplanet/units.py"

REFACTORS = [
    ("kep-wrap-closure", K, [
        ("""        # Wrap the times into time since transit
        hp = 0.5 * self.period
        dt = pt.mod(self._warp_times(t) + hp, self.period) - hp
""", """        # Wrap the times into time since transit
        hp = 0.5 * self.period

        def nearest(x):
            return x - self.period * pt.floor((x + hp) / self.period)

        dt = nearest(self._warp_times(t))
"""),
        ("""            t_start = (M_contact[0] - self.M0) / self.n
            t_start = pt.mod(t_start + hp, self.period) - hp
            t_end = (M_contact[1] - self.M0) / self.n
            t_end = pt.mod(t_end + hp, self.period) - hp
            t_start = pt.switch(
                pt.gt(t_start, 0.0), t_start - self.period, t_start
            )
            t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
""", """            t_start, t_end = (
                nearest((M - self.M0) / self.n) for M in M_contact[:2]
            )
            t_start -= pt.switch(pt.gt(t_start, 0.0), self.period, 0.0)
            t_end += pt.where(t_end < 0.0, self.period, 0.0)
"""),
        ("""        mask = pt.any(pt.and_(dt >= t_start, dt <= t_end), axis=-1)
        result = ifelse(
            pt.all(pt.eq(flag, 0)),
            pt.arange(t.shape[0])[mask],
            pt.arange(t.shape[0]),
        )

        return result
""", """        inside = pt.ge(dt, t_start) & pt.le(dt, t_end)
        everything = pt.arange(t.shape[0])
        selected = everything[pt.any(inside, axis=-1)]
        return ifelse(pt.all(pt.eq(flag, 0)), selected, everything)
"""),
    ]),
    ("kep-retarded-beta", K, [
        ("""        # Compute the time delay at the **retarded** position, accounting
        # for the instantaneous velocity and acceleration of the body.
        # See the derivation at https://github.com/rodluger/starry/issues/66
        delay = pt.switch(
            pt.lt(pt.abs(az), 1.0e-10),
            (z0 - z) / (c_light + vz),
            (c_light / az)
            * (
                (1 + vz / c_light)
                - pt.sqrt(
                    (1 + vz / c_light) * (1 + vz / c_light)
                    - 2 * az * (z0 - z) / c_light**2
                )
            ),
        )
        if _pad:
            new_t = pt.shape_padright(t) - delay
        else:
            new_t = t - delay
""", """        # See the derivation at https://github.com/rodluger/starry/issues/66
        dz = z0 - z
        opb = 1 + vz / c_light
        root = pt.sqrt(pt.square(opb) - 2 * az * dz / c_light**2)
        full = c_light * (opb - root) / az
        simple = dz / (c_light * opb)
        delay = pt.where(pt.abs(az) < 1.0e-10, simple, full)
        new_t = (pt.shape_padright(t) if _pad else t) - delay
"""),
    ]),
    ("kep-duration-square", K, [
        ("""            self.b = pt.sqrt(
                (aor**2 * c2 - opk2)
                / (
                    c2 * esinw**2
                    + 2 * c2 * esinw
                    + c2
                    - self.ecc**4
                    + 2 * self.ecc**2
                    - 1
                )
            )
            self.b *= 1 - self.ecc**2
""", """            num = pt.square(aor * c) - opk2
            den = pt.square(c * (1 + esinw)) - pt.square(ome2)
            self.b = ome2 * pt.sqrt(num / den)
"""),
    ]),
    ("kep-counts", K, [
        ("""    if (not implied_rho_star) and sum(
        arg is None for arg in (rho_star, r_star, m_star)
    ) != 1:
        raise ValueError(
            "values must be provided for exactly two of "
            "rho_star, m_star, and r_star"
        )
""", """    given = [v for v in (rho_star, r_star, m_star) if v is not None]
    if not implied_rho_star:
        if len(given) != 2:
            raise ValueError(
                "values must be provided for exactly two of "
                "rho_star, m_star, and r_star"
            )
"""),
        ("""    # Work out the planet parameters
    if a is None:
        a = (
            G_grav * (m_star + m_planet) * period**2 / (4 * np.pi**2)
        ) ** (1.0 / 3)
    elif period is None:
        period = (
            2 * np.pi * a ** (3 / 2) / (pt.sqrt(G_grav * (m_star + m_planet)))
        )
""", """    # Work out the planet parameters
    gm = G_grav * (m_star + m_planet)
    if a is None:
        a = (gm * (period / (2 * np.pi)) ** 2) ** (1.0 / 3)
    elif period is None:
        period = 2 * np.pi * pt.sqrt(a**3 / gm)
"""),
    ]),
    ("kep-posvel-names", K, [
        ("""        pos = pt.stack((x, y, z), axis=-1)
        pos = pt.concatenate(
            (
                pt.sum(
                    pt.shape_padright(self.a_star) * pos, axis=0, keepdims=True
                ),
                pt.shape_padright(self.a_planet) * pos,
            ),
            axis=0,
        )
        vel = pt.stack((vx, vy, vz), axis=-1)
        vel = pt.concatenate(
            (
                pt.sum(
                    pt.shape_padright(self.m_planet) * vel,
                    axis=0,
                    keepdims=True,
                ),
                -pt.shape_padright(self.m_star) * vel,
            ),
            axis=0,
        )
""", """        def gather(vector, star, planet):
            v = pt.stack(vector, axis=-1)
            first = (pt.shape_padright(star) * v).sum(axis=0, keepdims=True)
            return pt.join(0, first, pt.shape_padright(planet) * v)

        pos = gather((x, y, z), self.a_star, self.a_planet)
        vel = gather((vx, vy, vz), self.m_planet, -self.m_star)
"""),
    ]),
    ("kep-angles-hypot", K, [
        ("""        X, Y, Z = self._get_position(
            -self.a, t, parallax, light_delay=light_delay
        )

        # calculate rho and theta
        rho = pt.squeeze(pt.sqrt(X**2 + Y**2))  # arcsec
        theta = pt.squeeze(pt.arctan2(Y, X))  # radians between [-pi, pi]

        return (rho, theta)
""", """        X, Y, _ = self.get_relative_position(
            t, parallax=parallax, light_delay=light_delay
        )
        return pt.sqrt(pt.square(X) + pt.square(Y)), pt.arctan2(Y, X)
"""),
    ]),
    ("simple-where", S, [
        ("""        x = pt.squeeze(self.speed * dt)
        y = pt.squeeze(self._b_norm + pt.zeros_like(dt))
        m = pt.abs(dt) < 0.5 * self.duration
        z = pt.squeeze(m * 1.0 - (~m) * 1.0)
        return x, y, z
""", """        coords = (
            self.speed * dt,
            self._b_norm * pt.ones_like(dt),
            pt.where(pt.abs(dt) < 0.5 * self.duration, 1.0, -1.0),
        )
        return tuple(map(pt.squeeze, coords))
"""),
        ("""        x2 = self.r_star**2 * ((1 + ror) ** 2 - self.b**2)
        self.speed = 2 * pt.sqrt(x2) / self.duration
""", """        chord = pt.sqrt((1 + ror - self.b) * (1 + ror + self.b))
        self.speed = self.r_star * chord / (0.5 * self.duration)
"""),
    ]),
    ("ttv-centred-regression", TT, [
        ("""                # A convoluted version of linear regression; don't ask
                N = times.shape[0]
                sumx = pt.sum(inds)
                sumx2 = pt.sum(inds**2)
                sumy = pt.sum(times)
                sumxy = pt.sum(inds * times)
                denom = N * sumx2 - sumx**2
                slope = (N * sumxy - sumx * sumy) / denom
                intercept = (sumx2 * sumy - sumx * sumxy) / denom
                expect = intercept + inds * slope
""", """                # Linear regression about the centre of mass of the points
                dx = inds - pt.mean(inds)
                slope = pt.sum(dx * times) / pt.sum(dx**2)
                intercept = pt.mean(times) - slope * pt.mean(inds)
                expect = intercept + inds * slope
"""),
        ("""        self._bin_edges = [
            pt.concatenate(
                (
                    [tts[0] - 0.5 * self.ttv_period[i]],
                    0.5 * (tts[1:] + tts[:-1]),
                    [tts[-1] + 0.5 * self.ttv_period[i]],
                )
            )
            for i, tts in enumerate(self.all_transit_times)
        ]
        self._bin_values = [
            pt.concatenate(([tts[0]], tts, [tts[-1]]))
            for i, tts in enumerate(self.all_transit_times)
        ]
""", """        self._bin_edges, self._bin_values = [], []
        for tts, half in zip(
            self.all_transit_times,
            [0.5 * self.ttv_period[i] for i in range(len(self.ttvs))],
        ):
            mids = tts[:-1] + 0.5 * pt.diff(tts)
            self._bin_edges.append(
                pt.concatenate([tts[:1] - half, mids, tts[-1:] + half])
            )
            self._bin_values.append(
                pt.concatenate([tts[:1], tts, tts[-1:]])
            )
"""),
        ("""        min_ind = np.floor((min_time - t0) / period)
        max_ind = np.ceil((max_time - t0) / period)
        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
        times = times[(min_time <= times) & (times <= max_time)]
        transit_times.append(times)
""", """        first = int(np.floor((min_time - t0) / period))
        last = int(np.ceil((max_time - t0) / period))
        times = t0 + period * np.arange(first, last + 1)
        keep = np.logical_and(times >= min_time, times <= max_time)
        transit_times.append(times[keep])
"""),
    ]),
    ("ld-stencil-arrays", LD, [
        ("""            oversample = int(oversample)
            oversample += 1 - oversample % 2
            stencil = np.ones(oversample)

            # Construct the exposure time integration stencil
            if order == 0 or (oversample == 1 and order in (1, 2)):
                dt = np.linspace(-0.5, 0.5, 2 * oversample + 1)[1:-1:2]
            elif order == 1:
                dt = np.linspace(-0.5, 0.5, oversample)
                stencil[1:-1] = 2
            elif order == 2:
                dt = np.linspace(-0.5, 0.5, oversample)
                stencil[1:-1:2] = 4
                stencil[2:-1:2] = 2
            else:
                raise ValueError("order must be <= 2")
            stencil /= np.sum(stencil)
""", """            n = int(oversample)
            if n % 2 == 0:
                n += 1

            # Construct the exposure time integration stencil
            if order not in (0, 1, 2):
                raise ValueError("order must be <= 2")
            if order == 0 or n == 1:
                dt = (np.arange(n) + 0.5) / n - 0.5
                weights = [1.0] * n
            else:
                dt = np.arange(n) / (n - 1.0) - 0.5
                inner = [2.0, 2.0] if order == 1 else [2.0, 4.0]
                weights = [1.0] + [inner[k % 2] for k in range(1, n - 1)] + [1.0]
            stencil = np.array(weights) / sum(weights)
"""),
        ("""            if texp.ndim == 0:
                dt = texp * dt
            else:
                if use_in_transit:
                    dt = pt.shape_padright(texp[inds]) * dt
                else:
                    dt = pt.shape_padright(texp) * dt
            tgrid = pt.shape_padright(t) + dt
""", """            if use_in_transit and texp.ndim:
                texp = texp[inds]
            tgrid = t[..., None] + pt.shape_padright(texp) * dt
"""),
        ("""        coords = orbit.get_relative_position(tgrid, light_delay=light_delay)
        b = pt.sqrt(coords[0] ** 2 + coords[1] ** 2)
        b = pt.reshape(b, rgrid.shape)
        los = pt.reshape(coords[2], rgrid.shape)
        lc = self._compute_light_curve(
            b / orbit.r_star, rgrid / orbit.r_star, los / orbit.r_star
        )
""", """        x, y, z = (
            pt.reshape(c / orbit.r_star, rgrid.shape)
            for c in orbit.get_relative_position(
                tgrid, light_delay=light_delay
            )
        )
        lc = self._compute_light_curve(
            pt.sqrt(x * x + y * y), rgrid / orbit.r_star, z
        )
"""),
        ("""            stencil = pt.shape_padright(pt.shape_padleft(stencil, t.ndim), 1)
            lc = pt.sum(stencil * lc, axis=t.ndim)
""", """            lc = pt.sum(lc * stencil[:, None], axis=-2)
"""),
        ("""        return pt.switch(pt.gt(los, 0), lc, pt.zeros_like(lc))
""", """        return lc * pt.cast(los > 0, "float64")
"""),
    ]),
    ("se-loop", SE, [
        ("""        k = r / orbit.r_star
        flux_ratio = self.surface_brightness_ratio * k**2

        return (lc1 + flux_ratio * lc2) / (1 + flux_ratio)
""", """        flux2 = self.surface_brightness_ratio * pt.square(r / orbit.r_star)
        weights = 1 / (1 + flux2), flux2 / (1 + flux2)
        return sum(w * lc for w, lc in zip(weights, (lc1, lc2)))
"""),
    ]),
    ("il-horner", IL, [
        ("""    inds = pt.cast(pt.floor((x - xmin) / dx), "int64")
    x0 = (x - xp[inds + 1]) / dx
    return a0[inds] + a1[inds] * x0 + a2[inds] * x0**2 + a3[inds] * x0**3
""", """    phase = (x - xmin) / dx
    inds = pt.cast(pt.floor(phase), "int64")
    x0 = (x - xp[inds + 1]) / dx
    result = 0.0
    for coeff in (a3, a2, a1, a0):
        result = result * x0 + coeff[inds]
    return result
"""),
    ]),
    ("grid-reduce", GI, [
        ("""        weight = pt.ones(coords.shape[:-1])
        for ei, i, yi in zip(edge_indices, indices, norm_distances):
            weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
""", """        factors = [
            pt.switch(pt.eq(ei, i), 1 - yi, yi)
            for ei, i, yi in zip(edge_indices, indices, norm_distances)
        ]
        weight = factors[0]
        for factor in factors[1:]:
            weight = weight * factor
"""),
    ]),
    ("est-polyfit", ES, [
        ("""        A = np.vander(freq[i - 1 : i + 2], 3)
        w = np.linalg.solve(A, np.log(power[i - 1 : i + 2]))
        sigma2 = -0.5 / w[0]
        freq0 = w[1] * sigma2
""", """        near = slice(i - 1, i + 2)
        w = np.polyfit(freq[near], np.log(power[near]), 2)
        sigma2 = -0.5 / w[0]
        freq0 = w[1] * sigma2
"""),
        ("""    inds = (power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])
    inds = np.arange(1, len(power) - 1)[inds]
    inds = inds[np.argsort(power[inds])][::-1]
""", """    step = np.diff(power)
    inds = np.flatnonzero((step[:-1] > 0) & (step[1:] < 0)) + 1
    inds = inds[np.argsort(power[inds])][::-1]
"""),
        ("""    if t0s is not None:
        K = w[:-1]
    else:
        w = w[:-1]
        K = np.sqrt(w[::2] ** 2 + w[1::2] ** 2)
    return K
""", """    if t0s is not None:
        return w[:-1]
    return np.hypot(w[:-1:2], w[1:-1:2])
"""),
        ("""    D = _get_design_matrix(periods.value, t0s, x.value)
    w = np.linalg.solve(
        np.dot(D.T, D * ivar.value[:, None]), np.dot(D.T, y.value * ivar.value)
    )
""", """    D = _get_design_matrix(periods.value, t0s, x.value)
    DtW = D.T * ivar.value[None, :]
    w = np.linalg.solve(DtW @ D, DtW @ y.value)
"""),
        ("""    return np.concatenate(
        [
            (
                np.sin(2 * np.pi * x / periods[i]),
                np.cos(2 * np.pi * x / periods[i]),
            )
            for i in range(len(periods))
        ]
        + [np.ones((1, len(x)))],
        axis=0,
    ).T
""", """    columns = []
    for period in periods:
        phase = 2 * np.pi * x / period
        columns += [np.sin(phase), np.cos(phase)]
    return np.column_stack(columns + [np.ones_like(x)])
"""),
    ]),
    ("est-grid", ES, [
        ("""    dx = np.min(np.diff(x)) / float(oversample)
    xx = np.arange(x.min(), x.max(), dx)
    yy = np.interp(xx, x, y)
""", """    x_min, x_max = np.min(x), np.max(x)
    dx = np.diff(x).min() / oversample
    xx = np.arange(x_min, x_max, dx)
    yy = np.interp(xx, x, y)
"""),
        ("""    x_ref = 0.5 * (np.min(x) + np.max(x))
    bls = BoxLeastSquares(x - x_ref, y, yerr)
""", """    x_ref = np.mean([np.min(x), np.max(x)])
    bls = BoxLeastSquares(x - x_ref, y, dy=yerr)
"""),
        ("""        freq0 = 1.0 / filter_period
        filt = 1.0 / np.sqrt(1 + (freq0 / freq) ** (2 * 3))
        power *= filt
""", """        scaled = np.power(1.0 / (filter_period * freq), 6)
        power = power / np.sqrt(1 + scaled)
"""),
    ]),
    ("dist-limb", DI, [
        ("""    sqrtq1 = pt.sqrt(q1)
    twoq2 = 2 * q2
    return pm.Deterministic(
        name, pt.stack([sqrtq1 * twoq2, sqrtq1 * (1 - twoq2)], axis=0)
    )
""", """    total = pt.sqrt(q1)
    first = 2 * total * q2
    return pm.Deterministic(name, pt.stack([first, total - first], axis=0))
"""),
        ("""    norm = pt.sqrt(1 - x1**2)
    pm.Potential(f"{name_y}_jacobian", pt.log(norm))
    return x1, pm.Deterministic(name_y, x2 * norm)
""", """    norm2 = (1 - x1) * (1 + x1)
    pm.Potential(f"{name_y}_jacobian", 0.5 * pt.log(norm2))
    return x1, pm.Deterministic(name_y, x2 * pt.sqrt(norm2))
"""),
    ]),
    ("ecc-tuple", EC, [
        ("""    if multi:
        frac_mu = 0.08
        frac_sd = 0.08
    else:
        frac_mu = 0.76
        frac_sd = 0.2
""", """    frac_mu, frac_sd = (0.08, 0.08) if multi else (0.76, 0.2)
"""),
        ("""        _lower = 0.0 if lower is None else lower
        _upper = 1.0 if upper is None else upper
""", """        _lower, _upper = (
            default if bound is None else bound
            for bound, default in ((lower, 0.0), (upper, 1.0))
        )
"""),
    ]),
    ("cite-setdefault", CI, [
        ("""        if not hasattr(model, "__citations__"):
            model.__citations__ = dict()
        for k in citations:
            model.__citations__[k] = CITATIONS[k]
""", """        registry = getattr(model, "__citations__", None)
        if registry is None:
            registry = model.__citations__ = {}
        registry.update((k, CITATIONS[k]) for k in citations)
"""),
    ]),
    ("units-helper", UN, [
        ("""    if not has_unit(obj):
        return obj
    base = getattr(obj, UNIT_ATTR_NAME)
    return obj * base.to(target)
""", """    try:
        base = getattr(obj, UNIT_ATTR_NAME)
    except AttributeError:
        return obj
    factor = base.to(target)
    return factor * obj
"""),
    ]),
]
