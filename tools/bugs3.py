ES = "src/exoplanet/estimators.py"
BUGS = [
    dict(id="peaks-of-filtered-plateau", property="C35", file=ES,
         edits=[("    inds = (power[1:-1] > power[:-2]) & (power[1:-1] > power[2:])\n", "    inds = (power[1:-1] > power[:-2]) & (power[1:-1] >= power[2:])\n")],
         needs="a periodogram with two equal neighbouring samples at a maximum",
         breaks="a sample that is not a strict local maximum is reported as a peak",
         demo='''
import numpy as np
from exoplanet.estimators import find_peaks
f = np.arange(1.0, 8.0)
p = np.array([1.0, 2.0, 2.0, 1.0, 3.0, 2.0, 1.0])
got = [d["index"] for d in find_peaks(f, p, max_peaks=5)]
assert got == [4], got
'''),
    dict(id="peaks-limit-extra", property="C35", file=ES,
         edits=[("    for i in inds[: max(1, max_peaks)]:", "    for i in inds[: max(2, max_peaks)]:"),
                ("    if not len(peaks):\n        raise", "    if not len(peaks):\n        raise")],
         needs="max_peaks=1 with at least two local maxima",
         breaks="more peaks than the requested maximum are returned",
         demo='''
import numpy as np
from exoplanet.estimators import find_peaks
f = np.arange(1.0, 8.0)
p = np.array([1.0, 2.0, 1.5, 1.0, 3.0, 2.0, 1.0])
assert len(find_peaks(f, p, max_peaks=1)) == 1
'''),
    dict(id="transit-time-unit", property="C36", file=ES,
         edits=[("        t0s = u.Quantity(np.atleast_1d(t0s), unit=u.day).value\n", "        t0s = np.array(np.atleast_1d(t0s))\n")],
         needs="transit times given as an AstroPy quantity that is not in days",
         breaks="the unit of the transit times is ignored",
         demo='''
import numpy as np, astropy.units as u
from exoplanet.estimators import estimate_semi_amplitude
x = np.linspace(0, 30, 50)
y = -5 * np.sin(2 * np.pi * (x - 1.2) / 3.5)
a = estimate_semi_amplitude([3.5], x, y, t0s=[1.2])
b = estimate_semi_amplitude([3.5], x, y, t0s=[1.2 * 24] * u.hour)
assert np.allclose(a, b), (a, b)
'''),
    dict(id="lomb-filter-returned", property="C37", file=ES,
         edits=[("    power_est = np.array(power)", "    power_est = np.asarray(power)")],
         needs="filter_period with a look at the returned periodogram",
         breaks="the high-pass filter is applied to the returned periodogram as well",
         demo='''
import numpy as np
from exoplanet.estimators import lomb_scargle_estimator
x = np.linspace(0, 50, 300)
y = np.sin(2 * np.pi * x / 5.0) + 3 * np.sin(2 * np.pi * x / 30.0)
a = lomb_scargle_estimator(x, y, max_peaks=1)["periodogram"]
b = lomb_scargle_estimator(x, y, max_peaks=1, filter_period=8.0)["periodogram"]
assert np.allclose(a[1], b[1])
'''),
    dict(id="box-oversample-name", property="C37", file=ES,
         edits=[("        oversample=oversample,\n        **kwargs,\n    )\n\n    # Correct", "        oversample=10 if method is None else oversample,\n        **kwargs,\n    )\n\n    # Correct")],
         needs="oversample given with the default method",
         breaks="the oversample option is dropped unless a method is chosen",
         demo='''
import numpy as np
import exoplanet.estimators as es
seen = []
class BLS(es.BoxLeastSquares):
    def autopower(self, *a, **k):
        seen.append(k.get("oversample"))
        return super().autopower(*a, **k)
es.BoxLeastSquares = BLS
x = np.linspace(0, 20, 200)
y = np.where(np.abs(x % 4 - 2) < 0.2, -1.0, 0.0)
es.bls_estimator(x, y, oversample=3)
assert seen == [3], seen
'''),
    dict(id="box-peak-time", property="C37", file=ES,
         edits=[("    # Correct for the reference time offset\n    pg.transit_time += x_ref\n\n", ""),
                ("    ind = peaks[0][\"index\"]\n    results[\"peak_info\"] = dict(\n        (k, v[ind]) for k, v in pg.items() if k != \"objective\"\n    )\n",
                 "    ind = peaks[0][\"index\"]\n    results[\"peak_info\"] = dict(\n        (k, v[ind]) for k, v in pg.items() if k != \"objective\"\n    )\n    # Correct for the reference time offset\n    pg.transit_time += x_ref\n")],
         needs="a look at the transit time in the peak information, with times far from zero",
         breaks="the transit time at the peak is in the internal time system",
         demo='''
import numpy as np
from exoplanet.estimators import bls_estimator
x = 1000 + np.linspace(0, 20, 400)
y = np.where(np.abs(x % 4 - 2) < 0.2, -1.0, 0.0)
r = bls_estimator(x, y)
t = r["peak_info"]["transit_time"]
assert x.min() <= t <= x.max(), t
assert t == r["bls"].transit_time[r["peaks"][0]["index"]]
'''),
    dict(id="autocorr-second-peak", property="C37", file=ES,
         edits=[("    # The first peak is larger than the maximum period\n    if tau[peak_inds[0]] > max_period:\n        return result\n\n", "")],
         needs="a second autocorrelation peak that is higher and beyond max_period",
         breaks="a period longer than the maximum period is reported",
         demo='''
import numpy as np
import exoplanet.estimators as es
acf = np.zeros(40)
acf[0], acf[10], acf[20] = 3.0, 1.0, 2.0
es.gaussian_filter = lambda a, s: np.concatenate([acf, np.zeros(max(0, len(a) - 40))])[:len(a)]
x = np.arange(0.0, 30.0)
r = es.autocorr_estimator(x, np.sin(x), max_period=7.0, min_period=1.0, oversample=2.0)
assert all(p["period"] <= 7.0 for p in r["peaks"]), r["peaks"]
'''),
]
