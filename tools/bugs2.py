"""Planted changes: priors and back ends (see seed.py)."""
D = "src/exoplanet/distributions/distributions.py"
EC = "src/exoplanet/distributions/eccentricity.py"
HEAD = """
import numpy as np
import pymc as pm
import exoplanet as xo
from exoplanet.distributions import angle, unit_disk, quad_limb_dark, impact_parameter
from exoplanet.distributions.eccentricity import kipping13, vaneylen19

def start(model, *names):
    # values of model variables at the initial point
    ip = model.initial_point()
    f = model.compile_fn([model[n] for n in names], inputs=model.value_vars, on_unused_input="ignore") if 0 else None
    import pytensor
    vs = model.replace_rvs_by_values([model[n] for n in names])
    g = pytensor.function(model.value_vars, vs, on_unused_input="ignore")
    return g(**ip) if 0 else g(*[ip[v.name] for v in model.value_vars])
"""
BUGS = [
    dict(id="angle-joint-regularization", property="C29", file=D,
         edits=[("            regularization * pt.log(x1**2 + x2**2),\n",
                 "            regularization * pt.log(pt.sum(x1**2 + x2**2)),\n")],
         needs="an angle with more than one element",
         breaks="the regularisation is the log of the joint norm instead of one term per angle",
         demo=HEAD + """
with pm.Model() as m:
    angle("a", shape=2)
pot = m.potentials[0]
import pytensor
x = [v for v in m.free_RVs]
f = pytensor.function(x, pot.sum())
v1, v2 = np.array([1.0, 2.0]), np.array([0.5, 3.0])
assert np.allclose(f(v1, v2), 10 * np.log(v1**2 + v2**2).sum()), f(v1, v2)
"""),
    dict(id="disk-mean-correction", property="C30", file=D,
         edits=[("    pm.Potential(f\"{name_y}_jacobian\", pt.log(norm))\n",
                 "    pm.Potential(f\"{name_y}_jacobian\", pt.mean(pt.log(norm)))\n")],
         needs="a pair of vectors",
         breaks="the Jacobian correction is averaged over the elements instead of summed",
         demo=HEAD + """
with pm.Model() as m:
    unit_disk("x", "y", shape=2)
import pytensor
f = pytensor.function([m["x"]], m.potentials[0].sum())
v = np.array([0.1, 0.8])
assert np.allclose(f(v), 0.5 * np.log(1 - v**2).sum()), f(v)
"""),
    dict(id="limb-start-squares", property="C31", file=D,
         edits=[("initval=(u1 + u2) ** 2", "initval=u1**2 + u2**2")],
         needs="an initial value with a non-zero second coefficient",
         breaks="the coefficients do not start at the requested values",
         demo=HEAD + """
with pm.Model() as m:
    quad_limb_dark("u", initval=np.array([0.3, 0.2]))
assert np.allclose(start(m, "u")[0], [0.3, 0.2], atol=1e-6), start(m, "u")
"""),
    dict(id="impact-start-unscaled", property="C32", file=D,
         edits=[("        **_with_initval(initval=bhat / (1 + ror), **kwargs),\n", "        **_with_initval(initval=bhat / (1 + pt.min(ror)), **kwargs),\n")],
         needs="several planets with different radius ratios",
         breaks="the impact parameters of the larger planets do not start where asked",
         demo=HEAD + """
with pm.Model() as m:
    impact_parameter("b", np.array([0.1, 0.4]), initval=np.array([0.2, 0.7]))
assert np.allclose(start(m, "b")[0], [0.2, 0.7], atol=1e-6), start(m, "b")
"""),
    dict(id="beta-hyper-unbounded", property="C33", file=EC,
         edits=[("""                    "beta",
                    pm.Normal,
                    lower=0,
""", """                    "beta",
                    pm.Normal,
                    lower=-beta_mu,
""")],
         needs="marginalised hyperparameters (fixed=False)",
         breaks="the second hyperparameter is not restricted to positive values",
         demo=HEAD + """
with pm.Model() as m:
    kipping13("e", fixed=False)
rv = [v for v in m.free_RVs if v.name.endswith("beta")][0]
assert np.isneginf(pm.logp(rv, -0.5).eval())
"""),
    dict(id="observed-upper-only", property="C33", file=EC,
         edits=[("""            lower = 0.0 if lower is None else lower
            upper = 1.0 if upper is None else upper
            if ecc is None:
""", """            lower = 0.0 if lower is None else lower
            upper = 1.0 if upper is None or ecc is not None else upper
            if ecc is None:
""")],
         needs="an observed eccentricity with an upper bound, above that bound",
         breaks="an observed eccentricity is not restricted to be below the upper bound",
         demo=HEAD + """
with pm.Model() as m:
    p = kipping13("e", lower=0.1, upper=0.4, observed=0.6)
assert np.isneginf(p.eval()), p.eval()
"""),
    dict(id="mixture-fraction-open", property="C34", file=EC,
         edits=[("""                    lower=0,
                    upper=1,
                    mu=frac_mu,
""", """                    lower=0,
                    mu=frac_mu,
""")],
         needs="marginalised hyperparameters (fixed=False)",
         breaks="the mixture fraction may exceed one",
         demo=HEAD + """
with pm.Model() as m:
    vaneylen19("e", fixed=False)
rv = [v for v in m.free_RVs if v.name.endswith("frac")][0]
assert np.isneginf(pm.logp(rv, 1.2).eval())
"""),
    dict(id="rayleigh-scale-marginal", property="C34", file=EC,
         edits=[("""            rayleigh = pm.Weibull.dist(
                alpha=2, beta=np.sqrt(2) * sigma_rayleigh
            )
""", """            rayleigh = pm.Weibull.dist(
                alpha=2, beta=np.sqrt(2 * sigma_rayleigh_mu) * sigma_rayleigh**0.5
            )
""")],
         needs="marginalised hyperparameters away from their means",
         breaks="the scale of the Rayleigh component is not proportional to its hyperparameter",
         demo=HEAD + """
import pytensor
with pm.Model() as m:
    vaneylen19("e", fixed=False)
rvs = {v.name.split("::")[-1]: v for v in m.free_RVs}
f = pytensor.function(list(rvs.values()), m.potentials[0])
v = dict(e=0.7, sigma_gauss=0.05, sigma_rayleigh=0.4, frac=0.6)
from scipy.stats import halfnorm, rayleigh
want = np.log(0.4 * halfnorm.pdf(0.7, scale=0.05) + 0.6 * rayleigh.pdf(0.7, scale=0.4))
got = f(*[v[k] for k in rvs])
assert np.allclose(got, want), (got, want)
"""),
    dict(id="legacy-upper-bound", property="C41", file=EC,
         edits=[("        return pm.Bound(dist, lower=lower, upper=upper)(\n", "        return pm.Bound(dist, lower=lower, upper=upper or 1.0)(\n")],
         needs="the legacy back end with marginalised hyperparameters",
         breaks="hyperparameters without an upper bound are restricted to be below one with the legacy back end",
         demo="""
# a stand-in for the legacy back end that records what is asked of it
import os, sys, types
os.environ["EXOPLANET_FORCE_PYMC3"] = "1"
import numpy as np
import pytensor, pytensor.tensor as pt
from pytensor.ifelse import ifelse
from pytensor.raise_op import Assert
from pytensor.gradient import verify_grad
import exoplanet_core.pymc.ops as ops
made = []

class Model:
    def __init__(self, name=""): self.name = name
    def __enter__(self): return self
    def __exit__(self, *a): pass

class Dist:
    def __init__(self, name, *a, **k): made.append((name, type(self).__name__, k)); self.x = pt.dscalar(name)
    def __new__(cls, name, *a, **k):
        made.append((name, cls.__name__, k)); return pt.dscalar(name)
    @classmethod
    def dist(cls, *a, **k):
        d = object.__new__(Dist); d.logp = lambda x: x; return d
    def logp(self, x): return x

def Bound(dist, lower=None, upper=None):
    def f(name, **k):
        made.append((name, "Bound", dict(k, lower=lower, upper=upper))); return pt.dscalar(name)
    return f

pm3 = types.ModuleType("pymc3")
for n in ("Normal", "Uniform", "Beta", "HalfNormal", "Weibull"):
    setattr(pm3, n, type(n, (Dist,), {}))
pm3.Model, pm3.Bound = Model, Bound
top = Model()
pm3.modelcontext = lambda m: m or top
pm3.Potential = lambda n, v: v
pm3.Deterministic = lambda n, v: v
pm3.math = types.SimpleNamespace(logaddexp=lambda a, b: a + b)
th = types.ModuleType("theano")
th.function, th.grad, th.tensor = pytensor.function, pytensor.grad, pt
th.config = pytensor.config
pt.abs_ = pt.abs
def mod(name, **k):
    m = types.ModuleType(name); m.__dict__.update(k); sys.modules[name] = m; return m
sys.modules.update({"pymc3": pm3, "theano": th, "theano.tensor": pt})
mod("theano.ifelse", ifelse=ifelse)
mod("theano.assert_op", Assert=Assert)
mod("theano.gradient", verify_grad=verify_grad)
mod("exoplanet_core.pymc3", ops=ops)
sys.modules["exoplanet_core.pymc3.ops"] = ops
from exoplanet.distributions.eccentricity import kipping13
kipping13("e", fixed=False)
b = {n: k for n, d, k in made if d == "Bound"}
assert b and all(k["upper"] is None and k["lower"] == 0 for k in b.values()), b
"""),
]
