"""The checks, by property id."""

REGISTRY = {}


def check(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f

    return deco


from . import distributions, estimators, interp, lightcurves, meta, options, orbits, registry, simple, ttv  # noqa: E402,F401
