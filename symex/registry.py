"""Harness registry."""

HARNESSES = {}


def harness(prop, quick, thorough=None, numba="fake", **opts):
    """Register a harness of a property with its structural parameter sets."""

    def deco(f):
        HARNESSES.setdefault(prop, []).append(
            dict(prop=prop, fn=f, name=f.__name__, quick=quick, thorough=thorough if thorough is not None else quick, numba=numba, opts=opts)
        )
        return f

    return deco
