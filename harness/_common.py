"""Shared building blocks of the harnesses."""

from symex.registry import harness  # noqa: F401

THICK = (0.01, 1000.0)
VEL = (10.0, 5000.0)
UW = (5.0, 40.0)
DAMP = (0.0, 0.49)
G = 9.80665


def linear_profile(ctx, n, wt=None, damping=True, name="", same=False, half=0, dmin=False):
    """n-1 layers on a half-space, linear soils, all values symbolic.

    same: every soil carries the same name, so layers may turn out equal;
    half: thickness of the half-space entry ("sym": symbolic)."""
    site = ctx.ps.site
    layers = []
    for i in range(n):
        st = site.SoilType(
            "s" if same else f"s{i}",
            ctx.real(f"{name}uw{i}", *UW),
            None,
            ctx.real(f"{name}d{i}", *DAMP) if damping else 0.0,
        )
        if i < n - 1:
            th = ctx.real(f"{name}h{i}", *THICK)
        else:
            th = ctx.real(f"{name}h{i}", *THICK) if half == "sym" else half
        kw = dict(damping_min=ctx.real(f"{name}dm{i}", *DAMP)) if dmin else {}
        layers.append(site.Layer(st, th, ctx.real(f"{name}v{i}", *VEL), **kw))
    wt = ctx.real(name + "wt", 0.0, 6000.0) if wt is None else wt
    return site.Profile(layers, wt)


def linear_curve(ctx, kind, npts, name, strains=None, monotone=False):
    """A nonlinear curve given by npts points with symbolic values."""
    site = ctx.ps.site
    strains = strains if strains is not None else [10.0 ** (-5 + 4 * i / (npts - 1)) for i in range(npts)]
    lo, hi = (0.0, 1.5) if kind == "mod_reduc" else (0.0, 0.6)
    vals = [ctx.real(f"{name}y{i}", lo, hi) for i in range(npts)]
    cls = site.ModulusReductionCurve if kind == "mod_reduc" else site.DampingCurve
    return cls(name, ctx.arr(strains), ctx.arr(vals)), strains, vals


def smin(ctx, a, b):
    """min/max/where helpers that work on both sides"""
    return ctx.np.minimum(a, b)


def smax(ctx, a, b):
    return ctx.np.maximum(a, b)


def clip(ctx, x, lo, hi):
    return ctx.np.clip(x, lo, hi)
