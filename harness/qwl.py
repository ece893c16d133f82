"""Quarter-wavelength amplification (C22)."""

from ._common import DAMP, THICK, UW, harness

H = (1.0, 500.0)
V = (80.0, 4000.0)
RHO = (10.0, 40.0)


def column(ctx, n, same=None):
    site = ctx.ps.site
    layers = []
    for i in range(n):
        k = 0 if same == "velocity" else i
        j = 0 if same == "density" else i
        st = site.SoilType(f"s{i}", ctx.real(f"uw{j}", *RHO), None, 0.01)
        layers.append(site.Layer(st, ctx.real(f"h{i}", *H) if i < n - 1 else 0, ctx.real(f"v{k}", *V), damping_min=ctx.real(f"dm{i}", *DAMP)))
    return site.Profile(layers, 0)


def calc(ctx, prof, freqs, **kw):
    c = ctx.ps.propagation.QuarterWaveLenCalculator(**kw)
    c(ctx.ps.motion.Motion(ctx.arr(freqs)), prof, prof.location("outcrop", index=-1))
    return c


def average(ctx, h, p, z):
    """exact average of a layered property down to depth z"""
    top, t = 0, 0
    for i in range(len(h) - 1):
        if bool(z < top + h[i]):
            return (t + (z - top) * p[i]) / z
        top, t = top + h[i], t + h[i] * p[i]
    return (t + (z - top) * p[-1]) / z


@harness("C22", quick=[dict(n=2), dict(n=3), dict(n=8)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 6)], budget=60)
def depth_average(ctx, n):
    """my_trapz is the exact average to an arbitrary depth, the last layer being infinite"""
    h = ctx.reals("h", n - 1, *THICK) + [0]
    p = ctx.reals("p", n, 1e-4, 50.0)
    z = ctx.real("z", 0.01, 5000.0)
    ctx.check_eq("average", ctx.ps.propagation.my_trapz(ctx.arr(h), ctx.arr(p), z), average(ctx, h, p, z))


@harness("C22", quick=[dict()], thorough=[dict()], budget=60)
def uniform(ctx):
    """a uniform profile does not amplify"""
    site = ctx.ps.site
    uw, v = ctx.real("uw", *RHO), ctx.real("v", *V)
    prof = site.Profile([site.Layer(site.SoilType("s", uw, None, 0.01), h, v) for h in ctx.reals("h", 2, *H) + [0]])
    k = ctx.real("kappa", 0.001, 0.1)
    f = ctx.reals("f", 2, 0.1, 50.0)
    c = calc(ctx, prof, f, site_atten=k)
    ctx.check("site_atten", c.site_atten is k)
    for i in range(2):
        ctx.check_eq(f"amplification{i}", c.crustal_amp[i], 1)
        ctx.check_eq(f"site term{i}", c.site_term[i], ctx.np.exp(-ctx.np.pi * k * f[i]))
    c = calc(ctx, prof, f)
    for i in range(2):
        ctx.check_eq(f"no attenuation{i}", c.site_term[i], 1)


def any_average(ctx, limit=1000):
    """the average of a layered property to a depth (decided by depth_average) is an arbitrary
    number between the smallest and the largest value"""
    P = ctx.ps.propagation
    real = P.my_trapz
    memo = {}

    def avg(thickness, prop, depth):
        if ctx.key(depth) == ctx.key(sum(list(thickness)[:-1])):
            return real(thickness, prop, depth)
        k = tuple(ctx.key(x) for x in (*thickness, *prop, depth))
        if k not in memo:
            lo, hi = prop[0], prop[0]
            for x in list(prop)[1:]:
                lo, hi = ctx.np.minimum(lo, x), ctx.np.maximum(hi, x)
            ctx.assume(len(memo) < limit)
            v = ctx.real(f"avg{len(memo)}", 1e-5, 100.0)
            ctx.assume(lo <= v)
            ctx.assume(v <= hi)
            memo[k] = v
        return memo[k]

    ctx.patch(P, "my_trapz", avg)
    return avg


def quarter(ctx, n, prof, f, its):
    """reference: depth iterated from the mean slowness by averaging with the quarter wavelength
    of the average slowness, until it changes by less than one percent"""
    np = ctx.np
    average = any_average(ctx)
    h, s, rho = prof.thickness, prof.slowness, prof.density
    z = 1 / (4 * (sum(s) / n) * f)
    for _ in range(its):
        avg = average(h, s, z)
        new = (z + 1 / (4 * avg * f)) / 2
        if bool(np.abs(z - new) <= 1e-8 + 0.01 * np.abs(new)):
            return avg, average(h, rho, new), new
        z = new
    ctx.assume(False)


@harness("C22", quick=[dict(n=2, its=2), dict(n=3, its=2)], thorough=[dict(n=2, its=3), dict(n=3, its=3), dict(n=4, its=2)], budget=120, max_paths=400, thorough_budget=900)
def amplification(ctx, n, its):
    """arbitrary densities and velocities, one frequency, up to `its` iterations: square root of
    the impedance ratio of the half-space and the averages to the quarter-wavelength depth"""
    np = ctx.np
    prof = column(ctx, n)
    f = ctx.real("f", 0.1, 50.0)
    S, rho, z = quarter(ctx, n, prof, f, its)
    k = ctx.real("kappa", 0.001, 0.1)
    c = calc(ctx, prof, [f], site_atten=k)
    src = prof[-1].density * prof[-1].initial_shear_vel
    a = c.crustal_amp[0]
    ctx.check_eq("amplification", a * a * rho, src * S, rtol=1e-9)
    ctx.check_le("positive", 0, a)
    ctx.check_eq("site term", c.site_term[0], a * np.exp(-np.pi * k * f), rtol=1e-9)


@harness("C22", quick=[dict(its=2)], thorough=[dict(its=4)], budget=100, max_paths=400, thorough_budget=600)
def corrected(ctx, its):
    """Boore and Abrahamson (2023): the exponent is the published function (see `exponent`) of the
    logarithm of the frequency relative to that of the whole column above the half-space, and the
    base of the power is that of the standard method; up to `its` iterations"""
    np = ctx.np
    site = ctx.ps.site
    h, v = ctx.real("h", 20.0, 200.0), ctx.real("v", 200.0, 900.0)
    f = ctx.real("f", 1.5, 40.0)
    prof = site.Profile([site.Layer(site.SoilType("a", 18.0, None, 0.01), h, v), site.Layer(site.SoilType("b", 22.0, None, 0.01), 0, 1000)])
    any_average(ctx, 2 * its + 3)
    x = np.log10(f * 4 * h / v)
    s = calc(ctx, prof, [f])
    c = calc(ctx, prof, [f], method="ba23")
    ctx.check_eq("amplification", np.log(c.crustal_amp[0]), 2 * c.correction_ba23(x) * np.log(s.crustal_amp[0]), rtol=1e-9)


@harness("C22", quick=[dict()])
def exponent(ctx):
    """exponent of Boore and Abrahamson (2023)"""
    x = ctx.real("x", -1.3, 3.0)
    u = (x + 1.301) / 1.398
    ctx.check_eq("eta", ctx.ps.propagation.QuarterWaveLenCalculator.correction_ba23(x), 0.56 * u**4 / ((1 - u**6) ** 2 + 0.76 * u**3) ** 0.333, rtol=1e-9)


@harness("C22", quick=[dict()])
def method(ctx):
    """an unknown method is refused"""
    prof = column(ctx, 2, same="velocity")
    _, e = ctx.call(calc, ctx, prof, [1.0], method="other")
    ctx.check("refused", isinstance(e, NotImplementedError))


FITS = ((2, False, False, False), (2, True, False, True), (2, False, True, False), (2, True, True, True), (3, True, True, False))


@harness("C22", quick=[dict(n=n, thick=t, atten=a, source=s) for n, t, a, s in FITS], budget=100, max_paths=400)
def fit(ctx, n, thick, atten, source):
    """an arbitrary result of the optimiser: the fitted profile has its velocities, thicknesses
    and attenuation, keeps soils, damping and water table, and the amplification reported is
    that of the fitted profile; the original profile is unchanged"""
    np, P = ctx.np, ctx.ps.propagation
    site = ctx.ps.site
    prof = column(ctx, n, same="velocity")
    f = ctx.real("f", 0.1, 50.0)
    k = ctx.real("kappa", 0.001, 0.1)
    c = calc(ctx, prof, [f], site_atten=k)
    old = [(l.thickness, l.initial_shear_vel) for l in prof]
    s = ctx.real("s", 1 / 4000, 1 / 100)
    h = [ctx.real("h", 1.0, 500.0)] + ctx.reals("hh", n - 2, 1.0, 500.0)
    k2 = ctx.real("kappa2", 0.001, 0.1)
    x = [s] * n + (h + [0] if thick else []) + ([k2] if atten else [])
    other = [s] * n + ([2 * t for t in h] + [0] if thick else []) + ([2 * k2] if atten else [])
    seen = {}

    class Res:
        pass

    def minimize(fun, x0, *a, bounds=None, **kw):
        seen["x0"], seen["bounds"] = list(x0), bounds
        seen["start"] = fun(ctx.arr(list(x0)))
        seen["err"] = [fun(ctx.arr(x)), fun(ctx.arr(other))]
        r = Res()
        r.x = ctx.arr(x)
        return r

    ctx.patch(P, "minimize", minimize)
    kind = ctx.choice("kind", ["site_term", "crustal_amp"])
    own = ctx.flag("own")
    before = getattr(c, kind)[0]
    target = before if own else ctx.real("target", 0.5, 5.0)
    flags = dict(adjust_thickness=thick, adjust_site_atten=atten, adjust_source_vel=source)
    c.fit(kind, ctx.arr([target]), **{k: v for k, v in flags.items() if v})
    new = c.profile
    ctx.check("layers", len(new) == n and new is not prof)
    for i in range(n - 1):
        ctx.check_eq(f"thickness{i}", new[i].thickness, h[i] if thick else prof[i].thickness)
    ctx.check_eq("half-space", new[-1].thickness, 0)
    ctx.check_eq("attenuation", c.site_atten, k2 if atten else k)
    for i in range(n):
        ctx.check_eq(f"velocity{i}", new[i].initial_shear_vel * s, 1)
        ctx.check(f"soil{i}", new[i].soil_type is prof[i].soil_type)
        ctx.check_eq(f"damping{i}", new[i].damping_min, prof[i].damping_min)
        ctx.check_eq(f"old thickness{i}", prof[i].thickness, old[i][0])
        ctx.check_eq(f"old velocity{i}", prof[i].initial_shear_vel, old[i][1])
        ctx.check_eq(f"start{i}", seen["x0"][i] * old[i][1], 1)
    ctx.check_eq("water table", new.wt_depth, prof.wt_depth)
    fresh = calc(ctx, new, [f], site_atten=c.site_atten)
    ctx.check_eq("amplification", c.crustal_amp[0], fresh.crustal_amp[0])
    ctx.check_eq("site term", c.site_term[0], fresh.site_term[0])
    b = seen["bounds"]
    if not source:
        ctx.check_eq("fixed source low", b[n - 1][0] * old[-1][1], 1)
        ctx.check_eq("fixed source high", b[n - 1][1] * old[-1][1], 1)
    for i in range(n - (not source)):
        ctx.check(f"free{i}", b[i][0] < b[i][1])
    ctx.check("sizes", len(seen["x0"]) == n + n * thick + atten and len(seen["bounds"]) == len(seen["x0"]))
    ctx.check("finite error", not (seen["err"][0] != seen["err"][0]))
    ctx.check_ge("error", seen["err"][0], 0)
    if own:
        ctx.check_eq("no error", seen["start"], 0)
    else:
        # the misfit is that of the requested quantity
        ctx.assume(np.abs(before - target) > 0.01)
        ctx.check_ge("misfit", seen["start"], 1e-9)
