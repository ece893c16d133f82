from ._common import DAMP, G, THICK, UW, VEL, harness, linear_profile


# C13 ---------------------------------------------------------------------------
@harness("C13", quick=[dict(n=2), dict(n=4), dict(n=10)], thorough=[dict(n=n) for n in (2, 4, 6)])
def helper_mean_stress(ctx, n):
    """calc_mean_eff_stress: n layers, arbitrary thickness, unit weight, water table, K0
    (unit weight of water 9.81 in this helper)"""
    np = ctx.np
    h = ctx.reals("h", n, *THICK)
    uw = ctx.reals("uw", n, 10.0, 30.0)
    wt = ctx.real("wt", 0.0, 3000.0)
    k0 = ctx.real("k0", 0.1, 3.0)
    depths = [0.0]
    for x in h[:-1]:
        depths.append(depths[-1] + x)
    r = ctx.ps.tools.calc_mean_eff_stress(ctx.arr(depths), ctx.arr(uw), wt, k0)
    ctx.check("length", len(r) == n)
    above = 0
    for i in range(n):
        t = h[i] if i < n - 1 else 0
        mid = depths[i] + t / 2
        total = above + uw[i] * t / 2
        pore = 9.81 * np.maximum(mid - wt, 0)
        ctx.check_eq(f"mean{i}", r[i], (total - pore) * (1 + 2 * k0) / 3, atol=1e-9)
        above = above + uw[i] * t


@harness("C13", quick=[dict()])
def helper_default_k0(ctx):
    """default K0 of the helper is 0.5"""
    d = [0.0, ctx.real("h", *THICK)]
    uw = ctx.reals("uw", 2, 10.0, 30.0)
    wt = ctx.real("wt", 0.0, 3000.0)
    a = ctx.ps.tools.calc_mean_eff_stress(ctx.arr(d), ctx.arr(uw), wt)
    b = ctx.ps.tools.calc_mean_eff_stress(ctx.arr(d), ctx.arr(uw), wt, 0.5)
    for x, y in zip(a, b):
        ctx.check_eq("same", x, y)


@harness("C13", quick=[dict()])
def helper_warning(ctx):
    """the helper warns of unit weights outside 10 to 30 kN/m3, which are used all the same"""
    import warnings

    uw = ctx.reals("uw", 2, 0.5, 100.0)
    h = ctx.real("h", *THICK)
    for x in uw:
        # not at the edges themselves
        ctx.assume(abs(x - 10) > 1e-6), ctx.assume(abs(x - 30) > 1e-6)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = ctx.ps.tools.calc_mean_eff_stress(ctx.arr([0.0, h]), ctx.arr(uw), 1e4)
    odd = any([bool(x < 10) or bool(x > 30) for x in uw])
    ctx.check("warned", bool(w) == odd)
    ctx.check_eq("mean", r[0], uw[0] * h / 2 * 2 / 3)


# C23 ---------------------------------------------------------------------------
@harness("C23", quick=[dict(n=3, half=0), dict(n=2, half="sym"), dict(n=12, half=0)], thorough=[dict(n=n, half=h) for n in (2, 3, 5) for h in (0, "sym")])
def site_attenuation(ctx, n, half):
    """site attenuation is the sum of 2 D h / v of the layers"""
    prof = linear_profile(ctx, n, half=half, dmin=True)
    ctx.check_eq("sum", prof.site_attenuation(), sum(2 * l.damping_min * l.thickness / l.initial_shear_vel for l in prof))


EXCL = {
    "none": (None, []),
    "str": ("s1", [1]),
    "list": (["1", "2"], [1, 2]),
    "last": (["3"], [3]),
    "func": ("func", [0, 2]),
    "first": (["s0"], [0]),
}


@harness("C23", quick=[dict(n=4, ex=e) for e in EXCL] + [dict(n=9, ex="list")], thorough=[dict(n=n, ex=e) for e in EXCL for n in (4, 6)])
def adjust_damping(ctx, n, ex):
    """attenuation target above what scattering (an arbitrary value, its estimator is not
    encoded) and the excluded layers take; in place or on a copy"""
    tools = ctx.ps.tools
    prof = linear_profile(ctx, n, dmin=True)
    sc = ctx.real("scatter", 0.0, 0.05)
    ctx.patch(tools, "calc_atten_scatter", lambda p, *a, **k: sc)
    exclude, idx = EXCL[ex]
    if exclude == "func":
        names = {f"s{i}" for i in idx}
        exclude = lambda l: l.soil_type.name in names  # noqa: E731
    inplace = ctx.flag("inplace")
    old = [l.damping_min for l in prof]
    fixed = sum(2 * prof[i].damping_min * prof[i].thickness / prof[i].initial_shear_vel for i in idx)
    target = fixed + sc + ctx.real("extra", 1e-4, 0.2)
    for l in prof:
        l.strain = 1e-3
    # by default the given profile is left alone
    new, s = tools.adjust_damping_values(prof, target, exclude, **({"inplace": True} if inplace else {}))
    ctx.check_eq("scatter", s, sc)
    ctx.check("same object", (new is prof) == inplace)
    ctx.check_eq("target met", new.site_attenuation() + sc, target)
    sel = [i for i in range(n) if i not in idx]
    c = new[sel[0]].damping_min * new[sel[0]].initial_shear_vel
    for i in range(n):
        l = new[i]
        ctx.check_eq(f"v{i}", l.initial_shear_vel, prof[i].initial_shear_vel)
        ctx.check_eq(f"h{i}", l.thickness, prof[i].thickness)
        ctx.check_eq(f"reset{i}", l.damping, l.damping_min)
        if i in idx:
            ctx.check_eq(f"excluded{i}", l.damping_min, old[i])
        else:
            ctx.check_eq(f"Q~Vs{i}", l.damping_min * l.initial_shear_vel, c)
        if not inplace:
            ctx.check_eq(f"source{i}", prof[i].damping_min, old[i])


@harness("C23", quick=[dict(n=3)], thorough=[dict(n=3), dict(n=4)])
def adjust_refused(ctx, n):
    """unreachable targets and empty selections are refused"""
    tools = ctx.ps.tools
    prof = linear_profile(ctx, n, dmin=True)
    sc = ctx.real("scatter", 0.0, 0.05)
    ctx.patch(tools, "calc_atten_scatter", lambda p, *a, **k: sc)
    fixed = 2 * prof[1].damping_min * prof[1].thickness / prof[1].initial_shear_vel
    _, e = ctx.call(tools.adjust_damping_values, prof, (fixed + sc) * ctx.real("f", 0.0, 0.999), ["s1"])
    ctx.check("unreachable", isinstance(e, RuntimeError))
    _, e = ctx.call(tools.adjust_damping_values, prof, 1.0, "s")
    ctx.check("nothing selected", isinstance(e, RuntimeError))




@harness("C23", quick=[dict(n=2, k=2), dict(n=2, k=3)], thorough=[dict(n=2, k=2), dict(n=2, k=3), dict(n=3, k=4)], budget=100)
def scatter(ctx, n, k):
    """the attenuation ascribed to scattering, for k given frequencies: what the slope of the
    linear outcrop-to-surface transfer function exceeds the damping's site attenuation by, at
    least zero; the profile keeps its strains"""
    ps = ctx.ps
    prof = linear_profile(ctx, n, wt=0.0)
    freqs = [2.0, 4.0, 6.0, 8.0][:k]
    before = [l.strain for l in prof]
    calc = ps.propagation.LinearElasticCalculator()
    same = prof.copy()
    calc(ps.motion.Motion(freqs=ctx.arr(freqs)), same, same.location("outcrop", index=-1))
    tf = calc.calc_accel_tf(same.location("outcrop", index=-1), same.location("outcrop", index=0))
    y = [ctx.np.log(ctx.np.abs(t)) for t in tf]
    m = sum(freqs) / k
    slope = sum((f - m) * e for f, e in zip(freqs, y)) / sum((f - m) ** 2 for f in freqs)
    kappa = -slope / ctx.np.pi
    damp = sum(2 * l.damping_min * l.thickness / l.initial_shear_vel for l in prof)
    s = ps.tools.calc_atten_scatter(prof, ctx.arr(freqs))
    ctx.check_ge("not negative", s, 0)
    ctx.check_eq("scatter", s, ctx.np.maximum(kappa - damp, 0), rtol=1e-6, atol=1e-9, cuts=y)
    ctx.check("kept", [l.strain for l in prof] == before)


@harness("C23", quick=[dict(n=2)])
def scatter_freqs(ctx, n):
    """the frequencies used where none are given: 256 of them between 50 and 200 Hz; the linear
    calculation is replaced by one of arbitrary attenuation, whose slope is recovered"""
    ps, np = ctx.ps, ctx.np
    prof = linear_profile(ctx, n, wt=0.0)
    kappa, amp = ctx.real("kappa", 0.0, 0.1), ctx.real("amp", 0.1, 10.0)
    seen = []
    LE = ps.propagation.LinearElasticCalculator

    def tf(self, *a, **k):
        f = self.motion.freqs
        seen.append(f)
        return amp * np.exp(-np.pi * kappa * f)

    ctx.patch(LE, "calc_accel_tf", tf)
    ctx.patch(LE, "__call__", lambda self, motion, *a, **k: setattr(self, "_motion", motion))
    s = ps.tools.calc_atten_scatter(prof)
    damp = sum(2 * l.damping_min * l.thickness / l.initial_shear_vel for l in prof)
    ctx.check_eq("scatter", s, np.maximum(kappa - damp, 0), rtol=1e-6, atol=1e-9)
    f = seen[0]
    ctx.check("count", len(f) == 256)
    for i in range(256):
        ctx.check(f"freq{i}", abs(float(f[i]) - (50 + 150 * i / 255)) < 1e-9)
