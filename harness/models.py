"""Empirical nonlinear soil models (C18) and the Wang & Stokoe model (C35)."""

from ._common import UW, harness

ATM = 1000.0 / 101325.0  # kPa to atm
STRESS = (5.0, 3000.0)


def strain_grid(ctx, n, name="g", lo=1e-6, hi=0.05):
    """n increasing symbolic shear strains (decimal)"""
    g = ctx.reals(name, n, lo, hi)
    for a, b in zip(g, g[1:]):
        ctx.assume(a < b)
    return g


def admissible(ctx, st, n, strict=True):
    """values between 0 and 1, G/Gmax decreasing and damping non-decreasing in strain"""
    g, d = st.mod_reduc.values, st.damping.values
    for i in range(n):
        ctx.check(f"G{i}>0", g[i] > 0)
        ctx.check(f"G{i}<=1", g[i] <= 1)
        if i:
            ctx.check(f"G{i} decreasing", g[i] < g[i - 1] if strict else g[i] <= g[i - 1], whole=True)
            ctx.check_le(f"D{i} non-decreasing", d[i - 1], d[i], whole=True)


def masing(np, s, ref, curv, scale, g):
    """modified Masing damping of the modified hyperbolic model [decimal]"""
    s, r = 100 * s, 100 * ref
    a1 = 100 / np.pi * (4 * (s - r * np.log((s + r) / r)) / (s**2 / (s + r)) - 2)
    c = (
        -1.1143 * curv**2 + 1.8618 * curv + 0.2523,
        0.0805 * curv**2 - 0.0710 * curv - 0.0095,
        -0.0005 * curv**2 + 0.0002 * curv + 0.0003,
    )
    return scale * (c[0] * a1 + c[1] * a1**2 + c[2] * a1**3) * g**0.1 / 100


def build(ctx, model, strains, dmin=None):
    """(soil type, reference strain, curvature, masing scale, minimum damping) of a model
    with symbolic index properties"""
    np, site = ctx.np, ctx.ps.site
    kw = dict(strains=ctx.arr(strains), unit_wt=18.0, name="m")
    if dmin is not None:
        kw["damping_min"] = dmin
    p = ctx.real("p", *STRESS)
    s = p * ATM
    if model == "darendeli":
        pi, ocr, f, n = ctx.real("pi", 0.0, 100.0), ctx.real("ocr", 1.0, 16.0), ctx.real("f", 0.04, 100.0), ctx.real("N", 1.0, 1000.0)
        st = site.DarendeliSoilType(plas_index=pi, ocr=ocr, stress_mean=p, freq=f, num_cycles=n, **kw)
        ref = (0.0352 + 0.0010 * pi * ocr**0.3246) * s**0.3483 / 100
        mn = (0.8005 + 0.0129 * pi * ocr**-0.1069) * s**-0.2889 * (1 + 0.2919 * np.log(f)) / 100
        return st, ref, 0.9190, 0.6329 - 0.00566 * np.log(n), mn
    if model == "menq":
        cu, d50, n = ctx.real("cu", 1.0, 60.0), ctx.real("d50", 0.05, 50.0), ctx.real("N", 1.0, 1000.0)
        st = site.MenqSoilType(coef_unif=cu, diam_mean=d50, stress_mean=p, num_cycles=n, **kw)
        ref = 0.12 * cu**-0.6 * s ** (0.5 * cu**-0.15) / 100
        mn = 0.55 * cu**0.1 * d50**-0.3 * s**-0.08 / 100
        return st, ref, 0.86 + 0.1 * np.log10(s), 0.6329 - 0.00566 * np.log(n), mn
    cu = ctx.real("cu", 1.0, 100.0) if model == "rollins-cu" else None
    n = ctx.real("N", 1.0, 1000.0)
    st = site.RollinsEtAlSoilType(coef_unif=cu, stress_mean=p, num_cycles=n, **kw)
    ref = (0.0039 * p**0.42 if cu is None else 0.0046 * cu**-0.197 * p**0.52) / 100
    return st, ref, 0.84, 0.53 - 0.0057 * np.log(n), 0.01


MH = ["darendeli", "menq", "rollins", "rollins-cu"]


@harness("C18", quick=[dict(model=m, n=3) for m in MH], thorough=[dict(model=m, n=n) for m in MH for n in (3, 5)], budget=100)
def modified_hyperbolic(ctx, model, n):
    """arbitrary index properties (mean stress 5-3000 kPa, PI 0-100, OCR 1-16, 0.04-100 Hz,
    1-1000 cycles, Cu 1-100) and increasing strains: curves follow the published modified
    hyperbolic equations, minimum damping from the model or given; the damping is the largest
    Masing damping up to the strain plus the minimum damping"""
    np = ctx.np
    s = strain_grid(ctx, n, hi=0.3)
    given = ctx.flag("dmin given")
    dm = ctx.real("dm", 0.0, 0.1) if given else None
    st, ref, curv, scale, mn = build(ctx, model, s, dm)
    mn = dm if given else mn
    ctx.check_eq("reference strain", st.strain_ref, ref)
    run = None
    for i in range(n):
        g = 1 / (1 + (s[i] / ref) ** curv)
        ctx.check_eq(f"G{i}", st.mod_reduc.values[i], g)
        m = masing(np, s[i], ref, curv, scale, g)
        # the damping equals a running maximum: it never decreases
        run = m if run is None else np.maximum(run, m)
        ctx.check_eq(f"D{i}", st.damping.values[i], run + mn)
        ctx.check_eq(f"strain{i}", st.mod_reduc.strains[i], s[i])
        ctx.check_eq(f"strain_d{i}", st.damping.strains[i], s[i])


@harness("C18", quick=[dict(model=m) for m in MH], budget=100)
def hyperbolic_shape(ctx, model):
    """G/Gmax lies in (0, 1), decreases with strain and is 1/2 at the reference strain"""
    s = strain_grid(ctx, 2, hi=0.3)
    st, ref, curv, _, _ = build(ctx, model, s)
    g = st.mod_reduc.values
    for i in range(2):
        ctx.check(f"G{i}>0", g[i] > 0)
        ctx.check(f"G{i}<=1", g[i] <= 1)
    if model == "menq":
        # positive curvature only: the regression gives less than zero at negligible stress
        ctx.check("curvature", st.curvature > 0)
    ctx.check("decreasing", g[1] < g[0], whole=True)
    st2, ref2, _, _, _ = build(ctx, model, [ref])
    ctx.check_eq("half", st2.mod_reduc.values[0], 0.5)


@harness("C18", quick=[dict(model="darendeli"), dict(model="menq")])
def damping_array(ctx, model):
    """an array of minimum dampings gives one damping column each"""
    s = strain_grid(ctx, 2, hi=0.3)
    dm = ctx.reals("dm", 2, 0.0, 0.1)
    both, *_ = build(ctx, model, s, ctx.arr(dm))
    ctx.check("shape", both.damping.values.shape == (2, 2))
    for j in range(2):
        one, *_ = build(ctx, model, s, dm[j])
        for i in range(2):
            ctx.check_eq(f"D{i}{j}", both.damping.values[i, j], one.damping.values[i])
    ctx.check("G 1d", both.mod_reduc.values.shape == (2,))


@harness("C18", quick=[dict(n=3, coeffs=False), dict(n=2, coeffs=True)], thorough=[dict(n=5, coeffs=False), dict(n=3, coeffs=True)], budget=100)
def two_param(ctx, n, coeffs):
    """two-parameter modified hyperbolic model, default or arbitrary coefficients"""
    np, site = ctx.np, ctx.ps.site
    s = strain_grid(ctx, n)
    p = ctx.real("p", *STRESS)
    sa = p * ATM
    c = None
    v = dict(a=1.04, b1=0.438, b2=-0.007, g1=0.011, g2=0.318, d0=1.47, d1=-0.2, d=13.125, c=1.187, gd1=0.11, gd2=0.23)
    if coeffs:
        box = dict(a=(0.5, 2), b1=(0.3, 1.2), b2=(-0.01, 0.01), g1=(0.001, 0.1), g2=(0.1, 0.6), d0=(0.3, 3), d1=(-0.4, -0.01), d=(10, 25), c=(0.5, 2), gd1=(0.01, 0.3), gd2=(0.1, 0.6))
        v = {k: ctx.real("c_" + k, *b) for k, b in box.items()}
        c = site.TwoParamModifiedHyperbolicCoeffs(**v)
    st = site.TwoParamModifiedHyperbolicSoilType("m", 18.0, p, ctx.arr(s), c)
    ref = v["g1"] * sa ** v["g2"] / 100
    refd = v["gd1"] * sa ** v["gd2"] / 100
    dmin = v["d0"] * sa ** v["d1"]
    for i in range(n):
        ctx.check_eq(f"G{i}", st.mod_reduc.values[i], 1 / (1 + (s[i] / ref) ** v["a"]) ** (v["b1"] + v["b2"] * sa))
        t = (s[i] / refd) ** v["c"]
        ctx.check_eq(f"D{i}", st.damping.values[i], (v["d"] * t + dmin) / (1 + t) / 100)
        ctx.check_eq(f"strain{i}", st.mod_reduc.strains[i], s[i])
    ctx.check("stress kept", st.unit_wt == 18.0 and st.name == "m")


@harness("C18", quick=[dict()], budget=100)
def two_param_shape(ctx):
    """default coefficients: 0 < G/Gmax <= 1 decreasing, damping increasing from its minimum
    towards 13.1 % (mean stress up to 1000 kPa)"""
    site = ctx.ps.site
    s = strain_grid(ctx, 2)
    p = ctx.real("p", 5.0, 1000.0)
    st = site.TwoParamModifiedHyperbolicSoilType("m", 18.0, p, ctx.arr(s))
    admissible(ctx, st, 2)
    dmin = 1.47 * (p * ATM) ** -0.2 / 100
    for i in range(2):
        ctx.check_le(f"above minimum{i}", dmin, st.damping.values[i])
        ctx.check_le(f"below maximum{i}", st.damping.values[i], 0.13125)


@harness("C18", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=4)], budget=100)
def alemu(ctx, n):
    """Alemu et al. model within its stated range (PI 0-32, p' 10-125 kPa, OCR 1-9.1)"""
    site = ctx.ps.site
    s = strain_grid(ctx, n)
    pi, p, ocr, fc = ctx.real("pi", 0.0, 32.0), ctx.real("p", 10.0, 125.0), ctx.real("ocr", 1.0, 9.1), ctx.real("fc", 0.5, 1.0)
    st = site.AlemuEtAlSoilType(18.0, "m", pi, ocr, p, fc, ctx.arr(s))
    sr = p * ATM
    ref = (0.166 * ocr**-1.678 * sr**0.196 + 0.025 * (pi + 1) ** 0.675) / 100
    dmin = (3.64e-4 * ocr * (pi + 1) + 0.012 * fc) / sr
    refd = (ocr**-0.381 * sr**0.853 + 0.021 * pi) ** 1.249 / 100
    for i in range(n):
        ctx.check_eq(f"G{i}", st.mod_reduc.values[i], 1 / (1 + (s[i] / ref) ** 0.905) ** 1.373)
        r = s[i] / refd
        ctx.check_eq(f"D{i}", st.damping.values[i], dmin + 0.29805 * r / (1 + r) ** 0.680)
        ctx.check_le(f"above minimum{i}", dmin, st.damping.values[i])
    g = st.mod_reduc.values
    for i in range(n):
        ctx.check(f"G{i} in (0,1]", (g[i] > 0) & (g[i] <= 1))
        if i:
            ctx.check(f"G{i} decreasing", g[i] < g[i - 1], whole=True)


@harness("C18", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], budget=100)
def kishida(ctx, n):
    """organic soils: unit weight from the model or given, reference strain, modulus reduction
    of one at the first strain, damping from the modulus reduction"""
    np, site = ctx.np, ctx.ps.site
    s = strain_grid(ctx, n)
    sv, oc = ctx.real("sv", 5.0, 1000.0), ctx.real("oc", 0.0, 100.0)
    given = ctx.flag("unit weight given")
    uw = ctx.real("uw", *UW) if given else None
    st = site.KishidaSoilType("m", uw, sv, oc, 1, ctx.arr(s))
    x2, x3 = np.log(sv), 2 / (1 + np.exp(oc / 23))
    ctx.check_eq("unit weight", st.unit_wt, uw if given else np.exp(-0.112 + 0.038 * x2 + 0.360 * x3) * 9.80665)
    ctx.check_eq("first", st.mod_reduc.values[0], 1)
    ref = np.exp(-1.41 - 0.950 * (x3 - 0.5))  # percent

    def lng(sp):
        x1 = np.log(sp + ref)
        den = np.log(1 / ref + sp / ref)
        k = (np.log(ref) + 2.5) / den
        return (
            5.11 - 0.729 * x1 + (1 - 0.37 * 0.5 * (1 + k)) * x2 - 0.693 * x3
            + 0.37 * 0.5 / den * (x1 + 2.5) * (x2 - 4)
            - 0.37 * (1 + k) * (x2 - 4) * (x3 - 0.5)
            + 0.37 / den * (x1 + 2.5) * (x2 - 4) * (x3 - 0.5)
        )

    for i in range(n):
        ctx.check(f"G{i}>0", st.mod_reduc.values[i] > 0)
        ctx.check_eq(f"strain{i}", st.mod_reduc.strains[i], s[i])
    for i in range(1, n):
        ctx.check_eq(f"G{i}", st.mod_reduc.values[i], np.exp(lng(100 * s[i]) - lng(100 * s[0])))
    # damping at the first point (G/Gmax of one)
    x1 = np.log(0.103)
    d0 = np.exp(2.86 + 0.571 * x1 - 0.103 * x2 - 0.141 * x3 + 0.0419 * (x1 + 1) * (x2 - 4) - 0.240 * (x2 - 4) * (x3 - 0.5)) / 100
    ctx.check_eq("D0", st.damping.values[0], d0)


# documented values of what is left out
DEFAULTS = {
    "DarendeliSoilType": dict(plas_index=(0, 0.0, 100.0), ocr=(1, 1.0, 16.0), stress_mean=(101.3, *STRESS), freq=(1, 0.04, 100.0), num_cycles=(10, 1.0, 1000.0)),
    "MenqSoilType": dict(coef_unif=(10, 1.0, 60.0), diam_mean=(5, 0.05, 50.0), stress_mean=(101.3, *STRESS), num_cycles=(10, 1.0, 1000.0)),
    "RollinsEtAlSoilType": dict(stress_mean=(101.3, *STRESS), num_cycles=(10, 1.0, 1000.0), damping_min=(0.01, 0.0, 0.1)),
    "AlemuEtAlSoilType": dict(plas_index=(0, 0.0, 32.0), ocr=(1, 1.0, 9.1), stress_mean=(101.3, 10.0, 125.0), fines_cont=(1, 0.5, 1.0)),
    "TwoParamModifiedHyperbolicSoilType": dict(stress_mean=(101.3, *STRESS)),
    "KishidaSoilType": dict(stress_vert=(101.3, 5.0, 1000.0), organic_content=(10, 0.0, 100.0), lab_consol_ratio=(1, 1.0, 1.0)),
}


@harness("C18", quick=[dict(model=m) for m in DEFAULTS], budget=60)
def defaults(ctx, model):
    """an index property that is left out has its documented value, whatever the others are (each
    one left out, all left out); the curves start at the given strains and keep the given name"""
    cls, props = getattr(ctx.ps.site, model), DEFAULTS[model]
    out = ctx.choice("left out", sorted(props) + ["all"])
    s = ctx.arr(strain_grid(ctx, 2))
    given = {n: ctx.real(n, lo, hi) if hi > lo else lo for n, (_, lo, hi) in props.items() if out not in ("all", n)}
    a = cls(name="given name", unit_wt=18.0, strains=s, **given)
    b = cls(name="given name", unit_wt=18.0, strains=s, **{n: given.get(n, d) for n, (d, _, _) in props.items()})
    ctx.check_eq("mod_reduc", list(a.mod_reduc.values), list(b.mod_reduc.values))
    k = 1 if model == "KishidaSoilType" else 2  # interpolated beyond the first strain
    ctx.check_eq("damping", list(a.damping.values[:k]), list(b.damping.values[:k]))
    ctx.check("name", model == "KishidaSoilType" or a.name == "given name")


GRID = [10 ** (-6 + 4.5 * i / 19) for i in range(20)]


@harness("C18", quick=[dict(model=m) for m in DEFAULTS if m != "KishidaSoilType"], budget=60)
def default_strains(ctx, model):
    """curves without given strains have 20 strains from 1e-6 to 10^-1.5 in equal ratios, and the
    values the model gives at them"""
    cls, props = getattr(ctx.ps.site, model), DEFAULTS[model]
    given = {n: ctx.real(n, lo, hi) if hi > lo else lo for n, (_, lo, hi) in props.items()}
    a = cls(name="m", unit_wt=18.0, **given)
    ctx.check("number", len(a.mod_reduc.strains) == len(a.damping.strains) == 20)
    ctx.check_eq("strains", list(a.mod_reduc.strains), GRID, rtol=1e-9)
    ctx.check_eq("strains of damping", list(a.damping.strains), GRID, rtol=1e-9)
    b = cls(name="m", unit_wt=18.0, strains=GRID, **given)
    for i in (0, 19):
        ctx.check_eq(f"G{i}", a.mod_reduc.values[i], b.mod_reduc.values[i])


@harness("C18", quick=[dict()])
def plain_defaults(ctx):
    """a soil type or layer described by less: no damping, no weight, no name; soil types of
    another kind or with other properties are not equal"""
    site = ctx.ps.site
    uw = ctx.real("uw", *UW)
    st = site.SoilType()
    ctx.check("soil", st.name == "" and st.unit_wt == 0 and st.mod_reduc is None and st.damping == 0 and st.damping_min == 0)
    a, b = site.SoilType("a", uw, None, 0.02), site.SoilType("a", uw, None, 0.02)
    ctx.check("equal", bool(a == b))
    ctx.check("weight", not (a == site.SoilType("a", uw + 1, None, 0.02)))
    ctx.check("name", not (a == site.SoilType("b", uw, None, 0.02)))
    ctx.check("other", not (a == "a"))

    class Other(site.SoilType):
        pass

    ctx.check("kind", not (a == Other("a", uw, None, 0.02)))


# C35 ---------------------------------------------------------------------------
LEVELS = {
    "clean_sand_and_gravel": {
        "gmax_model": ["stress_mean", "void_ratio", "diam_50", "coef_unif", "fines_cont"],
        "ggmax_model": ["stress_mean", "void_ratio", "coef_unif", "fines_cont"],
        "dmin_model": ["stress_mean", "fines_cont", "water_cont", "void_ratio", "diam_50"],
        "damping_model": ["stress_mean", "void_ratio", "fines_cont", "coef_unif"],
    },
    "nonplastic_silty_sand": {
        "gmax_model": ["stress_mean", "void_ratio", "water_cont"],
        "ggmax_model": ["stress_mean", "void_ratio", "fines_cont"],
        "dmin_model": ["stress_mean", "void_ratio", "fines_cont"],
        "damping_model": ["stress_mean", "void_ratio", "fines_cont"],
    },
    "clayey_soil": {
        "gmax_model": ["stress_mean", "void_ratio", "ocr", "fines_cont", "plas_index"],
        "ggmax_model": ["stress_mean", "void_ratio", "fines_cont", "ocr", "plas_index"],
        "dmin_model": ["stress_mean", "void_ratio", "plas_index", "fines_cont"],
        "damping_model": ["stress_mean", "water_cont", "plas_index", "fines_cont"],
    },
}
BOX = {
    "clean_sand_and_gravel": dict(stress_mean=(10, 2000), void_ratio=(0.4, 1.2), coef_unif=(1.1, 50), fines_cont=(0, 12), diam_50=(0.1, 20), water_cont=(0.5, 24)),
    "nonplastic_silty_sand": dict(stress_mean=(10, 2000), void_ratio=(0.3, 1.2), fines_cont=(12, 100), water_cont=(1, 40)),
    "clayey_soil": dict(stress_mean=(60, 2000), void_ratio=(0.3, 1.5), ocr=(1, 10), fines_cont=(12, 100), plas_index=(1, 50), water_cont=(20, 60)),
}
PCT = ("fines_cont", "plas_index", "water_cont")


def hyper(np, x, ref, a, b):
    return 1 / (1 + (x / ref) ** a) ** b


def wang_gmax(np, group, k, s, e=None, fc=None, cu=None, d=None, w=None, pi=None, ocr=None):
    if group == "clean_sand_and_gravel":
        return [
            lambda: 108.4 * s**0.51,
            lambda: 67.5 * e**-0.86 * s**0.5,
            lambda: 66.5 * e ** (-0.75 - (0.009 * d) ** 1.58) * s**0.51,
            lambda: 64.3 * cu**-0.21 * e ** (-1.08 - (0.09 * d) ** 0.51) * s ** (0.47 * cu**0.06),
            lambda: 63.9 * cu**-0.21 * e ** (-1.12 - (0.09 * d) ** 0.54) * s ** (0.48 * cu**0.08 - 1.03 * fc),
        ][k]()
    if group == "nonplastic_silty_sand":
        return [lambda: 89.1 * s**0.51, lambda: 59.2 * e**-0.74 * s**0.51, lambda: 84.8 * e**-0.53 * (1 - 1.32 * w) * s**0.52][k]()
    return [
        lambda: 77.2 * s**0.48,
        lambda: 52.3 * e**-1.08 * s**0.4,
        lambda: 18.9 * e**-0.97 * (4.5 + ocr) ** 0.54 * s**0.48,
        lambda: 34 * e**-0.8 * (3.13 + ocr) ** 0.53 * (1 - 0.46 * fc) * s**0.51,
        lambda: 232.9 * (1 + 0.96 * e) ** -2.42 * (1.92 + ocr) ** (0.27 + 0.46 * pi) * (1 - 0.44 * fc) * s**0.49,
    ][k]()


def wang_ggmax(np, group, k, s, e=None, fc=None, cu=None, d=None, w=None, pi=None, ocr=None):
    """a, b, reference strain [percent]"""
    if group == "clean_sand_and_gravel":
        return [
            lambda: (0.729, 0.985, 0.068 * s**0.4),
            lambda: (0.804, 0.882, (0.13 * e**0.545 - 0.043) * s**0.45),
            lambda: (0.834, 0.839, (0.05 * e ** (0.1 * cu) + 0.011) * s**0.45),
            lambda: (0.834 + fc, 0.844 - 1.897 * fc, (0.048 * e ** (0.089 * cu) + 0.008) * s**0.4),
        ][k]()
    if group == "nonplastic_silty_sand":
        return [
            lambda: (1.04, 0.438 - 0.007 * s, 0.011 * s**0.318),
            lambda: (1.139 * np.exp(0.093 * e), 0.475 - 0.007 * s, (0.029 * e - 0.003) * s**0.335),
            lambda: ((1.495 * e + 3.079 * fc) ** 0.121, 0.486 - 0.006 * s, (0.031 * e - 0.003) * s ** (0.405 - 0.193 * fc)),
        ][k]()
    return [
        lambda: (1.364, 0.28, 0.015 * s**0.205),
        lambda: (1.185, 0.475, 0.035 * e * s**0.276),
        lambda: (0.966 + 0.378 * fc, 0.596 - 0.207 * fc, (0.031 * e + 0.004 * fc) * s**0.25),
        lambda: (0.972 + 0.419 * fc, 0.571 - 0.2 * fc, (0.025 * e + 0.0015 * fc) * (s + 0.375 * ocr) ** 0.358),
        lambda: (0.896 + 0.412 * fc + 0.534 * pi, 0.586 - 0.098 * e - 0.135 * fc, (0.02 * e + 0.004 * fc) * (s + 0.42 * ocr) ** (0.447 - 0.27 * pi)),
    ][k]()


def wang_dmin(np, group, k, s, e=None, fc=None, cu=None, d=None, w=None, pi=None, ocr=None):
    """percent"""
    if group == "clean_sand_and_gravel":
        return [
            lambda: 0.77 * s**-0.03,
            lambda: 0.55 * (1 + 29.03 * fc) * s**-0.13,
            lambda: 0.64 * (0.26 - w) ** 0.11 * (1 + 32.8 * fc) * s**-0.12,
            lambda: 0.55 * (1 - w) ** (-12.49 + 19.45 * e) * (1 + 23.44 * fc) * s**-0.14,
            lambda: 0.6 * (0.99 + w) ** (7.45 - 15.23 * e + 4.29 * d) * (1 + 21.17 * fc) * s**-0.14,
        ][k]()
    if group == "nonplastic_silty_sand":
        return [
            lambda: 1.47 * s**-0.2,
            lambda: 39.11 * (0.44 * e) ** (4.32 * e) * s**-0.19,
            lambda: 52.16 * (0.41 * e) ** (0.81 * fc + 5.2 * e) * (1 + 5.35 * fc) * s**-0.19,
        ][k]()
    return [
        lambda: 2.55 * s**-0.11,
        lambda: 7.62 * 13.48**-e * s**-0.29 + 0.72**-e,
        lambda: 7.29 * 8 ** (-e - 3.31 * pi) * (1 + 148 * pi**1.95) * s**-0.2 + (0.5 * pi) ** (2.54 - 1.8 * e),
        lambda: 4.86 * (1.99 + fc) ** (-1.91 * e - 6.5 * pi) * (1 + 106.75 * pi**1.64) * s**-0.19 + (0.46 * pi) ** (1.73 - 1.34 * e),
    ][k]()


def wang_damping(np, group, k, s, e=None, fc=None, cu=None, d=None, w=None, pi=None, ocr=None):
    """c, d, reference strain [percent]"""
    if group == "clean_sand_and_gravel":
        return [
            lambda: (0.93, 15.64, 0.09 * s**0.32),
            lambda: (1.08 * np.exp(0.62 - 0.73 * e), 16.39, 0.09 * s**0.39),
            lambda: (1.02 * np.exp(0.56 - 0.72 * e), 21.17, 0.13 * (s + 17.94 * fc) ** (0.45 - fc)),
            lambda: (0.93 * np.exp(0.34 - 0.8 * e), 18.13, 0.13 * cu**-0.31 * (s + 22.04 * fc) ** (0.47 - fc)),
        ][k]()
    if group == "nonplastic_silty_sand":
        return [
            lambda: (1.187, 13.125, 0.045 * s**0.293),
            lambda: (1.38 * np.exp(0.25 * e), 12.09, 0.0066 * (s + 5.79 * e) ** 1.01),
            lambda: (1.39 * np.exp(0.27 * e), 12.13, 0.0025 * (s + 5.73 * e + 9.17 * fc) ** (1.47 - 0.52 * fc)),
        ][k]()
    return [
        lambda: (1.12, 19.47, 0.11 * s**0.23),
        lambda: (1.36, 15.16, 0.29 * (0.017 * s + w) ** (1.15 + w)),
        lambda: (1.48 ** (0.53 + pi), 15.61, 0.07 * (0.06 * s + 2.69 * w) ** (1.06 + w - pi)),
        lambda: ((1.91 * fc) ** (1.62 * pi), 21.7, 0.11 * (0.12 * s + 5.29 * w - fc) ** (1.45 - pi + w - 1.09 * fc)),
    ][k]()


SHORT = dict(void_ratio="e", fines_cont="fc", coef_unif="cu", diam_50="d", water_cont="w", plas_index="pi", ocr="ocr")


def wang_props(ctx, group, names):
    """symbolic index properties (percent where the model takes percent), and the arguments of
    the reference equations"""
    kw, dec = {}, {}
    for n in names:
        lo, hi = BOX[group][n]
        kw[n] = ctx.real(n, float(lo), float(hi))
        if n == "stress_mean":
            dec["s"] = kw[n] * ATM
        else:
            dec[SHORT[n]] = kw[n] / 100 if n in PCT else kw[n]
    if group == "clayey_soil" and {"water_cont", "fines_cont"} <= set(names):
        ctx.assume(0.12 * dec["s"] + 5.29 * dec["w"] - dec["fc"] > 0.01)
    return kw, dec


def level(required, given):
    k = -1
    for r in required:
        if r not in given:
            break
        k += 1
    return k


GROUPS = list(LEVELS)


@harness("C35", quick=[dict(group=g) for g in GROUPS], budget=150, thorough_budget=300, max_paths=600, weight=3)
def soil(ctx, group):
    """every subset of index properties (mean stress always given), with and without a given
    minimum damping: the curves are those of the most detailed equations whose inputs, in the
    documented order, are all given"""
    np, site = ctx.np, ctx.ps.site
    names = ["stress_mean"] + [n for n in BOX[group] if n != "stress_mean" and ctx.flag(n)]
    kw, dec = wang_props(ctx, group, names)
    given = ctx.flag("dmin given")
    dm = ctx.real("dm", 0.0, 0.05) if given else None
    s = [ctx.real("g", 1e-6, 0.05)]
    st = site.WangSoilType(group, "m", 18.0, dm, ctx.arr(s), **kw)
    lv = LEVELS[group]
    a, b, ref = wang_ggmax(np, group, level(lv["ggmax_model"], names), **dec)
    ctx.check_eq("G", st.mod_reduc.values[0], hyper(np, 100 * s[0], ref, a, b))
    if not given:
        dm = wang_dmin(np, group, level(lv["dmin_model"], names), **dec) / 100
    c, dmax, ref = wang_damping(np, group, level(lv["damping_model"], names), **dec)
    r = (100 * s[0] / ref) ** c
    ctx.check_eq("D", st.damping.values[0], (dmax / 100 * r + dm) / (r + 1))
    ctx.check("group", st.soil_group == group)


@harness("C35", quick=[dict(group=g) for g in GROUPS], budget=100, thorough_budget=300, max_paths=600)
def direct(ctx, group):
    """the model equations called directly: small-strain modulus, minimum damping and damping
    with the model's own minimum damping"""
    np, W = ctx.np, ctx.ps.site.WangSoilType
    names = ["stress_mean"] + [n for n in BOX[group] if n != "stress_mean" and ctx.flag(n)]
    kw, dec = wang_props(ctx, group, names)
    lv = LEVELS[group]
    ctx.check_eq("gmax", W.calc_shear_mod(group, **kw), wang_gmax(np, group, level(lv["gmax_model"], names), **dec))
    dm = wang_dmin(np, group, level(lv["dmin_model"], names), **dec) / 100
    ctx.check_eq("dmin", W.calc_damping_min(group, **kw), dm)
    s = ctx.real("g", 1e-6, 0.05)
    c, dmax, ref = wang_damping(np, group, level(lv["damping_model"], names), **dec)
    r = (100 * s / ref) ** c
    ctx.check_eq("D", W.calc_damping(ctx.arr([s]), group, **kw)[0], (dmax / 100 * r + dm) / (r + 1))


@harness("C35", quick=[dict(group=g) for g in GROUPS], budget=100, max_paths=100)
def shape(ctx, group):
    """stress only, and all index properties with b > 0: G/Gmax in (0, 1] and decreasing,
    damping between the minimum and the largest damping of the model and non-decreasing"""
    np, site = ctx.np, ctx.ps.site
    names = ["stress_mean"] + (list(BOX[group])[1:] if ctx.flag("all") else [])
    kw, dec = wang_props(ctx, group, names)
    s = strain_grid(ctx, 2)
    dm = ctx.real("dm", 0.0, 0.1)
    st = site.WangSoilType(group, "m", 18.0, dm, ctx.arr(s), **kw)
    g, d = st.mod_reduc.values, st.damping.values
    a, b, ref = wang_ggmax(np, group, level(LEVELS[group]["ggmax_model"], names), **dec)
    _, dmax, _ = wang_damping(np, group, level(LEVELS[group]["damping_model"], names), **dec)
    ctx.assume((b > 0) & (a > 0))
    for i in range(2):
        ctx.check(f"G{i} in (0,1]", (g[i] > 0) & (g[i] <= 1))
        ctx.check_le(f"D{i} min", dm, d[i])
        ctx.check_le(f"D{i} max", d[i], dmax / 100)
    ctx.check_le("G decreasing", g[1], g[0], whole=True)
    if len(names) == 1:
        ctx.check_le("D increasing", d[0], d[1])


@harness("C35", quick=[dict(group=g) for g in GROUPS])
def default_strains_wang(ctx, group):
    """curves without given strains have 20 strains from 1e-6 to 10^-1.5 in equal ratios"""
    W = ctx.ps.site.WangSoilType
    p, dm = ctx.real("stress_mean", 60, 2000), ctx.real("dm", 0.0, 0.05)
    a = W(group, "m", 18.0, dm, stress_mean=p)
    ctx.check("number", len(a.mod_reduc.strains) == len(a.damping.strains) == 20)
    ctx.check_eq("strains", list(a.mod_reduc.strains), GRID, rtol=1e-9)
    ctx.check_eq("strains of damping", list(a.damping.strains), GRID, rtol=1e-9)
    b = W(group, "m", 18.0, dm, ctx.arr(GRID), stress_mean=p)
    for i in (0, 19):
        ctx.check_eq(f"G{i}", a.mod_reduc.values[i], b.mod_reduc.values[i])
        ctx.check_eq(f"D{i}", a.damping.values[i], b.damping.values[i])
    ctx.check("name", a.name == "m")


@harness("C35", quick=[dict()])
def required(ctx):
    """mean stress is required and an unknown soil group is refused"""
    W = ctx.ps.site.WangSoilType
    _, e = ctx.call(W, "clayey_soil", "m", void_ratio=ctx.real("e", 0.3, 1.0), strains=[1e-4])
    ctx.check("stress required", isinstance(e, ValueError))
    _, e = ctx.call(W, "gravel", "m", stress_mean=ctx.real("p", 10, 100), strains=[1e-4])
    ctx.check("unknown group", e is not None)
