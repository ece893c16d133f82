from ._common import DAMP, G, THICK, UW, VEL, harness, linear_curve, linear_profile


# C06 ---------------------------------------------------------------------------
@harness("C06", quick=[dict(model=m) for m in ("seed", "kramer", "dormieux")])
def complex_modulus(ctx, model):
    """one linear layer: arbitrary unit weight, velocity and damping 0..0.95"""
    site = ctx.ps.site
    np = ctx.np
    ctx.patch(site, "COMP_MODULUS_MODEL", model)
    D = ctx.real("D", 0.0, 0.95)
    st = site.SoilType("a", ctx.real("uw", *UW), None, D)
    l = site.Layer(st, ctx.real("h", *THICK), ctx.real("v", *VEL))
    rho = l.density
    ctx.check_eq("density", rho, st.unit_wt / G)
    gm = rho * l.initial_shear_vel**2
    ctx.check_eq("G", l.shear_mod, gm)
    d = np.clip(D, 0, 0.49)
    c = l.comp_shear_mod
    ctx.check_eq("im", c.imag, 2 * gm * d)
    if model == "seed":
        ctx.check_eq("re", c.real, gm)
    elif model == "kramer":
        ctx.check_eq("re", c.real, gm * (1 - d * d))
    else:
        ctx.check_eq("|G*|^2", c.real * c.real + c.imag * c.imag, gm * gm)
        ctx.check_ge("re>0", c.real, 0)
    ctx.check_ge("dissipative", c.imag, 0)
    v = l.comp_shear_vel
    ctx.check_eq("v^2 rho", v * v * rho, c)
    ctx.check("re v>0", v.real > 0)
    ctx.check_ge("im v>=0", v.imag, 0)
    ctx.check_eq("vs", l.shear_vel, l.initial_shear_vel)


@harness("C06", quick=[dict(model="dormieux"), dict(model="seed")], thorough=[dict(model=m) for m in ("seed", "kramer", "dormieux")])
def complex_profile(ctx, model):
    """profile arrays of complex modulus / velocity follow the layers; with strain-compatible values too"""
    site = ctx.ps.site
    ctx.patch(site, "COMP_MODULUS_MODEL", model)
    mr, s, ys = linear_curve(ctx, "mod_reduc", 3, "mr")
    dc, s, ds = linear_curve(ctx, "damping", 3, "dc")
    l0 = site.Layer(site.SoilType("nl", ctx.real("uwn", *UW), mr, dc), 5.0, ctx.real("vn", *VEL))
    base = linear_profile(ctx, 2)
    prof = site.Profile([l0, *[site.Layer(l.soil_type, l.thickness, l.initial_shear_vel) for l in base]], 0)
    g = ctx.real("g", 1e-7, 1.0)
    l0.strain = g
    k0 = ctx.np.clip(l0.damping, 0, 0.49)
    ctx.check_eq("im", l0.comp_shear_mod.imag, 2 * k0 * l0.shear_mod)
    for i, l in enumerate(prof):
        ctx.check_eq("arr G*", prof.comp_shear_mod[i], l.comp_shear_mod)
        ctx.check_eq("arr v*", prof.comp_shear_vel[i], l.comp_shear_vel)
        ctx.check_eq("v*^2", l.comp_shear_vel**2 * l.density, l.comp_shear_mod)


@harness("C06", quick=[dict()])
def unknown_model(ctx):
    """an unknown complex-modulus model is refused"""
    site = ctx.ps.site
    ctx.patch(site, "COMP_MODULUS_MODEL", "other")
    l = linear_profile(ctx, 2)[0]
    _, e = ctx.call(lambda: l.comp_shear_mod)
    ctx.check("refused", isinstance(e, NotImplementedError))


# C07 ---------------------------------------------------------------------------
def nl_layer(ctx, kind, npts=3, dmin=True):
    site = ctx.ps.site
    mr = linear_curve(ctx, "mod_reduc", npts, "mr")[0] if "G" in kind else None
    dc = linear_curve(ctx, "damping", npts, "dc")[0] if "D" in kind else ctx.real("dfix", *DAMP)
    st = site.SoilType("nl", ctx.real("uw", *UW), mr, dc)
    kw = dict(damping_min=ctx.real("dm", *DAMP)) if dmin else {}
    return site.Layer(st, ctx.real("h", *THICK), ctx.real("v", *VEL), **kw), mr, dc


def check_compatible(ctx, tag, l, mr, dc, g, dm):
    gm = l.density * l.initial_shear_vel**2
    ctx.check_eq(tag + "strain", l.strain, g)
    ctx.check_eq(tag + "G", l.shear_mod, gm * (mr(g) if mr is not None else 1))
    if hasattr(dc, "values"):
        ctx.check_eq(tag + "D", l.damping, dm + dc(g) - dc.values[0])
    else:
        ctx.check_eq(tag + "D", l.damping, dm)
    ctx.check_eq(tag + "Gmax", l.initial_shear_mod, gm)
    ctx.check_eq(tag + "reduc", l.shear_mod_reduc * gm, l.shear_mod)
    ctx.check_eq(tag + "tau", l.stress_shear_eff, l.shear_mod * g)


@harness("C07", quick=[dict(kind=k, dmin=d) for k in ("GD", "G", "D", "") for d in (True, False)])
def strain_compatible(ctx, kind, dmin):
    """one layer, curves of three points with arbitrary values (or none), two
    successive arbitrary strains, then reset"""
    l, mr, dc = nl_layer(ctx, kind, dmin=dmin)
    dm = l.damping_min
    if not dmin:
        ctx.check_eq("dmin", dm, dc.values[0] if hasattr(dc, "values") else dc)
    ctx.check_eq("init G", l.shear_mod, l.density * l.initial_shear_vel**2)
    ctx.check_eq("init D", l.damping, dm)
    ctx.check_eq("init v", l.shear_vel, l.initial_shear_vel)
    for k in range(2):
        g = ctx.real(f"g{k}", 1e-7, 1.0)
        l.strain = g
        check_compatible(ctx, f"s{k}.", l, mr, dc, g, dm)
    ctx.check_eq("dm kept", l.damping_min, dm)
    l.reset()
    ctx.check_eq("reset G", l.shear_mod, l.density * l.initial_shear_vel**2)
    ctx.check_eq("reset D", l.damping, dm)


@harness("C07", quick=[dict(kind="GD"), dict(kind="")])
def setters_reset(ctx, kind):
    """setting the initial velocity or the minimum damping restores the small-strain state"""
    l, mr, dc = nl_layer(ctx, kind)
    l.strain = ctx.real("g", 1e-7, 1.0)
    v2 = ctx.real("v2", *VEL)
    l.initial_shear_vel = v2
    ctx.check_eq("v", l.initial_shear_vel, v2)
    ctx.check_eq("G", l.shear_mod, l.density * v2 * v2)
    ctx.check_eq("D", l.damping, l.damping_min)
    l.strain = ctx.real("g", 1e-7, 1.0)
    d2 = ctx.real("d2", *DAMP)
    l.damping_min = d2
    ctx.check_eq("dmin", l.damping_min, d2)
    ctx.check_eq("D2", l.damping, d2)
    ctx.check_eq("G2", l.shear_mod, l.density * v2 * v2)
    g = ctx.real("g2", 1e-7, 1.0)
    l.strain = g
    check_compatible(ctx, "after.", l, mr, dc, g, d2)


@harness("C07", quick=[dict(kind="GD"), dict(kind="G"), dict(kind="D")])
def shared_soil(ctx, kind):
    """two layers that share one soil type: setting the strain of one leaves the other alone"""
    site = ctx.ps.site
    a, mr, dc = nl_layer(ctx, kind)
    b = site.Layer(a.soil_type, 3.0, ctx.real("vb", *VEL), ctx.real("dmb", *DAMP))
    vals = list(dc.values) if hasattr(dc, "values") else None
    g = ctx.real("g", 1e-7, 1.0)
    a.strain = g
    ctx.check_eq("other G", b.shear_mod, b.density * b.initial_shear_vel**2)
    ctx.check_eq("other D", b.damping, b.damping_min)
    h = ctx.real("gb", 1e-7, 1.0)
    b.strain = h
    check_compatible(ctx, "b.", b, mr, dc, h, b.damping_min)
    check_compatible(ctx, "a.", a, mr, dc, g, a.damping_min)
    if vals is not None:
        ctx.check_eq("curve untouched", list(dc.values), vals)


@harness("C07", quick=[dict(kinds="nln"), dict(kinds="ln")], thorough=[dict(kinds="nln"), dict(kinds="ln"), dict(kinds="nnlnn")])
def reset_profile(ctx, kinds):
    """resetting a profile returns every layer of it to its small-strain state"""
    from .discretize import mixed_profile

    prof = mixed_profile(ctx, kinds)
    before = [(l.shear_mod, l.damping, l.initial_shear_vel, l.damping_min, l.thickness, l.depth) for l in prof]
    for i, l in enumerate(prof):
        l.strain = ctx.real(f"g{i}", 1e-7, 1.0)
    prof.reset_layers()
    for i, (l, b) in enumerate(zip(prof, before)):
        ctx.check_eq(f"layer{i}", [l.shear_mod, l.damping, l.initial_shear_vel, l.damping_min, l.thickness, l.depth], list(b))
        ctx.check_eq(f"velocity{i}", l.shear_vel, l.initial_shear_vel)


@harness("C07", quick=[dict(kind="GD"), dict(kind="D")])
def adjusted_curve(ctx, kind):
    """the adjusted damping curve is the curve shifted to the layer's minimum damping"""
    l, mr, dc = nl_layer(ctx, kind)
    rec = l.adjusted_damping_curve
    ctx.check_eq("strains", list(rec.strain), list(dc.strains))
    for i, s in enumerate(dc.strains):
        ctx.check_eq(f"value{i}", rec.damping[i], l.damping_min + dc(s) - dc.values[0])


@harness("C07", quick=[dict()])
def quality(ctx):
    """Q = 1 / (2 D_min); density from unit weight"""
    site = ctx.ps.site
    d = ctx.real("d", 1e-4, 0.49)
    st = site.SoilType("a", ctx.real("uw", *UW), None, d)
    ctx.check_eq("Q", st.quality * 2 * d, 1)
    ctx.check_eq("dmin", st.damping_min, d)
    ctx.check("linear", not st.is_nonlinear)
    c, _, _ = linear_curve(ctx, "damping", 3, "c")
    ctx.check("nonlinear", site.SoilType("b", 18.0, None, c).is_nonlinear)
    ctx.check_eq("dmin curve", site.SoilType("b", 18.0, None, c).damping_min, c.values[0])


@harness("C07", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=4)])
def profile_arrays(ctx, n):
    """n nonlinear layers, a linear one and a half-space, each at its own arbitrary strain: the
    arrays of a profile are the values of its layers in order, and the relative errors those of
    the last change of stiffness and damping"""
    site, np = ctx.ps.site, ctx.np
    layers = []
    for i in range(n):
        mr, dc = linear_curve(ctx, "mod_reduc", 3, f"m{i}")[0], linear_curve(ctx, "damping", 3, f"d{i}")[0]
        ctx.assume(dc.values[0] < 0.49)
        layers.append(site.Layer(site.SoilType(f"nl{i}", ctx.real(f"uwn{i}", *UW), mr, dc), ctx.real(f"hn{i}", *THICK), ctx.real(f"vn{i}", *VEL), ctx.real(f"dmn{i}", 0.5, 0.6)))
    base = linear_profile(ctx, 2)
    prof = site.Profile([*layers, *[site.Layer(l.soil_type, l.thickness, l.initial_shear_vel, l.damping_min) for l in base]], 0)
    for k in range(2):
        for i, l in enumerate(prof):
            l.strain = ctx.real(f"g{k}_{i}", 1e-7, 1.0)
        if k == 0:
            before = [(l.shear_mod, l.damping) for l in prof]
    want = {a: [getattr(l, a) for l in prof] for a in ("damping", "strain", "shear_vel", "unit_wt", "density", "thickness", "depth", "depth_mid", "initial_shear_vel", "travel_time", "max_error")}
    for a, w in want.items():
        got = getattr(prof, a)
        ctx.check(a + " length", len(got) == n + 2)
        ctx.check_eq(a, got, w)
    top = 0
    for i, l in enumerate(prof):
        g = ctx.real(f"g1_{i}", 1e-7, 1.0)
        ctx.check_eq(f"strain {i}", prof.strain[i], g)
        ctx.check_eq(f"travel {i}", prof.travel_time[i] ** 2 * l.shear_mod, l.thickness**2 * l.density)
        ctx.check_eq(f"mid {i}", prof.depth_mid[i], top + l.thickness / 2)
        ctx.check_eq(f"slowness {i}", prof.slowness[i] * l.initial_shear_vel, 1)
        top = top + l.thickness
        if i >= n:
            ctx.check_eq(f"error {i}", prof.max_error[i], 0, atol=1e-7)
            continue
        eg = abs(before[i][0] - l.shear_mod) / l.shear_mod
        ed = abs(before[i][1] - l.damping) / l.damping
        ctx.check_eq(f"error {i}", prof.max_error[i], 100 * np.maximum(eg, ed), atol=1e-7)
    ctx.check("contains", all(l in prof for l in list(prof)))
    other = site.Layer(prof[0].soil_type, prof[0].thickness, prof[0].initial_shear_vel + 1.0)
    ctx.check("not contained", n > 2 or other not in prof)


@harness("C07", quick=[dict(kind="GD"), dict(kind="G"), dict(kind="")])
def damping_curve(ctx, kind):
    """the damping curve adjusted to the layer is the damping of the layer at the strains of the
    curve; a constant damping has the one value of the layer"""
    l, mr, dc = nl_layer(ctx, kind)
    r = l.adjusted_damping_curve
    if "D" not in kind:
        ctx.check("one", len(r.damping) == 1)
        ctx.check_eq("constant", r.damping[0], l.damping_min)
        return
    ctx.check_eq("strains", r.strain, dc.strains)
    for i, s in enumerate(dc.strains):
        l.strain = s
        ctx.check_eq(f"value {i}", r.damping[i], l.damping)


# C17 ---------------------------------------------------------------------------
def curve(ctx, kind, n, sym_strain):
    site = ctx.ps.site
    if sym_strain:
        s = [ctx.real("s0", 1e-8, 1e-5)]
        for i in range(1, n):
            s.append(s[-1] * ctx.real(f"r{i}", 1.5, 50.0))
    else:
        s = [10.0 ** (-8 + 7 * i / (n - 1)) for i in range(n)]
    lo, hi = (-0.2, 1.3) if kind == "mod_reduc" else (-0.1, 0.7)
    y = [ctx.real(f"y{i}", lo, hi) for i in range(n)]
    cls = site.ModulusReductionCurve if kind == "mod_reduc" else site.DampingCurve
    lim = (0.001, 1) if kind == "mod_reduc" else (0, 0.49)
    return cls("c", ctx.arr(s), ctx.arr(y)), s, y, lim


KINDS = ["mod_reduc", "damping"]


@harness("C17", quick=[dict(kind=k, n=n, sym=s) for k in KINDS for n, s in ((3, True), (5, False))],
         thorough=[dict(kind=k, n=n, sym=s) for k in KINDS for n, s in ((3, True), (4, True), (6, False), (12, False))])
def nodes_and_ends(ctx, kind, n, sym):
    """curve of n points: node values, values outside the range, geometric midpoints"""
    c, s, y, lim = curve(ctx, kind, n, sym)
    np = ctx.np
    for i in range(n):
        ctx.check_eq(f"node{i}", c(s[i]), np.clip(y[i], *lim), atol=1e-9)
    ctx.check_eq("below", c(s[0] * ctx.real("b", 1e-2, 1.0)), np.clip(y[0], *lim), atol=1e-9)
    ctx.check_eq("above", c(s[-1] * ctx.real("a", 1.0, 1e3)), np.clip(y[-1], *lim), atol=1e-9)
    ctx.check_eq("tiny", c(0.0), np.clip(y[0], *lim), atol=1e-9)
    for i in range(n - 1):
        ctx.check_eq(f"mid{i}", c(np.sqrt(s[i] * s[i + 1])), np.clip((y[i] + y[i + 1]) / 2, *lim), atol=1e-9)


@harness("C17", quick=[dict(kind=k, n=4) for k in KINDS], thorough=[dict(kind=k, n=n) for k in KINDS for n in (4, 8)], prove_timeout=20)
def between(ctx, kind, n):
    """any strain: the value follows the log-strain line of its segment, clipped to the limits"""
    c, s, y, lim = curve(ctx, kind, n, False)
    np = ctx.np
    g = ctx.real("g", 1e-8, 10.0)
    v = c(g)
    x = np.log(g)
    xs = [np.log(np.float64(t)) for t in s]
    e = y[0]
    for i in range(n - 1):
        t = (x - xs[i]) / (xs[i + 1] - xs[i])
        t = np.clip(t, 0, 1)
        e = e + (y[i + 1] - y[i]) * t
    ctx.check_eq("value", v, np.clip(e, *lim), atol=1e-9)
    ctx.check_ge("lo", v, lim[0])
    ctx.check_le("hi", v, lim[1])


@harness("C17", quick=[dict(kind=k) for k in KINDS])
def setters(ctx, kind):
    """assigning new values or strains takes effect on later evaluations"""
    c, s, y, lim = curve(ctx, kind, 3, False)
    np = ctx.np
    z = [ctx.real(f"z{i}", 0.0, 0.6) for i in range(3)]
    c.values = ctx.arr(z)
    m = np.sqrt(s[0] * s[1])
    ctx.check_eq("values", c(m), np.clip((z[0] + z[1]) / 2, *lim))
    s2 = [t * 3.0 for t in s]
    c.strains = ctx.arr(s2)
    ctx.check_eq("strains", c(np.sqrt(s2[1] * s2[2])), np.clip((z[1] + z[2]) / 2, *lim))
    ctx.check_eq("old node", c(s2[0]), np.clip(z[0], *lim))


@harness("C17", quick=[dict(kind=k) for k in KINDS])
def array_strain(ctx, kind):
    """an array of strains gives the array of the scalar results"""
    c, s, y, lim = curve(ctx, kind, 3, False)
    g = ctx.reals("g", 3, 1e-7, 1.0)
    v = c(ctx.arr(g))
    for i in range(3):
        ctx.check_eq("item", v[i], c(g[i]))


@harness("C17", quick=[dict(kind=k) for k in KINDS])
def limits(ctx, kind):
    """user limits replace the defaults"""
    site = ctx.ps.site
    cls = site.ModulusReductionCurve if kind == "mod_reduc" else site.DampingCurve
    lo = ctx.real("lo", 0.0, 0.2)
    hi = ctx.real("hi", 0.3, 0.9)
    y = ctx.reals("y", 3, -1.0, 2.0)
    s = [1e-5, 1e-3, 1e-1]
    c = cls("c", ctx.arr(s), ctx.arr(y), (lo, hi))
    for i in range(3):
        ctx.check_eq("node", c(s[i]), ctx.np.clip(y[i], lo, hi))


@harness("C17", quick=[dict(kind=k) for k in KINDS])
def two_dim(ctx, kind):
    """curves with several value columns are interpolated column by column"""
    site = ctx.ps.site
    cls = site.ModulusReductionCurve if kind == "mod_reduc" else site.DampingCurve
    lim = (0.001, 1) if kind == "mod_reduc" else (0, 0.49)
    y = [ctx.reals(f"y{i}_", 2, 0.0, 0.6) for i in range(3)]
    s = [1e-5, 1e-3, 1e-1]
    c = cls("c", ctx.arr(s), ctx.np.array(y))
    np = ctx.np
    g = ctx.real("g", 1e-7, 1.0)
    v = c(g)
    ctx.check("len", len(v) == 2)
    t = (np.log(g) - np.log(1e-5)) / np.log(100.0)
    for j in range(2):
        if bool(g <= 1e-5):
            want = y[0][j]
        elif bool(g <= 1e-3):
            want = y[0][j] + t * (y[1][j] - y[0][j])
        elif bool(g <= 1e-1):
            want = y[1][j] + (t - 1) * (y[2][j] - y[1][j])
        else:
            want = y[2][j]
        ctx.check_eq(f"col{j}", v[j], np.clip(want, *lim), rtol=1e-6, atol=1e-9)


def tables():
    """the published tables as they stand in the data file of the package under test"""
    import os
    import tomllib

    root = os.environ.get("VERIF_REPO", "/repo")
    with open(os.path.join(root, "src/pystrata/data/published_curves.toml"), "rb") as f:
        return {m["name"]: m for m in tomllib.load(f)["models"]}


@harness("C17", quick=[dict(kind=k) for k in KINDS], budget=100, thorough_budget=600, max_paths=400, weight=2)
def published(ctx, kind):
    """every published model at any strain: the log-strain line of its table within the default
    limits, under its name; models without that property are refused, and editing one curve does
    not change the next one made from the same table"""
    site, np = ctx.ps.site, ctx.np
    models = tables()
    ctx.check("known", sorted(site.known_published_curves()) == sorted(models))
    name = ctx.choice("model", sorted(models))
    if kind not in models[name]:
        _, e = ctx.call(site.NonlinearCurve.from_published, name, kind)
        ctx.check("refused", e is not None)
        return
    c = site.NonlinearCurve.from_published(name, kind)
    ctx.check("type", type(c) is (site.ModulusReductionCurve if kind == "mod_reduc" else site.DampingCurve) and c.name == name and c.param == kind)
    s, y = models[name][kind]["strains"], models[name][kind]["values"]
    ctx.check("table", len(s) == len(y) and all(b > a > 0 for a, b in zip(s, s[1:])))
    lim = (0.001, 1) if kind == "mod_reduc" else (0, 0.49)
    g = ctx.real("g", 1e-8, 1.0)
    x = np.log(g)
    e = y[0]
    for i in range(len(s) - 1):
        lo, hi = np.log(np.float64(s[i])), np.log(np.float64(s[i + 1]))
        e = e + (y[i + 1] - y[i]) * np.clip((x - lo) / (hi - lo), 0, 1)
    ctx.check_eq("value", c(g), np.clip(e, *lim), atol=1e-9)
    c.values = c.values * 0.5
    c.strains = c.strains * 2.0
    again = site.NonlinearCurve.from_published(name, kind)
    ctx.check_eq("table values", again.values, y)
    ctx.check_eq("table strains", again.strains, s)


@harness("C17", quick=[dict()])
def published_soil(ctx):
    """soil types from published models: modulus reduction of the first model, damping of the
    second one (the first by default), with the given name and unit weight"""
    site = ctx.ps.site
    models = tables()
    both = [m for m in sorted(models) if "mod_reduc" in models[m] and "damping" in models[m]][::9]
    a, b = ctx.choice("model", both), ctx.choice("damping", [None, *both])
    uw = ctx.real("uw", *UW)
    st = site.SoilType.from_published("soil", uw, a) if b is None else site.SoilType.from_published("soil", uw, a, b)
    ctx.check("names", st.name == "soil" and st.mod_reduc.name == a and st.damping.name == (b or a))
    ctx.check("kinds", isinstance(st.mod_reduc, site.ModulusReductionCurve) and isinstance(st.damping, site.DampingCurve) and st.is_nonlinear)
    ctx.check_eq("unit weight", st.unit_wt, uw)
    ctx.check_eq("reduction", st.mod_reduc.values, models[a]["mod_reduc"]["values"])
    ctx.check_eq("damping", st.damping.values, models[b or a]["damping"]["values"])
    ctx.check_eq("minimum", st.damping_min, models[b or a]["damping"]["values"][0])
