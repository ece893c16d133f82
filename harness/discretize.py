from ._common import DAMP, G, THICK, UW, VEL, harness, linear_curve, linear_profile


def mixed_profile(ctx, kinds, name="", half=0, same_depth=None):
    """layers by kind: 'n' nonlinear, 'd' (or 'g') with a damping (modulus) curve only, 'l' linear"""
    site = ctx.ps.site
    layers = []
    for i, k in enumerate(kinds):
        uw = ctx.real(f"{name}uw{i}", *UW)
        if k != "l":
            mr = linear_curve(ctx, "mod_reduc", 3, f"{name}mr{i}_")[0] if k in "ng" else None
            dc = linear_curve(ctx, "damping", 3, f"{name}dc{i}_")[0] if k in "nd" else ctx.real(f"{name}d{i}", *DAMP)
            st = site.SoilType(f"n{i}", uw, mr, dc)
        else:
            st = site.SoilType(f"l{i}", uw, None, ctx.real(f"{name}d{i}", *DAMP))
        last = i == len(kinds) - 1
        layers.append(
            site.Layer(st, half if last else ctx.real(f"{name}h{i}", *THICK), ctx.real(f"{name}v{i}", *VEL),
                       ctx.real(f"{name}dm{i}", *DAMP))
        )
    return site.Profile(layers, ctx.real(name + "wt", 0.0, 500.0))


def snapshot(prof):
    """observable state of a profile and its layers"""
    out = [("n", len(prof)), ("wt", prof.wt_depth)]
    for i, l in enumerate(prof):
        out += [
            (f"obj{i}", l), (f"owner{i}", l._profile), (f"soil{i}", l.soil_type),
            (f"h{i}", l.thickness), (f"v{i}", l.initial_shear_vel), (f"dm{i}", l.damping_min),
            (f"depth{i}", l.depth), (f"sv{i}", l.stress_vert(0)), (f"G{i}", l.shear_mod), (f"D{i}", l.damping),
            (f"strain{i}", l.strain), (f"smax{i}", l.strain_max), (f"uw{i}", l.unit_wt),
        ]
        for k in ("mod_reduc", "damping"):
            c = getattr(l.soil_type, k)
            if hasattr(c, "values"):
                out += [(f"{k}{i}.{j}", y) for j, y in enumerate(c.values)]
                out += [(f"{k}{i} at", c(0.002))]
    return out


def check_same(ctx, tag, a, b):
    ctx.check(tag + " length", len(a) == len(b))
    for (n, x), (_, y) in zip(a, b):
        if x is y:
            ctx.check(f"{tag} {n}", True)
        elif n.startswith(("obj", "owner", "soil")) or x is None or y is None:
            ctx.check(f"{tag} {n}", x is y)
        else:
            ctx.check_eq(f"{tag} {n}", x, y)


def expected_counts(ctx, prof, nonlinear_only, maxsub, fmax, frac):
    for i, l in enumerate(prof[:-1]):
        if not nonlinear_only or l.soil_type.is_nonlinear:
            # structural bound: at most maxsub sublayers per layer
            ctx.assume(l.thickness * fmax <= maxsub * l.initial_shear_vel * frac)


@harness("C15", quick=[dict(k=k) for k in (1, 2, 4)], thorough=[dict(k=k) for k in (1, 2, 4, 8)])
def exact_multiple(ctx, k):
    """a layer exactly k times as thick as allowed is divided into exactly k (powers of two, for
    which the floating-point quotient is exact)"""
    site = ctx.ps.site
    st = site.SoilType("s", 20.0, None, 0.02)
    v = ctx.real("v", *VEL)
    prof = site.Profile([site.Layer(st, k * v / 64.0 * 0.25, v), site.Layer(st, 0, 1000.0)])
    new = prof.auto_discretize(64.0, 0.25, False)
    ctx.check("count", len(new) == k + 1)


@harness("C15", quick=[dict(k=60), dict(k=250)], thorough=[dict(k=k) for k in (60, 250, 1200)], budget=100)
def many_sublayers(ctx, k):
    """a thick soft layer that needs k sublayers (arbitrary thickness, velocity and fraction)"""
    site = ctx.ps.site
    st = site.SoilType("s", 20.0, None, 0.02)
    v, frac = ctx.real("v", *VEL), ctx.real("frac", 0.05, 0.5)
    prof = site.Profile([site.Layer(st, (k - ctx.real("r", 0.01, 0.99)) * v / 50.0 * frac, v), site.Layer(st, 0, 1000.0)])
    new = prof.auto_discretize(50.0, frac, False)
    ctx.check("count", len(new) == k + 1)
    for i in (0, k // 2, k - 1):
        ctx.check_eq(f"thickness{i}", new[i].thickness * k, prof[0].thickness)
    ctx.check_eq("depth", new[k].depth, prof[1].depth)


@harness("C15", quick=[dict(kinds="lnl")], max_paths=300)
def default_arguments(ctx, kinds):
    """without arguments: 50 Hz, a fifth of the wavelength, nonlinear layers only"""
    prof = mixed_profile(ctx, kinds)
    for l in prof[:-1]:
        ctx.assume(l.thickness * 50.0 <= 2 * l.initial_shear_vel * 0.2)
    a, b = prof.auto_discretize(), prof.auto_discretize(50.0, 0.2, True)
    ctx.check("layers", len(a) == len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        ctx.check_eq(f"thickness{i}", x.thickness, y.thickness)
        ctx.check(f"soil{i}", x.soil_type is y.soil_type)


@harness(
    "C15",
    quick=[dict(kinds="nl", only=True, sub=3), dict(kinds="nnl", only=True, sub=2), dict(kinds="lnl", only=True, sub=3),
           dict(kinds="lnl", only=False, sub=2), dict(kinds="lnl", only=True, sub=2, strained=True), dict(kinds="dgl", only=True, sub=2),
           dict(kinds="gdl", only=True, sub=2, strained=True)],
    thorough=[dict(kinds="nl", only=True, sub=8), dict(kinds="nnl", only=True, sub=5), dict(kinds="lnnl", only=False, sub=3),
              dict(kinds="nlnl", only=True, sub=4), dict(kinds="lnl", only=True, sub=4, strained=True)],
    max_paths=1500, weight=3,
)
def discretize(ctx, kinds, only, sub, strained=False):
    """profile of linear / nonlinear layers, each split into at most `sub` sublayers;
    arbitrary maximum frequency and wavelength fraction"""
    prof = mixed_profile(ctx, kinds)
    fmax = ctx.real("fmax", 1.0, 200.0)
    frac = ctx.real("frac", 0.05, 0.5)
    expected_counts(ctx, prof, only, sub, fmax, frac)
    if strained:
        for i, l in enumerate(prof):
            if l.soil_type.is_nonlinear:
                l.strain = 1e-3
    before = snapshot(prof)
    new = prof.auto_discretize(fmax, frac, only)
    check_same(ctx, "source", before, snapshot(prof))
    ctx.check("new object", new is not prof)
    ctx.check_eq("wt", new.wt_depth, prof.wt_depth)
    j = 0
    depth = stress = 0
    for i, l in enumerate(prof):
        split = i < len(prof) - 1 and (not only or l.soil_type.is_nonlinear)
        if i == len(prof) - 1:
            subs = [new[j]] if j < len(new) else []
            ctx.check("one half-space", j == len(new) - 1)
        elif not split:
            subs = [new[j]]
        else:
            subs = []
            while j + len(subs) < len(new) - 1 and new[j + len(subs)].soil_type is l.soil_type:
                subs.append(new[j + len(subs)])
            opt = l.initial_shear_vel / fmax * frac
            for s in subs:
                if not strained:
                    ctx.check_le(f"max thickness {i}", s.thickness, opt)
                ctx.check_eq(f"equal parts {i}", s.thickness * len(subs), l.thickness)
            if not strained and len(subs) > 1:
                ctx.check_ge(f"no more than needed {i}", l.thickness, opt * (len(subs) - 1))
        ctx.check(f"present {i}", len(subs) >= 1)
        ctx.check_eq(f"thickness {i}", sum(s.thickness for s in subs), l.thickness)
        for s in subs:
            ctx.check(f"soil {i}", s.soil_type is l.soil_type)
            ctx.check_eq(f"v {i}", s.initial_shear_vel, l.initial_shear_vel)
            ctx.check_eq(f"dmin {i}", s.damping_min, l.damping_min)
            ctx.check_eq(f"depth {i}", s.depth, depth)
            ctx.check_eq(f"stress {i}", s.stress_vert(0), stress)
            ctx.check(f"owner {i}", s._profile is new)
            depth = depth + s.thickness
            stress = stress + s.thickness * l.unit_wt
        j += len(subs)


@harness("C16", quick=[dict(kinds="nl"), dict(kinds="lnl"), dict(kinds="lnlnlnnl"), dict(kinds="gdl")], thorough=[dict(kinds="nl"), dict(kinds="lnnl"), dict(kinds="nnnnl")])
def copy_profile(ctx, kinds):
    """a copy has the small-strain state of its source and shares nothing mutable with it,
    also when the source has been brought to strain-compatible properties"""
    prof = mixed_profile(ctx, kinds)
    if ctx.flag("strained"):
        for i, l in enumerate(prof):
            l.strain = ctx.real(f"g{i}", 1e-7, 0.1)
    before = snapshot(prof)
    new = prof.copy()
    check_same(ctx, "source", before, snapshot(prof))
    ctx.check("n", len(new) == len(prof))
    ctx.check_eq("wt", new.wt_depth, prof.wt_depth)
    for a, b in zip(new, prof):
        ctx.check("own layer", a is not b)
        ctx.check("owner", a._profile is new)
        ctx.check("soil", a.soil_type is b.soil_type)
        ctx.check_eq("h", a.thickness, b.thickness)
        ctx.check_eq("v", a.initial_shear_vel, b.initial_shear_vel)
        ctx.check_eq("dm", a.damping_min, b.damping_min)
        ctx.check_eq("depth", a.depth, b.depth)
        ctx.check_eq("stress", a.stress_vert(0), b.stress_vert(0))
        ctx.check_eq("G", a.shear_mod, b.initial_shear_mod)
    # changing the copy leaves the source alone
    new[0].thickness = ctx.real("t2", *THICK)
    new[0].initial_shear_vel = ctx.real("v2", *VEL)
    new[len(new) - 1].damping_min = ctx.real("dm2", *DAMP)
    new[0].strain = ctx.real("g2", 1e-7, 0.1)
    new.wt_depth = ctx.real("wt2", 0.0, 10.0)
    check_same(ctx, "source after", before, snapshot(prof))


@harness("C16", quick=[dict(kinds="lnl")], thorough=[dict(kinds="lnl"), dict(kinds="llnl")])
def discretized_independent(ctx, kinds):
    """editing or straining a discretised profile leaves its source alone, and vice versa"""
    prof = mixed_profile(ctx, kinds)
    fmax = ctx.real("fmax", 1.0, 200.0)
    expected_counts(ctx, prof, True, 2, fmax, 0.2)
    new = prof.auto_discretize(fmax)
    before = snapshot(prof)
    for i, l in enumerate(new):
        l.strain = ctx.real(f"g{i}", 1e-7, 0.1)
    new[0].thickness = ctx.real("t2", *THICK)
    new[len(new) - 1].initial_shear_vel = ctx.real("v2", *VEL)
    check_same(ctx, "source after", before, snapshot(prof))
    before = snapshot(new)
    prof[0].thickness = ctx.real("t3", *THICK)
    ctx.check_eq("source edited", prof[1].depth, prof[0].thickness)
    check_same(ctx, "copy after", before, snapshot(new))


@harness("C16", quick=[dict()])
def copy_soil(ctx):
    """copy of a soil type"""
    site = ctx.ps.site
    mr = linear_curve(ctx, "mod_reduc", 3, "mr")[0]
    dc = linear_curve(ctx, "damping", 3, "dc")[0]
    st = site.SoilType("a", ctx.real("uw", *UW), mr, dc)
    c = st.copy()
    ctx.check("new", c is not st)
    ctx.check("name", c.name == "a")
    ctx.check_eq("uw", c.unit_wt, st.unit_wt)
    g = ctx.real("g", 1e-7, 1.0)
    ctx.check_eq("mr", c.mod_reduc(g), mr(g))
    ctx.check_eq("dc", c.damping(g), dc(g))
