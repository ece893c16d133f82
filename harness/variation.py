"""Profile variation (C24-C27) and independence of varied profiles (C16)."""

from ._common import DAMP, THICK, UW, VEL, harness, linear_curve, linear_profile
from .discretize import check_same, snapshot


def draws(ctx, name, n, lo, hi):
    """a source of at most n arbitrary exponential numbers of unit mean (scaled where another mean
    is asked for); paths needing more are outside the bound"""
    used = []

    def draw(scale=1.0, size=None):
        ctx.assume(len(used) < n)
        used.append(ctx.real(f"{name}{len(used)}", lo, hi))
        return used[-1] if scale == 1 else used[-1] * scale

    return draw, used


def damped_profile(ctx, n, **kw):
    return linear_profile(ctx, n, dmin=True, **kw)


def mixed_nl(ctx, kinds, tie=None):
    """kinds: n nonlinear, l linear, s sharing the first layer's soil; last is the half-space"""
    site = ctx.ps.site
    layers = []
    for i, k in enumerate(kinds):
        if k == "s":
            st = layers[0].soil_type
        elif k == "n":
            mr = linear_curve(ctx, "mod_reduc", 3, f"mr{i}")[0]
            dc = linear_curve(ctx, "damping", 3, f"dc{i}")[0]
            st = site.SoilType("soil", ctx.real(f"uw{i}", *UW), mr, dc)
        else:
            st = site.SoilType("soil", ctx.real(f"uw{i}", *UW), None, ctx.real(f"d{i}", 0.0, 0.1))
        h = ctx.real(f"h{i}", 1.0, 50.0) if i < len(kinds) - 1 else 0
        layers.append(site.Layer(st, h, ctx.real(f"v{i}", 80.0, 3000.0), damping_min=ctx.real(f"dm{i}", 0.0, 0.1)))
    return site.Profile(layers, ctx.real("wt", 0.0, 100.0))


def same_layer(ctx, tag, a, b, thickness=True, velocity=True, soil=True):
    if thickness:
        ctx.check_eq(tag + ".h", a.thickness, b.thickness)
    if velocity:
        ctx.check_eq(tag + ".v", a.initial_shear_vel, b.initial_shear_vel)
    if soil:
        ctx.check(tag + ".soil", a.soil_type is b.soil_type)
    ctx.check_eq(tag + ".dm", a.damping_min, b.damping_min)


def check_chain(ctx, tag, prof):
    """depths of a profile are the cumulative thicknesses"""
    z = 0
    for i, l in enumerate(prof):
        ctx.check_eq(f"{tag}.depth{i}", l.depth, z)
        z = z + l.thickness


# C24 ---------------------------------------------------------------------------
@harness("C24", quick=[dict(n=2, k=2), dict(n=3, k=2), dict(n=2, k=3), dict(n=6, k=2)], thorough=[dict(n=n, k=k) for n in (2, 3) for k in (2, 3, 4)] + [dict(n=4, k=3)],
         budget=100, thorough_budget=900, max_paths=2000, weight=4)
def toro_thickness(ctx, n, k):
    """n-1 layers on a half-space, arbitrary exponential increments (up to k layers in the
    result), arbitrary model coefficients c1 and c3, c2 of -1/2 or 0"""
    np, var = ctx.np, ctx.ps.variation
    prof = damped_profile(ctx, n)
    c1, c2, c3 = ctx.real("c1", 1.0, 20.0), ctx.choice("c2", [-0.5, 0.0]), ctx.real("c3", 0.5, 5.0)
    tv = var.ToroThicknessVariation(c1, c2, c3)
    draw, used = draws(ctx, "e", k, 1e-3, 50.0)
    ctx.stub("np.random.exponential", draw)
    before = snapshot(prof)
    new = tv(prof)
    m = len(new) - 1
    ctx.check("layers", m == len(used))
    # interfaces by the inverse of the cumulative rate
    tot = prof[-2].depth_base
    ends, t = [], 0
    for e in used:
        t = t + e
        ends.append((c1 ** (c2 + 1) + (c2 + 1) * t / c3) ** (1 / (c2 + 1)) - c1)
    ctx.cut(ends)
    top = 0
    for i in range(m):
        end = ends[i] if i < m - 1 else tot
        ctx.check_eq(f"thickness{i}", new[i].thickness, end - top)
        mid = (top + end) / 2
        for j in range(n - 1):
            if bool(prof[j].depth < mid) and bool(mid <= prof[j].depth_base):
                same_layer(ctx, f"layer{i}", new[i], prof[j], thickness=False)
                break
        top = end
    if m > 1:
        ctx.check_le("truncated", tot, ends[m - 1], rtol=1e-9)
    ctx.check_eq("depth to half-space", new[-1].depth, tot)
    ctx.check_eq("sum", sum(l.thickness for l in new[:-1]), tot)
    same_layer(ctx, "half-space", new[-1], prof[-1], thickness=False)
    ctx.check_eq("water table", new.wt_depth, prof.wt_depth)
    check_same(ctx, "source", before, snapshot(prof))
    ctx.check("own layers", all(a is not b for a in new for b in prof))


@harness("C24", quick=[dict()], budget=60)
def toro_increasing(ctx):
    """thicknesses produced by the model are positive for positive increments"""
    var = ctx.ps.variation
    c1, c3 = ctx.real("c1", 1.0, 20.0), ctx.real("c3", 0.5, 5.0)
    draw, used = draws(ctx, "e", 3, 1e-3, 50.0)
    ctx.stub("np.random.exponential", draw)
    tv = var.ToroThicknessVariation(c1, -0.5, c3)
    tot = ctx.real("tot", 0.1, 2000.0)
    tv0 = var.ToroThicknessVariation()
    ctx.check("defaults", (tv0.c_1, tv0.c_2, tv0.c_3) == (10.86, -0.89, 1.98))
    out = list(tv.iter_thickness(tot))
    prev = 0
    for i, (h, mid) in enumerate(out):
        ctx.check(f"positive{i}", h > 0)
        ctx.check_eq(f"mid{i}", mid, prev + h / 2)
        prev = prev + h
    ctx.check_eq("sum", prev, tot)


# C25 ---------------------------------------------------------------------------
PARAMS = dict(rho_0=(0.0, 1.0), delta=(0.5, 20.0), rho_200=(0.0, 1.0), h_0=(0.0, 10.0), b=(0.01, 1.0))


def velocity_model(ctx, kind, vary_bedrock):
    var = ctx.ps.variation
    p = {k: ctx.real(k, *b) for k, b in PARAMS.items()}
    p["vary_bedrock"] = vary_bedrock
    if kind == "toro":
        s = ctx.real("ln_std", 0.01, 1.0)
        return var.ToroVelocityVariation(s, **p), lambda layer: s, p
    s = ctx.reals("ln_std", 3, 0.01, 1.0)
    # a table that starts below the first layers and ends above the last
    d = [ctx.real(f"dd{i}", 1.0, 100.0) for i in range(3)]
    d = [d[0], d[0] + d[1], d[0] + d[1] + d[2]]
    named = ctx.real("named", 0.01, 1.0)
    model = var.DepthDependToroVelVariation(ctx.arr(d), ctx.arr(s), **p, ln_std_map={"1": named})

    def std(layer):
        if "1" in layer.soil_type.name:
            return named
        z = layer.depth_mid
        if bool(z <= d[0]):
            return s[0]
        for i in (0, 1):
            if bool(z < d[i + 1]):
                return s[i] + (z - d[i]) / (d[i + 1] - d[i]) * (s[i + 1] - s[i])
        return s[2]

    return model, std, p


@harness("C25", quick=[dict(n=2, kind="toro"), dict(n=3, kind="toro"), dict(n=3, kind="depth"), dict(n=7, kind="toro")],
         thorough=[dict(n=n, kind=k) for n in (2, 3, 4) for k in ("toro", "depth")], budget=100, thorough_budget=600, max_paths=600, weight=3)
def velocity(ctx, n, kind):
    """n-1 layers on a half-space, arbitrary model parameters and an arbitrary random draw, with
    and without bedrock variation"""
    np, var = ctx.np, ctx.ps.variation
    prof = damped_profile(ctx, n)
    vb = ctx.flag("vary bedrock")
    model, std, p = velocity_model(ctx, kind, vb)
    z = ctx.reals("z", n, -20.0, 20.0)
    seen = []

    def draw(mean, cov, *a, **k):
        seen.append((mean, cov))
        return ctx.arr(z)

    ctx.stub("np.random.multivariate_normal", draw)
    before = snapshot(prof)
    new = model(prof)
    ctx.check("layers", len(new) == n)
    sc = var.randnorm.scale
    mean, cov = seen[0]
    for i in range(n):
        ctx.check_eq(f"mean{i}", mean[i], np.log(prof[i].initial_shear_vel))
        s = std(prof[i])
        ctx.check_eq(f"variance{i}", cov[i, i], (sc * s) ** 2)
        same_layer(ctx, f"layer{i}", new[i], prof[i], velocity=False)
        v = prof[i].initial_shear_vel
        if i == n - 1 and not vb:
            ctx.check_eq("bedrock", new[i].initial_shear_vel, v)
            continue
        off = 2 * sc * s
        lv = np.log(v)
        ctx.check_eq(f"velocity{i}", new[i].initial_shear_vel, np.exp(np.minimum(np.maximum(z[i], lv - off), lv + off)))
    ctx.check_eq("water table", new.wt_depth, prof.wt_depth)
    check_same(ctx, "source", before, snapshot(prof))
    check_chain(ctx, "new", new)
    ctx.check("own layers", all(a is not b for a in new for b in prof))


@harness("C25", quick=[dict(n=3, kind="toro"), dict(n=4, kind="toro"), dict(n=3, kind="depth"), dict(n=5, kind="depth")], thorough=[dict(n=n, kind=k) for n in (2, 3, 4) for k in ("toro", "depth")], budget=100, thorough_budget=600, max_paths=400, weight=2)
def covariance(ctx, n, kind):
    """only adjacent layers are correlated, the matrix is symmetric, correlations lie between 0
    and 1 and the half-space is perfectly correlated with the layer above it"""
    np = ctx.np
    prof = damped_profile(ctx, n)
    model, std, p = velocity_model(ctx, kind, False)
    seen = []

    def draw(mean, cov, *a, **k):
        seen.append(cov)
        return mean

    ctx.stub("np.random.multivariate_normal", draw)
    model(prof)
    cov = seen[0]
    sc = ctx.ps.variation.randnorm.scale
    s = [sc * std(l) for l in prof]
    for i in range(n):
        for j in range(n):
            if abs(i - j) > 1:
                ctx.check_eq(f"zero{i}{j}", cov[i, j], 0)
            if j == i + 1:
                ctx.check_eq(f"symmetric{i}", cov[i, j], cov[j, i])
                r = cov[i, j]
                if j == n - 1:
                    ctx.check_eq("bedrock", r, s[i] * s[j])
                else:
                    rho = r / (s[i] * s[j])
                    z1, z2, z3 = (prof[q].depth_mid for q in (i, i + 1, i + 2))
                    depth, t = (z1 + z2) / 2, np.minimum((z3 - z1) / 2, 100)
                    deep = np.where(depth > 200, p["rho_200"], p["rho_200"] * ((depth + p["h_0"]) / (200 + p["h_0"])) ** p["b"])
                    ctx.check_eq(f"correlation{i}", rho, (1 - deep) * p["rho_0"] * np.exp(-t / p["delta"]) + deep)
                    ctx.check_le(f"non-negative{i}", 0, rho)
                    ctx.check_le(f"at most one{i}", rho, 1, whole=True)


@harness("C25", quick=[dict()])
def site_class(ctx):
    """USGS site class by Vs30"""
    T = ctx.ps.variation.ToroVelocityVariation
    v = ctx.real("v", 50.0, 3000.0)
    c = T.usgs_site_class(v)
    want = "D" if bool(v <= 180) else "C" if bool(v <= 360) else "B" if bool(v <= 750) else "A"
    ctx.check("class", str(c) == "USGS " + want)
    for k, p in T.PARAMS.items():
        m = T.generic_model(k)
        ctx.check("generic", (m.ln_std, m.rho_0, m.delta, m.rho_200, m.h_0, m.b, m.vary_bedrock) == (*(p[x] for x in ("ln_std", "rho_0", "delta", "rho_200", "h_0", "b")), False))
        s = ctx.real("ls", 0.1, 1.0)
        m = T.generic_model(k, ln_std=s, vary_bedrock=True)
        ctx.check("override", m.ln_std is s and m.vary_bedrock and m.delta == p["delta"] and p["ln_std"] is not s)


# C26 ---------------------------------------------------------------------------
def soil_model(ctx, kind, rho=0.5, **kw):
    var = ctx.ps.variation
    if kind == "darendeli":
        lim_g, lim_d = [ctx.real("lim_g0", 0.0, 0.3), ctx.real("lim_g1", 0.7, 1.0)], [ctx.real("lim_d0", 0.0, 0.05), ctx.real("lim_d1", 0.06, 0.3)]
        return var.DarendeliVariation(rho, lim_g, lim_d, **kw), lim_g, lim_d
    kw.pop("vary_bedrock", None)
    sg, sd = ctx.real("sg", 0.01, 0.5), ctx.real("sd", 0.01, 0.6)
    return var.SpidVariation(rho, std_mod_reduc=sg, std_damping=sd, **kw), [0, 1], [0, 0.15], sg, sd


def varied_values(ctx, kind, z, g, d, rest):
    """the published standard deviations applied to the curves"""
    np = ctx.np
    if kind == "darendeli":
        out_g = [x + z[0] * (np.exp(-4.23) + np.sqrt(0.25 / np.exp(3.62) - (x - 0.5) ** 2 / np.exp(3.62))) for x in g]
        out_d = [x + z[1] * (np.exp(-5) + np.exp(-0.25) * np.sqrt(100 * x)) / 100 for x in d]
    else:
        sg, sd = rest
        f = [x / (1 - x + 2.220446049250313e-16) * np.exp(2 * sg * z[0]) for x in g]
        out_g = [x / (1 + x) for x in f]
        out_d = [x * np.exp(sd * z[1]) for x in d]
    return out_g, out_d


@harness("C26", quick=[dict(kind="darendeli", n=2), dict(kind="spid", n=2)], thorough=[dict(kind=k, n=n) for k in ("darendeli", "spid") for n in (2, 3)], budget=100, max_paths=800)
def soil_values(ctx, kind, n):
    """one soil type with arbitrary curve values and an arbitrary correlated pair: the varied
    curves are the model's, clipped to the limits, at the same strains; the soil itself is
    unchanged"""
    np, site = ctx.np, ctx.ps.site
    s = [1e-5, 1e-3, 1e-1][:n]
    g, d = ctx.reals("g", n, 0.01, 0.999), ctx.reals("d", n, 0.001, 0.4)
    st = site.SoilType("a", ctx.real("uw", *UW), site.ModulusReductionCurve("a", s, ctx.arr(g)), site.DampingCurve("a", s, ctx.arr(d)))
    model, lim_g, lim_d, *rest = soil_model(ctx, kind)
    z = ctx.reals("z", 2, -2.0, 2.0)
    seen = []
    ctx.patch(ctx.ps.variation.randnorm, "correlated", lambda r: (seen.append(r), ctx.arr(z))[1])
    new = model(st)
    ctx.check("correlation", seen == [0.5])
    eg, ed = varied_values(ctx, kind, z, g, d, rest)
    for i in range(n):
        vg, vd = new.mod_reduc.values[i], new.damping.values[i]
        ctx.check_eq(f"g{i}", vg, np.minimum(np.maximum(eg[i], lim_g[0]), lim_g[1]))
        ctx.check_eq(f"d{i}", vd, np.minimum(np.maximum(ed[i], lim_d[0]), lim_d[1]))
        for tag, v, lim in (("g", vg, lim_g), ("d", vd, lim_d)):
            ctx.check_le(f"{tag}{i} low", lim[0], v)
            ctx.check_le(f"{tag}{i} high", v, lim[1])
        ctx.check_eq(f"source g{i}", st.mod_reduc.values[i], g[i])
        ctx.check_eq(f"source d{i}", st.damping.values[i], d[i])
        ctx.check("strains", float(new.mod_reduc.strains[i]) == s[i] and float(new.damping.strains[i]) == s[i])
    # the interpolation follows the varied values
    ctx.check_eq("call g", new.mod_reduc(s[0]), np.clip(new.mod_reduc.values[0], 0.001, 1))
    ctx.check_eq("call d", new.damping(s[0]), new.damping.values[0])
    ctx.check("name", new.name == "a" and new is not st and new.mod_reduc is not st.mod_reduc and new.damping is not st.damping)
    ctx.check_eq("unit weight", new.unit_wt, st.unit_wt)


@harness("C26", quick=[dict(kind="darendeli"), dict(kind="spid")], budget=60)
def median(ctx, kind):
    """a zero pair leaves curves within the limits unchanged"""
    site = ctx.ps.site
    s = [1e-5, 1e-3]
    g, d = ctx.reals("g", 2, 0.3, 0.7), ctx.reals("d", 2, 0.05, 0.06)
    st = site.SoilType("a", 18.0, site.ModulusReductionCurve("a", s, ctx.arr(g)), site.DampingCurve("a", s, ctx.arr(d)))
    model = soil_model(ctx, kind)[0]
    ctx.patch(ctx.ps.variation.randnorm, "correlated", lambda r: ctx.arr([0.0, 0.0]))
    new = model(st)
    for i in range(2):
        ctx.check_eq(f"g{i}", new.mod_reduc.values[i], g[i], rtol=1e-9)
        ctx.check_eq(f"d{i}", new.damping.values[i], d[i])


@harness("C26", quick=[dict(kinds="nsl"), dict(kinds="nnn"), dict(kinds="ns"), dict(kinds="nnssnsl")], thorough=[dict(kinds=k) for k in ("nsl", "nnn", "ns", "nsnl", "nlsn")], budget=100, max_paths=400)
def soil_profile(ctx, kinds):
    """varied profile: every layer keeps thickness, velocity and minimum damping, layers that
    share a soil type share its realisation, the half-space varies only on request; soil types
    of the same name stay apart; the source is unchanged"""
    var = ctx.ps.variation
    prof = mixed_nl(ctx, kinds)
    vb = ctx.flag("vary bedrock")

    class Model(var.SoilTypeVariation):
        def _get_varied(self, randvar, mod_reduc, damping):
            return mod_reduc * 0.5, damping * 2

    calls = []

    def pair(r):
        calls.append(r)
        return ctx.arr([0.0, 0.0])

    ctx.patch(var.randnorm, "correlated", pair)
    model = Model(0.5, vary_bedrock=vb)
    before = snapshot(prof)
    new = model.vary_profile(prof)
    check_same(ctx, "source", before, snapshot(prof))
    n = len(kinds)
    ctx.check("layers", len(new) == n)
    for i in range(n):
        fixed = i == n - 1 and not vb
        same_layer(ctx, f"layer{i}", new[i], prof[i], soil=fixed)
        ctx.check(f"own{i}", new[i] is not prof[i])
        ctx.check(f"owner{i}", new[i]._profile is new)
        if fixed:
            continue
        ctx.check(f"varied{i}", new[i].soil_type is not prof[i].soil_type)
        for j in range(i):
            ctx.check(f"shared{i}{j}", (new[i].soil_type is new[j].soil_type) == (prof[i].soil_type is prof[j].soil_type))
        if prof[i].soil_type.is_nonlinear:
            st = prof[i].soil_type
            for q in range(3):
                ctx.check_eq(f"g{i}", new[i].soil_type.mod_reduc.values[q], ctx.np.clip(st.mod_reduc.values[q] * 0.5, 0.05, 1))
                ctx.check_eq(f"d{i}", new[i].soil_type.damping.values[q], ctx.np.clip(st.damping.values[q] * 2, 0, 0.15))
        ctx.check_eq(f"uw{i}", new[i].unit_wt, prof[i].unit_wt)
    ctx.check_eq("water table", new.wt_depth, prof.wt_depth)
    check_chain(ctx, "new", new)


@harness("C26", quick=[dict(kinds="nsn"), dict(kinds="nln"), dict(kinds="nslnnslsn")], thorough=[dict(kinds=k) for k in ("nsn", "nln", "nssl", "nlns")])
def soil_types(ctx, kinds):
    """a profile lists each of its soil types once, in order of first appearance"""
    prof = mixed_nl(ctx, kinds)
    want = []
    for l in prof:
        if not any(l.soil_type is s for s in want):
            want.append(l.soil_type)
    got = list(prof.iter_soil_types())
    ctx.check("soil types", len(got) == len(want) and all(a is b for a, b in zip(got, want)))


@harness("C26", quick=[dict(m=4)], thorough=[dict(m=4), dict(m=6)], budget=60, max_paths=300)
def truncated(ctx, m):
    """random pairs are rejected until both are within the limit; the first acceptable pair of
    the draws is used (m arbitrary pairs, at least one acceptable)"""
    np, var = ctx.np, ctx.ps.variation
    lim = 2
    tn = var.TruncatedNorm(lim)
    pairs = [ctx.reals(f"z{i}.", 2, -5.0, 5.0) for i in range(m)]
    rho = ctx.real("rho", -1.0, 1.0)
    seen = []

    def draw(mean, cov, size=None, **k):
        ctx.assume(len(seen) < 1)
        seen.append((list(mean), cov, size))
        return ctx.arr(pairs)

    ctx.stub("np.random.multivariate_normal", draw)
    got = tn.correlated(rho)
    cov = seen[0][1]
    ctx.check_eq("rho", cov[0][1], rho)
    ctx.check_eq("rho2", cov[1][0], rho)
    ctx.check("standard", seen[0][0] == [0, 0] and cov[0][0] == 1 and cov[1][1] == 1)
    for z in pairs:
        if bool(abs(z[0]) < lim) and bool(abs(z[1]) < lim):
            break
    ctx.check_eq("first", got[0], z[0])
    ctx.check_eq("second", got[1], z[1])
    for x in got:
        ctx.check_le("low", -lim, x)
        ctx.check_le("high", x, lim)


def quantiles(ctx):
    """scipy.stats.truncnorm.ppf: an arbitrary value within the truncation for each quantile"""
    memo = {}

    def ppf(p, a, b, loc=0, scale=1):
        key = str(p)
        if key not in memo:
            # anywhere between the ends of the truncated range
            t = ctx.real(f"ppf{len(memo)}", 0.0, 1.0)
            memo[key] = (loc + scale * a) + (scale * b - scale * a) * t
            memo["t" + key] = t
        return memo[key]

    ctx.stub("scipy.stats.truncnorm.ppf", ppf)
    return memo


@harness("C26", quick=[dict()], budget=60)
def percentile_pair(ctx):
    """the pair at a percentile is the quantile and its documented companion, within the limits"""
    np, var = ctx.np, ctx.ps.variation
    memo = quantiles(ctx)
    rho = ctx.real("rho", -1.0, 1.0)
    tn = var.TruncatedNorm(2)
    z = tn.correlated_at_percentile(rho, 0.3)
    q = np.clip(memo["0.3"], -2, 2)
    ctx.check_eq("first", z[0], q)
    # the whole range up to the limits, and not more
    ctx.check_eq("range", z[0], -2 + 4 * memo["t0.3"])
    ctx.check_eq("second", z[1], np.clip(rho * q + np.sqrt(1 - rho * rho) * q, -2, 2))
    again = tn.correlated_at_percentile(rho, 0.3)
    ctx.check_eq("again", again[1], z[1])


@harness("C26", quick=[dict()])
def unit_deviation(ctx):
    """the scale undoes the loss of standard deviation of a truncation of any variance"""
    var = ctx.ps.variation
    v = ctx.real("v", 0.01, 1.0)
    seen = []

    def stats(a, b, loc=0, scale=1, moments="mv"):
        seen.append((a, b))
        return v * scale * scale

    ctx.stub("scipy.stats.truncnorm.stats", stats)
    tn = var.TruncatedNorm(3)
    if not seen:
        # the variance comes from elsewhere: nothing is claimed
        return
    ctx.check_eq("unit", tn.scale * tn.scale * v, 1)
    ctx.check("limits", seen[-1] == (-3, 3) and tn.limit == 3)
    tn.limit = 1.5
    ctx.check_eq("again", tn.scale * tn.scale * v, 1)
    ctx.check("new limits", seen[-1] == (-1.5, 1.5) and tn.limit == 1.5)


@harness("C26", quick=[dict(kind="darendeli", flat="damping"), dict(kind="spid", flat="damping"), dict(kind="spid", flat="both")], budget=60)
def constant_values(ctx, kind, flat):
    """a soil with a constant damping (and no modulus reduction) varies it by the same rule"""
    np, site = ctx.np, ctx.ps.site
    s = [1e-5, 1e-3]
    g, d = ctx.reals("g", 2, 0.01, 0.999), ctx.real("d", 0.001, 0.4)
    curve = site.ModulusReductionCurve("a", s, ctx.arr(g)) if flat == "damping" else ctx.real("gc", 0.1, 0.999)
    st = site.SoilType("a", 18.0, curve, d)
    model, lim_g, lim_d, *rest = soil_model(ctx, kind)
    z = ctx.reals("z", 2, -2.0, 2.0)
    ctx.patch(ctx.ps.variation.randnorm, "correlated", lambda r: ctx.arr(z))
    new = model(st)
    gs = g if flat == "damping" else [curve]
    eg, ed = varied_values(ctx, kind, z, gs, [d], rest)
    got = new.mod_reduc.values if flat == "damping" else [new.mod_reduc]
    for i in range(len(gs)):
        ctx.check_eq(f"g{i}", got[i], np.minimum(np.maximum(eg[i], lim_g[0]), lim_g[1]))
    ctx.check_eq("d", new.damping, np.minimum(np.maximum(ed[0], lim_d[0]), lim_d[1]))
    ctx.check_eq("source", st.damping, d)


@harness("C26", quick=[dict(npct=2, count=4), dict(npct=3, count=3), dict(npct=2, count=3), dict(npct=3, count=9)], thorough=[dict(npct=2, count=4), dict(npct=3, count=6), dict(npct=2, count=3), dict(npct=1, count=2)], budget=100)
def percentiles(ctx, npct, count):
    """fixed percentiles: realisation i belongs to percentile i modulo their number, the counts
    must be divisible"""
    var, site = ctx.ps.variation, ctx.ps.site
    memo = quantiles(ctx)
    pct = [0.5, 0.1, 0.8][:npct]
    prof = mixed_nl(ctx, "nl")
    model = var.SpidVariation(0.5, sample_mode="fixed_percentiles", percentiles=pct)
    out, e = ctx.call(lambda: list(var.iter_varied_profiles(prof, count, var_soiltypes=model)))
    if count % npct:
        ctx.check("refused", isinstance(e, ValueError))
        return
    ctx.check("no error", e is None)
    ctx.check("count", len(out) == count)
    for i, p in enumerate(out):
        want = model(prof[0].soil_type, sample_index=i % npct)
        for q in range(3):
            ctx.check_eq(f"g{i}{q}", p[0].soil_type.mod_reduc.values[q], want.mod_reduc.values[q])
            ctx.check_eq(f"d{i}{q}", p[0].soil_type.damping.values[q], want.damping.values[q])
        z = ctx.np.clip(memo[str(pct[i % npct])], -2, 2)
        eg, ed = varied_values(ctx, "spid", [z, None], prof[0].soil_type.mod_reduc.values, [], (0.15, 0.3))
        ctx.check_eq(f"percentile{i}", want.mod_reduc.values[0], ctx.np.clip(eg[0], 0, 1))
        ctx.check(f"own{i}", all(a is not b for b in prof for a in p))
    _, e = ctx.call(model, prof[0].soil_type)
    ctx.check("index needed", isinstance(e, ValueError))


@harness("C26", quick=[dict()])
def bad_percentiles(ctx):
    """percentile lists must be given, not empty and strictly between zero and one"""
    var = ctx.ps.variation
    kw = dict(sample_mode="fixed_percentiles")
    p = ctx.real("p", -1.0, 2.0)
    for v in (None, []):
        _, e = ctx.call(var.SpidVariation, 0.5, percentiles=v, **kw)
        ctx.check("missing", isinstance(e, ValueError))
    m, e = ctx.call(var.SpidVariation, 0.5, percentiles=[0.5, p], **kw)
    if bool(p > 0) and bool(p < 1):
        ctx.check("accepted", e is None)
    else:
        ctx.check("outside", isinstance(e, ValueError))
    _, e = ctx.call(var.SpidVariation, 0.5, sample_mode="other")
    ctx.check("mode", isinstance(e, ValueError))


# C27 ---------------------------------------------------------------------------
class Dist:
    def __init__(self, v):
        self.v = v

    def rvs(self, *a, **k):
        return self.v


@harness("C27", quick=[dict(n=2, m=3), dict(n=3, m=3), dict(n=4, m=2), dict(n=8, m=2)], thorough=[dict(n=n, m=m) for n in (2, 3, 4, 5) for m in (3, 6)], budget=100, thorough_budget=600, max_paths=600)
def half_space_depth(ctx, n, m):
    """an arbitrary half-space depth, shallower or up to m layer thicknesses deeper than the
    profile: the varied profile ends at that depth, layers above are those of the source (the
    last one shortened, or extended by equal layers of its material)"""
    var = ctx.ps.variation
    prof = damped_profile(ctx, n)
    d = ctx.real("depth", 0.01, 5000.0)
    last = prof[-2]
    ctx.assume(d < prof[-1].depth + (m - 1) * last.thickness)
    before = snapshot(prof)
    new = var.HalfSpaceDepthVariation(Dist(d))(prof)
    check_same(ctx, "source", before, snapshot(prof))
    ctx.check_eq("depth", new[-1].depth, d)
    check_chain(ctx, "new", new)
    same_layer(ctx, "half-space", new[-1], prof[-1])
    ctx.check_eq("water table", new.wt_depth, prof.wt_depth)
    ctx.check("own layers", all(a is not b for a in new for b in prof))
    ctx.check("owner", all(l._profile is new for l in new))
    k = len(new) - 1
    if bool(d < prof[-1].depth):
        for i in range(k):
            same_layer(ctx, f"layer{i}", new[i], prof[i], thickness=i < k - 1)
        ctx.check_le("shortened", new[k - 1].thickness, prof[k - 1].thickness)
        ctx.check_le("not negative", 0, new[k - 1].thickness)
    else:
        ctx.check("extended", k >= n - 1)
        for i in range(k):
            same_layer(ctx, f"layer{i}", new[i], prof[min(i, n - 2)], thickness=i < n - 2)
        for i in range(n - 1, k):
            ctx.check_eq(f"equal{i}", new[i].thickness, new[n - 2].thickness)
        ctx.check_le("not thinner", last.thickness, new[n - 2].thickness)
        ctx.check("not twice as thick", new[n - 2].thickness < 2 * last.thickness)


# C16 ---------------------------------------------------------------------------
@harness("C16", quick=[dict(what=w) for w in ("thickness", "velocity", "soil", "half-space")], budget=100, max_paths=800)
def varied_independent(ctx, what):
    """a strained source is varied; then the result is edited and strained: the source keeps
    every observable, and editing the source does not show in the result"""
    var, site = ctx.ps.variation, ctx.ps.site
    prof = mixed_nl(ctx, "nl" if what == "thickness" else "nsl")
    for i, l in enumerate(prof):
        l.strain = ctx.real(f"g{i}", 1e-6, 0.05)
    n = len(prof)
    before = snapshot(prof)
    if what == "thickness":
        draw, used = draws(ctx, "e", 2, 1e-3, 50.0)
        ctx.stub("np.random.exponential", draw)
        new = var.ToroThicknessVariation(10.0, -0.5, 2.0)(prof)
    elif what == "velocity":
        z = ctx.reals("z", n, 3.0, 9.0)
        ctx.stub("np.random.multivariate_normal", lambda *a, **k: ctx.arr(z))
        new = var.ToroVelocityVariation.generic_model("USGS C", vary_bedrock=ctx.flag("vb"))(prof)
    elif what == "soil":
        ctx.patch(var.randnorm, "correlated", lambda r: ctx.arr([0.5, 0.5]))

        class Model(var.SoilTypeVariation):
            def _get_varied(self, randvar, mod_reduc, damping):
                return mod_reduc * 0.5, damping * 2

        new = Model(0.5, vary_bedrock=ctx.flag("vb")).vary_profile(prof)
    else:
        d = ctx.real("depth", 0.01, 100.0)
        ctx.assume(d < prof[-1].depth + prof[-2].thickness)
        new = var.HalfSpaceDepthVariation(Dist(d))(prof)
    check_same(ctx, "source", before, snapshot(prof))
    for l in new:
        ctx.check_eq("small strain", l.shear_mod, l.initial_shear_mod)
        ctx.check_eq("small damping", l.damping, l.damping_min)
    mid = snapshot(new)
    for i, l in enumerate(new):
        l.strain = 0.003
    new[0].thickness = ctx.real("t2", 1.0, 50.0)
    new[len(new) - 1].initial_shear_vel = ctx.real("v2", 80.0, 3000.0)
    check_same(ctx, "source after", before, snapshot(prof))
    after = snapshot(new)
    prof[0].thickness = ctx.real("t3", 1.0, 50.0)
    prof[n - 1].initial_shear_vel = ctx.real("v3", 80.0, 3000.0)
    prof[n - 1].strain = 0.001
    check_same(ctx, "result after", after, snapshot(new))
