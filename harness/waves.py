from ._common import harness

F = (1e-4, 40.0)
TH = (0.02, 60.0)
VS = (60.0, 3500.0)
UWT = (10.0, 30.0)
DA = (0.0, 0.25)
FIELDS = ("outcrop", "within", "incoming_only")


def column(ctx, n, model="seed", nonlinear=False):
    """n-1 layers on a half-space"""
    site = ctx.ps.site
    layers = []
    for i in range(n):
        st = site.SoilType(f"s{i}", ctx.real(f"uw{i}", *UWT), None, ctx.real(f"d{i}", *DA))
        th = ctx.real(f"h{i}", *TH) if i < n - 1 else 0
        layers.append(site.Layer(st, th, ctx.real(f"v{i}", *VS)))
    return site.Profile(layers, 0)


def shared_column(ctx, n):
    """layers of one soil, thickness and velocity that differ in their damping only"""
    site = ctx.ps.site
    st = site.SoilType("s", ctx.real("uw", *UWT), None, 0.01)
    h, v = ctx.real("h", *TH), ctx.real("v", *VS)
    return site.Profile([site.Layer(st, h if i < n - 1 else 0, v, ctx.real(f"d{i}", *DA)) for i in range(n)], 0)


def strained_column(ctx, n, m):
    """layers with modulus and damping of their own at each of m frequencies"""
    site = ctx.ps.site
    strains = [10.0 ** (-5 + i) for i in range(m)]
    layers = []
    for i in range(n):
        vals = [[ctx.real(f"{c}{i}.{j}", lo, hi) for j in range(m)] for c, lo, hi in (("g", 0.05, 1.0), ("d", 0.0, 0.25))]
        cur = [c("c", ctx.arr(strains), ctx.arr(y)) for c, y in zip((site.ModulusReductionCurve, site.DampingCurve), vals)]
        layers.append(site.Layer(site.SoilType(f"n{i}", ctx.real(f"uw{i}", *UWT), *cur), ctx.real(f"h{i}", *TH) if i < n - 1 else 0, ctx.real(f"v{i}", *VS)))
    prof = site.Profile(layers, 0)
    for l in prof:
        l.strain = ctx.np.array(strains)
    return prof


def run(ctx, prof, freqs, ps=None, calc=None, **kw):
    ps = ps or ctx.ps
    m = ps.motion.Motion(ctx.arr(freqs))
    calc = calc or ps.propagation.LinearElasticCalculator()
    calc(m, prof, prof.location("outcrop", index=-1), **kw)
    # material constants and wave amplitudes may be treated as arbitrary numbers
    for l in prof:
        ctx.cut(l.comp_shear_mod, l.comp_shear_vel)
    return calc


def waves_of(calc, i):
    """wave amplitudes of a layer, as values to abstract from"""
    out = []
    for a in ("_waves_a", "_waves_b"):
        w = getattr(calc, a, None)
        if w is not None:
            out += list(w[i])
    return [x for x in out if hasattr(x, "op") and x.op not in ("var", "const", "cconst")]


def at(ctx, prof, i, z, field="within", ps=None):
    return (ps or ctx.ps).site.Location(i, prof[i], field, z)


def layer_z(ctx, prof, i, name):
    """an arbitrary depth within layer i"""
    r = ctx.real("z" + name, 0.0, 1.0)
    return r * (prof[i].thickness if i < len(prof) - 1 else ctx.real("zb" + name, *TH))


def k_of(ctx, layer, f):
    return 2 * ctx.np.pi * f / layer.comp_shear_vel


# C01 ---------------------------------------------------------------------------
@harness("C01", quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=12), dict(n=4, kind="shared")], thorough=[dict(n=n) for n in (2, 3, 4, 6, 12, 30)] + [dict(n=9, kind="shared")], weight=3, warm=True)
def interfaces(ctx, n, kind="own"):
    """displacement and shear stress are continuous at every interface and the free surface
    carries no shear stress: one frequency, n-1 layers on a half-space; layers of their own soils, or
    of one soil, thickness and velocity but different damping"""
    prof = column(ctx, n) if kind == "own" else shared_column(ctx, n)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f])
    lin = prof.location("outcrop", index=-1)
    for i in range(n - 1):
        lo, hi = at(ctx, prof, i, prof[i].thickness), at(ctx, prof, i + 1, 0.0)
        cut = waves_of(calc, i)
        ctx.check_eq(f"displacement{i}", calc.wave_at_location(lo)[0], calc.wave_at_location(hi)[0], rtol=1e-6, cuts=cut)
        cut += [calc.wave_at_location(lin)[0]]
        ctx.check_eq(f"stress{i}", calc.calc_stress_tf(lin, lo, True)[0], calc.calc_stress_tf(lin, hi, True)[0], rtol=1e-6, atol=1e-9, cuts=cut)
    top = at(ctx, prof, 0, 0.0)
    ctx.check_eq("free surface", calc.calc_stress_tf(lin, top, True)[0], 0)


@harness("C01", quick=[dict(n=3, m=2)], thorough=[dict(n=4, m=3)], weight=2, warm=True)
def frequency_dependent(ctx, n, m):
    """the same for layers whose modulus and damping differ between m frequencies"""
    prof = strained_column(ctx, n, m)
    calc = run(ctx, prof, [ctx.real(f"f{j}", *F) for j in range(m)], reset_layers=False)
    lin = prof.location("outcrop", index=-1)
    np = ctx.np
    for i in range(n - 1):
        lo, hi = at(ctx, prof, i, prof[i].thickness), at(ctx, prof, i + 1, 0.0)
        u = calc.wave_at_location(lo), calc.wave_at_location(hi)
        s = calc.calc_stress_tf(lin, lo, True), calc.calc_stress_tf(lin, hi, True)
        cut = waves_of(calc, i)
        for j in range(m):
            ctx.check_eq(f"displacement{i}.{j}", u[0][j], u[1][j], rtol=1e-6, cuts=cut)
            ctx.check_eq(f"stress{i}.{j}", s[0][j], s[1][j], rtol=1e-6, atol=1e-9, cuts=cut + [calc.wave_at_location(lin)[j]])
    free = calc.calc_stress_tf(lin, at(ctx, prof, 0, 0.0), True)
    for j in range(m):
        ctx.check_eq(f"free surface{j}", free[j], 0)
    w = [2 * np.pi * f for f in calc.motion.freqs]
    g = calc.wave_at_location(at(ctx, prof, 0, 0.0, "incoming_only"))
    z = layer_z(ctx, prof, 0, "")
    d = calc.wave_at_location(at(ctx, prof, 0, z, "incoming_only"))
    for j in range(m):
        v = np.sqrt(prof[0].comp_shear_mod[j] / prof[0].density)
        ctx.check_eq(f"delay{j}", d[j], g[j] * np.exp(1j * w[j] / v * z), rtol=1e-6)


@harness("C01", quick=[dict(n=3), dict(n=10)], thorough=[dict(n=n) for n in (2, 3, 4, 10, 20)], weight=2, warm=True)
def wave_equation(ctx, n):
    """inside every layer the within motion solves the wave equation with the layer's complex
    velocity: u(z-d) + u(z+d) = 2 cos(k d) u(z)"""
    prof = column(ctx, n)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f])
    d = ctx.real("dz", 0.01, 20.0)
    np = ctx.np
    for i in range(n):
        z = layer_z(ctx, prof, i, f"{i}")
        u = [calc.wave_at_location(at(ctx, prof, i, z + s * d))[0] for s in (-1, 0, 1)]
        kd = k_of(ctx, prof[i], f) * d
        ctx.check_eq(f"helmholtz{i}", u[0] + u[2], (np.exp(1j * kd) + np.exp(-1j * kd)) * u[1], rtol=1e-6, cuts=waves_of(calc, i))


@harness("C01", quick=[dict()], warm=True)
def one_layer_closed_form(ctx):
    """damped layer on a damped elastic half-space: 1/(cos kH + i a sin kH)"""
    np = ctx.np
    prof = column(ctx, 2)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f])
    k = [k_of(ctx, l, f) for l in prof]
    kh = k[0] * prof[0].thickness
    a = k[0] * prof[0].comp_shear_mod / (k[1] * prof[1].comp_shear_mod)
    e, m = np.exp(1j * kh), np.exp(-1j * kh)
    tf = calc.calc_accel_tf(prof.location("outcrop", index=1), prof.location("outcrop", index=0))[0]
    ctx.check_eq("elastic base", tf * ((e + m) / 2 + a * (e - m) / 2), 1, rtol=1e-6)
    tf = calc.calc_accel_tf(prof.location("within", index=1), prof.location("outcrop", index=0))[0]
    ctx.check_eq("rigid base", tf * (e + m) / 2, 1, rtol=1e-6)


@harness("C01", quick=[dict(n=3), dict(n=8)], thorough=[dict(n=3), dict(n=5), dict(n=12)], warm=True)
def homogeneous(ctx, n):
    """layers of one material: incoming waves are only delayed and attenuated"""
    site, np = ctx.ps.site, ctx.np
    uw, v, d = ctx.real("uw", *UWT), ctx.real("v", *VS), ctx.real("d", *DA)
    st = site.SoilType("s", uw, None, d)
    prof = site.Profile([site.Layer(st, ctx.real(f"h{i}", *TH) if i < n - 1 else 0, v) for i in range(n)], 0)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f])
    depth = sum(l.thickness for l in prof[:-1])
    k = k_of(ctx, prof[0], f)
    base = calc.wave_at_location(prof.location("incoming_only", index=-1))[0]
    top = calc.wave_at_location(prof.location("incoming_only", index=0))[0]
    ctx.check_eq("delay", base, top * np.exp(1j * k * depth), rtol=1e-6)


# C02 ---------------------------------------------------------------------------
def few(n):
    """every layer of a small profile, the first, a middle and the last of a larger one"""
    return list(range(n)) if n < 6 else [0, n // 2, n - 1]


def _some_loc(ctx, prof, name):
    i = ctx.choice("i" + name, few(len(prof)))
    fld = ctx.choice("f" + name, FIELDS)
    return at(ctx, prof, i, layer_z(ctx, prof, i, name), fld)


@harness("C02", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)], warm=True, max_paths=2000, budget=240, thorough_budget=900, weight=4)
def algebra(ctx, n):
    """transfer functions between three arbitrary locations (any layer, depth, wave field)"""
    prof = column(ctx, n)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f])
    a, b = _some_loc(ctx, prof, "a"), _some_loc(ctx, prof, "b")
    c = prof.location("outcrop", index=-1)
    tf = lambda x, y: calc.calc_accel_tf(x, y)[0]  # noqa: E731
    ctx.check_eq("identity", tf(a, a), 1, rtol=1e-6)
    ctx.check_eq("reciprocal", tf(a, b) * tf(b, a), 1, rtol=1e-6)
    ctx.check_eq("composition", tf(a, b) * tf(b, c), tf(a, c), rtol=1e-6)
    ctx.check_eq("ratio", tf(a, b) * calc.wave_at_location(a)[0], calc.wave_at_location(b)[0], rtol=1e-6)


@harness("C02", quick=[dict(n=3)], thorough=[dict(n=2), dict(n=4)], warm=True)
def wave_fields(ctx, n):
    """outcrop, within and incoming motions of one point; the surface; the zero frequency"""
    prof = column(ctx, n)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f, 0.0, ctx.real("g", *F)])
    i = ctx.choice("i", range(n))
    z = layer_z(ctx, prof, i, "")
    w = {k: calc.wave_at_location(at(ctx, prof, i, z, k)) for k in FIELDS}
    for j in (0, 2):
        ctx.check_eq(f"outcrop is twice the incoming{j}", w["outcrop"][j], 2 * w["incoming_only"][j])
    s = {k: calc.wave_at_location(at(ctx, prof, 0, 0.0, k)) for k in FIELDS}
    for j in (0, 2):
        ctx.check_eq(f"surface{j}", s["within"][j], s["outcrop"][j])
    base = prof.location("outcrop", index=-1)
    for k in ("outcrop", "within"):
        ctx.check_eq(f"static {k}", calc.calc_accel_tf(base, at(ctx, prof, i, z, k))[1], 1, rtol=1e-6)
    ctx.check_eq("static incoming", 2 * calc.calc_accel_tf(base, at(ctx, prof, i, z, "incoming_only"))[1], 1, rtol=1e-6)


@harness("C02", quick=[dict(n=3)], thorough=[dict(n=4)], warm=True)
def frequencies_independent(ctx, n):
    """the value at a frequency does not depend on the other frequencies"""
    prof = column(ctx, n)
    f = [ctx.real("f0", *F), 0.0, ctx.real("f2", *F)]
    calc = run(ctx, prof, f)
    lin, lout = prof.location("outcrop", index=-1), prof.location("outcrop", index=0)
    mid = at(ctx, prof, 1, layer_z(ctx, prof, 1, ""))
    many = calc.calc_accel_tf(lin, lout), calc.calc_strain_tf(lin, mid)
    for j in (2, 1, 0):
        one = run(ctx, prof, [f[j]])
        ctx.check_eq(f"accel{j}", one.calc_accel_tf(lin, lout)[0], many[0][j])
        ctx.check_eq(f"strain{j}", one.calc_strain_tf(lin, mid)[0], many[1][j])


@harness("C02", quick=[dict(n=3, m=300)], thorough=[dict(n=3, m=1200), dict(n=10, m=150)], warm=True, budget=120, thorough_budget=900)
def many_frequencies(ctx, n, m):
    """m multiples of an arbitrary frequency: every value is that of its frequency alone"""
    prof = column(ctx, n)
    f0 = ctx.real("f", 1e-4, 0.03)
    f = [f0 * k for k in range(m)]
    calc = run(ctx, prof, f)
    lin, lout = prof.location("outcrop", index=-1), prof.location("outcrop", index=0)
    mid = at(ctx, prof, 1, layer_z(ctx, prof, 1, ""))
    many = calc.calc_accel_tf(lin, lout), calc.calc_strain_tf(lin, mid)
    ctx.check("length", len(many[0]) == len(many[1]) == m)
    for j in range(m):
        one = run(ctx, prof, [f[j]])
        ctx.check_eq(f"accel{j}", one.calc_accel_tf(lin, lout)[0], many[0][j])
        ctx.check_eq(f"strain{j}", one.calc_strain_tf(lin, mid)[0], many[1][j])


# C03 ---------------------------------------------------------------------------
@harness("C03", quick=[dict(n=3), dict(n=9)], thorough=[dict(n=2), dict(n=4), dict(n=9), dict(n=16)], warm=True, budget=120, thorough_budget=900)
def strain(ctx, n):
    """the strain transfer function is g/(-w^2) times the depth derivative of the within motion
    over the motion at the input: u(z+d) - u(z-d) = 2 sin(k d)/k u'(z); any input location"""
    np = ctx.np
    g = ctx.ps.motion.GRAVITY
    prof = column(ctx, n)
    f = ctx.real("f", *F)
    calc = run(ctx, prof, [f])
    i = ctx.choice("i", few(n))
    z = layer_z(ctx, prof, i, "out")
    d = ctx.real("dz", 0.01, 20.0)
    lin = _some_loc(ctx, prof, "in")
    w = 2 * np.pi * f
    u1, u0 = (calc.wave_at_location(at(ctx, prof, i, z + s * d))[0] for s in (1, -1))
    tf = calc.calc_strain_tf(lin, at(ctx, prof, i, z))[0]
    k = k_of(ctx, prof[i], f)
    e, m = np.exp(1j * k * d), np.exp(-1j * k * d)
    lhs = tf * calc.wave_at_location(lin)[0] * (-(w**2)) / g * ((e - m) / (1j * k))
    ctx.check_eq("strain", lhs, u1 - u0, rtol=1e-5, atol=1e-9, cuts=waves_of(calc, i) + waves_of(calc, lin.index))


@harness("C03", quick=[dict(n=2), dict(n=2, strained=True)], thorough=[dict(n=3), dict(n=3, strained=True)], warm=True)
def stress(ctx, n, strained=False):
    """stress transfer functions are the (complex) modulus times the strain, in strained layers
    the strain-compatible modulus; zero frequency"""
    prof = column(ctx, n)
    if strained:
        # kept by the calculation as it is told not to reset the layers
        site = ctx.ps.site
        one = lambda c, i, lo, hi: c("c", ctx.arr([1e-4, 1e-2]), ctx.arr([ctx.real(f"y{c.__name__}{i}", lo, hi)] * 2))  # noqa: E731
        prof = site.Profile(
            [site.Layer(site.SoilType(f"n{i}", l.unit_wt, one(site.ModulusReductionCurve, i, 0.05, 1.0), one(site.DampingCurve, i, 0.0, 0.25)), l.thickness, l.initial_shear_vel, l.damping_min)
             for i, l in enumerate(prof)], 0)
        for l in prof:
            l.strain = 1e-3
    calc = run(ctx, prof, [ctx.real("f", *F), 0.0], reset_layers=not strained)
    i = ctx.choice("i", range(n))
    lout = at(ctx, prof, i, layer_z(ctx, prof, i, ""))
    lin = prof.location(ctx.choice("fin", FIELDS), index=-1)
    t = calc.calc_strain_tf(lin, lout)
    a = calc.calc_stress_tf(lin, lout, True)
    b = calc.calc_stress_tf(lin, lout, False)
    ctx.check_eq("damped", a[0], t[0] * prof[i].comp_shear_mod)
    ctx.check_eq("undamped", b[0], t[0] * prof[i].shear_mod)
    for nm, x in (("strain", t), ("damped", a), ("undamped", b)):
        ctx.check_eq(f"static {nm}", x[1], 0)


@harness("C03", quick=[dict(n=2, m=3)], thorough=[dict(n=3, m=4)], warm=True)
def stress_by_frequency(ctx, n, m):
    """in layers whose properties differ between frequencies, stress is the modulus at each frequency
    times the strain at it"""
    prof = strained_column(ctx, n, m)
    calc = run(ctx, prof, [ctx.real(f"f{j}", *F) for j in range(m)], reset_layers=False)
    i = ctx.choice("i", range(n))
    lout = at(ctx, prof, i, layer_z(ctx, prof, i, ""))
    lin = prof.location("outcrop", index=-1)
    t = calc.calc_strain_tf(lin, lout)
    a = calc.calc_stress_tf(lin, lout, True)
    b = calc.calc_stress_tf(lin, lout, False)
    for j in range(m):
        ctx.check_eq(f"damped{j}", a[j], t[j] * prof[i].comp_shear_mod[j])
        ctx.check_eq(f"undamped{j}", b[j], t[j] * prof[i].shear_mod[j])


# C04 ---------------------------------------------------------------------------
@harness("C04", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4, 5)], warm=True, budget=120, thorough_budget=900)
def refinement(ctx, n):
    """splitting any layer at any depth changes no motion, strain or stress"""
    site = ctx.ps.site
    prof = column(ctx, n)
    f = ctx.real("f", *F)
    j = ctx.choice("split", range(n))
    r = ctx.real("r", 0.01, 0.99)
    layers = []
    for i, l in enumerate(prof):
        mk = lambda t: site.Layer(l.soil_type, t, l.initial_shear_vel)  # noqa: E731,B023
        if i == j:
            t = l.thickness if i < n - 1 else ctx.real("hb", *TH)
            layers += [mk(r * t), mk((1 - r) * t) if i < n - 1 else mk(0)]
        else:
            layers.append(mk(l.thickness))
    fine = site.Profile(layers, 0)
    a, b = run(ctx, prof, [f, 0.0]), run(ctx, fine, [f, 0.0])
    top = [p.location("outcrop", index=0) for p in (prof, fine)]
    for i in range(n):
        if i < j:
            pairs = [(at(ctx, prof, i, z), at(ctx, fine, i, z)) for z in [layer_z(ctx, prof, i, f"{i}")]]
        elif i > j:
            pairs = [(at(ctx, prof, i, z), at(ctx, fine, i + 1, z)) for z in [layer_z(ctx, prof, i, f"{i}")]]
        else:
            t = prof[i].thickness if i < n - 1 else ctx.real("hb", *TH)
            z1, z2 = r * t * ctx.real("q1", 0.0, 1.0), (1 - r) * t * ctx.real("q2", 0.0, 1.0)
            pairs = [(at(ctx, prof, i, z1), at(ctx, fine, i, z1)), (at(ctx, prof, i, r * t + z2), at(ctx, fine, i + 1, z2))]
        for q, (x, y) in enumerate(pairs):
            for k in (0, 1):
                ctx.check_eq(f"accel{i}.{q}.{k}", a.calc_accel_tf(top[0], x)[k], b.calc_accel_tf(top[1], y)[k], rtol=1e-5)
                ctx.check_eq(f"strain{i}.{q}.{k}", a.calc_strain_tf(top[0], x)[k], b.calc_strain_tf(top[1], y)[k], rtol=1e-5, atol=1e-8)


# C05 ---------------------------------------------------------------------------
def two_columns(ctx, n):
    """the same column built with the package as compiled by numba and without numba"""
    vals = [
        (ctx.real(f"uw{i}", *UWT), ctx.real(f"d{i}", *DA), ctx.real(f"h{i}", *TH) if i < n - 1 else 0, ctx.real(f"v{i}", *VS))
        for i in range(n)
    ]
    out = []
    for ps in (ctx.ps, ctx.ps2):
        site = ps.site
        out.append(site.Profile([site.Layer(site.SoilType(f"s{i}", u, None, d), h, v) for i, (u, d, h, v) in enumerate(vals)], 0))
    return out


@harness("C05", quick=[dict(n=2), dict(n=3)], thorough=[dict(n=n) for n in (2, 3, 4)], warm=True, alt=True, max_paths=3000, budget=240, weight=4)
def transfer_functions(ctx, n):
    """two frequencies and the zero frequency; any layer, depth and wave field of input and output"""
    f = [0.0, ctx.real("f1", *F), ctx.real("f2", *F)]
    profs = two_columns(ctx, n)
    i, j = ctx.choice("ia", range(n)), ctx.choice("ib", range(n))
    fa, fb = ctx.choice("fa", FIELDS), ctx.choice("fb", FIELDS)
    za, zb = layer_z(ctx, profs[0], i, "a"), layer_z(ctx, profs[0], j, "b")
    res = []
    for ps, p in zip((ctx.ps, ctx.ps2), profs):
        calc = run(ctx, p, f, ps)
        lin, lout = at(ctx, p, i, za, fa, ps), at(ctx, p, j, zb, fb, ps)
        r = [("wave", calc.wave_at_location(lout)), ("accel", calc.calc_accel_tf(lin, lout))]
        if fb == "within":
            r += [("strain", calc.calc_strain_tf(lin, lout)), ("stress", calc.calc_stress_tf(lin, lout, True))]
        res.append(r)
    for (nm, x), (_, y) in zip(*res):
        ctx.check(f"{nm} length", len(x) == len(y))
        for k in range(3):
            ctx.check_eq(f"{nm}{k}", x[k], y[k], rtol=1e-6, atol=1e-9)


@harness("C05", quick=[dict(n=3, m=20), dict(n=10, m=3)], thorough=[dict(n=10, m=60), dict(n=25, m=20)], warm=True, alt=True, thorough_budget=900)
def many(ctx, n, m):
    """n layers and m multiples of an arbitrary frequency, from zero: surface motion and the
    strains of the first, a middle and the last layer"""
    f0 = ctx.real("f", 1e-4, 0.5)
    f = [f0 * k for k in range(m)]
    profs = two_columns(ctx, n)
    z = [layer_z(ctx, profs[0], i, f"{i}") for i in few(n)]
    res = []
    for ps, p in zip((ctx.ps, ctx.ps2), profs):
        calc = run(ctx, p, f, ps)
        lin = at(ctx, p, n - 1, 0.0, "outcrop", ps)
        res.append([calc.calc_accel_tf(lin, at(ctx, p, 0, 0.0, "outcrop", ps)), *[calc.calc_strain_tf(lin, at(ctx, p, i, x, "within", ps)) for i, x in zip(few(n), z)]])
    for q, (x, y) in enumerate(zip(*res)):
        ctx.check("length", len(x) == len(y) == m)
        for k in range(m):
            ctx.check_eq(f"{q}.{k}", x[k], y[k], rtol=1e-6, atol=1e-9)


@harness("C05", quick=[dict(n=3), dict(n=12)], thorough=[dict(n=2), dict(n=4), dict(n=30)], warm=True, alt=True)
def layer_average(ctx, n):
    """depth averages used by the quarter-wavelength method"""
    h = ctx.reals("h", n, *TH)
    p = ctx.reals("p", n, *VS)
    z = ctx.real("z", 0.1, 500.0)
    a = ctx.ps.propagation.my_trapz(ctx.arr(h), ctx.arr(p), z)
    b = ctx.ps2.propagation.my_trapz(ctx.arr(h), ctx.arr(p), z)
    ctx.check_eq("average", a, b, rtol=1e-6)
