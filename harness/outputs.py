"""Accumulation and statistics of outputs (C30), definitions of outputs (C31)."""

from ._common import THICK, UW, harness, linear_profile

FREQS = [0.5, 1.0, 4.0]


def arbitrary_tfs(ctx, calc, nf, memo=None):
    """transfer functions are arbitrary complex values for each pair of locations"""
    memo = {} if memo is None else memo

    def loc(l):
        return (l.index, ctx.key(l.depth_within), l.wave_field.name)

    def tf(kind, *key):
        k = (kind, *key)
        if k not in memo:
            memo[k] = [ctx.cplx(f"{kind}{len(memo)}.{j}", -5.0, 5.0) for j in range(nf)]
        return ctx.arr(memo[k])

    ctx.patch(calc, "calc_accel_tf", lambda lin, lout: tf("a", loc(lin), loc(lout)))
    ctx.patch(calc, "calc_strain_tf", lambda lin, lout: tf("e", loc(lin), loc(lout)))
    ctx.patch(calc, "calc_stress_tf", lambda lin, lout, damped: tf("d" if damped else "s", loc(lin), loc(lout)))
    return memo


def calculated(ctx, n, motion, tag="", memo=None, wt=None):
    """a linear-elastic calculation with arbitrary transfer functions"""
    prof = linear_profile(ctx, n, name=tag, wt=wt)
    calc = ctx.ps.propagation.LinearElasticCalculator()
    calc(motion, prof, prof.location("outcrop", index=-1))
    arbitrary_tfs(ctx, calc, len(motion.freqs), memo)
    return calc, prof


def simple_motion(ctx):
    return ctx.ps.motion.Motion(ctx.arr(FREQS))


def record(ctx, k=3):
    return ctx.ps.motion.TimeSeriesMotion("", "", ctx.frac(1, 100), ctx.arr(ctx.reals("acc", k, -2.0, 2.0)))


def is_nan(x):
    return not hasattr(x, "op") and x != x


def same_padded(ctx, tag, got, columns):
    """got is the matrix of the columns, padded with NaN"""
    ctx.check(tag + ".shape", tuple(got.shape) == (max(len(c) for c in columns), len(columns)))
    for j, c in enumerate(columns):
        for i in range(got.shape[0]):
            if i < len(c):
                ctx.check_eq(f"{tag}{i},{j}", got[i, j], c[i])
            else:
                ctx.check(f"{tag}{i},{j} missing", is_nan(got[i, j]))


# C30 ---------------------------------------------------------------------------
@harness("C30", quick=[dict(ns=ns) for ns in ("23", "32", "232", "223", "333", "23232323", "34567")], thorough=[dict(ns=ns) for ns in ("23", "32", "232", "223", "333", "4232", "2343")], budget=60)
def profile_results(ctx, ns):
    """results of profiles with different numbers of layers are kept side by side, the shorter
    ones padded with NaN; names follow; reset forgets everything"""
    out = ctx.ps.output
    o = out.InitialVelProfile()
    m = simple_motion(ctx)
    want, refs = [], []
    for i, n in enumerate(ns):
        calc, prof = calculated(ctx, int(n), m, f"p{i}.")
        o(calc, name=("a", i) if i == 1 else None)
        want.append([prof[0].initial_shear_vel] + [l.initial_shear_vel for l in prof[:-1]])
        refs.append([l.depth for l in prof])
    same_padded(ctx, "values", o.values, want)
    same_padded(ctx, "depths", o.refs, refs)
    ctx.check("names", list(o.names) == [("a", i) if i == 1 else f"r{i + 1}" for i in range(len(ns))])
    got = list(o.iter_results())
    ctx.check("results", [g[0] for g in got] == list(o.names))
    for j, (_, r, v) in enumerate(got):
        for i in range(len(want[j])):
            ctx.check_eq(f"result{j}.{i}", v[i], want[j][i])
            ctx.check_eq(f"reference{j}.{i}", r[i], refs[j][i])
    o.reset()
    ctx.check("reset", o.values is None and list(o.names) == [] and len(o.refs) == 0)
    calc, prof = calculated(ctx, 2, m, "again.")
    o(calc)
    ctx.check("first again", list(o.names) == ["r1"] and len(o.values) == 2)
    ctx.check_eq("again", o.values[1], prof[0].initial_shear_vel)


@harness("C30", quick=[dict(first="unnamed"), dict(first="named")], budget=150)
def every_output(ctx, first):
    """every kind of output, two calculations with different profiles and arbitrary transfer
    functions: names as given or by number, as many columns as names, the first column is what a
    single calculation stores, results are iterated with their names, and reset forgets them"""
    np, out = ctx.np, ctx.ps.output
    m = record(ctx)
    runs = []
    for i, n in enumerate((3, 2)):
        calc, prof = calculated(ctx, n, m, f"p{i}.", wt=1000)
        for j, l in enumerate(prof):
            l.strain_max = ctx.real(f"e{i}{j}", 1e-7, 0.1)
        runs.append(calc)
    f, osc = [0.0, float(m.freqs[1])], [2.0, 10.0]
    within, top, base = out.OutputLocation("within", index=0), out.OutputLocation("outcrop", index=0), out.OutputLocation("outcrop", index=-1)
    make = {
        "accel": lambda: out.AccelerationTSOutput(top), "arias": lambda: out.AriasIntensityTSOutput(top),
        "strain": lambda: out.StrainTSOutput(within), "stress": lambda: out.StressTSOutput(within),
        "fas": lambda: out.FourierAmplitudeSpectrumOutput(f, top, ko_bandwidth=None), "rs": lambda: out.ResponseSpectrumOutput(osc, top, 0.05),
        "tf": lambda: out.AccelTransferFunctionOutput(f, base, top), "rsr": lambda: out.ResponseSpectrumRatioOutput(osc, base, top, 0.05),
        "max strain": out.MaxStrainProfile, "damping": out.DampingProfile, "mod reduc": out.ShearModReducProfile, "vel": out.InitialVelProfile,
        "comp vel": out.CompatVelProfile, "csr": out.CyclicStressRatioProfile, "max accel": out.MaxAccelProfile,
    }
    # ratios of spectra
    for calc in runs:
        a0 = m.calc_osc_accels(ctx.arr(osc), 0.05, calc.calc_accel_tf(calc.loc_input, calc.profile.location("outcrop", index=-1)))
        ctx.assume(a0[0] > 1e-6)
        ctx.assume(a0[1] > 1e-6)
    col = out.OutputCollection([g() for g in make.values()])
    names = ["first" if first == "named" else "r1", "r2"]
    singles = []
    for i, calc in enumerate(runs):
        col(calc, name="first" if first == "named" and i == 0 else None)
        for g in make.values():
            o = g()
            o(calc)
            singles.append(o)
    k = len(make)
    for j, (tag, o) in enumerate(zip(make, col)):
        ctx.check(tag + " names", list(o.names) == names and [x[0] for x in o.iter_results()] == names)
        ctx.check(tag + " single", all(list(singles[j + k * i].names) == ["r1"] for i in range(2)))
        want = [list(singles[j + k * i].values) for i in range(2)]
        same_padded(ctx, tag, o.values, want)
        refs = [list(singles[j + k * i].refs) for i in range(2)]
        if np.ndim(o.refs) == 1:
            ctx.check_eq(tag + " refs", list(o.refs), refs[0])
        else:
            same_padded(ctx, tag + " refs", o.refs, refs)
    col.reset()
    for tag, o in zip(make, col):
        ctx.check(tag + " reset", list(o.names) == [] and o.values is None)


@harness("C30", quick=[dict(k=1), dict(k=2), dict(k=3), dict(k=15)], thorough=[dict(k=k) for k in (1, 2, 3, 5)], budget=100)
def spectrum_results(ctx, k):
    """k realisations of an output with fixed frequencies: one column each, frequencies kept,
    also by reset; median and logarithmic standard deviation across realisations"""
    np, out, W = ctx.np, ctx.ps.output, "outcrop"
    o = out.AccelTransferFunctionOutput(FREQS, out.OutputLocation(W, index=-1), out.OutputLocation(W, index=0))
    col = out.OutputCollection([o])
    ctx.check("collection", len(col) == 1 and col[0] is o and o in col and list(col) == [o])
    m = simple_motion(ctx)
    cols = []
    for i in range(k):
        memo = {}
        calc, prof = calculated(ctx, 2, m, f"p{i}.")
        tf = ctx.arr([ctx.real(f"t{i}{j}", 0.1, 10.0) * (1, -1, 1)[(i + j) % 3] for j in range(3)])
        ctx.patch(calc, "calc_accel_tf", lambda lin, lout, tf=tf: tf)
        col(calc, name=f"n{i}")
        cols.append([abs(x) for x in tf])
        if i == 0:
            (name, r, v), = o.iter_results()
            for j in range(3):
                ctx.check_eq(f"single{j}", v[j], cols[0][j])
    same_padded(ctx, "values", o.values.reshape(3, -1), cols)
    ctx.check("names", list(o.names) == [f"n{i}" for i in range(k)])
    ctx.check("freqs", [float(f) for f in o.freqs] == FREQS)
    for i, (name, r, v) in enumerate(o.iter_results()):
        ctx.check("shared", [float(f) for f in r] == FREQS and name == f"n{i}")
        for j in range(3):
            ctx.check_eq(f"column{i}{j}", v[j], cols[i][j])
    s = o.calc_stats()
    for j in range(3):
        ln = [np.log(cols[i][j]) for i in range(k)]
        mean = sum(ln) / k
        ctx.check_eq(f"median{j}", s["median"][j], np.exp(mean))
        ctx.check_eq(f"ln_std{j}", s["ln_std"][j] ** 2, sum((x - mean) ** 2 for x in ln) / k)
        ctx.check_le(f"non-negative{j}", 0, s["ln_std"][j])
    col.reset()
    ctx.check("reset", o.values is None and [float(f) for f in o.freqs] == FREQS)


@harness("C30", quick=[dict(ns="3"), dict(ns="22"), dict(ns="32"), dict(ns="2222")], thorough=[dict(ns="3"), dict(ns="22"), dict(ns="32"), dict(ns="232"), dict(ns="33")], budget=150, max_paths=800)
def profile_stats(ctx, ns):
    """one or more realisations: statistics at an arbitrary depth are those of the values of the layers containing it"""
    np, out = ctx.np, ctx.ps.output
    o = out.InitialVelProfile()
    m = simple_motion(ctx)
    profs = []
    for i, n in enumerate(ns):
        calc, prof = calculated(ctx, int(n), m, f"p{i}.")
        o(calc)
        profs.append(prof)
    z = ctx.real("z", 0.0, 3000.0)
    s = o.calc_stats(ref=ctx.arr([z]))
    ln = []
    for p in profs:
        for l in p[:-1]:
            if bool(z <= l.depth_base):
                break
        ln.append(np.log(l.initial_shear_vel))
    mean = sum(ln) / len(ln)
    ctx.check_eq("median", s["median"][0], np.exp(mean))
    ctx.check_eq("ln_std", s["ln_std"][0] ** 2, sum((x - mean) ** 2 for x in ln) / len(ln))
    ctx.check_eq("depth", s["ref"][0], z)


@harness("C30", quick=[dict(ns="2")], budget=100)
def default_depths(ctx, ns):
    """the default depths of statistics and tables reach from the surface to the deepest stored
    depth of any realisation"""
    np, out = ctx.np, ctx.ps.output
    o = out.InitialVelProfile()
    m = simple_motion(ctx)
    deepest = 0
    for i, n in enumerate(ns):
        calc, prof = calculated(ctx, int(n), m, f"p{i}.")
        o(calc)
        deepest = np.maximum(deepest, prof[-1].depth)

    def linspace(a, b, num=50, **k):
        # the ends stand for the whole grid
        return ctx.arr([a, b])

    ctx.stub("np.linspace", linspace)
    s = o.calc_stats()
    ctx.check_eq("stats from", s["ref"][0], 0)
    ctx.check_le("stats to", deepest, s["ref"][-1])
    t = o.to_dataframe()
    ctx.check_eq("table from", t.index[0], 0)
    ctx.check_le("table to", deepest, t.index[-1])


@harness("C30", quick=[dict(named=False, ns=(2, 3)), dict(named=True, ns=(2, 3)), dict(named=True, ns=(3,)), dict(named=False, ns=(2,)), dict(named=True, ns=(2,) * 4)], budget=100)
def tables(ctx, named, ns):
    """tables of spectra and of profiles have one column per realisation under its name: the stored
    values at the frequencies, and the profile's value at given depths"""
    np, out = ctx.np, ctx.ps.output
    m = simple_motion(ctx)
    base, top = out.OutputLocation("outcrop", index=-1), out.OutputLocation("outcrop", index=0)
    t, v = out.AccelTransferFunctionOutput(FREQS, base, top), out.InitialVelProfile()
    profs, names = [], []
    for i, n in enumerate(ns):
        calc, prof = calculated(ctx, n, m, f"p{i}.")
        name = ("a", i) if named else None
        t(calc, name=name)
        v(calc, name=name)
        profs.append(prof)
        names.append(name or f"r{i + 1}")
    a = t.to_dataframe()
    ctx.check("columns", list(a.columns) == names and [float(x) for x in a.index] == FREQS)
    for i in range(len(ns)):
        ctx.check_eq(f"column{i}", list(a[names[i]].values), list(t.values if len(ns) == 1 else t.values[:, i]))
    z = ctx.real("z", 0.0, 3000.0)
    b = v.to_dataframe(ref=ctx.arr([0.0, z]))
    ctx.check("profile columns", list(b.columns) == names and b.shape == (2, len(ns)))
    for i, p in enumerate(profs):
        for l in p[:-1]:
            if bool(z <= l.depth_base):
                break
        got = list(b[names[i]].values)
        ctx.check_eq(f"surface{i}", got[0], p[0].initial_shear_vel, rtol=1e-9)
        ctx.check_eq(f"at depth{i}", got[1], l.initial_shear_vel, rtol=1e-9)


@harness("C30", quick=[dict(ks=(3, 2)), dict(ks=(2, 4)), dict(ks=(3, 5, 2, 4, 6, 2, 3))], thorough=[dict(ks=(3, 2)), dict(ks=(2, 4)), dict(ks=(5, 3, 4))], budget=60)
def time_results(ctx, ks):
    """time series of different length are padded with NaN, each with its own times"""
    out, M = ctx.ps.output, ctx.ps.motion.TimeSeriesMotion
    o = out.AccelerationTSOutput(out.OutputLocation("outcrop", index=-1))
    cols, times = [], []
    for i, k in enumerate(ks):
        dt = ctx.frac(1, 100) * (i + 1)
        m = M("", "", dt, ctx.arr(ctx.reals(f"acc{i}.", k, -2.0, 2.0)))
        prof = linear_profile(ctx, 2, name=f"p{i}.")
        calc = ctx.ps.propagation.LinearElasticCalculator()
        calc(m, prof, prof.location("outcrop", index=-1))
        ctx.patch(calc, "calc_accel_tf", lambda lin, lout, m=m: ctx.arr([1.0 + 0j] * len(m.freqs)))
        o(calc)
        cols.append(list(m.calc_time_series()))
        times.append([dt * j for j in range(len(cols[-1]))])
    same_padded(ctx, "values", o.values, cols)
    same_padded(ctx, "times", o.times, times)


# C31 ---------------------------------------------------------------------------
@harness("C31", quick=[dict(n=2), dict(n=3), dict(n=9)], thorough=[dict(n=n) for n in (2, 3, 4, 5)], budget=100)
def layer_values(ctx, n):
    """profiles of layer properties: at the base of each layer (and at the surface) the value of
    the layer above"""
    out, site = ctx.ps.output, ctx.ps.site
    m = simple_motion(ctx)
    calc, prof = calculated(ctx, n, m)
    g = []
    for i, l in enumerate(prof[:-1]):
        # a strain-compatible state with an arbitrary modulus and damping
        r, d = ctx.real(f"r{i}", 0.01, 1.0), ctx.real(f"D{i}", 0.0, 0.4)
        l.soil_type.mod_reduc = site.ModulusReductionCurve("g", [1e-5, 1e-3], ctx.arr([r, r]))
        l.soil_type.damping = site.DampingCurve("d", [1e-5, 1e-3], ctx.arr([0.01, d]))
        l.strain = 1e-3
        g.append(l)
    for cls, f in (
        ("DampingProfile", lambda l: l.damping),
        ("ShearModReducProfile", lambda l: l.shear_mod / l.initial_shear_mod),
        ("InitialVelProfile", lambda l: l.initial_shear_vel),
        ("CompatVelProfile", lambda l: ctx.np.sqrt(l.shear_mod / l.density)),
    ):
        o = getattr(out, cls)()
        o(calc)
        ctx.check(cls + ".length", len(o.values) == n and len(o.refs) == n)
        for i in range(n):
            ctx.check_eq(f"{cls}.depth{i}", o.refs[i], prof[i].depth)
            ctx.check_eq(f"{cls}.value{i}", o.values[i], f(prof[max(i - 1, 0)]))


@harness("C31", quick=[dict(n=2), dict(n=6)], thorough=[dict(n=n) for n in (2, 3)], budget=100)
def smallest_velocity(ctx, n):
    """after a frequency-dependent calculation the strain-compatible velocity profile has the
    smallest velocity of each layer over the frequencies"""
    out, site, np = ctx.ps.output, ctx.ps.site, ctx.np
    calc, prof = calculated(ctx, n, simple_motion(ctx))
    want = []
    for i, l in enumerate(prof[:-1]):
        r = ctx.reals(f"r{i}.", 3, 0.01, 1.0)
        l.soil_type.mod_reduc = site.ModulusReductionCurve("g", [1e-5, 1e-4, 1e-3], ctx.arr(r))
        l.strain = ctx.arr([1e-4, 1e-5, 1e-3])
        want.append([l.initial_shear_vel * np.sqrt(x) for x in r])
    o = out.CompatVelProfile()
    o(calc)
    for i, w in enumerate(want):
        ctx.check_eq(f"value{i}", o.values[i + 1], np.minimum(w[0], np.minimum(w[1], w[2])), rtol=1e-9)
    ctx.check_eq("surface", o.values[0], o.values[1])


@harness("C31", quick=[dict(n=2), dict(n=3), dict(n=9)], thorough=[dict(n=n) for n in (2, 3, 4, 5)], budget=100)
def mid_values(ctx, n):
    """largest strain and cyclic stress ratio at the middle of each layer: the peak strain, and
    0.65 times shear modulus times peak strain over the effective vertical stress there"""
    np, out = ctx.np, ctx.ps.output
    m = simple_motion(ctx)
    wt = ctx.real("wt", 0.0, 50.0)
    calc, prof = calculated(ctx, n, m, wt=wt)
    e = ctx.reals("e", n, 1e-7, 0.1)
    for l, x in zip(prof, e):
        l.strain_max = x
    a, b = out.MaxStrainProfile(), out.CyclicStressRatioProfile()
    z, s = 0, 0
    for l in prof[:-1]:
        ctx.assume(s + l.unit_wt * l.thickness / 2 - np.maximum(z + l.thickness / 2 - wt, 0) * 9.80665 > 0.01)
        z, s = z + l.thickness, s + l.unit_wt * l.thickness
    a(calc), b(calc)
    ctx.check("length", len(a.values) == n and len(b.values) == n and len(a.refs) == n and len(b.refs) == n)
    ctx.check_eq("surface strain", a.values[0], 0)
    z, s = 0, 0
    for i, l in enumerate(prof[:-1]):
        mid = z + l.thickness / 2
        ctx.check_eq(f"depth{i}", a.refs[i + 1], mid)
        ctx.check_eq(f"csr depth{i}", b.refs[i + 1], mid)
        ctx.check_eq(f"strain{i}", a.values[i + 1], e[i])
        eff = s + l.unit_wt * l.thickness / 2 - np.maximum(mid - wt, 0) * 9.80665
        csr = ctx.frac(65, 100) * l.shear_mod * e[i] / eff
        ctx.check_eq(f"csr{i}", b.values[i + 1], csr, rtol=1e-6)
        if i == 0:
            ctx.check_eq("csr surface", b.values[0], csr, rtol=1e-6)
        z, s = z + l.thickness, s + l.unit_wt * l.thickness
    for o in (a, b):
        ctx.check_eq("surface", o.refs[0], 0)


@harness("C31", quick=[dict(n=2), dict(n=3), dict(n=8)], thorough=[dict(n=n) for n in (2, 3, 4)], budget=100)
def peak_accels(ctx, n):
    """peak of the within motion at the top of each layer"""
    out = ctx.ps.output
    m = record(ctx)
    calc, prof = calculated(ctx, n, m)
    o = out.MaxAccelProfile()
    o(calc)
    ctx.check("length", len(o.values) == n and len(o.refs) == n)
    for i in range(n):
        ctx.check_eq(f"depth{i}", o.refs[i], prof[i].depth)
        tf = calc.calc_accel_tf(calc.loc_input, prof.location("within", index=i))
        ctx.check_eq(f"peak{i}", o.values[i], m.calc_peak(tf))


@harness("C31", quick=[dict(where=w) for w in ("index", "depth")], budget=100, max_paths=600)
def time_series(ctx, where):
    """acceleration, strain and stress time series at a location are the motion transferred
    from the input location to it, scaled as requested; times are multiples of the time step"""
    np, out = ctx.np, ctx.ps.output
    m = record(ctx)
    calc, prof = calculated(ctx, 3, m, wt=ctx.real("wt", 0.0, 50.0))
    kw = dict(index=1) if where == "index" else dict(depth=ctx.real("z", 0.01, 100.0))
    loc = prof.location("within", **kw)
    L = out.OutputLocation("within", **kw)
    lin = calc.loc_input
    eff = loc.stress_vert(effective=True)
    ctx.assume(eff > 0.01)
    a = calc.calc_accel_tf(lin, loc)
    e = calc.calc_strain_tf(lin, loc)
    d, s = calc.calc_stress_tf(lin, loc, True), calc.calc_stress_tf(lin, loc, False)
    for tag, o, tf, f in (
        ("accel", out.AccelerationTSOutput(L), a, 1),
        ("strain", out.StrainTSOutput(L), e, 1),
        ("percent", out.StrainTSOutput(L, in_percent=True), e, 100),
        ("damped", out.StressTSOutput(L, damped=True), d, 1),
        ("stress", out.StressTSOutput(L), s, 1),
        ("normalized", out.StressTSOutput(L, normalized=True), s, 1 / eff),
    ):
        o(calc)
        want = m.calc_time_series(tf)
        ctx.check(tag + ".length", len(o.values) == len(want) and len(o.times) == len(want))
        for i in range(len(want)):
            ctx.check_eq(f"{tag}{i}", o.values[i], want[i] * f, rtol=1e-9)
            ctx.check_eq(f"{tag} time{i}", o.times[i], i * m.time_step)
    for cls in (out.StrainTSOutput, out.StressTSOutput):
        _, ex = ctx.call(cls, out.OutputLocation("outcrop", **kw))
        ctx.check("within only", ex is not None)


@harness("C31", quick=[dict()], budget=100)
def arias(ctx):
    """Arias intensity builds up from zero to the intensity of the motion at the location"""
    np, out = ctx.np, ctx.ps.output
    m = record(ctx)
    calc, prof = calculated(ctx, 2, m)
    o = out.AriasIntensityTSOutput(out.OutputLocation("within", index=0))
    o(calc)
    a = m.calc_time_series(calc.calc_accel_tf(calc.loc_input, prof.location("within", index=0)))
    ctx.check("length", len(o.values) == len(a))
    t = 0
    for i in range(len(a)):
        if i:
            t = t + (a[i] ** 2 + a[i - 1] ** 2) / 2 * m.time_step
        ctx.check_eq(f"time{i}", o.times[i], i * m.time_step)
        ctx.check_eq(f"intensity{i}", o.values[i], t * 9.80665 * np.pi / 2, rtol=1e-6)


@harness("C31", quick=[dict(field="outcrop"), dict(field="within")], budget=100)
def spectra(ctx, field):
    """Fourier and response spectra and their ratios at locations: transfer functions from the
    input location (ratios: between the two locations), interpolated to the frequencies"""
    np, out = ctx.np, ctx.ps.output
    m = record(ctx)
    calc, prof = calculated(ctx, 3, m)
    lin = calc.loc_input
    L0, L1 = out.OutputLocation("outcrop", index=-1), out.OutputLocation(field, index=0)
    l0, l1 = prof.location("outcrop", index=-1), prof.location(field, index=0)
    own = [float(f) for f in m.freqs]
    f = [own[0], (own[0] + own[1]) / 2, own[2]]
    o = out.FourierAmplitudeSpectrumOutput(f, L1, ko_bandwidth=None)
    o(calc)
    a = [abs(x * y) for x, y in zip(calc.calc_accel_tf(lin, l1), m.fourier_amps)]
    for i, w in enumerate((a[0], (a[0] + a[1]) / 2, a[2])):
        ctx.check_eq(f"fourier{i}", o.values[i], w)
    t = calc.calc_accel_tf(l0, l1)
    o = out.AccelTransferFunctionOutput(f, L0, L1)
    o(calc)
    c = out.AccelTransferFunctionOutput(f, L0, L1, absolute=False)
    c(calc)
    for i, (p, q) in enumerate(((0, 0), (0, 1), (2, 2))):
        ctx.check_eq(f"tf{i}", o.values[i], (abs(t[p]) + abs(t[q])) / 2)
        ctx.check_eq(f"complex tf{i}", c.values[i], (t[p] + t[q]) / 2)
    osc, D = ctx.arr([2.0, 10.0]), ctx.real("D", 0.01, 0.3)
    o = out.ResponseSpectrumOutput(osc, L1, D)
    o(calc)
    r = out.ResponseSpectrumRatioOutput(osc, L0, L1, D)
    top = m.calc_osc_accels(osc, D, calc.calc_accel_tf(lin, l1))
    base = m.calc_osc_accels(osc, D, calc.calc_accel_tf(lin, l0))
    ctx.assume(base[0] > 1e-6)
    ctx.assume(base[1] > 1e-6)
    r(calc)
    for i in range(2):
        ctx.check_eq(f"response{i}", o.values[i], top[i])
        ctx.check_eq(f"ratio{i}", r.values[i], top[i] / base[i], rtol=1e-9)
        ctx.check_eq(f"period{i}", o.periods[i], 1 / osc[i])


@harness("C31", quick=[dict(bw=20), dict(bw=40)], budget=60)
def smoothed(ctx, bw):
    """with a bandwidth, spectra are smoothed (arbitrary smoother) instead of interpolated"""
    out = ctx.ps.output
    m = record(ctx)
    calc, prof = calculated(ctx, 2, m)
    f = [0.5, 2.0]
    seen = []

    def smooth(ko, fr, sp, b, *x, **k):
        seen.append((list(ko), list(fr), list(sp), b))
        return ctx.arr([sum(sp) * (i + 1) for i in range(len(ko))])

    ctx.stub("pykooh.smooth", smooth)
    L0, L1 = out.OutputLocation("outcrop", index=-1), out.OutputLocation("within", index=0)
    o, t = out.FourierAmplitudeSpectrumOutput(f, L1, ko_bandwidth=bw), out.AccelTransferFunctionOutput(f, L0, L1, ko_bandwidth=bw)
    o(calc), t(calc)
    tf = calc.calc_accel_tf(calc.loc_input, prof.location("within", index=0))
    for (ko, fr, sp, b), res, want in zip(seen, (o, t), ([abs(x * y) for x, y in zip(tf, m.fourier_amps)], [abs(x) for x in calc.calc_accel_tf(prof.location("outcrop", index=-1), prof.location("within", index=0))])):
        ctx.check("frequencies", [float(x) for x in ko] == f and [float(x) for x in fr] == [float(x) for x in m.freqs])
        ctx.check("bandwidth", b == bw)
        for i in range(len(want)):
            ctx.check_eq(f"unsmoothed{i}", sp[i], want[i])
        for i in range(2):
            ctx.check_eq(f"smoothed{i}", res.values[i], sum(want) * (i + 1))


@harness("C31", quick=[dict()])
def only_time_series(ctx):
    """time series outputs refuse motions without time series"""
    out = ctx.ps.output
    calc, prof = calculated(ctx, 2, simple_motion(ctx))
    o = out.AccelerationTSOutput(out.OutputLocation("outcrop", index=0))
    _, e = ctx.call(o, calc)
    ctx.check("refused", isinstance(e, NotImplementedError) and list(o.names) == [] and o.values is None)
