import math

from ._common import harness, linear_curve
from .waves import at, run  # noqa: F401

RATIO = (0.3, 1.0)


def peak_motion(ctx, freqs, names="", lo=1e-7, hi=0.2):
    """A motion whose peak response is an arbitrary positive number per transfer function."""
    M = ctx.ps.motion.Motion

    class PeakMotion(M):
        def __init__(self):
            M.__init__(self, ctx.arr(freqs))
            self.seen = []
            self.var = {}

        def calc_peak(self, tf=None, **kw):
            key = tuple(ctx.key(x) for x in tf)
            if key not in self.var:
                self.var[key] = ctx.real(f"peak{names}{len(self.var)}", lo, hi)
            self.seen.append(self.var[key])
            return self.var[key]

        def calc_pgv(self, tf=None):
            return ctx.real("pgv" + names, 0.01, 300.0)

    return PeakMotion()


def any_curve(ctx, kind, name, limit=None):
    """A nonlinear curve that is an arbitrary function of strain (interpolation: C17); strains
    at the limit are recognised as equal."""
    site = ctx.ps.site
    base = site.ModulusReductionCurve if kind == "g" else site.DampingCurve
    box = (0.05, 1.0) if kind == "g" else (0.01, 0.3)

    class AnyCurve(base):
        def __call__(self, strain, pos=None):
            if getattr(strain, "ndim", 0):
                # per frequency
                return ctx.arr([self(e, j) for j, e in enumerate(strain)])
            top = limit is not None and bool(strain >= limit)
            k = (pos, "limit" if top else ctx.key(strain))
            if k not in self.seen:
                v = self.seen[k] = ctx.real(f"{name}{len(self.seen)}", *box)
                if not top:
                    # a function of the strain, however the strain was computed
                    for p, s, w in self.met:
                        if p == pos:
                            ctx.assume((s != strain) | (w == v) if ctx.mode == "sym" else True)
                    self.met.append((pos, strain, v))
            return self.seen[k]

    ys = [ctx.real(f"{name}small", *box)] * 2
    c = AnyCurve(name, [1e-5, 1e-1], [0.5, 0.1])
    c.values = ctx.arr(ys)
    c.seen, c.met = {}, []
    return c


def nonlinear_column(ctx, n, limit=None, fixed=False, thick=(0.05, 50.0)):
    """n nonlinear layers on linear rock"""
    site = ctx.ps.site
    real = (lambda name, lo, hi: 2.0**round(math.log2((lo * hi) ** 0.5))) if fixed else ctx.real
    layers = []
    for i in range(n):
        st = site.SoilType(f"s{i}", 18.0, any_curve(ctx, "g", f"g{i}.", limit), any_curve(ctx, "d", f"d{i}.", limit))
        layers.append(site.Layer(st, ctx.real(f"h{i}", *thick) if thick else 4.0, real(f"v{i}", 80.0, 800.0)))
    layers.append(site.Layer(site.SoilType("rock", 22.0, None, 0.01), 0, real("vr", 800.0, 2500.0)))
    return site.Profile(layers, 0)


def tf_is_arbitrary(ctx, calc, nf):
    """Replace the strain transfer function (decided by C01-C03) by arbitrary non-zero values."""
    seen = []

    def tf(lin, lout):
        seen.append([ctx.real(f"tf{len(seen) + 1}.{j}", 1e-6, 1.0) * (1 + 0j) for j in range(nf)])
        return ctx.arr(seen[-1])

    ctx.patch(calc, "calc_strain_tf", tf)
    return seen


def rel(ctx, prev, now):
    return 100.0 * ctx.np.abs((prev - now) / now)


# C08 ---------------------------------------------------------------------------
@harness("C08", quick=[dict(n=1, its=1), dict(n=1, its=2), dict(n=1, its=3), dict(n=2, its=2)], thorough=[dict(n=1, its=i) for i in (1, 2, 3, 4, 6)] + [dict(n=2, its=i) for i in (2, 3)],
         warm=True, budget=200, thorough_budget=1500, weight=5, max_paths=800)
def iteration(ctx, n, its):
    """n nonlinear layers on rock; the peak strain is an arbitrary positive function of the
    transfer function; every iteration outcome (converged, limited, refused, out of iterations);
    for two layers with one velocity, strain ratio and tolerance"""
    prop = ctx.ps.propagation
    limit = 0.05
    prof = nonlinear_column(ctx, n, limit, fixed=n > 1)
    m = peak_motion(ctx, [ctx.real("f", 0.1, 20.0) if n == 1 else 2.0])
    ratio, tol = (ctx.real("ratio", *RATIO), ctx.real("tol", 1e-3, 20.0)) if n == 1 else (0.65, 1.0)
    calc = prop.EquivalentLinearCalculator(ratio, tol, its, limit)
    layers = list(prof)[:n]
    curve = lambda l, s: (l.initial_shear_mod * l.soil_type.mod_reduc(s),  # noqa: E731
                          l.damping_min + (l.soil_type.damping(s) - l.soil_type.damping_min))
    tf_is_arbitrary(ctx, calc, 1)
    _, exc = ctx.call(calc, m, prof, prof.location("outcrop", index=-1))
    # what the description of the algorithm says, for the peaks that were met
    prev = [curve(l, m.pgv / 100 / l.initial_shear_vel) for l in layers]
    lim_prev, done, used = False, None, 0
    for j in range(its):
        peaks = m.seen[j * n : j * n + n]
        if len(peaks) < n:
            break
        used += 1
        raw = [ratio * p for p in peaks]
        for x in raw:
            # away from the limit by more than rounding
            ctx.assume(ctx.np.abs(x - limit) > 1e-9)
        lim = any([bool(x > limit) for x in raw])
        s = [limit if bool(x > limit) else x for x in raw]
        now = [curve(l, x) for l, x in zip(layers, s)]
        err = [ctx.np.maximum(rel(ctx, p[0], q[0]), rel(ctx, p[1], q[1])) for p, q in zip(prev, now)]
        if bool((err[0] if n == 1 else ctx.np.maximum(err[0], err[1])) < tol):
            done = "converged"
            break
        if lim and lim_prev:
            done = "refused"
            break
        lim_prev, prev = lim, now
    else:
        done = "out of iterations"
    ctx.check("refusal", (done == "refused") == isinstance(exc, RuntimeError))
    ctx.check("no other error", exc is None or isinstance(exc, RuntimeError))
    ctx.check("iterations", len(m.seen) == n * (used + (0 if exc else 1)))
    ctx.check("met iterations", used == its or done != "out of iterations")
    if exc is None:
        for i, l in enumerate(layers):
            ctx.check_eq(f"strain{i}", l.strain, s[i])
            ctx.check_le(f"limit{i}", l.strain, limit)
            g, d = curve(l, s[i])
            ctx.check_eq(f"modulus compatible{i}", l.shear_mod, g)
            ctx.check_eq(f"damping compatible{i}", l.damping, d)
            ctx.check_eq(f"strain max{i}", l.strain_max, m.seen[i - n])
        ctx.check_eq("rock modulus", prof[n].shear_mod, prof[n].initial_shear_mod)
        ctx.check_eq("rock damping", prof[n].damping, prof[n].damping_min)


@harness("C08", quick=[dict(its=11, kind="G"), dict(its=16, kind="D")], thorough=[dict(its=i, kind=k) for i in (16, 40) for k in "GD"], warm=True, budget=100, thorough_budget=900, max_paths=600)
def many_iterations(ctx, its, kind):
    """up to its iterations of a layer with one nonlinear curve and without a strain limit: every
    iteration but the last one changes the property by the tolerance or more, the last one by less
    (unless the iterations are used up), and the strain is the ratio times the peak"""
    site, prop = ctx.ps.site, ctx.ps.propagation
    c = any_curve(ctx, "g" if kind == "G" else "d", "c")
    st = site.SoilType("s", 18.0, *((c, 0.02) if kind == "G" else (None, c)))
    v = ctx.real("v", 80.0, 800.0)
    prof = site.Profile([site.Layer(st, ctx.real("h", 0.05, 50.0), v), site.Layer(site.SoilType("rock", 22.0, None, 0.01), 0, 1000.0)], 0)
    m = peak_motion(ctx, [ctx.real("f", 0.1, 20.0)])
    ratio, tol = ctx.real("ratio", *RATIO), ctx.real("tol", 1e-3, 20.0)
    calc = prop.EquivalentLinearCalculator(ratio, tol, its, None)
    tf_is_arbitrary(ctx, calc, 1)
    calc(m, prof, prof.location("outcrop", index=-1))
    used = len(m.seen) - 1
    ctx.check("used", 1 <= used <= its)
    vals = [c(m.pgv / 100 / v)] + [c(ratio * p) for p in m.seen[:used]]
    if kind == "D":
        vals = [st.damping_min + (x - st.damping_min) for x in vals]
    err = [rel(ctx, a, b) for a, b in zip(vals, vals[1:])]
    for j, e in enumerate(err[:-1]):
        ctx.check(f"goes on {j}", e >= tol)
    if used < its:
        ctx.check("converged", err[-1] < tol)
    l = prof[0]
    ctx.check_eq("strain", l.strain, ratio * m.seen[used - 1])
    ctx.check_eq("peak", l.strain_max, m.seen[used])
    ctx.check_eq("modulus", l.shear_mod, l.initial_shear_mod * (vals[-1] if kind == "G" else 1))
    ctx.check_eq("damping", l.damping, 0.02 if kind == "G" else vals[-1])


@harness("C08", quick=[dict(n=2, its=1), dict(n=2, its=2)], thorough=[dict(n=2, its=2), dict(n=3, its=1), dict(n=2, its=3)], warm=True, budget=200, thorough_budget=1500, weight=6, max_paths=1500)
def layers_compatible(ctx, n, its):
    """several nonlinear layers: on return every layer has the properties of its own curves at
    its strain, the strain is the ratio times the peak of its last transfer function (limited)"""
    prop = ctx.ps.propagation
    prof = nonlinear_column(ctx, n)
    m = peak_motion(ctx, [ctx.real("f", 0.1, 20.0)], hi=0.06)
    ratio, tol, limit = ctx.real("ratio", *RATIO), ctx.real("tol", 1e-3, 20.0), 0.05
    calc = prop.EquivalentLinearCalculator(ratio, tol, its, limit)
    met = []
    peak = m.calc_peak

    def calc_peak(tf=None, **kw):
        met.append((list(tf), [(l.shear_mod, l.damping) for l in prof]))
        return peak(tf, **kw)

    ctx.patch(m, "calc_peak", calc_peak)
    _, exc = ctx.call(calc, m, prof, prof.location("outcrop", index=-1))
    m.calc_peak = peak
    ctx.check("error kind", exc is None or isinstance(exc, RuntimeError))
    # the strains of an iteration are those of the linear profile with the properties it starts from
    site = ctx.ps.site
    for j in range(0, len(met) - (n if exc is None else 0), n):
        start = met[j][1]
        ctx.check_eq("rock", start[n][0], prof[n].initial_shear_mod)
        same = site.Profile([site.Layer(site.SoilType("l", l.unit_wt, None, d), l.thickness, (g / l.density) ** 0.5) for l, (g, d) in zip(prof, start)], 0)
        ref = prop.LinearElasticCalculator()
        lin = same.location("outcrop", index=-1)
        ref(m, same, lin)
        for i in range(n):
            ctx.check_eq(f"strain of iteration{i}", met[j + i][0], ref.calc_strain_tf(lin, at(ctx, same, i, same[i].thickness / 2)))
    if exc is not None:
        return
    for i in range(n):
        l = prof[i]
        ctx.check_eq(f"modulus{i}", l.shear_mod, l.initial_shear_mod * l.soil_type.mod_reduc(l.strain))
        ctx.check_eq(f"damping{i}", l.damping, l.damping_min + l.soil_type.damping(l.strain) - l.soil_type.damping_min)
        ctx.check_eq(f"strain{i}", l.strain, ctx.np.minimum(ratio * l.strain_max, limit))
    # strains, waves and peaks belong to the same (last) iteration
    lin = prof.location("outcrop", index=-1)
    for i in range(n):
        tf = calc.calc_strain_tf(lin, at(ctx, prof, i, prof[i].thickness / 2))
        ctx.check_eq(f"peak{i}", prof[i].strain_max, m.calc_peak(tf))


@harness("C08", quick=[dict()], warm=True)
def idriss_sun(ctx):
    """effective strain ratio from magnitude"""
    m = ctx.real("m", 3.0, 9.0)
    prop = ctx.ps.propagation
    ctx.check_eq("ratio", prop.EquivalentLinearCalculator.calc_strain_ratio(m), (m - 1) / 10)
    # documented settings
    for c in (prop.EquivalentLinearCalculator(), prop.FrequencyDependentEqlCalculator()):
        ctx.check("defaults", (c.strain_ratio, c.tolerance, c.max_iterations, c.strain_limit) == (0.65, 0.01, 15, 0.05))
    for cls, pre in ((prop.EquivalentLinearCalculator, ()), (prop.FrequencyDependentEqlCalculator, ("zr15",))):
        r, t, n, lim = ctx.real("r", *RATIO), ctx.real("t", 1e-3, 20.0), 7, ctx.real("lim", 0.01, 0.1)
        c = cls(*pre, strain_ratio=r, tolerance=t, max_iterations=n, strain_limit=lim)
        ctx.check("settings", c.strain_ratio is r and c.tolerance is t and c.max_iterations == n and c.strain_limit is lim)
    ctx.check("names", c.method == "zr15" and c.name == "FDM-zr15" and prop.EquivalentLinearCalculator.name == "EQL")


# C09 ---------------------------------------------------------------------------
@harness("C09", quick=[dict(kind="LE"), dict(kind="EQL", its=1), dict(kind="EQL", its=2), dict(kind="EQL", its=5)], thorough=[dict(kind="LE"), dict(kind="EQL", its=2), dict(kind="EQL", its=3)], warm=True, budget=200, thorough_budget=1200, max_paths=2000)
def history(ctx, kind, its=1):
    """a calculation for one motion, repeated with the same objects after a calculation with
    another motion and another profile state, gives the same results"""
    prop = ctx.ps.propagation
    n = 1 if kind == "EQL" else 2
    prof = nonlinear_column(ctx, n)
    fa, fb = ctx.real("fa", 0.1, 20.0), ctx.real("fb", 0.1, 20.0)
    ma, mb = peak_motion(ctx, [fa], "a", hi=0.04), peak_motion(ctx, [fb, 0.0], "b", hi=0.04)

    def make():
        if kind == "LE":
            return prop.LinearElasticCalculator()
        return prop.EquivalentLinearCalculator(0.65, 0.5, its, None)

    lin, top = prof.location("outcrop", index=-1), prof.location("outcrop", index=0)

    def result(calc):
        mid = at(ctx, prof, 0, prof[0].thickness / 2)
        r = [calc.calc_accel_tf(lin, top)[0], calc.calc_strain_tf(lin, mid)[0]]
        for l in prof:
            r += [l.shear_mod, l.damping, l.strain, l.initial_shear_vel]
        return r + [prof[i].strain_max for i in range(n) if kind == "EQL"]

    fresh = make()
    fresh(ma, prof, lin)
    want = result(fresh)
    if kind == "LE":
        for i, l in enumerate(prof):
            ctx.check_eq(f"small strain{i}", [l.shear_mod, l.damping], [l.initial_shear_mod, l.damping_min])
    used = make()
    used(mb, prof, lin)
    for l in prof:
        if ctx.flag("dirty"):
            l.strain = 0.003
        break
    used(ma, prof, lin)
    got = result(used)
    ctx.check("motion", used.motion is ma and used.profile is prof and used.loc_input is lin)
    for i, (x, y) in enumerate(zip(got, want)):
        if x is None or y is None:
            ctx.check(f"value{i}", x is y)
        else:
            ctx.check_eq(f"value{i}", x, y)


@harness("C09", quick=[dict(n=2)], thorough=[dict(n=2), dict(n=3)], warm=True, budget=100)
def edited_profile(ctx, n):
    """a linear calculator used again with the same motion and profile objects after the profile
    was edited (thickness, velocity or damping) or the motion was given at another
    location: same results as a fresh calculator"""
    from .waves import column

    prop, site = ctx.ps.propagation, ctx.ps.site
    prof = column(ctx, n)
    m = ctx.ps.motion.Motion(ctx.arr([ctx.real("f", 0.1, 20.0)]))
    edit = ctx.choice("edit", ["thickness", "velocity", "damping", "input"])

    def result(calc, field):
        lin = prof.location(field, index=-1)
        calc(m, prof, lin)
        return [*calc.calc_accel_tf(lin, prof.location("outcrop", index=0)),
                *calc.calc_strain_tf(lin, at(ctx, prof, 0, prof[0].thickness / 2))]

    used = prop.LinearElasticCalculator()
    result(used, "outcrop")
    field = "outcrop"
    if edit == "thickness":
        prof[0].thickness = ctx.real("new", 0.5, 60.0)
        prof.update_layers()
    elif edit == "velocity":
        prof[0].initial_shear_vel = ctx.real("newv", 60.0, 3500.0)
    elif edit == "damping":
        prof[0].damping_min = ctx.real("newd", 0.0, 0.25)
    else:
        field = "within"
    got = result(used, field)
    want = result(prop.LinearElasticCalculator(), field)
    for i, (x, y) in enumerate(zip(got, want)):
        ctx.check_eq(f"{edit}{i}", x, y)


@harness("C09", quick=[dict(its=2)], thorough=[dict(its=2), dict(its=3)], warm=True, budget=150, thorough_budget=900, max_paths=2000)
def limited_history(ctx, its):
    """an equivalent-linear calculation with a strain limit (and no convergence), after one in which strains were
    limited or which was refused: same outcome and results as with a fresh calculator (one
    layer; the peaks are arbitrary)"""
    prop = ctx.ps.propagation
    limit = 0.05
    prof = nonlinear_column(ctx, 1, limit, fixed=True)
    ma, mb = peak_motion(ctx, [2.0], "a", hi=0.2), peak_motion(ctx, [2.0], "b", hi=0.2)
    lin = prof.location("outcrop", index=-1)
    peaks = {w: [ctx.real(f"peak{w}{j}", 1e-7, 0.2) for j in range(its + 1)] for w in "ab"}

    def go(calc, m, which):
        n = [0]

        def peak(tf=None, **kw):
            n[0] += 1
            return peaks[which][n[0] - 1]

        ctx.patch(calc, "calc_strain_tf", lambda i, o: ctx.arr([1 + 0j]))
        ctx.patch(m, "calc_peak", peak)
        _, e = ctx.call(calc, m, prof, lin)
        l = prof[0]
        return (n[0], type(e), str(e)), [l.shear_mod, l.damping, l.strain] + ([l.strain_max] if e is None else [])

    used, fresh = (prop.EquivalentLinearCalculator(0.65, 0.0, its, limit) for _ in "ab")
    go(used, mb, "b")
    got = go(used, ma, "a")
    want = go(fresh, ma, "a")
    ctx.check("outcome", got[0] == want[0])
    for i, (x, y) in enumerate(zip(got[1], want[1])):
        ctx.check_eq(f"value{i}", x, y)


@harness("C09", quick=[dict(n=1), dict(n=2)], thorough=[dict(n=n) for n in (1, 2, 3)], warm=True, budget=100)
def kept_layers(ctx, n):
    """a calculation asked to keep the layers (reset_layers=False) works on the properties the
    layers have: the transfer functions are those of a linear profile of these properties; and
    the next ordinary calculation starts from the small-strain properties again"""
    prop, site = ctx.ps.propagation, ctx.ps.site
    prof = nonlinear_column(ctx, n)
    for i in range(n):
        prof[i].strain = ctx.choice(f"strain{i}", [1e-4, 3e-3])
    state = [(l.shear_mod, l.damping, l.strain) for l in prof]
    same = site.Profile(
        [site.Layer(site.SoilType("l", l.unit_wt, None, l.damping), l.thickness, l.shear_vel) for l in list(prof)[:n]]
        + [site.Layer(site.SoilType("rock", 22.0, None, 0.01), 0, prof[n].initial_shear_vel)], 0)
    m = ctx.ps.motion.Motion(ctx.arr([ctx.real("f", 0.1, 20.0)]))

    def tf(c, p, **k):
        lin = p.location("outcrop", index=-1)
        c(m, p, lin, **k)
        mid = p.location("within", depth=p[0].thickness / 2)
        return [c.calc_accel_tf(lin, p.location("outcrop", index=0))[0], c.calc_strain_tf(lin, mid)[0]]

    c = prop.LinearElasticCalculator()
    got = tf(c, prof, reset_layers=False)
    for i, l in enumerate(prof):
        ctx.check_eq(f"state{i}", [l.shear_mod, l.damping], list(state[i][:2]))
        ctx.check(f"strain{i}", l.strain is state[i][2] or l.strain == state[i][2])
    want = tf(prop.LinearElasticCalculator(), same)
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check_eq(f"kept{i}", a, b)
    c(m, prof, prof.location("outcrop", index=-1))
    for i, l in enumerate(prof):
        ctx.check_eq(f"small strain{i}", [l.shear_mod, l.damping], [l.initial_shear_mod, l.damping_min])


@harness("C09", quick=[dict()], warm=True)
def kept_layers_quarter(ctx):
    """the quarter-wavelength calculator keeps or resets the layers likewise (one soil column,
    arbitrary curves)"""
    prop = ctx.ps.propagation
    prof = nonlinear_column(ctx, 2, fixed=True, thick=None)
    for l in list(prof)[:2]:
        l.strain = 1e-3
    state = [(l.shear_mod, l.damping) for l in prof]
    q, m, lin = prop.QuarterWaveLenCalculator(), ctx.ps.motion.Motion(ctx.arr([1.0, 5.0])), prof.location("outcrop", index=-1)
    q(m, prof, lin, reset_layers=False)
    for i, l in enumerate(prof):
        ctx.check_eq(f"kept{i}", [l.shear_mod, l.damping], list(state[i]))
    q(m, prof, lin)
    for i, l in enumerate(prof):
        ctx.check_eq(f"reset{i}", [l.shear_mod, l.damping], [l.initial_shear_mod, l.damping_min])


def smoother_stub(ctx):
    """A smoother whose result is an arbitrary function of its frequencies, bandwidth and input"""
    seen = {}

    class Smoother:
        def __init__(self, freqs_in, freqs_out, bandwidth=40.0, normalize=False, **k):
            self.freqs = tuple(float(x) for x in freqs_in)
            self.rest = (tuple(float(x) for x in freqs_out), float(bandwidth), bool(normalize))

        def freqs_match(self, x):
            return len(x) == len(self.freqs) and all(float(a) == b for a, b in zip(x, self.freqs))

        def __call__(self, x):
            k = (self.freqs, self.rest, tuple(ctx.key(e) for e in x))
            if k not in seen:
                n = len(seen)
                seen[k] = [ctx.real(f"sm{n}.{j}", 1e-6, 1.0) for j in range(len(self.rest[0]))]
            return ctx.arr(seen[k])

    return Smoother


@harness("C09", quick=[dict(method="ko:30"), dict(method="ko:30", other=2)], thorough=[dict(method="ko:30", other=o) for o in (0, 1, 2)], warm=True, budget=150, max_paths=600)
def frequency_dependent_history(ctx, method, other=0):
    """one layer, one iteration of the frequency-dependent calculator and of its initial
    estimate: same results after a calculation with a motion of other frequencies"""
    prop = ctx.ps.propagation
    base = prop.EquivalentLinearCalculator

    class OneIteration(base):
        # the estimate of the frequency-dependent calculator
        max_iterations = property(lambda self: 1)

    ctx.patch(prop, "EquivalentLinearCalculator", OneIteration)
    ctx.patch(prop.pykooh, "CachedSmoother", smoother_stub(ctx))
    prof = nonlinear_column(ctx, 1)
    fa, fb = [0.5, 2.0], [[1.0, 3.0], [0.5, 2.0, 7.0], [0.5, 3.0]][other]
    ma, mb = peak_motion(ctx, fa, "a", hi=0.04), peak_motion(ctx, fb, "b", hi=0.04)
    for m, f in ((ma, fa), (mb, fb)):
        fas = ctx.arr(ctx.reals("fas" + str(len(f)) + str(f[0]), len(f), 1e-4, 1.0))
        type(m).fourier_amps = property(lambda self, fas=fas: fas)
    lin, top = prof.location("outcrop", index=-1), prof.location("outcrop", index=0)

    def result(calc):
        l = prof[0]
        tf = calc.calc_accel_tf(lin, top)
        return [*tf, *l.shear_mod, *l.damping, *l.strain, l.initial_shear_vel, l.strain_max, prof[1].shear_mod]

    def make():
        return prop.FrequencyDependentEqlCalculator(method, 0.65, 0.5, 1, None)

    fresh = make()
    fresh(ma, prof, lin)
    want = result(fresh)
    used = make()
    used(mb, prof, lin)
    used(ma, prof, lin)
    got = result(used)
    ctx.check("length", len(got) == len(want))
    for i, (x, y) in enumerate(zip(got, want)):
        ctx.check_eq(f"value{i}", x, y)


# C10 ---------------------------------------------------------------------------
@harness("C10", quick=[dict(method="zr15"), dict(method="ka02"), dict(method="ko:30"), dict(method="zr15", limit=0.05), dict(method="ko:30", limit=0.05)], warm=True, budget=150, thorough_budget=900, max_paths=600, weight=3)
def strain_spectrum(ctx, method, limit=None):
    """three frequencies, one nonlinear layer: the frequency-dependent strains used for the
    properties are non-negative and nowhere above the effective strain, with the shape of the method:
    the (smoothed) strain amplitudes over their largest, or the model fitted to the amplitudes above
    the average frequency (ka02); peak strain, Fourier amplitudes, smoother output and the fitted
    coefficients are arbitrary; with a strain limit no strain exceeds it"""
    cap = (lambda x: x) if limit is None else (lambda x: np.minimum(x, limit))  # noqa: E731
    np = ctx.np
    prop = ctx.ps.propagation
    prof = nonlinear_column(ctx, 1)
    f = [0.5, 2.0, 7.0]
    m = peak_motion(ctx, f, hi=0.2 if limit else 0.04)
    fas = ctx.reals("fas", 3, 1e-4, 1.0)
    type(m).fourier_amps = property(lambda self: ctx.arr(fas))
    ratio = ctx.real("ratio", *RATIO)
    calc = prop.FrequencyDependentEqlCalculator(method, ratio, 1.0, 1, limit)
    if method.startswith("ko"):
        sm = ctx.reals("sm", 3, 1e-6, 1.0)
        smoothed = []

        class Smoother:
            def __init__(self, freqs_in, freqs_out, bandwidth=40.0, normalize=False):
                ctx.check("bandwidth", bandwidth == 30)
                ctx.check("smoother frequencies", list(freqs_in) == f and list(freqs_out) == f)

            def freqs_match(self, x):
                return True

            def __call__(self, x):
                smoothed.append(list(x))
                return ctx.arr(sm)

        ctx.patch(prop.pykooh, "CachedSmoother", Smoother)
    tfs = tf_is_arbitrary(ctx, calc, 3)
    prof[0].strain = 1e-4
    if method == "ka02":
        ab = ctx.arr(ctx.reals("ab", 2, -2.0, 3.0))
        fitted = []

        def lstsq(a, b, **k):
            fitted.append(([list(r) for r in a], list(b)))
            return ab, None, None, None

        ctx.stub("np.linalg.lstsq", lstsq)
    calc(m, prof, prof.location("outcrop", index=-1), reset_layers=False)
    eff = ratio * m.seen[0]
    s = prof[0].strain
    ctx.check("length", len(s) == 3)
    mod = prof[0].initial_shear_mod * prof[0].soil_type.mod_reduc(s)
    for j in range(3):
        ctx.check_le(f"nonnegative{j}", 0, s[j])
        ctx.check_le(f"bounded{j}", s[j], cap(eff))
        ctx.check_eq(f"modulus{j}", prof[0].shear_mod[j], mod[j])
    amp = [abs(t * a) for t, a in zip(tfs[0], fas)]
    if method == "ka02":
        rows, rhs = fitted[0]
        area = [(f[j + 1] - f[j]) * (amp[j] + amp[j + 1]) / 2 for j in range(2)]
        moment = [(f[j + 1] - f[j]) * (f[j] * amp[j] + f[j + 1] * amp[j + 1]) / 2 for j in range(2)]
        k = 3 - len(rows)
        avg = sum(moment) / sum(area)
        ctx.check("average frequency", bool(avg > f[k - 1]) and bool(avg <= f[k]))
        low = sum(area[: k - 1]) / avg
        for j, (row, y) in enumerate(zip(rows, rhs)):
            ctx.check_eq(f"linear{j}", row[0], -f[k + j] / avg)
            ctx.check_eq(f"power{j}", row[1], -np.log(f[k + j] / avg))
            if k > 1:
                ctx.check_eq(f"fitted{j}", y, np.log(amp[k + j] / low))
        for j in range(3):
            shape = np.exp(-ab[0] * (f[j] / avg)) / np.maximum(2.0**-52, (f[j] / avg) ** ab[1])
            ctx.check_eq(f"shape{j}", s[j], cap(eff * np.minimum(1, shape)))
    else:
        ctx.check_eq("reaches", np.max(s), cap(eff))
        if method.startswith("ko"):
            for j in range(3):
                ctx.check_eq(f"smoothed{j}", smoothed[0][j], amp[j])
                ctx.check_eq(f"shape{j}", s[j], cap(eff * np.max(ctx.arr(sm[j:])) / np.max(ctx.arr(sm))))
        else:
            for j in range(3):
                ctx.check_eq(f"shape{j}", s[j], cap(eff * amp[j] / np.max(ctx.arr(amp))))
    if method.startswith("ko"):
        for j in (0, 1):
            ctx.check_le(f"decreasing{j}", s[j + 1], s[j])


@harness("C10", quick=[dict(its=1), dict(its=2, damp=False)], thorough=[dict(its=1), dict(its=2), dict(its=2, damp=False)], warm=True, budget=200, thorough_budget=1200, max_paths=6000, weight=4)
def frequency_dependent_iteration(ctx, its, damp=True):
    """one nonlinear layer on rock, two frequencies, strains proportional to the amplitudes: the
    iteration ends when modulus and damping change by less than the tolerance at every frequency,
    at the latest after `its` iterations, and is refused when strains were limited twice in a row;
    peaks and curve values are arbitrary, the latter per frequency; the shape of the strain
    spectrum changes from one iteration to the next in a fixed manner"""
    np, prop = ctx.np, ctx.ps.propagation
    limit = 0.05
    prof = nonlinear_column(ctx, 1, limit, fixed=True)
    m = peak_motion(ctx, [0.5, 4.0])
    fas = [0.5, 0.25]
    type(m).fourier_amps = property(lambda self: ctx.arr(fas))
    ratio, tol = 0.65, 1.0
    calc = prop.FrequencyDependentEqlCalculator("zr15", ratio, tol, its, limit)
    shapes = [[1 + 0j, 0.5 + 0j], [0.25 + 0j, 1j], [0.5j, -1 + 0j]]
    tfs = []

    def tf(lin, lout):
        tfs.append(shapes[len(tfs) % 3])
        return ctx.arr(tfs[-1])

    ctx.patch(calc, "calc_strain_tf", tf)
    if not damp:
        prof = ctx.ps.site.Profile([ctx.ps.site.Layer(ctx.ps.site.SoilType("s", 18.0, prof[0].soil_type.mod_reduc, 0.05), 5.0, 250.0), prof[1]], 0)
        l = prof[0]
        curve = lambda s, p: (l.initial_shear_mod * l.soil_type.mod_reduc(s, p), 0.05)  # noqa: E731
    else:
        l = prof[0]
        curve = lambda s, p: (l.initial_shear_mod * l.soil_type.mod_reduc(s, p), l.damping_min + (l.soil_type.damping(s, p) - l.soil_type.damping_min))  # noqa: E731
    # previously established strains
    l.strain = prof[1].strain = 1e-4
    prev = [(l.shear_mod, l.damping)] * 2
    _, exc = ctx.call(calc, m, prof, prof.location("outcrop", index=-1), reset_layers=False)
    lim_prev, done, used = False, None, 0
    for k in range(its):
        if k >= len(tfs):
            break
        used += 1
        amp = [np.abs(t * a) for t, a in zip(tfs[k], fas)]
        raw = [ratio * m.seen[k] * a / np.maximum(amp[0], amp[1]) for a in amp]
        for x in raw:
            # away from the limit by more than rounding
            ctx.assume(np.abs(x - limit) > 1e-9)
        over = [bool(x > limit) for x in raw]
        s = [limit if o else x for o, x in zip(over, raw)]
        now = [curve(x, p) for p, x in enumerate(s)]
        err = [[rel(ctx, a[q], b[q]) for a, b in zip(prev, now)] for q in (0, 1)]
        if (all([bool(e < tol) for e in err[0] + err[1]]) if damp else bool(np.maximum(*[np.max(ctx.arr(e)) for e in err]) < tol)):
            done = "converged"
            break
        if any(over) and lim_prev:
            done = "refused"
            break
        lim_prev, prev = any(over), now
    else:
        done = "out of iterations"
    ctx.check("refusal", (done == "refused") == isinstance(exc, RuntimeError))
    ctx.check("no other error", exc is None or isinstance(exc, RuntimeError))
    ctx.check("iterations", len(m.seen) == used + (0 if exc else 1))
    ctx.check("met iterations", used == its or done != "out of iterations")
    if exc is None:
        for p in (0, 1):
            ctx.check_eq(f"strain{p}", l.strain[p], s[p])
            ctx.check_eq(f"modulus{p}", l.shear_mod[p], now[p][0])
            ctx.check_eq(f"damping{p}", l.damping[p] if damp else l.damping, now[p][1])
        ctx.check_eq("strain max", l.strain_max, m.seen[-1])
        ctx.check_eq("rock", prof[1].shear_mod, prof[1].initial_shear_mod)


# C36 ---------------------------------------------------------------------------
@harness("C36", quick=[dict(its=1), dict(its=2), dict(its=16)], thorough=[dict(its=1), dict(its=2), dict(its=3), dict(its=30)], warm=True, budget=100, max_paths=600)
def rvt_compatible(ctx, its):
    """one nonlinear layer, arbitrary spectrum, peak calculator and strain transfer function: the
    equivalent-linear calculation starts from the peak velocity over the layer's velocity and ends
    strain compatible with the peak of the motion"""
    from .motion import any_peak_calculator

    prop = ctx.ps.propagation
    prof = nonlinear_column(ctx, 1)
    p = any_peak_calculator(ctx)
    a = ctx.reals("a", 2, 1e-4, 1.0)
    m = ctx.ps.motion.RvtMotion(ctx.arr([0.5, 2.0]), ctx.arr(a), ctx.real("duration", 0.5, 100.0), p)
    pgv = m.pgv
    ratio = ctx.real("ratio", *RATIO)
    calc = prop.EquivalentLinearCalculator(ratio, ctx.real("tol", 1e-3, 20.0), its, None)
    first = []
    soil = prof[0].soil_type.mod_reduc
    call = type(soil).__call__

    def noted(self, strain, pos=None):
        first.append(strain)
        return call(self, strain, pos)

    ctx.patch(type(soil), "__call__", noted)
    tfs = tf_is_arbitrary(ctx, calc, 2)
    calc(m, prof, prof.location("outcrop", index=-1))
    ctx.check_eq("starts", first[0] * prof[0].initial_shear_vel, pgv / 100, rtol=1e-9)
    s, used, last = prof[0].strain, p.calls[-2], p.calls[-1]
    for tag, c, t in (("iteration", used, tfs[-2]), ("final", last, tfs[-1])):
        ctx.check_eq(tag, c[2], [abs(x) * y for x, y in zip(t, a)])
    ctx.check_eq("strain", s, ratio * used[4])
    ctx.check_eq("peak", prof[0].strain_max, last[4])
    ctx.check_eq("modulus", prof[0].shear_mod, prof[0].initial_shear_mod * prof[0].soil_type.mod_reduc(s))
