"""Time series motions: Fourier spectra (C19), intensity measures (C20), oscillator (C21)."""

from ._common import G, harness


def series(ctx, k, fa_length=None, name="a", dt=(1e-3, 1.0)):
    a = ctx.reals(name, k, -20.0, 20.0)
    dt = ctx.real("dt", *dt)
    m = ctx.ps.motion.TimeSeriesMotion("f", "d", dt, ctx.arr(a), fa_length)
    return m, a, dt


def pow2(k):
    n = 1
    while n < k:
        n *= 2
    return n


def dft(ctx, a, n, j):
    """j-th term of the discrete Fourier transform of a, padded with zeros to n samples"""
    np = ctx.np
    re = sum(x * np.cos(2 * np.pi * j * i / n) for i, x in enumerate(a[:n]))
    im = -sum(x * np.sin(2 * np.pi * j * i / n) for i, x in enumerate(a[:n]))
    return re, im


LENGTHS = [(1, None), (2, None), (3, None), (4, None), (3, 3), (3, 5), (4, 6), (2, 1), (5, 4), (3, 8)]


@harness("C19", quick=[dict(k=k, n=n) for k, n in LENGTHS + [(12, None), (9, 13)]], thorough=[dict(k=k, n=n) for k, n in LENGTHS + [(20, None), (17, 27), (5, None), (7, None), (8, 12), (5, 10)]], budget=60, thorough_budget=600)
def spectrum(ctx, k, n):
    """k arbitrary samples, spectrum length automatic or n (odd, even, shorter, longer):
    frequencies, amplitudes and the way back"""
    np = ctx.np
    m, a, dt = series(ctx, k, n)
    n = n or pow2(k)
    if ctx.flag("amplitudes first"):
        fa, f = m.fourier_amps, m.freqs
    else:
        f, fa = m.freqs, m.fourier_amps
    ctx.check("lengths", len(f) == n // 2 + 1 and len(fa) == n // 2 + 1)
    for j in range(n // 2 + 1):
        ctx.check_eq(f"freq{j}", f[j], j / (n * dt))
        ctx.check_eq(f"omega{j}", m.angular_freqs[j], 2 * np.pi * j / (n * dt))
        re, im = dft(ctx, a, n, j)
        ctx.check_eq(f"re{j}", fa[j].real, dt * re, atol=1e-12)
        ctx.check_eq(f"im{j}", fa[j].imag, dt * im, atol=1e-12)
    ts = m.calc_time_series()
    ctx.check("samples", len(ts) == n)
    one = m.calc_time_series(np.ones(n // 2 + 1))
    for i in range(n):
        want = a[i] if i < k else 0
        ctx.check_eq(f"sample{i}", ts[i], want, atol=1e-9)
        ctx.check_eq(f"unit tf{i}", one[i], want, atol=1e-9)
    ctx.check("times", len(m.times) == k)
    for i in range(k):
        ctx.check_eq(f"time{i}", m.times[i], i * dt)
        ctx.check_eq(f"accel{i}", m.accels[i], a[i])


@harness("C19", quick=[dict(k=3, n=None), dict(k=4, n=None), dict(k=3, n=5), dict(k=9, n=None)], thorough=[dict(k=3, n=None), dict(k=4, n=None), dict(k=3, n=5), dict(k=5, n=None), dict(k=6, n=9), dict(k=17, n=None)], budget=60, thorough_budget=600)
def transfer(ctx, k, n):
    """transfer functions act linearly on the series: a constant scales it, a sum of transfer
    functions gives the sum of the series, a phase of d samples shifts it by d samples"""
    np = ctx.np
    m, a, dt = series(ctx, k, n)
    n = n or pow2(k)
    nf = n // 2 + 1
    pad = a + [0] * (n - k)
    c = ctx.real("c", -3.0, 3.0)
    ts = m.calc_time_series(c * np.ones(nf))
    d = 1
    shift = np.exp(-2j * np.pi * np.arange(nf) * d / n)
    sh = m.calc_time_series(shift)
    h1 = ctx.arr([ctx.cplx(f"h{j}", -2, 2) for j in range(nf)])
    h2 = ctx.arr([ctx.cplx(f"g{j}", -2, 2) for j in range(nf)])
    s = m.calc_time_series(h1 + h2)
    s1, s2 = m.calc_time_series(h1), m.calc_time_series(h2)
    for i in range(n):
        ctx.check_eq(f"scaled{i}", ts[i], c * pad[i], atol=1e-9)
        ctx.check_eq(f"shifted{i}", sh[i], pad[(i - d) % n], atol=1e-9)
        ctx.check_eq(f"sum{i}", s[i], s1[i] + s2[i], atol=1e-9)


def trap(y, dt):
    return sum((y[i] + y[i + 1]) / 2 * dt for i in range(len(y) - 1))


# C20 ---------------------------------------------------------------------------
@harness("C20", quick=[dict(k=1), dict(k=2), dict(k=3), dict(k=4)], thorough=[dict(k=k) for k in (1, 2, 3, 4, 5, 8)], budget=100)
def measures(ctx, k):
    """k arbitrary samples: peak acceleration, Arias intensity and cumulative absolute
    velocity of the series (padded with zeros), directly and through the cached attributes"""
    np = ctx.np
    m, a, dt = series(ctx, k)
    n = pow2(k)
    pad = a + [0] * (n - k)
    mag = [np.abs(x) for x in pad]
    pga = mag[0]
    for x in mag[1:]:
        pga = np.maximum(pga, x)
    arias = np.pi * G / 2 * trap([x * x for x in pad], dt)
    cav = G * trap(mag, dt)
    for t in range(2):
        ctx.check_eq(f"pga{t}", m.pga, pga, atol=1e-9)
        ctx.check_eq(f"arias{t}", m.arias_intensity, arias, atol=1e-9)
        ctx.check_eq(f"cav{t}", m.cav, cav, atol=1e-9)
        ctx.check_eq(f"pga()", m.calc_pga(), pga, atol=1e-9)
        ctx.check_eq(f"peak()", m.calc_peak(), pga, atol=1e-9)


@harness("C20", quick=[dict(k=3), dict(k=4), dict(k=7)], thorough=[dict(k=3), dict(k=4), dict(k=6)], budget=100)
def transferred(ctx, k):
    """with a transfer function the measures are those of the transferred series"""
    np = ctx.np
    m, a, dt = series(ctx, k)
    n = pow2(k)
    h = ctx.arr([ctx.cplx(f"h{j}", -2, 2) for j in range(n // 2 + 1)])
    ts = m.calc_time_series(h)
    ctx.cut(ts)
    mag = [np.abs(x) for x in ts]
    pk = mag[0]
    for x in mag[1:]:
        pk = np.maximum(pk, x)
    ctx.check_eq("pga", m.calc_pga(h), pk)
    ctx.check_eq("peak", m.calc_peak(h), pk)
    ctx.check_eq("arias", m.calc_arias_intensity(h), np.pi * G / 2 * trap([x * x for x in ts], dt))
    ctx.check_eq("cav", m.calc_cav(h), G * trap(mag, dt))


@harness("C20", quick=[dict(k=4)], thorough=[dict(k=8)], budget=100)
def repeated(ctx, k):
    """the remembered measures do not leak into evaluations with a transfer function (a scalar or an
    array), nor the other way round"""
    m, a, dt = series(ctx, k)
    c = ctx.real("c", 0.1, 3.0)
    first = dict(pga=m.pga, pgv=m.pgv, cav=m.cav, arias=m.arias_intensity)
    for nm, tf in (("scalar", c), ("array", ctx.arr([c] * (pow2(k) // 2 + 1)))):
        ctx.check_eq(f"{nm} pga", m.calc_pga(tf), c * first["pga"], atol=1e-9)
        ctx.check_eq(f"{nm} pgv", m.calc_pgv(tf), c * first["pgv"], atol=1e-7)
        ctx.check_eq(f"{nm} cav", m.calc_cav(tf), c * first["cav"], atol=1e-9)
        ctx.check_eq(f"{nm} arias", m.calc_arias_intensity(tf), c * c * first["arias"], atol=1e-9)
    for nm, x in (("pga", m.pga), ("pgv", m.pgv), ("cav", m.cav), ("arias", m.arias_intensity)):
        ctx.check_eq(f"{nm} remembered", x, first[nm])
    for nm, x in (("pga", m.calc_pga()), ("pgv", m.calc_pgv()), ("cav", m.calc_cav()), ("arias", m.calc_arias_intensity())):
        ctx.check_eq(f"{nm} again", x, first[nm])


@harness("C20", quick=[dict(k=20)], thorough=[dict(k=20), dict(k=60)], budget=100)
def long_record(ctx, k):
    """longer records: the measures are those of the series the motion reports (C19 decides that
    it is the padded record), which has as many samples as the spectrum is long"""
    np = ctx.np
    m, a, dt = series(ctx, k)
    ts = m.calc_time_series()
    ctx.check("length", len(ts) == pow2(k))
    ctx.cut(ts)
    mag = [np.abs(x) for x in ts]
    pk = mag[0]
    for x in mag[1:]:
        pk = np.maximum(pk, x)
    ctx.check_eq("pga", m.pga, pk)
    ctx.check_eq("peak", m.calc_peak(), pk)
    ctx.check_eq("arias", m.arias_intensity, np.pi * G / 2 * trap([x * x for x in ts], dt))
    ctx.check_eq("cav", m.cav, G * trap(mag, dt))


@harness("C20", quick=[dict(k=2, tf=False), dict(k=4, tf=False), dict(k=4, tf=True), dict(k=10, tf=False)], thorough=[dict(k=k, tf=t) for k in (2, 3, 4, 6) for t in (False, True)], budget=100)
def velocity(ctx, k, tf):
    """peak ground velocity [cm/s]: acceleration integrated in the frequency domain without its
    mean, with and without a transfer function; time steps up to 50 s (frequencies below 0.01 Hz)"""
    np = ctx.np
    m, a, dt = series(ctx, k, dt=(1e-3, 50.0))
    n = pow2(k)
    nf = n // 2 + 1
    h = ctx.arr([ctx.cplx(f"h{j}", -2, 2) for j in range(nf)]) if tf else None
    hh = [h[j] if tf else 1 for j in range(nf)]
    # velocity spectrum: 1/(i w) without the zero frequency
    v = [0j] + [1 / (2j * np.pi * j / (n * dt)) for j in range(1, nf)]
    ts = m.calc_time_series(ctx.arr([x * y for x, y in zip(v, hh)]))
    best = np.abs(ts[0])
    for x in ts[1:]:
        best = np.maximum(best, np.abs(x))
    want = best * G * 100
    ctx.check_eq("pgv", m.calc_pgv(h), want, atol=1e-7)
    if not tf:
        ctx.check_eq("attr", m.pgv, want, atol=1e-7)
        ctx.check_eq("attr again", m.pgv, want, atol=1e-7)


@harness("C20", quick=[dict(k=3)], thorough=[dict(k=3), dict(k=4), dict(k=5)], budget=100)
def scaling(ctx, k):
    """scaling the record by c scales peaks and CAV by |c| and Arias intensity by c squared"""
    np = ctx.np
    M = ctx.ps.motion.TimeSeriesMotion
    a = ctx.reals("a", k, -2.0, 2.0)
    dt, c = ctx.real("dt", 1e-3, 0.1), ctx.real("c", -5.0, 5.0)
    m, s = M("f", "d", dt, ctx.arr(a)), M("f", "d", dt, ctx.arr([c * x for x in a]))
    ac = np.abs(c)
    ctx.check_eq("pga", s.pga, ac * m.pga, atol=1e-8)
    ctx.check_eq("cav", s.cav, ac * m.cav, atol=1e-8)
    ctx.check_eq("arias", s.arias_intensity, c * c * m.arias_intensity, atol=1e-8)


# C21 ---------------------------------------------------------------------------
def osc_tf(m, *args):
    """the transfer function as the class computes it (response() decides the public result)"""
    f = getattr(m, "_calc_sdof_tf", None)
    return None if f is None else f(*args)


@harness("C21", quick=[dict(k=3), dict(k=4), dict(k=20)], thorough=[dict(k=3), dict(k=4), dict(k=8)], budget=60)
def oscillator(ctx, k):
    """the oscillator transfer function at every frequency of the motion is
    f0^2 / (f0^2 - f^2 + 2 i D f0 f)"""
    m, a, dt = series(ctx, k)
    f0, d = ctx.real("f0", 0.05, 100.0), ctx.real("D", 0.001, 0.5)
    h = osc_tf(m, f0, d)
    if h is None:
        return
    ctx.check("length", len(h) == len(m.freqs))
    for j, f in enumerate(m.freqs):
        den = f0 * f0 - f * f + 2j * d * f0 * f
        ctx.check_eq(f"tf{j}", h[j] * den, f0 * f0 + 0j)
    ctx.check_eq("static", h[0], 1 + 0j)


@harness("C21", quick=[dict(k=3), dict(k=9)], thorough=[dict(k=3), dict(k=5)], budget=60)
def resonance(ctx, k):
    """an oscillator tuned to a frequency of the motion amplifies it 1/(2D) times, 90 degrees late"""
    m, a, dt = series(ctx, k)
    d = ctx.real("D", 0.001, 0.5)
    j = ctx.choice("j", list(range(1, pow2(k) // 2 + 1)))
    h = osc_tf(m, m.freqs[j], d)
    if h is None:
        return
    h = h[j]
    ctx.check_eq("amplitude", h.real * h.real + h.imag * h.imag, 1 / (4 * d * d))
    ctx.check_eq("in phase", h.real, 0, atol=1e-9)
    ctx.check("late", h.imag < 0)


@harness("C21", quick=[dict(k=2, tf=False), dict(k=3, tf=False), dict(k=3, tf=True), dict(k=8, tf=False)], thorough=[dict(k=k, tf=t) for k in (2, 3, 4) for t in (False, True)], budget=100)
def response(ctx, k, tf):
    """the response spectrum at each oscillator frequency is the largest absolute value of the
    series filtered by the transfer function and the oscillator"""
    np = ctx.np
    m, a, dt = series(ctx, k)
    nf = pow2(k) // 2 + 1
    f0, f1, d = ctx.real("f0", 0.05, 100.0), ctx.real("f1", 0.05, 100.0), ctx.real("D", 0.001, 0.5)
    h = ctx.arr([ctx.cplx(f"h{j}", -2, 2) for j in range(nf)]) if tf else None
    got = m.calc_osc_accels(ctx.arr([f0, f1]), d, h)
    ctx.check("length", len(got) == 2)
    for i, f in enumerate((f0, f1)):
        osc = ctx.arr([f * f / (f * f - x * x + 2j * d * f * x) for x in m.freqs])
        ts = m.calc_time_series(osc * h if tf else osc)
        pk = np.abs(ts[0])
        for x in ts[1:]:
            pk = np.maximum(pk, np.abs(x))
        ctx.check_eq(f"peak{i}", got[i], pk, rtol=1e-6, atol=1e-8)


@harness("C21", quick=[dict(k=3)], budget=60)
def default_damping(ctx, k):
    """the default oscillator damping is 5 percent"""
    m, a, dt = series(ctx, k)
    f = ctx.real("f", 0.05, 100.0)
    x, y = m.calc_osc_accels(ctx.arr([f])), m.calc_osc_accels(ctx.arr([f]), 0.05)
    ctx.check_eq("default response", x[0], y[0])


# C36 ---------------------------------------------------------------------------
def any_peak_calculator(ctx):
    """a peak calculator whose result is an arbitrary positive function of its spectrum"""
    import pyrvt

    class AnyPeak(pyrvt.peak_calculators.Calculator):
        def __init__(self):
            super().__init__()
            self.seen, self.calls = {}, []

        def _calc_peak_factor(self, *a, **k):
            raise NotImplementedError

        def __call__(self, duration, freqs, amps, **kwds):
            k = tuple(ctx.key(x) for x in [duration, *freqs, *amps])
            if k not in self.seen:
                self.seen[k] = ctx.real(f"peak{len(self.seen)}", 1e-7, 2.0)
            self.calls.append((duration, list(freqs), list(amps), kwds, self.seen[k]))
            return self.seen[k], 1.0

    return AnyPeak()


@harness("C36", quick=[dict(n=2), dict(n=3), dict(n=12)], thorough=[dict(n=2), dict(n=3), dict(n=6)], budget=60)
def rvt(ctx, n):
    """arbitrary spectrum of n frequencies in either order and duration, arbitrary peak calculator:
    frequencies increase with their amplitudes, peaks are those of the spectrum times the magnitude
    of the transfer function, for velocity divided by the angular frequency"""
    np = ctx.np
    f = [0.5 * 3**i for i in range(n)]
    a = ctx.reals("a", n, 1e-4, 1.0)
    d = ctx.real("duration", 0.5, 100.0)
    p = any_peak_calculator(ctx)
    down = ctx.flag("decreasing")
    m = ctx.ps.motion.RvtMotion(ctx.arr(f[::-1] if down else f), ctx.arr(a[::-1] if down else a), d, p)
    ctx.check("frequencies", [float(x) for x in m.freqs] == f)
    ctx.check_eq("amplitudes", list(m.fourier_amps), a)
    ctx.check_eq("angular", list(m.angular_freqs), [2 * np.pi * x for x in f])
    ctx.check_eq("duration", m.duration, d)
    tf = [ctx.cplx(f"tf{i}", -3.0, 3.0) for i in range(n)]

    def same(tag, got, amps, scale=1):
        du, fr, am, kw, v = p.calls[-1]
        ctx.check_eq(tag + " duration", du, d)
        ctx.check(tag + " frequencies", [float(x) for x in fr] == f)
        ctx.check_eq(tag + " spectrum", am, amps, rtol=1e-9)
        ctx.check_eq(tag, got, v * scale, rtol=1e-9)

    same("pga", m.pga, a)
    same("pgv", m.pgv, [x / (2 * np.pi * y) for x, y in zip(a, f)], 980.665)
    b = [abs(x) * y for x, y in zip(tf, a)]
    same("peak", m.calc_peak(ctx.arr(tf)), b)
    same("site pga", m.calc_pga(ctx.arr(tf)), b)
    same("site pgv", m.calc_pgv(ctx.arr(tf)), [x / (2 * np.pi * y) for x, y in zip(b, f)], 980.665)
    o = 2.0
    for D, kw in ((0.05, {}), (0.1, dict(osc_damping=0.1))):
        s = [o * o / abs(y * y - o * o - 2j * D * o * y) for y in f]
        same(f"oscillator {D}", m.calc_osc_accels([o], **kw)[0], [x * y for x, y in zip(a, s)])
        same(f"site oscillator {D}", m.calc_osc_accels([o], D, ctx.arr(tf))[0], [x * y for x, y in zip(b, s)])


@harness("C36", quick=[dict()])
def rvt_arguments(ctx):
    """parameters of the other RVT motions reach pyrvt under their own names"""
    import inspect

    import pyrvt

    M, p = ctx.ps.motion, any_peak_calculator(ctx)
    got = {}

    def record(base):
        sig = inspect.signature(base.__init__)

        def init(self, *a, **k):
            v = sig.bind(self, *a, **k)
            v.apply_defaults()
            got.update(v.arguments)

        ctx.patch(base, "__init__", init)

    record(pyrvt.motions.SourceTheoryMotion)
    record(pyrvt.motions.CompatibleRvtMotion)
    mag, dist, drop, depth = ctx.real("mag", 4.0, 8.0), ctx.real("dist", 1.0, 300.0), ctx.real("drop", 10.0, 500.0), ctx.real("depth", 1.0, 30.0)
    M.SourceTheoryRvtMotion(mag, dist, "wna", drop, depth, p)
    ctx.check_eq("source", [got[k] for k in ("magnitude", "distance", "stress_drop", "depth")], [mag, dist, drop, depth])
    ctx.check("region", got["region"] == "wna" and got["peak_calculator"] is p)
    M.SourceTheoryRvtMotion(mag, dist, "cena", calc_kwds={"a": 1})
    ctx.check("defaults", got["stress_drop"] is None and got["depth"] == 8 and got["calc_kwds"] == {"a": 1} and got["peak_calculator"] is None)
    got.clear()
    f, t = ctx.arr([1.0, 2.0]), ctx.arr(ctx.reals("target", 2, 0.01, 2.0))
    dur, D = ctx.real("duration", 1.0, 60.0), ctx.real("D", 0.01, 0.3)
    ev = {"magnitude": mag}
    M.CompatibleRvtMotion(f, t, dur, D, ev, 7, p, {"b": 2})
    ctx.check("target", got["osc_freqs"] is f and got["osc_accels_target"] is t and got["event_kwds"] is ev and got["window_len"] == 7 and got["peak_calculator"] is p and got["calc_kwds"] == {"b": 2})
    ctx.check_eq("compatible", [got["duration"], got["osc_damping"]], [dur, D])
    M.CompatibleRvtMotion(f, t)
    ctx.check("compatible defaults", got["duration"] is None and got["osc_damping"] == 0.05 and got["event_kwds"] is None)
