"""Files, tables and generic profiles (C32, C33, C34).

Files are written with concrete layout; a number in them is a token that the code under test
turns into a symbolic variable wherever it converts exactly that text to a float."""

import json
import os
import pathlib
import tempfile

from ._common import harness


def write(d, name, text):
    p = os.path.join(d, name)
    with open(p, "w") as f:
        f.write(text)
    return p


@harness("C32", quick=[dict(n=6)], thorough=[dict(n=6), dict(n=14)])
def at2(ctx, n):
    """AT2 records of n arbitrary values, 1 to 5 on a line, with and without a blank last line:
    the motion has exactly the values of the file in order, times the scale, and its time step
    and description"""
    M = ctx.ps.motion.TimeSeriesMotion
    per = ctx.choice("per line", [5, 1, 2, 3, 4])
    scale = ctx.choice("scaled", [None, ctx.real("scale", -10.0, 10.0)])
    toks = [ctx.token(f"a{i}", -10.0, 10.0) for i in range(n)]
    dt, step = ctx.token("dt", 0.0001, 1.0, 12)
    lines = ["PEER STRONG MOTION", "  KOBE 01/16/95, 090 ", "ACCELERATION IN G", f"{n:6d} {dt}    NPTS, DT"]
    lines += ["  ".join(t for t, _ in toks[i:i + per]) for i in range(0, n, per)]
    end = ctx.choice("end", ["\n", "\n\n", ""])
    with tempfile.TemporaryDirectory(prefix="symex-") as d:
        p = write(d, "m.at2", "\n".join(lines) + end)
        m = M.load_at2_file(p) if scale is None else M.load_at2_file(p, scale)
    k = 1.0 if scale is None else scale
    ctx.check("count", len(m.accels) == n and len(m.times) == n)
    ctx.check_eq("accels", m.accels, [v * k for _, v in toks])
    ctx.check_eq("time step", m.time_step, step)
    ctx.check("texts", m.description == "KOBE 01/16/95, 090" and m.filename == p)


@harness("C32", quick=[dict(n=9)], thorough=[dict(n=9), dict(n=17)])
def smc(ctx, n):
    """SMC records of n arbitrary values without space between them, 8 on a line, after 0 to 2
    comment lines: the motion has exactly the values of the file, times the scale, its time step
    is the inverse of the sampling rate; uncorrected records are refused"""
    M = ctx.ps.motion.TimeSeriesMotion
    scale = ctx.real("scale", -10.0, 10.0)
    comments = ctx.choice("comments", [0, 1, 2])
    first = ctx.choice("first", ["2 CORRECTED ACCELEROGRAM", "1 UNCORRECTED ACCELEROGRAM", "3 VELOCITY", " 2 CORRECTED ACCELEROGRAM  "])
    toks = [ctx.token(f"a{i}", -9.0, 9.0, 10) for i in range(n)]
    rate, sps = ctx.token("rate", 1.0, 1000.0)
    head = [first, "*", "code", "date", "mag", "station = VA: Reston   component= 360", "a", "b", "*", "*", "*"]
    ints = [-32768] * 48
    ints[15], ints[16], ints[17], ints[14] = comments, n, n + 3, comments + 1
    floats = ["  1.7000000E+38"] * 50
    floats[1] = rate
    floats[0], floats[2] = "  3.0000000E+02", "  4.0000000E+02"
    lines = head + ["".join(f"{v:10d}" for v in ints[i:i + 8]) for i in range(0, 48, 8)]
    lines += ["".join(floats[i:i + 5]) for i in range(0, 50, 5)]
    lines += [f"| comment  {i}" for i in range(comments)]
    lines += ["".join(t for t, _ in toks[i:i + 8]) for i in range(0, n, 8)]
    with tempfile.TemporaryDirectory(prefix="symex-") as d:
        p = write(d, "m.smc", "\n".join(lines) + "\n")
        if ctx.flag("default scale"):
            scale = 1
            m, e = ctx.call(M.load_smc_file, p)
        else:
            m, e = ctx.call(M.load_smc_file, p, scale)
    if "2 CORRECTED" not in first:
        ctx.check("refused", m is None and e is not None)
        return
    if e is not None:
        raise e
    ctx.check("count", len(m.accels) == n and len(m.times) == n)
    ctx.check_eq("accels", m.accels, [v * scale for _, v in toks])
    ctx.check_eq("time step", m.time_step * sps, 1)
    ctx.check("texts", m.description == "VA: Reston; 360" and m.filename == p)


@harness("C32", quick=[dict(n=3)], thorough=[dict(n=3), dict(n=6)])
def nrattle(ctx, n):
    """nrattle control files of n layers, each attenuation given as Q, as 1/Q or as zero: the
    profile has their thicknesses and velocities in m, unit weights g times density, damping
    1/(2Q), and the half-space last"""
    tools = ctx.ps.tools
    kinds = [ctx.choice(f"kind{i}", ["inverse", "Q", "zero"]) if i < 2 else "Q" for i in range(n)]
    extra = ctx.flag("extra column")
    rows, want = [], []
    for i in range(n):
        h, hv = ctx.token(f"h{i}", 1e-4, 10.0)
        v, vv = ctx.token(f"v{i}", 0.05, 5.0)
        r, rv = ctx.token(f"r{i}", 1.0, 3.5)
        if kinds[i] == "zero":
            q, damp = "0.0000E+00", 0
        else:
            q, qv = (ctx.token(f"Q{i}", 1.0001, 1000.0) if kinds[i] == "Q" else ctx.token(f"q{i}", 1e-4, 0.9999))
            damp = 0.5 / qv if kinds[i] == "Q" else 0.5 * qv
        rows.append(f"{i + 1:5d} {h} {v} {r} {q}" + ("  1.0E+00" if extra else ""))
        want.append((hv * 1000, vv * 1000, rv * 9.80665, damp))
    v, vv = ctx.token("vh", 0.05, 5.0)
    r, rv = ctx.token("rh", 1.0, 3.5)
    want.append((0, vv * 1000, rv * 9.80665, 0))
    fmax, fm = ctx.token("fmax", 1.0, 500.0)
    dep, dv = ctx.token("depth", 0.0, 10.0)
    ang, av = ctx.token("angle", 0.0, 90.0)
    text = "\n".join(["!control", "  09/09/11", "!c", "  stem", f"  400  {fmax}", "! depth", f" {dep}", "!model"] + rows + ["!half-space", f" {v} {r}", f"  {n} {ang}", "!end"]) + "\n"
    with tempfile.TemporaryDirectory(prefix="symex-") as d:
        p = write(d, "n.ctl", text)
        ctl = tools.read_nrattle_ctl(pathlib.Path(p))
    ctx.check_eq("control", [ctl["freq_max"], ctl["out_depth"], ctl["inci_angle"]], [fm, dv, av])
    ctx.check("counts", ctl["freq_count"] == 400 and ctl["hs_layer"] == n)
    prof = tools.profile_from_nrattle_ctl(ctl)
    ctx.check("layers", len(prof) == n + 1)
    for i, (l, w) in enumerate(zip(prof, want)):
        ctx.check_eq(f"layer {i}", [l.thickness, l.initial_shear_vel, l.unit_wt, l.damping_min], list(w), rtol=1e-9)
        ctx.check_eq(f"depth {i}", l.depth, sum(x[0] for x in want[:i]))


@harness("C32", quick=[dict()])
def fixed(ctx):
    """fixed-width blocks of 5 fields of arbitrary width wrapped after any number of fields;
    separated lines with fewer parsers than pieces; unreadable numbers become NaN"""
    tools = ctx.ps.tools
    widths = [ctx.choice(f"w{i}", [10, 15, 9]) for i in range(2)]
    ws = [widths[i % 2] for i in range(5)]
    per = ctx.choice("per line", [5, 1, 2, 3, 4, 8])
    toks = [ctx.token(f"a{i}", -9.0, 9.0, w) for i, w in enumerate(ws)]
    lines = ["".join(t for t, _ in toks[i:i + per]) + "\n" for i in range(0, 5, per)] + ["next 1\n"]
    got = tools.parse_fixed_width([(w, tools.to_float) for w in ws], lines)
    ctx.check_eq("values", got, [v for _, v in toks])
    ctx.check("rest", lines == ["next 1\n"])
    line = " 7  " + "   ".join(t for t, _ in toks) + "\n"
    got = tools.split_line(line, [int] + 3 * [tools.to_float])
    ctx.check("first", got[0] == 7 and len(got) == 4)
    ctx.check_eq("split", got[1:], [v for _, v in toks[:3]])
    ctx.check_eq("single", tools.split_line(" " + toks[0][0], [tools.to_float]), toks[0][1])
    ctx.check("unreadable", all(bool(ctx.np.isnan(tools.to_float(x))) for x in ("", " ", "abc", "1.0.0")))


def parse_with_tokens(ctx, f, kw):
    f = f.decode() if isinstance(f, bytes) else f
    g = lambda s: ctx.tokens.get(s.strip(), None) if s.strip() in ctx.tokens else float(s)  # noqa: E731
    return json.JSONDecoder(parse_float=g).decode(f)


@harness("C33", quick=[dict(n=4, simplify=False), dict(n=4, simplify=True)], thorough=[dict(n=4, simplify=False), dict(n=7, simplify=True)], budget=150, thorough_budget=800)
def ncm(ctx, n, simplify):
    """NCM files (plain or gzip) of n depths, velocities, densities and a water table, all
    arbitrary: values as in the file, unit weights 9.81 times density in t/m3, mean stresses those
    of calc_mean_eff_stress; simplified, consecutive layers within the tolerance of the first of
    their group are merged, keeping the depth, travel time and weight above each remaining layer"""
    import gzip

    gen = ctx.module("generic")
    toks = [ctx.token(f"h{i}", 0.5, 100.0) for i in range(n - 1)]
    hs = [v for _, v in toks]
    vt = [ctx.token(f"v{i}", 100.0, 4000.0) for i in range(n)]
    rt = [ctx.token(f"r{i}", 1100.0, 3000.0) for i in range(n)]
    wt, wv = ctx.token("wt", 0.0, 500.0)
    dts, deps = ["0.0"], [0.0]
    for i in range(n - 1):
        if ctx.mode == "sym":
            t, _ = ctx.token(f"unused{i}", 0.0, 1.0)
            ctx.tokens[t] = deps[-1] + hs[i]
            dts.append(t)
        else:
            ctx.token(f"unused{i}", 0.0, 1.0)
            dts.append(repr(float(deps[-1] + hs[i])))
        deps.append(deps[-1] + hs[i])
    vs, rho = [v for _, v in vt], [v for _, v in rt]
    text = ('{"status": "success", "request": {"depths": {"depth_vector": [%s]}}, "response": {"results": [{"location": {"water_table_depth": %s}, '
            '"profile": {"vs": [%s], "density": [%s], "vp": [1.5]}}]}}' % (", ".join(dts), wt, ", ".join(t for t, _ in vt), ", ".join(t for t, _ in rt)))
    zipped = ctx.flag("gzip") if not simplify else True
    kw = dict(simplify=True) if simplify else {}
    tol = 0.02
    if simplify and ctx.flag("tolerance given"):
        tol = kw["simplify_tol"] = ctx.real("tol", 0.001, 0.5)
    if ctx.mode == "sym":
        ctx.patch(json, "load", lambda f, **k: parse_with_tokens(ctx, f.read(), k))
        ctx.patch(json, "loads", lambda s, **k: parse_with_tokens(ctx, s, k))
    with tempfile.TemporaryDirectory(prefix="symex-") as d:
        p = os.path.join(d, "ncm.json")
        with (gzip.open(p, "wt") if zipped else open(p, "w")) as f:
            f.write(text)
        df, w = gen.load_ncm_profile(p, **kw)
    col = lambda c: list(df[c].values)  # noqa: E731
    ctx.check_eq("water table", w, wv)
    uw = [r * 9.81 / 1000 for r in rho]
    if not simplify:
        ctx.check("rows", len(df) == n)
        ctx.check_eq("depth", col("depth"), deps, rtol=1e-9)
        ctx.check_eq("vel_shear", col("vel_shear"), vs)
        ctx.check_eq("unit_wt", col("unit_wt"), uw)
        ctx.check_eq("thickness", col("thickness"), hs + [0], rtol=1e-6, atol=1e-9)
        rows = list(zip(deps, vs, uw))
    else:
        groups = [[0]]
        for i in range(1, n):
            ref = vs[groups[-1][0]]
            if bool(ctx.np.abs(vs[i] - ref) / ref <= tol):
                groups[-1].append(i)
            else:
                groups.append([i])
        ctx.check("rows", len(df) == len(groups))
        h = hs + [0]
        rows = []
        for g in groups:
            H = sum(h[i] for i in g)
            if g == [n - 1]:
                rows.append((deps[g[0]], vs[-1], uw[-1]))
            else:
                rows.append((deps[g[0]], H / sum(h[i] / vs[i] for i in g), sum(h[i] * uw[i] for i in g) / H))
        # the layer above a half-space merged into it weighs (almost) nothing
        ctx.check_eq("depth", col("depth"), [r[0] for r in rows], rtol=1e-9)
        for k, r in enumerate(rows):
            ctx.check_eq(f"vel_shear {k}", col("vel_shear")[k], r[1], rtol=1e-9)
            ctx.check_eq(f"unit_wt {k}", col("unit_wt")[k], r[2], rtol=1e-7)
        th = [b[0] - a[0] for a, b in zip(rows, rows[1:])] + [0]
        ctx.check_eq("thickness", col("thickness"), th, rtol=1e-6, atol=1e-9)
        # merged velocities stay within the tolerance
        for k, g in enumerate(groups):
            ref = vs[g[0]]
            ctx.check_le(f"within {k}", ctx.np.abs(col("vel_shear")[k] - ref), tol * ref)
    ms = ctx.ps.tools.calc_mean_eff_stress(ctx.arr(col("depth")), ctx.arr(col("unit_wt")), wv)
    ctx.check_eq("stress", col("mean_eff_stress"), list(ms), rtol=1e-9)


@harness("C33", quick=[dict(n=3)], thorough=[dict(n=3), dict(n=6)])
def table(ctx, n):
    """profiles made from a table have its rows in order, and their table reports them"""
    import pandas as pd

    P = ctx.ps.site.Profile
    cols = {c: ctx.reals(c, n, *r) for c, r in dict(thickness=(0.1, 100.0), vel_shear=(50.0, 4000.0), unit_wt=(10.0, 30.0), damping=(0.0, 0.3)).items()}
    named = ctx.flag("named")
    if named:
        cols["name"] = [f"s{i}" for i in range(n)]
    order = ctx.choice("order", [list(cols), list(cols)[::-1]])
    index = ctx.choice("index", [range(n), range(n, 0, -1)])
    df = pd.DataFrame({c: cols[c] for c in order}, index=list(index))
    wt = ctx.real("wt", 0.0, 100.0)
    given = ctx.flag("given")
    p = P.from_dataframe(df, wt) if given else P.from_dataframe(df)
    ctx.check_eq("water table", p.wt_depth, wt if given else 0)
    ctx.check("layers", len(p) == n)
    d = 0
    for i, l in enumerate(p):
        ctx.check_eq(f"layer {i}", [l.depth, l.thickness, l.initial_shear_vel, l.shear_vel, l.unit_wt, l.damping, l.damping_min],
                     [d, cols["thickness"][i], cols["vel_shear"][i], cols["vel_shear"][i], cols["unit_wt"][i], cols["damping"][i], cols["damping"][i]], rtol=1e-9)
        ctx.check(f"name {i}", l.soil_type.name == (f"s{i}" if named else ""))
        d = d + cols["thickness"][i]
    t = p.to_dataframe()
    for a, b in [("unit_wt", "unit_wt"), ("damping", "damping"), ("thickness", "thickness"), ("shear_vel", "vel_shear")]:
        ctx.check_eq(f"table {a}", list(t[a].values), cols[b], rtol=1e-9)
    ctx.check("names", list(t["soil_type"]) == [l.soil_type.name for l in p] and len(t) == n)
    ctx.check_eq("table depth", list(t["depth"].values), [sum(cols["thickness"][:i]) for i in range(n)], rtol=1e-9)


@harness("C34", quick=[dict(n=1), dict(n=3)], thorough=[dict(n=1), dict(n=3), dict(n=6)])
def rayleigh(ctx, n):
    """n layers on a half-space: the simplified Rayleigh velocity is that of Urzua et al., scales
    with the velocities, is unchanged when all thicknesses are scaled, is 4/pi of the velocity of
    a uniform profile, and does not depend on unit weights"""
    site = ctx.ps.site
    h, v = ctx.reals("h", n, 0.5, 100.0), ctx.reals("v", n + 1, 50.0, 4000.0)
    uw = ctx.reals("uw", 2, 10.0, 30.0)
    mk = lambda h, v, u: site.Profile([site.Layer(site.SoilType("", u, None, 0.01), a, b) for a, b in zip(h + [0], v)])  # noqa: E731
    r = mk(h, v, uw[0]).simplified_rayliegh_vel()
    ctx.check_ge("positive", r, 0)
    mids = [sum(h[:i]) + h[i] / 2 for i in range(n)]
    X = [0] * (n + 1)
    for i in range(n)[::-1]:
        X[i] = X[i + 1] + h[i] * mids[i] / (v[i] * v[i])
    num = sum(h[i] * mids[i] * mids[i] / (v[i] * v[i]) for i in range(n))
    den = sum(h[i] * (X[i] + X[i + 1]) * (X[i] + X[i + 1]) for i in range(n))
    H = sum(h)
    # r = 4 H / T, T = 2 pi / w, w^2 = 4 num / den
    ctx.check_eq("formula", (r * ctx.np.pi) ** 2 * den, 16 * H * H * num, rtol=1e-8)
    r2 = mk(h, v, uw[1]).simplified_rayliegh_vel()
    ctx.check_eq("unit weight", r2, r)
    if n == 1:
        ctx.check_eq("uniform", r, v[0] * 4 / ctx.np.pi, rtol=1e-9)


@harness("C34", quick=[dict()])
def kea16(ctx):
    """Kamai et al. (2016): arbitrary depths and Vs30 within the recommended range, both regions
    in any capitalisation: equation 3, increasing with depth; other regions refused"""
    import warnings

    gen = ctx.module("generic")
    region = ctx.choice("region", ["california", "japan", "California", "Japan", "Nevada"])
    vs30 = ctx.real("vs30", 100.0, 1500.0)
    z = ctx.reals("z", 2, 0.0, 500.0)
    ctx.assume(z[0] < z[1])
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        df, e = ctx.call(gen.kea16_profile, ctx.arr(z), vs30, region)
    if region == "Nevada":
        ctx.check("refused", isinstance(e, ValueError))
        return
    if e is not None:
        raise e
    inside = bool(vs30 >= 250) and bool(vs30 <= 850)
    ctx.check("warned", any(issubclass(w.category, UserWarning) for w in caught) == (not inside))
    b = (0.25, 104, 0.22, 166, 53, -0.00388, 0.0002, 0.195) if region.lower() == "california" else (0.2, 40, 0.25, 260, 28, -0.00296, 0, 0.4)
    a2 = b[4] * ctx.np.exp(b[5] * vs30)
    got = list(df["vs_median"].values)
    ctx.check_eq("median", got, [b[0] * vs30 + b[1] + (b[2] * vs30 + b[3]) * ctx.np.log((x + a2) / a2) for x in z], rtol=1e-9)
    ctx.check_eq("std", list(df["std_vs_ln_units"].values), [b[6] * vs30 + b[7]] * 2)
    ctx.check_eq("index", list(df.index.values), z)
    ctx.check_ge("increasing", got[1], got[0])
    one, e = ctx.call(gen.kea16_profile, z[0], vs30, region)
    ctx.check("scalar", e is None)
    if e is None:
        ctx.check_eq("scalar value", list(one["vs_median"].values), got[:1])
