from ._common import G, THICK, UW, VEL, harness, linear_profile


def check_geometry(ctx, prof, tag):
    """depths are cumulative thicknesses; vertical stress at the layer top is the
    sum of unit weight times thickness of the layers above"""
    depth, stress = 0, 0
    for i, l in enumerate(prof):
        ctx.check_eq(f"{tag}.depth{i}", l.depth, depth)
        ctx.check_eq(f"{tag}.mid{i}", l.depth_mid, depth + l.thickness / 2)
        ctx.check_eq(f"{tag}.base{i}", l.depth_base, depth + l.thickness)
        ctx.check_eq(f"{tag}.stress{i}", l.stress_vert(0), stress)
        ctx.check(f"{tag}.owner{i}", l._profile is prof)
        depth = depth + l.thickness
        stress = stress + l.thickness * l.unit_wt


@harness(
    "C11",
    quick=[dict(n=2, half=0), dict(n=3, half=0), dict(n=20, half=0), dict(n=3, half="sym")],
    thorough=[dict(n=n, half=h) for n in (2, 3, 4, 5, 6, 8) for h in (0, "sym")],
)
def construct(ctx, n, half):
    """profile built from n layers with arbitrary properties (distinct soil names)"""
    prof = linear_profile(ctx, n, damping=False, half=half)
    check_geometry(ctx, prof, "c")
    ctx.check_eq("depths", prof.depth[-1], sum(l.thickness for l in prof[:-1]))


@harness(
    "C11",
    quick=[dict(n=2, half="sym"), dict(n=3, half="sym"), dict(n=3, half=0)],
    thorough=[dict(n=n, half=h) for n in (2, 3, 4) for h in (0, "sym")],
)
def construct_equal(ctx, n, half):
    """profile built from n layers that may be equal to one another in every attribute"""
    prof = linear_profile(ctx, n, damping=False, half=half, same=True)
    check_geometry(ctx, prof, "c")


OPS = ["append", "insert0", "insert1", "thick0", "thick1", "thick_last", "insert-1", "insert99"]


@harness(
    "C11",
    quick=[dict(n=2, nops=1), dict(n=3, nops=1), dict(n=2, nops=2), dict(n=12, nops=1)],
    thorough=[dict(n=2, nops=3), dict(n=3, nops=2), dict(n=4, nops=2)],
    max_paths=2000,
)
def edit(ctx, n, nops):
    """every sequence of up to nops append / insert / thickness edits (the appended or
    inserted layer and the new thickness are arbitrary)"""
    site = ctx.ps.site
    prof = linear_profile(ctx, n, damping=False, half="sym")
    for k in range(nops):
        op = ctx.choice(f"op{k}", OPS)
        if op.startswith("thick"):
            i = {"0": 0, "1": 1, "t": len(prof) - 1}[op[-1]]
            prof[i].thickness = ctx.real(f"t{k}", *THICK)
        else:
            new = site.Layer(
                site.SoilType(f"n{k}", ctx.real(f"nuw{k}", *UW), None, 0.0), ctx.real(f"nh{k}", *THICK), ctx.real(f"nv{k}", *VEL)
            )
            if op == "append":
                prof.append(new)
            else:
                prof.insert(int(op[6:]), new)
        check_geometry(ctx, prof, f"o{k}")


@harness("C11", quick=[dict(n=3), dict(n=20)], thorough=[dict(n=3), dict(n=5)])
def empty_then_append(ctx, n):
    """a profile filled layer by layer equals the profile built at once"""
    site = ctx.ps.site
    ref = linear_profile(ctx, n, damping=False)
    prof = site.Profile([], ref.wt_depth)
    for l in ref:
        prof.append(site.Layer(l.soil_type, l.thickness, l.initial_shear_vel))
    for a, b in zip(prof, ref):
        ctx.check_eq("depth", a.depth, b.depth)
        ctx.check_eq("stress", a.stress_vert(0), b.stress_vert(0))


@harness("C12", quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=12)], thorough=[dict(n=n) for n in (2, 3, 4, 5, 6)])
def lookup(ctx, n):
    """lookup by an arbitrary depth"""
    prof = linear_profile(ctx, n, damping=False, half=ctx.choice("half", [0, 5.0]))
    z = ctx.real("z", 0.0, 8000.0)
    i, dw = prof.lookup_depth(z)
    ctx.check_eq("reconstruct", prof[i].depth + dw, z)
    ctx.check_ge("within>=0", dw, 0)
    if i < n - 1:
        ctx.check_le("within<thickness", dw, prof[i].thickness)
        ctx.check("inside", z < prof[i].depth_base)
    else:
        ctx.check("in halfspace", z >= prof[n - 1].depth)
    loc = prof.location(ctx.choice("wf", ["outcrop", "within", "incoming_only"]), depth=z)
    ctx.check("loc.index", loc.index == i)
    ctx.check("loc.layer", loc.layer is prof[i])
    ctx.check_eq("loc.depth_within", loc.depth_within, dw)


@harness("C12", quick=[dict(n=3, same=False), dict(n=3, same=True), dict(n=10, same=True)], thorough=[dict(n=n, same=s) for n in (2, 3, 4) for s in (False, True)])
def by_index(ctx, n, same):
    """location by layer index (negative indices included), layers possibly equal"""
    prof = linear_profile(ctx, n, damping=False, same=same, half="sym")
    k = ctx.choice("k", list(range(n)) + [-1])
    loc = prof.location("outcrop", index=k)
    ctx.check("layer", loc.layer is prof[k])
    ctx.check("index", loc.index == k % n)
    ctx.check_eq("top", loc.depth_within, 0)


@harness("C12", quick=[dict(n=3)])
def bad_args(ctx, n):
    """neither or both of depth and index is refused; wave fields are normalised"""
    prof = linear_profile(ctx, n, damping=False)
    _, e = ctx.call(prof.location, "outcrop")
    ctx.check("none", isinstance(e, NotImplementedError))
    _, e = ctx.call(prof.location, "outcrop", depth=ctx.real("z", 0, 10), index=1)
    ctx.check("both", isinstance(e, NotImplementedError))
    for w in ("outcrop", "within", "incoming_only"):
        a = prof.location(w, depth=0.0)
        b = prof.location(ctx.ps.motion.WaveField[w], depth=0.0)
        ctx.check("wf " + w, a.wave_field is b.wave_field and a.wave_field.name == w)


@harness("C13", quick=[dict(n=2), dict(n=3), dict(n=4), dict(n=9)], thorough=[dict(n=n) for n in (2, 3, 4, 5)])
def stress_at_depth(ctx, n):
    """total, pore, effective and mean stress at an arbitrary depth of an arbitrary profile"""
    prof = linear_profile(ctx, n, damping=False)
    z = ctx.real("z", 0.0, 8000.0)
    np = ctx.np
    loc = prof.location("within", depth=z)
    within = loc.depth_within
    i = loc.index
    total = sum(prof[j].thickness * prof[j].unit_wt for j in range(i)) + within * prof[i].unit_wt
    pore = G * np.maximum(z - prof.wt_depth, 0)
    ctx.check_eq("total", loc.stress_vert(), total)
    ctx.check_eq("pore", prof.pore_pressure(z), pore)
    ctx.check_eq("effective", loc.stress_vert(effective=True), total - pore)
    k0 = ctx.real("k0", 0.1, 3.0)
    ctx.check_eq("mean", prof[i].stress_mean(within, effective=True, k0=k0), (total - pore) * (1 + 2 * k0) / 3)
    ctx.check_eq("mean total", prof[i].stress_mean(within, k0=k0), total * (1 + 2 * k0) / 3)


@harness("C13", quick=[dict(n=3)], thorough=[dict(n=4)])
def stress_monotone(ctx, n):
    """total stress never decreases with depth"""
    prof = linear_profile(ctx, n, damping=False)
    i = ctx.choice("i", list(range(n - 1)))
    a = ctx.real("a", 0.0, 1.0) * prof[i].thickness
    ctx.check_ge("within layer", prof[i].stress_vert(a), prof[i].stress_vert(0))
    ctx.check_ge("next layer", prof[i + 1].stress_vert(0), prof[i].stress_vert(a))
    ctx.check_eq("continuous", prof[i + 1].stress_vert(0), prof[i].stress_vert(prof[i].thickness))


def tt(prof, n, z, np):
    """exact travel time to depth z through the initial velocities"""
    t = 0
    for j in range(n):
        l = prof[j]
        d = np.maximum(z - l.depth, 0)
        if j < n - 1:
            d = np.minimum(d, l.thickness)
        t = t + d / l.initial_shear_vel
    return t


@harness("C14", quick=[dict(n=2), dict(n=3), dict(n=9)], thorough=[dict(n=n) for n in (2, 3, 4, 5)], prove_timeout=20)
def time_avg(ctx, n):
    """time-averaged velocity to an arbitrary depth (half-space extended to the depth)"""
    prof = linear_profile(ctx, n, damping=False, half=ctx.choice("half", [0, 3.0]))
    z = ctx.real("z", 0.1, 3000.0)
    v = prof.time_average_vel(z)
    ctx.check_eq("avg", v * tt(prof, n, z, ctx.np), z)


@harness("C14", quick=[dict(n=2), dict(n=3), dict(n=9)], thorough=[dict(n=n) for n in (2, 3, 4, 5)], prove_timeout=20)
def vs30(ctx, n):
    """Vs30 is 30 m over the travel time through the top 30 m"""
    prof = linear_profile(ctx, n, damping=False)
    ctx.check_eq("vs30", prof.vs30() * tt(prof, n, 30.0, ctx.np), 30.0)


@harness("C14", quick=[dict(n=3), dict(n=5)], thorough=[dict(n=3), dict(n=8)], prove_timeout=20)
def strained(ctx, n):
    """in a profile with strains, the half-space included, Vs30 is still that of the initial
    velocities, the travel times and their average those of the strain-compatible ones"""
    site = ctx.ps.site
    layers = []
    for i in range(n):
        mr = site.ModulusReductionCurve("m", ctx.arr([1e-4, 1e-2]), ctx.arr([ctx.real(f"g{i}", 0.05, 1.0)] * 2))
        layers.append(site.Layer(site.SoilType(f"s{i}", 20.0, mr, 0.02), ctx.real(f"h{i}", *THICK) if i < n - 1 else 0, ctx.real(f"v{i}", *VEL)))
    prof = site.Profile(layers, 0)
    for l in prof:
        l.strain = 1e-3
    ctx.check_eq("vs30", prof.vs30() * tt(prof, n, 30.0, ctx.np), 30.0)
    for i in range(n):
        ctx.check_eq(f"slowness{i}", prof.slowness[i] * prof[i].initial_shear_vel, 1)
        ctx.check_eq(f"softened{i}", prof[i].shear_vel ** 2 * prof[i].density, prof[i].shear_mod)
        ctx.check_eq(f"travel{i}", prof.travel_time[i] * prof[i].shear_vel, prof[i].thickness)


@harness("C14", quick=[dict(n=3), dict(n=12)])
def slowness(ctx, n):
    """per-layer slowness, travel time and their total"""
    prof = linear_profile(ctx, n, damping=False)
    for i in range(n):
        ctx.check_eq("slowness", prof.slowness[i] * prof[i].initial_shear_vel, 1)
        ctx.check_eq("travel", prof.travel_time[i] * prof[i].initial_shear_vel, prof[i].thickness)
