"""P03: a new crater has exactly the size, place and time it was asked for; contradictory requests are rejected; copies are faithful."""
import math

from sx.ctx import harness

KINDS = {
    "diameter": ("diameter", 1.0, 3e6),
    "radius": ("radius", 1.0, 1e6),
    "final_diameter": ("diameter", 1.0, 3e6),
    "transient_diameter": ("transient_diameter", 1.0, 1e6),
    "transient_radius": ("transient_radius", 1.0, 1e6),
    "projectile_diameter": ("projectile_diameter", 0.1, 1e5),
    "projectile_radius": ("projectile_radius", 0.1, 1e5),
    "projectile_mass": ("projectile_mass", 1.0, 1e15),
}


def _linear(ctx, s):
    """Stand-in scaling laws (linear), where the laws themselves are not the point."""
    ctx.patch(s, "transient_to_projectile", lambda t, **k: t / 20)
    ctx.patch(s, "final_to_transient", lambda d, *a, **k: (d * 0.8, "simple"))
    return s


def _scaling(ctx, model=None, material="Sand"):
    import numpy as np

    from cratermaker.components.scaling import Scaling

    model = model or ctx.choice("model", ["montecarlo", "ctem"])
    kw = {"monte_carlo_scaling": False} if model == "montecarlo" else {}
    return Scaling.maker(model, target="Moon", projectile="asteroids", material=material, rng=np.random.default_rng(3), **kw)


FULL = dict(projectile_velocity=20e3, projectile_angle=45.0, location=(10.0, 20.0), orientation=30.0, projectile_density=2000.0)


@harness("P03", bounds="each of 8 ways to give the size, any value over 5-15 decades, both deterministic scaling models; given velocity, angle, density", prefer_exp=True, time=150, stubs="root_scalar", shard=("kind", 8))
def size_is_honoured(ctx):
    from cratermaker.components.crater import Crater

    s = _scaling(ctx)
    kind = ctx.choice("kind", list(KINDS))
    field, lo, hi = KINDS[kind]
    x = ctx.real("x", lo, hi)
    ctx.near_ln(lo, hi, s.transition_nominal / 2, s.transition_nominal * 2)
    c = Crater.maker(**{kind: x}, scaling=s, **FULL)
    got = getattr(c, field)
    if kind == "projectile_mass":
        ctx.close(ctx.ln(got), ctx.ln(x), "projectile_mass: the crater has the size asked for", rel=0, abs_=1e-6)
    else:
        ctx.close(got, x, f"{kind}: the crater has the size asked for")
    ctx.close(c.diameter, 2 * c.radius, "diameter is twice the radius")
    ctx.close(c.transient_diameter, 2 * c.transient_radius, "transient diameter is twice the transient radius")
    ctx.close(c.projectile_diameter, 2 * c.projectile_radius, "projectile diameter is twice its radius")
    ctx.close(c.projectile_mass, 4.0 / 3.0 * math.pi * c.projectile_radius**3 * 2000.0, "projectile mass follows from its size and the density given", rel=1e-6)
    ctx.close(s.projectile_to_transient(c.projectile_diameter), c.transient_diameter, "projectile and transient crater sizes obey the scaling law", rel=1e-4)
    ctx.close(s.final_to_transient(c.diameter, morphology_type=c.morphology_type)[0], c.transient_diameter, "transient and final crater sizes obey the scaling law", rel=1e-4)
    ctx.close(c.projectile_velocity, 20e3, "velocity kept")
    ctx.close(c.projectile_angle, 45.0, "angle kept")
    ctx.close(c.location[0], 10.0, "longitude kept")
    ctx.close(c.location[1], 20.0, "latitude kept")
    ctx.close(c.measured_diameter, c.diameter, "measured size starts at the true size", rel=1e-9)


@harness("P03", bounds="any axes in [1 m, 1000 km] with major >= minor, any orientation [0, 360], any time [0, 5000]", time=100, stubs="the scaling laws are linear stand-ins")
def ellipse_is_honoured(ctx):
    from cratermaker.components.crater import Crater

    s = _linear(ctx, _scaling(ctx, "montecarlo"))
    a, b = ctx.real("a", 1, 1e6), ctx.real("b", 1, 1e6)
    ctx.assume(a >= b)
    t, o = ctx.real("t", 0, 5000), ctx.real("o", 0, 360)
    c = Crater.maker(semimajor_axis=a, semiminor_axis=b, time=t, scaling=s, **{**FULL, "orientation": o})
    ctx.close(c.semimajor_axis, a, "major axis kept")
    ctx.close(c.semiminor_axis, b, "minor axis kept")
    ctx.close(c.diameter * c.diameter, 4 * a * b, "diameter is the geometric mean of the two axes")
    ctx.close(c.time, t, "time kept")
    ctx.close(c.orientation, o, "orientation kept")
    ctx.close(c.projectile_direction, o, "projectile direction is the crater orientation")


@harness("P03", bounds="any velocity (0, 1e5], angle [1, 90]; the four ways to give two of velocity, vertical velocity and angle", time=100, stubs="the scaling laws are linear stand-ins")
def velocity_inputs(ctx):
    from cratermaker.components.crater import Crater

    s = _linear(ctx, _scaling(ctx, "montecarlo"))
    way = ctx.choice("way", ["v+angle", "vv+angle", "v+vv", "copy"])
    base = {k: v for k, v in FULL.items() if k not in ("projectile_velocity", "projectile_angle")}
    v, ang = ctx.real("v", 100, 1e5), ctx.choice("ang", [15.0, 45.0, 90.0])
    sn = math.sin(math.radians(ang))
    if way == "v+angle":
        c = Crater.maker(diameter=1000.0, projectile_velocity=v, projectile_angle=ang, scaling=s, **base)
        ctx.close(c.projectile_vertical_velocity, v * sn, "vertical velocity inferred")
    elif way == "vv+angle":
        c = Crater.maker(diameter=1000.0, projectile_vertical_velocity=v * sn, projectile_angle=ang, scaling=s, **base)
        ctx.close(c.projectile_velocity, v, "velocity inferred from the vertical velocity and the angle")
    elif way == "v+vv":
        vv = ctx.real("vv", 1, 1e5)
        o = ctx.call(Crater.maker, diameter=1000.0, projectile_velocity=v, projectile_vertical_velocity=vv, scaling=s, raises=(ValueError,), **base)
        if not o.ok:
            ctx.check(vv > v, "a vertical velocity up to the velocity is accepted")
            return
        c = o.value
        ctx.check(ctx.not_(vv > v), "a vertical velocity above the velocity is rejected")
        ctx.close(c.projectile_velocity, v, "velocity kept")
        ctx.close(c.projectile_vertical_velocity, vv, "the crater has the vertical velocity asked for", rel=1e-6, abs_=1e-6)
    else:
        c0 = Crater.maker(diameter=1000.0, scaling=s, **FULL)
        c = Crater.maker(c0, projectile_vertical_velocity=v)
        ctx.close(c.projectile_vertical_velocity, v, "a copy takes the new vertical velocity", rel=1e-6)
        ctx.close(c.projectile_angle, 45.0, "and keeps the angle")


SIZES = [("diameter", "radius"), ("diameter", "transient_diameter"), ("radius", "projectile_mass"), ("transient_diameter", "transient_radius"), ("projectile_diameter", "projectile_radius"), ("projectile_radius", "projectile_mass"), ("transient_radius", "projectile_diameter"), ("diameter", "projectile_diameter")]


@harness("P03", bounds="8 pairs of size inputs, no size at all, half a coordinate pair, doubled locations, triple velocities, doubled directions; any values")
def contradictions_rejected(ctx):
    from cratermaker.components.crater import Crater

    x, y = ctx.real("x", 1, 1e5), ctx.real("y", 1, 1e5)
    kind = ctx.choice("kind", ["pair", "axes+radius", "none", "lon", "lat", "loc2", "loc3", "vel3", "dir2", "mean"])
    if kind == "pair":
        a, b = ctx.choice("p", SIZES)
        kw = {a: x, b: y}
    else:
        kw = {
            "axes+radius": dict(semimajor_axis=x, semiminor_axis=y, diameter=x),
            "none": {},
            "lon": dict(diameter=x, longitude=y),
            "lat": dict(diameter=x, latitude=y),
            "loc2": dict(diameter=x, location=(y, 0.0), projectile_location=(0.0, 0.0)),
            "loc3": dict(diameter=x, location=(y, 0.0), longitude=1.0, latitude=2.0),
            "vel3": dict(diameter=x, projectile_velocity=y, projectile_vertical_velocity=y, projectile_angle=45.0),
            "dir2": dict(diameter=x, orientation=y, projectile_direction=3.0),
            "mean": dict(diameter=x, projectile_velocity=y, projectile_mean_velocity=x),
        }[kind]
    o = ctx.call(Crater.maker, raises=(ValueError,), **kw)
    ctx.check(not o.ok, f"{kind}: a request that does not name exactly one size, place, direction and velocity is rejected")


@harness("P03", bounds="any sizes, axes, time, location, measured values of the original; nothing, or time, location, measured size, name, velocity, angle, orientation or degradation changed", time=90)
def copies(ctx):
    from cratermaker.components.crater import Crater

    a, b = ctx.real("a", 1, 1e6), ctx.real("b", 1, 1e6)
    ctx.assume(a >= b)
    ma, mb = ctx.real("ma", 1, 1e6), ctx.real("mb", 1, 1e6)
    ctx.assume(ma >= mb)
    lon, lat, t = ctx.real("lon", -180, 179), ctx.real("lat", -90, 90), ctx.real("t", 0, 4500)
    c0 = Crater.maker(
        semimajor_axis=a, semiminor_axis=b, transient_diameter=ctx.real("td", 1, 1e6), projectile_diameter=ctx.real("pd", 1, 1e5), projectile_mass=ctx.real("pm", 1, 1e15),
        projectile_velocity=15e3, projectile_angle=ctx.real("ang", 1, 90), location=(lon, lat), time=t, orientation=12.0, measured_semimajor_axis=ma, measured_semiminor_axis=mb,
        measured_rim_height=ctx.real("h", 0, 1e4), measured_floor_depth=ctx.real("fd", -1e4, 0), degradation_state=ctx.real("K", 0, 1e6), name="Bob", production_sequence=4, check_redundant_inputs=False, morphology_type="simple",
    )  # fmt: skip
    change = ctx.choice("change", ["nothing", "time", "location", "measured", "name", "velocity", "angle", "orientation", "degradation", "sequence"])
    kw, changed = {}, set()
    t2, ang2 = ctx.real("t2", 0, 4500), ctx.real("ang2", 1, 90)
    lon2, lat2 = ctx.real("lon2", -180, 179), ctx.real("lat2", -90, 90)
    if change == "time":
        kw, changed = {"time": t2}, {"time", "id"}
    elif change == "location":
        kw, changed = {"location": (lon2, lat2)}, {"location", "id"}
    elif change == "measured":
        kw, changed = {"measured_diameter": t2 + 1}, {"measured_semimajor_axis", "measured_semiminor_axis", "measured_radius", "measured_diameter"}
    elif change == "name":
        kw, changed = {"name": "Alice"}, {"name"}
    elif change == "velocity":
        kw, changed = {"projectile_velocity": t2 + 1}, {"projectile_velocity", "projectile_vertical_velocity"}
    elif change == "angle":
        kw, changed = {"projectile_angle": ang2}, {"projectile_angle", "projectile_vertical_velocity"}
    elif change == "orientation":
        kw, changed = {"orientation": t2 / 20}, {"orientation", "projectile_direction", "measured_orientation"}
    elif change == "degradation":
        kw, changed = {"degradation_state": t2}, {"degradation_state"}
    elif change == "sequence":
        kw, changed = {"production_sequence": 9}, {"production_sequence"}
    c1 = Crater.maker(c0, **kw)
    names = ["id", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle", "projectile_mass", "location", "morphology_type", "time", "radius", "diameter",
             "transient_radius", "projectile_radius", "projectile_vertical_velocity", "projectile_direction", "measured_semimajor_axis", "measured_semiminor_axis", "measured_radius", "measured_diameter", "measured_rim_height", "measured_floor_depth", "degradation_state", "name", "production_sequence"]  # fmt: skip
    for n in names:
        if n in changed or n == "id":
            continue
        u, v = getattr(c0, n), getattr(c1, n)
        ctx.check((u is None) == (v is None), f"copy keeps {n} defined")
        if u is None or v is None:
            continue
        if n == "location":
            ctx.close(v[0], u[0], "copy keeps the longitude")
            ctx.close(v[1], u[1], "copy keeps the latitude")
        elif isinstance(u, (str, int)):
            ctx.check(u == v, f"copy keeps {n}")
        else:
            ctx.close(v, u, f"copy keeps {n}")
    ctx.check(c0.name == "Bob", "the crater has the name it was given")
    if change == "name":
        ctx.check(c1.name == "Alice", "copy takes the new name")
    if change == "time":
        ctx.close(c1.time, t2, "copy takes the new time")
    if change == "measured":
        ctx.close(c1.measured_diameter, t2 + 1, "copy takes the new measured diameter")
    for nm, want in (("velocity", ("projectile_velocity", t2 + 1)), ("angle", ("projectile_angle", ang2)), ("orientation", ("orientation", t2 / 20)), ("degradation", ("degradation_state", t2)), ("sequence", ("production_sequence", 9))):
        if change == nm:
            ctx.close(getattr(c1, want[0]), want[1], f"copy takes the new {want[0]}")
    if change == "location":
        ctx.check(ctx.same_point(c1.location[0], c1.location[1], lon2, lat2), "copy takes the new location")
    if change in ("nothing", "measured", "name", "degradation", "sequence"):
        ctx.check(c0.id == c1.id, "a copy that changes no fixed attribute keeps the identifier")
