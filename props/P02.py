"""P02: crater geometry is internally consistent, before and after every re-measurement, and fixed attributes stay fixed."""
from sx.ctx import harness

L = 1.0e7


def _new(ctx, **kw):
    from cratermaker.components.crater import Crater, CraterFixed, CraterVariable

    return Crater, CraterFixed, CraterVariable


def _consistent(ctx, v, tag):
    a, b, r, d = v.measured_semimajor_axis, v.measured_semiminor_axis, v.measured_radius, v.measured_diameter
    ctx.check(a is not None and b is not None and r is not None and d is not None, f"{tag}: all measured sizes defined")
    ctx.check((b > 0) & (a > 0), f"{tag}: axes positive")
    ctx.check(a >= b, f"{tag}: major axis is the longer one")
    ctx.close(r * r, a * b, f"{tag}: radius is the geometric mean of the axes")
    ctx.close(d, 2 * r, f"{tag}: diameter is twice the radius")


@harness("P02", bounds="measured radius/diameter/axes set in any order, up to 3 settings (4 in thorough), any values in (0, 1e7] m", max_paths=3000, time=120)
def measured_sequence(ctx):
    _, _, CV = _new(ctx)
    r0 = ctx.real("r0", 0, L, lo_open=True)
    v = CV(measured_radius=r0)
    _consistent(ctx, v, "new")
    ctx.close(v.measured_radius, r0, "the radius given is the radius reported")
    n = 3 if ctx.tier == "quick" else 4
    for i in range(n):
        op = ctx.choice(f"op{i}", ["stop", "radius", "diameter", "major", "minor"])
        if op == "stop":
            break
        x = ctx.real(f"x{i}", 0, L, lo_open=True)
        a0, b0 = v.measured_semimajor_axis, v.measured_semiminor_axis
        setattr(v, {"radius": "measured_radius", "diameter": "measured_diameter", "major": "measured_semimajor_axis", "minor": "measured_semiminor_axis"}[op], x)
        _consistent(ctx, v, f"after {op}")
        a, b = v.measured_semimajor_axis, v.measured_semiminor_axis
        if op in ("radius", "diameter"):
            rr = x if op == "radius" else x / 2
            ctx.close(a, rr, f"setting the {op} sets the major axis")
            ctx.close(b, rr, f"setting the {op} sets the minor axis")
        else:
            keep = b0 if op == "major" else a0
            ctx.check(((a == x) & (b == keep)) | ((b == x) & (a == keep)), f"setting one axis ({op}) keeps the other")


@harness("P02", bounds="non-positive sizes in [-1e7, 0] offered to each measured-size setter of a crater with any measured axes")
def measured_rejects(ctx):
    _, _, CV = _new(ctx)
    a = ctx.real("a", 0, L, lo_open=True)
    b = ctx.real("b", 0, L, lo_open=True)
    ctx.assume(a >= b)
    v = CV(measured_semimajor_axis=a, measured_semiminor_axis=b)
    bad = ctx.real("bad", -L, 0)
    what = ctx.choice("what", ["measured_radius", "measured_diameter", "measured_semimajor_axis", "measured_semiminor_axis"])
    r = ctx.call(setattr, v, what, bad, raises=(ValueError,))
    ctx.check(not r.ok, f"{what}: non-positive size rejected")
    ctx.check((v.measured_semimajor_axis == a) & (v.measured_semiminor_axis == b), f"{what}: a rejected size changes nothing")


@harness("P02", bounds="orientation any real in [-2000, 2000]; rim height, floor depth, degradation any real in [-1e6, 1e6]")
def measured_others(ctx):
    _, _, CV = _new(ctx)
    o = ctx.real("o", -2000, 2000)
    v = CV(measured_orientation=o)
    m = v.measured_orientation
    ctx.check((m >= 0) & (m < 360), "orientation in [0, 360)")
    ctx.check(ctx.is_multiple(m - o, 360), "orientation unchanged up to full turns")
    for nm in ("measured_rim_height", "measured_floor_depth", "degradation_state"):
        x = ctx.real(nm, -1e6, 1e6)
        setattr(v, nm, x)
        ctx.close(getattr(v, nm), x, f"{nm} is reported as set")
    ctx.check(v.measured_orientation == m, "other measurements do not change the orientation")
    for nm in ("measured_radius", "measured_semimajor_axis", "measured_semiminor_axis", "measured_orientation", "measured_rim_height", "measured_floor_depth", "degradation_state"):
        setattr(v, nm, None)
        ctx.check(getattr(v, nm) is None, f"{nm} can be cleared")


@harness("P02", bounds="semi-axes, transient/projectile diameter in (0, 1e7] m, mass in (0, 1e20] kg, speed in [0, 1e5] m/s, angle in [0, 90] degrees")
def fixed_fields(ctx):
    _, CF, _ = _new(ctx)
    a = ctx.real("a", 0, L, lo_open=True)
    b = ctx.real("b", 0, L, lo_open=True)
    td = ctx.real("td", 0, L, lo_open=True)
    pd = ctx.real("pd", 0, L, lo_open=True)
    m = ctx.real("m", 0, 1e20, lo_open=True)
    v = ctx.real("v", 0, 1e5)
    ang = ctx.real("ang", 0, 90)
    o = ctx.real("o", 0, 360)
    f = CF(semimajor_axis=a, semiminor_axis=b, orientation=o, transient_diameter=td, projectile_diameter=pd, projectile_velocity=v, projectile_angle=ang, projectile_mass=m, location=(0.0, 0.0), time=1.0)
    ctx.close(f.radius * f.radius, a * b, "radius is the geometric mean of the semi-axes")
    ctx.check(f.radius > 0, "radius positive")
    ctx.close(f.diameter, 2 * f.radius, "diameter is twice the radius")
    ctx.close(f.transient_radius * 2, td, "transient radius is half the transient diameter")
    ctx.close(f.projectile_radius * 2, pd, "projectile radius is half the projectile diameter")
    ctx.close(f.projectile_density * pd * pd * pd * (ctx.math.pi / 6), m, "projectile mass = density x sphere volume")
    ctx.le(f.projectile_vertical_velocity, v, "vertical speed does not exceed the speed")
    ctx.check(f.projectile_vertical_velocity >= 0, "vertical speed non-negative")
    ctx.close(f.projectile_vertical_velocity, v * ctx.math.sin(ctx.math.radians(ang)), "vertical speed = speed x sin(angle)")
    ctx.check(f.projectile_direction == o, "projectile direction is the orientation")


@harness("P02", bounds="every fixed attribute of a crater offered any new number in [-1e6, 1e6]; then any measured size in (0, 1e7]")
def immutable(ctx):
    from dataclasses import fields

    Crater, CF, _ = _new(ctx)
    d = ctx.real("d", 1, 1e6)
    c = Crater(semimajor_axis=d / 2, semiminor_axis=d / 2, orientation=10.0, transient_diameter=d, projectile_diameter=1.0, projectile_velocity=1e4, projectile_angle=45.0, projectile_mass=5.0, location=(1.0, 2.0), morphology_type="simple", time=3.0, measured_semimajor_axis=d / 2, measured_semiminor_axis=d / 2)
    names = [f.name for f in fields(CF)]
    before = {n: getattr(c, n) for n in names}
    nm = ctx.choice("attr", names)
    x = ctx.real("x", -1e6, 1e6)
    r = ctx.call(setattr, c, nm, x, raises=(AttributeError, TypeError))
    ctx.check(not r.ok, f"fixed attribute {nm} cannot be set")
    mr = ctx.real("mr", 0, L, lo_open=True)
    c.measured_radius = mr
    c.measured_orientation = x
    c.degradation_state = abs(x)
    ctx.close(c.measured_diameter, 2 * mr, "measured size follows the measurement")
    for n in names:
        same = getattr(c, n) == before[n] if before[n] is not None else getattr(c, n) is None
        ctx.check(same, f"{n} unchanged by attempted edits and measurements")
