"""P04: a projectile has the velocity, angle, direction, density and location asked for; the rest is drawn from its population."""
import math

from sx.ctx import harness

POPS = ["asteroids", "comets", "generic"]


def _maker(ctx, pop, rng, **kw):
    from cratermaker.components.projectile import Projectile

    if pop == "generic":
        kw.setdefault("mean_velocity", 15e3)
    return Projectile.maker(pop, rng=rng, **kw)


@harness("P04", bounds="3 populations, sampling on and off; any given velocity (0, 1e5], angle [0, 90], direction [0, 360], density (0, 1e4], location in degrees; any subset given, the rest any draw", time=100)
def given_values_kept(ctx):
    pop = ctx.choice("pop", POPS)
    sample = ctx.choice("sample", [True, False])
    target = ctx.choice("target", ["Moon", "Earth"])
    v, a, d, rho = ctx.real("v", 1, 1e5), ctx.real("a", 0, 90), ctx.real("d", 0, 360), ctx.real("rho", 1, 1e4)
    lon, lat = ctx.real("lon", -180, 179.9), ctx.real("lat", -90, 90)
    which = ctx.choice("which", ["all", "v", "a", "d", "rho", "loc"])
    kw = {"velocity": v, "angle": a, "direction": d, "density": rho, "location": (lon, lat)}
    if which != "all":
        kw = {k: x for k, x in kw.items() if k[0] == which[0] or (which == "rho" and k == "density")}
        kw = {"v": {"velocity": v}, "a": {"angle": a}, "d": {"direction": d}, "rho": {"density": rho}, "loc": {"location": (lon, lat)}}[which]
    if not sample:
        # the populations document these as required, or given defaults, without sampling
        kw = {"velocity": v, "angle": a, "direction": d, "location": (lon, lat), **kw}
    p = _maker(ctx, pop, ctx.rng(), sample=sample, target=target, **kw)
    if "velocity" in kw:
        ctx.close(p.velocity, v, "velocity given is the velocity used")
    if "angle" in kw:
        ctx.close(p.angle, a, "angle given is the angle used")
    if "direction" in kw:
        ctx.close(p.direction, d, "direction given is the direction used")
    if "density" in kw:
        ctx.close(p.density, rho, "density given is the density used")
    if "location" in kw:
        ctx.close(p.location[0], lon, "longitude given is the longitude used")
        ctx.close(p.location[1], lat, "latitude given is the latitude used")
    ctx.check((p.angle >= 0) & (p.angle <= 90.0 + 1e-9), "impact angle between grazing and vertical")
    ctx.check((p.direction >= 0) & (p.direction <= 360), "direction within the circle")
    ctx.check((p.location[0] >= -180 - 1e-9) & (p.location[0] <= 180 + 1e-9), "longitude in range")
    ctx.check((p.location[1] >= -90 - 1e-9) & (p.location[1] <= 90 + 1e-9), "latitude in range")
    vv = p.vertical_velocity
    ctx.check((vv >= -1e-9) & (vv <= p.velocity * (1 + 1e-9)), "vertical velocity between zero and the velocity")
    ctx.check(p.target.name == target, "target kept")


@harness("P04", bounds="any velocity and any angle in [0, 90]")
def vertical_velocity(ctx):
    v, a = ctx.real("v", 0, 1e5), ctx.real("a", 0, 89.9)
    b = ctx.real("b", 0, 89.9)
    p = _maker(ctx, "asteroids", ctx.rng(), velocity=v, angle=a, target="Moon", direction=0.0, location=(0.0, 0.0))
    q = _maker(ctx, "asteroids", ctx.rng("rng2"), velocity=v, angle=b, target="Moon", direction=0.0, location=(0.0, 0.0))
    s = ctx.np.sin(ctx.np.deg2rad(a))
    ctx.close(p.vertical_velocity, v * s, "vertical velocity is the velocity times the sine of the angle")
    ctx.check(ctx.implies((a > b) & (v > 0), p.vertical_velocity >= q.vertical_velocity), "a steeper impact has a larger vertical velocity")


@harness("P04", bounds="any new values on an existing projectile; sampling on and off", time=60)
def new_projectile(ctx):
    pop = ctx.choice("pop", POPS)
    sample = ctx.choice("sample", [True, False])
    v0 = ctx.real("v0", 1, 1e5)
    p = _maker(ctx, pop, ctx.rng(), sample=sample, velocity=v0, angle=30.0, direction=10.0, location=(1.0, 2.0), density=3000.0, target="Mars")
    old = (p.velocity, p.angle, p.direction, p.density)
    v, a = ctx.real("v", 1, 1e5), ctx.real("a", 0, 90)
    which = ctx.choice("which", ["none", "v", "a", "both"])
    kw = {"none": {}, "v": {"velocity": v}, "a": {"angle": a}, "both": {"velocity": v, "angle": a}}[which]
    q = p.new_projectile(**kw)
    ctx.check(q is not p, "a new projectile is a new object")
    ctx.close(p.velocity, old[0], "the original keeps its velocity")
    ctx.close(p.angle, old[1], "the original keeps its angle")
    ctx.close(p.direction, old[2], "the original keeps its direction")
    ctx.close(p.density, old[3], "the original keeps its density")
    ctx.close(q.density, 3000.0, "the new projectile has the density of the population")
    ctx.check(q.target.name == "Mars", "the new projectile keeps the target")
    ctx.check(q.sample == sample, "the new projectile keeps the sampling mode")
    if "velocity" in kw:
        ctx.close(q.velocity, v, "velocity given is used")
    if "angle" in kw:
        ctx.close(q.angle, a, "angle given is used")
    if not sample and "angle" not in kw:
        ctx.close(q.angle, 30.0, "without sampling the angle is kept")
    if not sample and "velocity" not in kw and pop == "generic":
        ctx.close(q.velocity, v0, "without sampling the velocity is kept")


@harness("P04", bounds="any negative value of velocity, angle, direction, density, mean velocity")
def rejects_negative(ctx):
    p = _maker(ctx, ctx.choice("pop", POPS), ctx.rng(), velocity=10e3, angle=45.0, direction=0.0, location=(0.0, 0.0))
    bad = ctx.real("bad", -1e6, 0, hi_open=True)
    what = ctx.choice("what", ["velocity", "angle", "direction", "density", "mean_velocity"])
    before = getattr(p, what)
    o = ctx.call(setattr, p, what, bad, raises=(ValueError,))
    ctx.check(not o.ok, f"{what}: a negative value is rejected")
    if before is not None:
        ctx.close(getattr(p, what), before, f"{what}: a rejected value changes nothing")


@harness("P04", bounds="all 3 populations without sampling, any velocity, angle, direction given or not", time=60)
def unsampled(ctx):
    from cratermaker.components.projectile import Projectile

    name = ctx.choice("name", ["asteroids", "comets", "generic"])
    v, a, d = ctx.real("v", 100, 1e5), ctx.real("a", 1, 90), ctx.real("d", 0, 359)
    give = {k: x for k, x in (("angle", a), ("direction", d)) if ctx.choice("give " + k, [False, True])}
    pr = Projectile.maker(name, target="Moon", sample=False, rng_seed=1, **({"velocity": v} if name == "generic" else {}), **give)
    ctx.close(pr.velocity, v if name == "generic" else pr._catalogue["Moon"], "the velocity given, or the mean velocity of the population on its target")
    ctx.close(pr.angle, give.get("angle", 90.0), "the angle given, or vertical")
    ctx.close(pr.direction, give.get("direction", 0.0), "the direction given, or due North")
    ctx.check(pr.sample is False, "not sampled")
    q = pr.new_projectile()
    ctx.close(q.velocity, pr.velocity, "a new projectile of it is not sampled either")
    ctx.close(q.angle, pr.angle, "nor its angle")
    ctx.close(q.direction, pr.direction, "nor its direction")
