"""P06: explicitly given body and material properties win over the catalogue, and derived quantities follow the stored ones."""
import math

from sx.ctx import harness

G = 6.6743e-11


@harness("P06", bounds="any catalogue body or a custom name; any radius (0, 1e9], mass (0, 1e30], density (0, 1e5]; each given or not", time=60)
def target_precedence(ctx):
    from cratermaker.components.target import Target

    cat = Target._catalogue
    name = ctx.choice("name", ["Moon", "Europa", "Ceres", "Arrokoth"] if ctx.tier == "quick" else sorted(cat))
    r, m, rho = ctx.real("r", 0, 1e9, lo_open=True), ctx.real("m", 0, 1e30, lo_open=True), ctx.real("rho", 0, 1e5, lo_open=True)
    give = ctx.choice("give", ["none", "radius", "diameter", "mass", "density", "all", "material", "type"])
    before = {k: dict(v) for k, v in cat.items()}
    e = before[name]
    kw = {"none": {}, "radius": {"radius": r}, "diameter": {"diameter": r}, "mass": {"mass": m}, "density": {"density": rho}, "all": {"radius": r, "mass": m, "density": rho, "material": "Sand", "transition_scale_type": "ice"}, "material": {"material": "Sand"}, "type": {"transition_scale_type": "ice"}}[give]
    t = Target.maker(name, **kw)
    er = kw.get("radius", e["radius"]) if give != "diameter" else r / 2
    em = kw.get("mass", e["mass"])
    ctx.close(t.radius, er, "radius given, or that of the catalogue")
    ctx.close(t.diameter, 2 * er, "diameter is twice the radius")
    ctx.close(t.mass, em, "mass given, or that of the catalogue")
    ctx.check(t.material == kw.get("material", e["material"]), "material given, or that of the catalogue")
    ctx.check(t.transition_scale_type == kw.get("transition_scale_type", e["transition_scale_type"]), "transition type given, or that of the catalogue")
    dens = {"Water": 1000.0, "Sand": 1750.0, "Dry Soil": 1500.0, "Wet Soil": 2000.0, "Soft Rock": 2250.0, "Hard Rock": 2500.0, "Ice": 900.0}
    ctx.close(t.density, kw.get("density", dens[t.material]), "density given, or that of the material")
    ctx.close(t.gravity * er * er, G * em, "surface gravity is G M / R^2", rel=1e-4)
    ctx.close(t.escape_velocity * t.escape_velocity * er, 2 * G * em, "escape velocity squared is 2 G M / R", rel=1e-4)
    ctx.close(t.surface_area, 4 * math.pi * er * er, "area of the sphere")
    ctx.close(t.volume * 3, 4 * math.pi * er * er * er, "volume of the sphere")
    ctx.close(t.circumference, 2 * math.pi * er, "circumference of the sphere")
    ctx.check(all(set(before[k]) == set(cat[k]) and all(before[k][x] == cat[k][x] for x in before[k]) for k in before), "making a target does not change the catalogue")
    t2 = Target.maker(name)
    ctx.close(t2.radius, e["radius"], "a later target is unaffected")
    ctx.check(Target.maker(t) is t, "an existing target passes through")


@harness("P06", bounds="custom body, any radius, mass; wrong arguments: both radius and diameter, missing size, non-positive values, unknown transition type")
def target_custom_and_rejections(ctx):
    from cratermaker.components.target import Target

    r, m = ctx.real("r", 0, 1e9, lo_open=True), ctx.real("m", 0, 1e30, lo_open=True)
    kind = ctx.choice("kind", ["ok", "both", "nosize", "nomass", "notype", "badradius", "badmass", "badtype", "baddensity"])
    bad = ctx.real("bad", -1e9, 0)
    kw = dict(radius=r, mass=m, transition_scale_type="ice", material="Sand")
    if kind == "both":
        kw["diameter"] = r
    elif kind == "nosize":
        kw.pop("radius")
    elif kind == "nomass":
        kw.pop("mass")
    elif kind == "notype":
        kw.pop("transition_scale_type")
    elif kind == "badradius":
        kw["radius"] = bad
    elif kind == "badmass":
        kw["mass"] = bad
    elif kind == "badtype":
        kw["transition_scale_type"] = "cheese"
    elif kind == "baddensity":
        kw["density"] = bad
    o = ctx.call(Target.maker, "Nowhere", raises=(ValueError, TypeError, RuntimeError), **kw)
    if kind == "ok":
        ctx.check(o.ok, "a fully specified custom body is accepted")
        t = o.value
        ctx.close(t.radius, r, "custom radius")
        ctx.close(t.mass, m, "custom mass")
        ctx.close(t.density, 1750.0, "density of the material")
        x = ctx.real("x", 0, 1e9, lo_open=True)
        t.radius = x
        ctx.close(t.gravity * x * x, G * m, "gravity follows a changed radius", rel=1e-4)
    else:
        ctx.check(not o.ok, f"{kind}: an incomplete, contradictory or non-physical body is rejected")


@harness("P06", bounds="any catalogue material for the scaling model; any target density (0, 1e5] given or not", time=60)
def material_precedence(ctx):
    import numpy as np

    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target

    model = ctx.choice("model", ["montecarlo", "ctem"])
    mat = ctx.choice("mat", ["Water", "Sand", "Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock", "Ice", "soft rock", None])
    rho = ctx.real("rho", 1, 1e5)
    give = ctx.choice("give", [True, False])
    kw = {"density": rho} if give else {}
    s = Scaling.maker(model, target="Moon", material=mat, rng=np.random.default_rng(1), **kw)
    table = {"Water": (2.30, 0.55, 0.0, 1000.0), "Sand": (0.24, 0.41, 0.0, 1750.0), "Dry Soil": (0.24, 0.41, 0.18e6, 1500.0), "Wet Soil": (0.20, 0.55, 1.14e6, 2000.0), "Soft Rock": (0.20, 0.55, 7.60e6, 2250.0), "Hard Rock": (0.20, 0.55, 18.0e6, 2500.0), "Ice": (15.625, 0.48, 0.0, 900.0)}
    want = table[(mat or "Soft Rock").title()]
    ctx.check((s.K1, s.mu, s.Ybar) == want[:3], "strength and scaling constants are those of the material")
    ctx.close(s.target.density, rho if give else want[3], "density given, or that of the material")
    body = ctx.choice("body", ["Mars", "Mercury"])
    pop = ctx.choice("pop", ["asteroids", None])
    d0 = ctx.real("d0", 1, 1e5)
    s2 = Scaling.maker(model, target=Target.maker(body, density=d0), projectile=pop, rng=np.random.default_rng(1))
    ctx.close(s2.target.density, d0, "a density given for the target is kept")
    s3 = Scaling.maker(model, target=body, projectile=pop, rng=np.random.default_rng(1))
    ctx.check(s3.projectile.target.name == body and s3.target.name == body, "projectile population is that of the target")
    ctx.check(s.projectile.density is not None and s.projectile.density > 0, "projectile density defined")
