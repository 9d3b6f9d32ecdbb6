"""P05: scaling laws: projectile <-> transient <-> final crater sizes are mutually inverse, ordered and monotone."""
import math

from sx.ctx import harness


def _scaling(ctx, model="montecarlo", mc=False, target="Moon", material=None, rng=None, **kw):
    import numpy as np

    from cratermaker.components.scaling import Scaling

    rng = rng if rng is not None else np.random.default_rng(7)
    s = Scaling.maker(model, target=target, projectile="asteroids", rng=rng, material=material, **({"monte_carlo_scaling": mc} if model == "montecarlo" else {}), **kw)
    return s


def _mk(ctx, mc=False):
    model = ctx.choice("model", ["montecarlo", "ctem"])
    target = ctx.choice("target", ["Moon", "Mars", "Europa"] if ctx.tier == "quick" else ["Moon", "Mars", "Europa", "Mercury", "Ceres", "Earth"])
    s = _scaling(ctx, model, target=target)
    return s


@harness("P05", bounds="deterministic scaling of both models, 3 targets (6 in thorough; silicate and ice); final diameters in [1 m, 5000 km]", prefer_exp=True, time=150)
def final_to_transient(ctx):
    s = _mk(ctx)
    d1 = ctx.real("d1", 1, 5e6)
    d2 = ctx.real("d2", 1, 5e6)
    tn = s.transition_nominal
    ctx.near_ln(tn / 2, tn, tn * 2)
    t1, m1 = s.final_to_transient(d1)
    ctx.lt(0, t1, "transient diameter positive")
    ctx.check(ctx.less(t1, d1), "transient crater is smaller than the final crater")
    ctx.check(ctx.implies(d1 < tn / 2, m1 == "simple"), "below half the nominal transition diameter a crater is simple")
    ctx.check(ctx.implies(d1 > tn * 2, m1 == "complex"), "above twice the nominal transition diameter a crater is complex")
    ctx.check(ctx.implies((d1 >= tn / 2) & (d1 <= tn * 2), m1 == "transitional"), "between half and twice the nominal transition diameter a crater is transitional")
    for mt in ("simple", "complex", "transitional"):
        a, ma = s.final_to_transient(d1, morphology_type=mt)
        b, mb = s.final_to_transient(d2, morphology_type=mt)
        ctx.check(ma == mt and mb == mt, "a given morphology type is kept")
        ctx.check(ctx.implies(d1 < d2, ctx.less(a, b)), f"{mt}: larger final crater, larger transient crater")


@harness("P05", bounds="as final_to_transient, transient diameters in [1 m, 3000 km]; the bracketing root finder is assumed to return a root of the real function inside the bracket", prefer_exp=True, time=150, stubs="scipy.optimize.root_scalar: returns a root inside the bracket")
def transient_to_final(ctx):
    s = _mk(ctx)
    tn = s.transition_nominal
    ctx.near_ln(tn / 2, tn, tn * 2)
    t = ctx.real("t", 1, 3e6)
    d, mt = s.transient_to_final(t)
    ctx.check(mt in ("simple", "complex", "transitional"), "morphology type is one of the documented three")
    back, mb = s.final_to_transient(d, morphology_type=mt)
    ctx.check(mb == mt, "morphology type kept")
    ctx.close(back, t, "final_to_transient undoes transient_to_final", rel=1e-4, abs_=1e-5)
    ctx.check(ctx.less(back, d), "final crater is larger than the transient crater")
    ctx.check(ctx.implies(d < tn / 2, mt == "simple"), "a final crater below half the transition is simple")


@harness("P05", bounds="monte carlo scaling with the enlargement factors of 2 seeds, every value of every later draw; 2 targets; transient diameters in [1 m, 3000 km]", prefer_exp=True, time=150, shard=("seed", 2), stubs="root_scalar; random draws are symbolic inputs")
def transient_to_final_mc(ctx):
    import numpy as np

    seed = ctx.choice("seed", [1, 2] if ctx.tier == "quick" else [1, 2, 3, 4])
    target = ctx.choice("target", ["Moon", "Europa"])
    s = _scaling(ctx, "montecarlo", mc=True, target=target, rng=np.random.default_rng(seed))
    s._rng = ctx.rng()
    tn = s.transition_nominal
    ctx.near_ln(tn / 2, tn, tn * 2)
    t = ctx.real("t", 1, 3e6)
    d, mt = s.transient_to_final(t)
    mt = str(mt)
    ctx.check(mt in ("simple", "complex", "transitional"), "morphology type is one of the documented three")
    back, mb = s.final_to_transient(d, morphology_type=mt)
    ctx.close(back, t, "final_to_transient undoes transient_to_final", rel=1e-4, abs_=1e-5)
    ctx.check(ctx.implies(d < tn / 2, mt == "simple"), "a final crater below half the transition is simple")


_GRAV = ["Water", "Sand", "Ice"]
_STR = ["Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock"]


def _proj(ctx, mats):
    s = _scaling(ctx, ctx.choice("model", ["montecarlo", "ctem"]), target=ctx.choice("target", ["Moon", "Earth"]), material=ctx.choice("material", mats))
    return s


def _volume(ctx, s, d, v, rho_p, rho_t, g):
    """ln of the transient diameter by the documented pi-group law."""
    r = d / 2
    pi2 = g * r / v**2
    pi3 = s.Ybar / (rho_t * v**2)
    pi4 = rho_t / rho_p
    x = pi2 * pi4 ** (-1.0 / 3.0)
    if s.Ybar > 0:
        x = x + pi3 ** (1 + s.mu / 2)
    ln_piv = math.log(s.K1) + (-3 * s.mu / (2 + s.mu)) * ctx.ln(x)
    ln_vol = ln_piv + math.log(4 / 3 * math.pi) + 3 * ctx.ln(r) + ctx.ln(rho_p) - ctx.ln(rho_t)
    return math.log(2) + (math.log(3 / math.pi) + ln_vol) / 3


@harness("P05", bounds="both models, 3 strengthless materials, 2 targets; projectile diameter [1 cm, 100 km], velocities [100 m/s, 100 km/s], angles concrete, densities [500, 9000]", prefer_exp=True, time=120, shard=("material", 3))
def projectile_to_transient_gravity(ctx):
    s = _proj(ctx, _GRAV)
    d1, d2 = ctx.real("d1", 0.01, 1e5), ctx.real("d2", 0.01, 1e5)
    v1 = ctx.real("v1", 100, 1e5)
    rp, rt = ctx.real("rho_p", 500, 9000), ctx.real("rho_t", 500, 9000)
    s.projectile.density = rp
    s.target.density = rt
    s.projectile.velocity = v1
    s.projectile.angle = 90.0
    ctx.near_ln(0.01, 1e5, 100, 500, 9000)
    v = s.projectile.vertical_velocity
    ctx.close(v, v1, "vertical velocity of a vertical impact is the velocity")
    t1 = s.projectile_to_transient(d1)
    t2 = s.projectile_to_transient(d2)
    ctx.lt(0, t1, "transient diameter positive")
    ctx.check(ctx.not_(t1 < d1), "transient crater is not smaller than its projectile")
    ctx.check(ctx.implies(d1 < d2, ctx.less(t1, t2)), "larger projectile, larger transient crater")
    law = _volume(ctx, s, d1, v1, rp, rt, s.target.gravity)
    ctx.check(ctx.implies(law > ctx.ln(d1) + 1e-6, ctx.all([ctx.ln(t1) < law + 1e-5, ctx.ln(t1) > law - 1e-5])), "transient diameter follows the pi-group scaling law")


@harness("P05", bounds="both models, 4 materials with strength, 2 targets; as above", prefer_exp=True, time=120)
def projectile_to_transient_strength(ctx):
    s = _proj(ctx, _STR)
    d1 = ctx.real("d1", 0.01, 1e5)
    v1 = ctx.real("v1", 100, 1e5)
    rp, rt = ctx.real("rho_p", 500, 9000), ctx.real("rho_t", 500, 9000)
    s.projectile.density = rp
    s.target.density = rt
    s.projectile.velocity = v1
    s.projectile.angle = 90.0
    ctx.near_ln(0.01, 1e5, 100, 500, 9000)
    t1 = s.projectile_to_transient(d1)
    ctx.check(ctx.not_(t1 < d1), "transient crater is not smaller than its projectile")
    law = _volume(ctx, s, d1, v1, rp, rt, s.target.gravity)
    ctx.check(ctx.implies(law > ctx.ln(d1) + 1e-6, ctx.all([ctx.ln(t1) < law + 1e-5, ctx.ln(t1) > law - 1e-5])), "transient diameter follows the pi-group scaling law")


@harness("P05", bounds="both models, 3 strengthless and 2 strength materials, 2 targets; transient diameter [1 m, 1000 km]; default asteroid impact velocity", prefer_exp=True, time=120, stubs="root_scalar")
def transient_to_projectile(ctx):
    s = _proj(ctx, _GRAV + ["Soft Rock", "Dry Soil"])
    t = ctx.real("t", 1, 1e6)
    p = s.transient_to_projectile(t)
    ctx.lt(0, p, "projectile diameter positive")
    back = s.projectile_to_transient(p)
    ctx.close(back, t, "projectile_to_transient undoes transient_to_projectile", rel=1e-5, abs_=1e-5)
    ctx.check(ctx.not_(p > t * (1 + 1e-9)), "projectile is not larger than its transient crater")


@harness("P05", bounds="any non-positive diameter down to -1e6, NaN and infinities; 4 conversions of both models")
def rejects_bad_diameters(ctx):
    s = _scaling(ctx, ctx.choice("model", ["montecarlo", "ctem"]))
    kind = ctx.choice("kind", ["nonpositive", "nan", "inf", "none", "text"])
    d = {"nan": math.nan, "inf": math.inf, "none": None, "text": "big"}.get(kind)
    if kind == "nonpositive":
        d = ctx.real("d", -1e6, 0)
    f = ctx.choice("f", [s.final_to_transient, s.transient_to_final, s.projectile_to_transient, s.transient_to_projectile])
    o = ctx.call(f, d, raises=(ValueError, TypeError))
    ctx.check(not o.ok, "a diameter that is not a positive finite number is rejected")


@harness("P05", bounds="material constants K1 [0.01, 20], mu [0.33, 0.67], Ybar [0, 1e9] symbolic", prefer_exp=True)
def material_constants(ctx):
    import numpy as np

    k, mu, y = ctx.real("K1", 0.01, 20), ctx.real("mu", 0.33, 0.67), ctx.real("Ybar", 0, 1e9)
    model = ctx.choice("model", ["montecarlo", "ctem"])
    s = _scaling(ctx, model, material=ctx.choice("material", ["Soft Rock", "Sand", None]), K1=k, mu=mu, Ybar=y)
    ctx.close(s.K1, k, "given K1 overrides the catalogue")
    ctx.close(s.mu, mu, "given mu overrides the catalogue")
    ctx.close(s.Ybar, y, "given strength overrides the catalogue")
