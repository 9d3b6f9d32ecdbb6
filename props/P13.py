"""P13: size limits mean what they say, for craters and projectiles alike."""
import math

from sx.ctx import harness


def _sim(ctx, gen, mesh, law=True, diam=None):
    from cratermaker.components.crater import Crater
    from cratermaker.components.production import Production
    from cratermaker.components.scaling import Scaling
    from cratermaker.core.simulation import Simulation

    class Rec:
        pass

    class Common:
        pass

    class Law:
        """Deterministic scaling: a crater is f(vertical velocity) times its projectile."""

        @staticmethod
        def maker(diameter=None, projectile_diameter=None, projectile_velocity=None, projectile_angle=None, projectile_vertical_velocity=None, **kw):
            if projectile_vertical_velocity is None:
                if projectile_angle is None:
                    projectile_angle = ctx.real("random_angle", 5.0, 85.0)
                if projectile_velocity is None:
                    projectile_velocity = ctx.real("random_velocity", 1e3, 1e5)
                projectile_vertical_velocity = projectile_velocity * ctx.np.sin(ctx.np.radians(projectile_angle))
            k = factor(projectile_vertical_velocity)
            r = Rec()
            if diameter is not None:
                r.diameter, r.projectile_diameter = diameter, diameter / k
            else:
                r.diameter, r.projectile_diameter = projectile_diameter * k, projectile_diameter
            r.projectile_angle, r.projectile_velocity = projectile_angle, projectile_velocity
            return r

    class Sim(Simulation):
        production = property(lambda self: self._p)
        scaling = property(lambda self: self._sc)
        common_args = property(lambda self: Common())
        Crater = property(lambda self: Law if law else Crater)

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

    def factor(vv):
        return 2 + vv / 5e3

    s = object.__new__(Sim)
    p = Production.maker("powerlaw", rng_seed=1, generator_type=gen)
    sc = Scaling.maker("ctem", target="Moon", rng_seed=1)
    for k, v in {"_p": p, "_sc": sc, "_max_crater_diameter_range": mesh, "_user_defined": set()}.items():
        object.__setattr__(s, k, v)
    if diam is not None:
        p.diameter_range = diam
    s.factor = factor
    s.law = Law
    return s, p, sc


NAMES = ["smallest_crater", "largest_crater", "smallest_projectile", "largest_projectile"]


def _extreme(ctx, s, sc, which):
    v = sc.projectile.mean_velocity
    return s.factor(v * 0.1 * math.sin(math.radians(1.0))) if which == "smallest" else s.factor(v * 10.0)


@harness("P13", bounds="one limit set, from a wide range, once or twice: any values, any mesh range, crater and projectile production", time=60, stubs="a crater is its projectile times a function of the vertical impact velocity", shard=("gen", 2))
def set_and_read(ctx):
    gen = ctx.choice("gen", ["crater", "projectile"])
    name = ctx.choice("name", NAMES)
    lo, hi = ctx.real("mesh_lo", 1, 1e4), ctx.real("mesh_hi", 1e6, 1e7)
    s, p, sc = _sim(ctx, gen, (lo, hi))
    wide = (1e-4, 1e9)
    p.diameter_range = wide
    v = ctx.real("v", 1e-2, 1e8)
    which, kind = name.split("_")
    k = _extreme(ctx, s, sc, which)
    if ctx.choice("set before", [False, True]):  # to any other value
        v0 = ctx.real("v0", 1e-2, 1e8)
        c0 = v0 if kind == "crater" else v0 * k
        ctx.assume(ctx.all([c0 > lo, c0 < hi]))
        setattr(s, name, v0)
    setattr(s, name, v)
    # in terms of craters, clipped to what the mesh can show
    c = v if kind == "crater" else v * k
    if which == "smallest":
        c = ctx.ite(c > lo, c, lo)
    else:
        c = ctx.ite(c < hi, c, hi)
    ctx.assume(ctx.all([c >= lo, c <= hi]))
    r = p.diameter_range
    want = c if gen == "crater" else c / k
    ctx.close(r[0 if which == "smallest" else 1], want, f"{gen} production, {name}: the range starts or ends at the limit", rel=1e-6)
    ctx.close(getattr(s, f"{which}_crater"), c, f"{gen} production, {name}: the crater limit read back", rel=1e-6)
    ctx.close(getattr(s, f"{which}_projectile"), c / k, f"{gen} production, {name}: the projectile limit read back", rel=1e-6)


@harness("P13", bounds="both crater or both projectile limits set in either order, any values within the mesh's; crater and projectile production", time=60, stubs="a crater is its projectile times a function of the vertical impact velocity", shard=("gen", 2))
def both(ctx):
    gen = ctx.choice("gen", ["crater", "projectile"])
    kind = ctx.choice("kind", ["crater", "projectile"])
    order = ctx.choice("order", [("smallest", "largest"), ("largest", "smallest"), ("smallest", "largest", "smallest")])
    lo, hi = 10.0, 1e6
    s, p, sc = _sim(ctx, gen, (lo, hi))
    p.diameter_range = (1e-4, 1e9)
    ks, kl = _extreme(ctx, s, sc, "smallest"), _extreme(ctx, s, sc, "largest")
    a, b = ctx.real("a", 1e-2, 1e6), ctx.real("b", 1e-2, 1e6)
    ca, cb = (a, b) if kind == "crater" else (a * ks, b * kl)
    ctx.assume(ctx.all([ca >= lo, cb <= hi, ca / ks <= cb / kl, ca <= cb]))
    for w in order:
        setattr(s, f"{w}_{kind}", a if w == "smallest" else b)
    ctx.close(getattr(s, f"smallest_{kind}"), a, "the smallest is kept", rel=1e-6)
    ctx.close(getattr(s, f"largest_{kind}"), b, "the largest is kept", rel=1e-6)
    # no impact of the produced population leaves the limits
    d = ctx.real("d", 1e-4, 1e9)
    ctx.assume(ctx.all([d >= p.diameter_range[0], d <= p.diameter_range[1]]))
    if gen == "projectile":
        vv = ctx.real("vv", 0, 1)
        v = sc.projectile.mean_velocity
        slow, fast = v * 0.1 * math.sin(math.radians(1.0)), v * 10.0
        c = d * s.factor(slow + vv * (fast - slow))
        ctx.check(ctx.all([c >= s.smallest_crater * (1 - 1e-6), c <= s.largest_crater * (1 + 1e-6)]), "every impact of the produced sizes makes a crater within the limits")
        ctx.check(ctx.all([c >= lo * (1 - 1e-6), c <= hi * (1 + 1e-6)]), "and within what the mesh can show")
    else:
        ctx.check(ctx.all([d >= lo * (1 - 1e-6), d <= hi * (1 + 1e-6)]), "every produced crater is within what the mesh can show")


@harness("P13", bounds="limits computed with the CTEM scaling of the Moon for 3 sizes; every draw of the generator", time=60)
def real_scaling(ctx):
    from cratermaker.components.crater import Crater

    limit = ctx.choice("limit", ["smallest", "largest"])
    s, p, sc = _sim(ctx, "crater", (1e-3, 1e9), law=False)
    d = ctx.choice("d", [100.0, 5e3, 1e5])
    given = ctx.choice("given", ["crater_diameter", "projectile_diameter"])
    rng = ctx.rng()

    class Common:
        def __init__(self):
            self.rng = rng
            self.scaling = sc

    type(s).common_args = property(lambda self: Common())
    got = s._get_diameter_limit(limit, **{given: d})
    v = sc.projectile.mean_velocity
    ref = Crater.maker(
        **{"diameter" if given == "crater_diameter" else "projectile_diameter": d},
        projectile_angle=1.0 if limit == "smallest" else 90.0,
        projectile_velocity=v * (0.1 if limit == "smallest" else 10.0),
        scaling=sc,
        rng=rng,
    )
    ctx.close(got, ref.projectile_diameter if given == "crater_diameter" else ref.diameter, "the limit is for the angle and velocity it names, whatever is drawn", rel=1e-6)


@harness("P13", bounds="every history of giving craters, clearing them and choosing, up to 3 steps", time=30)
def quasimc_switch(ctx):
    s, p, sc = _sim(ctx, "crater", (1.0, 1e6))
    object.__setattr__(s, "_do_quasimc", None)
    state, forced = 0, None

    class P:
        quasimc_craters = None

    s._p = P()
    for i in range(3):
        op = ctx.choice(f"op{i}", ["give", "clear", "on", "off", "auto", "look"])
        if op == "give":
            s._p.quasimc_craters, state = [object()], 1
        elif op == "clear":
            s._p.quasimc_craters, state = ctx.choice(f"how{i}", [None, []]), 0
        elif op == "look":
            s.do_quasimc
        else:
            forced = {"on": True, "off": False, "auto": None}[op]
            type(s).do_quasimc.fset(s, forced)
        ctx.check(bool(s.do_quasimc) == (bool(state) if forced is None else forced), "given craters are used unless switched off")
