"""P07: the production function is a cumulative number: non-negative, decreasing with size, growing and additive in time, and invertible."""
from sx.ctx import harness


def _prod(ctx, which=None):
    from cratermaker.components.production import Production

    which = which or ctx.choice("model", ["powerlaw", "Moon", "Mars"])
    if which == "powerlaw":
        return Production.maker("powerlaw", rng_seed=1)
    return Production.maker("neukum", version=which, rng_seed=1)


RATIOS = [1.0005, 1.01, 1.1, 2.0, 10.0, 300.0]


@harness("P07", bounds="power law, Moon and Mars; any diameter from 1 mm to 10000 km against one larger by each of 4 (6 in thorough) ratios from 1.0005 to 300", prefer_exp=True, time=150, shard=("model", 3))
def decreasing_in_size(ctx):
    p = _prod(ctx)
    k = ctx.choice("ratio", RATIOS if ctx.tier == "thorough" else [1.0005, 1.1, 10.0, 300.0])
    d = ctx.real("d", 1e-3, 1e7)
    n1 = p.csfd(d)
    n2 = p.csfd(d * k)
    ctx.lt(0, n1, "cumulative number positive")
    ctx.check(ctx.less(n2, n1), "fewer craters larger than a larger diameter")


@harness("P07", bounds="power law, Moon and Mars; one of three diameters; any times 0 <= t0 <= t1 <= t2 <= 4500 My", time=100)
def additive_in_time(ctx):
    p = _prod(ctx)
    d = ctx.choice("d", [0.5, 1000.0, 2.0e6])
    t0, t1, t2 = (ctx.real(f"t{i}", 0, 4500) for i in range(3))
    ctx.assume(ctx.all([t0 <= t1, t1 <= t2]))
    a = p.function(diameter=d, time_start=t2, time_end=t1)
    b = p.function(diameter=d, time_start=t1, time_end=t0)
    c = p.function(diameter=d, time_start=t2, time_end=t0)
    scale = p.csfd(d)
    ctx.close((a + b) / scale, c / scale, "numbers of two consecutive intervals add up", rel=1e-9, abs_=1e-15)
    ctx.check(a >= 0, "number of craters of an interval is not negative")
    ctx.check(ctx.implies(t2 > t1, c > b), "a longer interval produces more craters")
    ctx.close(p.function(diameter=d, time_start=t1, time_end=t1) / scale, 0.0, "an empty interval produces nothing")
    e = p.function(diameter=d, time_start=t2)
    f = p.function(diameter=d, time_start=t2, time_end=0.0)
    ctx.close(e / scale, f / scale, "the default end of the interval is the present")
    g = p.function(diameter=d, age=t2)
    ctx.close(g / scale, f / scale, "an age is an interval that ends at present")


@harness("P07", bounds="power law, Moon and Mars; any two diameters of a list of 5, any intervals of 0-4500 My", time=100)
def separable(ctx):
    p = _prod(ctx)
    d = ctx.choice("d", [0.5, 20.0, 1000.0, 5e4, 2e6])
    t0, t1 = ctx.real("t0", 0, 4500), ctx.real("t1", 0, 4500)
    ctx.assume(t0 <= t1)
    n = p.function(diameter=d, time_start=t1, time_end=t0)
    n1 = p.function(diameter=1000.0, time_start=t1, time_end=t0)
    ctx.close(p.chronology(time_start=t1, time_end=t0) * 1e6, n1 * 1e6, "the chronology function is the number of 1 km craters", rel=1e-9, abs_=1e-15)
    ctx.close(n / p.csfd(d), n1 / p.csfd(1000.0), "the shape of the size distribution does not depend on time", rel=1e-9, abs_=1e-15)


@harness("P07", bounds="power law, Moon and Mars; diameters of a list of 4, any age of 0.01-4499 My; the bracketing root finder returns a root inside its bracket", time=100, stubs="root_scalar", prefer_exp=True)
def age_inverts(ctx):
    p = _prod(ctx)
    d = ctx.choice("d", [0.5, 1000.0, 3e5, 2e6])
    t = ctx.real("t", 0.01, 4499)
    n = p.function(diameter=d, time_start=t)
    a = p.age_from_D_N(diameter=d, cumulative_number_density=n)
    ctx.close(a, t, "age of a number of craters produces that number", rel=1e-4)


@harness("P07", bounds="power law, Moon and Mars; any number density and any interval of 0-4500 My, 2 ways to give the interval; the bracketing root finder returns a root inside its bracket", time=100, stubs="root_scalar", prefer_exp=True)
def diameter_inverts(ctx):
    p = _prod(ctx)
    how = ctx.choice("how", ["start", "interval"])
    t0, t1 = ctx.real("t0", 0, 4000), ctx.real("t1", 1, 4500)
    ctx.assume(t0 + 0.5 <= t1)
    d = ctx.choice("d", [0.5, 1000.0, 3e5])
    kw = {"start": {"time_start": t1}, "interval": {"time_start": t1, "time_end": t0}}[how]
    n = p.function(diameter=d, **kw)
    back = p.D_from_N_age(cumulative_number_density=n, **kw)
    ctx.lt(0, back, "positive diameter")
    if ctx.sym:
        n2 = p.function(diameter=back, **kw)
        ctx.close(n2 / n, 1.0, "the diameter of a number of craters produces that number", rel=1e-6)
    else:
        ctx.close(back, d, "the diameter of a number of craters produces that number", rel=1e-4)


@harness("P07", bounds="power law with any N1 (0, 1], any slope [-6, -1] or its opposite; any diameter and age; diameter and number lists", time=80, stubs="root_scalar", prefer_exp=True)
def power_law_parameters(ctx):
    from cratermaker.components.production import Production

    n1, s = ctx.real("n1", 1e-12, 1), ctx.real("s", 1, 6)
    flip = ctx.choice("sign", [1, -1])
    p = Production.maker("powerlaw", N1_coef=n1, slope=flip * s, rng_seed=1)
    ctx.close(p.N1_coef, n1, "given coefficient used")
    ctx.close(p.slope, -s, "given slope used, always decreasing")
    t = ctx.real("t", 0.1, 4500)
    d = ctx.real("d", 0.01, 1e6)
    n = p.function(diameter=d, time_start=t)
    ctx.close(ctx.ln(n), ctx.ln(n1) + ctx.ln(t) - s * ctx.ln(d), "number follows the power law", rel=0, abs_=1e-6)
    bad = ctx.real("bad", -10, 0, hi_open=True)
    o = ctx.call(Production.maker, "powerlaw", N1_coef=bad, rng_seed=1, raises=(ValueError,))
    ctx.check(not o.ok, "negative coefficient rejected")


@harness("P07", bounds="power law, Moon and Mars; lists of 2 diameters and 2 times, any times", time=80)
def arrays_agree_with_scalars(ctx):
    p = _prod(ctx)
    ds = ctx.choice("ds", [[0.5, 1000.0], [5e4, 2e6], [100.0, 100.0]])
    ts = [ctx.real(f"t{i}", 0, 4500) for i in range(2)]
    import numpy as np

    D = np.array(ds)
    grid = p.function(diameter=D, time_start=ctx.arr(ts))
    ctx.check(tuple(grid.shape) == (2, 2), "one number per diameter and time")
    col = p.function(diameter=D, time_start=ts[0])
    for i in range(2):
        ctx.close(col[i] / p.csfd(ds[i]), p.function(diameter=ds[i], time_start=ts[0]) / p.csfd(ds[i]), "a list of diameters gives what each gives alone", rel=1e-9, abs_=1e-15)
        for j in range(2):
            ctx.close(grid[i][j] / p.csfd(ds[i]), p.function(diameter=ds[i], time_start=ts[j]) / p.csfd(ds[i]), "lists give what each pair gives alone", rel=1e-9, abs_=1e-15)


@harness("P07", bounds="power law, Moon and Mars; any negative diameter, number, reversed interval, time beyond the validity of the model", time=60)
def rejects(ctx):
    p = _prod(ctx)
    kind = ctx.choice("kind", ["diameter", "reversed", "number", "too old", "array reversed", "array diameter", "text"])
    bad = ctx.real("bad", -1e6, 0, hi_open=True)
    t0, t1 = ctx.real("t0", 0, 4500), ctx.real("t1", 0, 4500)
    ctx.assume(t1 < t0)
    if kind == "too old" and p.valid_time[1] is None:
        return
    E = (ValueError, TypeError)
    import numpy as np

    o = {
        "diameter": lambda: ctx.call(p.function, diameter=bad, time_start=t0, raises=E),
        "array diameter": lambda: ctx.call(p.function, diameter=ctx.arr([10.0, bad]), time_start=t0, raises=E),
        "reversed": lambda: ctx.call(p.function, diameter=100.0, time_start=t1, time_end=t0, raises=E),
        "array reversed": lambda: ctx.call(p.function, diameter=100.0, time_start=ctx.arr([t0, t1]), time_end=ctx.arr([t1, t0]), raises=E),
        "number": lambda: ctx.call(p.age_from_D_N, diameter=100.0, cumulative_number_density=bad, raises=E),
        "too old": lambda: ctx.call(p.function, diameter=100.0, time_start=t0 + 4500.001, raises=E),
        "text": lambda: ctx.call(p.function, diameter=100.0, time_start="old", raises=E),
    }[kind]()
    ctx.check(not o.ok, f"{kind}: rejected")


@harness("P07", bounds="every combination of model name, version (any case) and 6 targets", time=40)
def model_choice(ctx):
    from cratermaker.components.production import Production

    target = ctx.choice("target", ["Moon", "Mars", "Mercury", "Earth", "Ceres", None])
    model = ctx.choice("model", [None, "neukum", "powerlaw", "Neukum"])
    version = ctx.choice("version", [None, "Moon", "mars", "Projectile", "projectile"])
    if model == "powerlaw" and version is not None:
        return
    kw = {"version": version} if version else {}
    p = Production.maker(model, target=target, rng_seed=1, **kw)
    if model == "powerlaw":
        ctx.check(type(p).__name__.lower().startswith("powerlaw"), "the model asked for")
        return
    eff = target or (version.title() if version and version.title() in ("Moon", "Mars") else "Moon")
    if eff == "Ceres":
        ctx.check(p.generator_type == "crater" and not hasattr(p, "version"), "bodies outside the inner solar system get the power law")
        return
    if version and version.title() == "Projectile":
        want = "Projectile"
    else:
        want = eff if eff in ("Moon", "Mars") else "Projectile"
    ctx.check(p.version == want, "the version is that of the target, or projectiles if asked for")
    ctx.check(p.generator_type == ("projectile" if want == "Projectile" else "crater"), "craters or projectiles as the version says")


@harness("P07", bounds="projectile production: any diameter 1 m - 1 km against one larger by the ratio of the integration bins", prefer_exp=True, time=100, thorough_only=True, max_paths=60)
def projectile_decreasing(ctx):
    p = _prod(ctx, "Projectile")
    d = ctx.real("d", 1e8, 9e8)
    import math

    ctx.check(ctx.not_(p.csfd(d) < p.csfd(d * math.sqrt(2.0) ** 2)), "fewer projectiles larger than a larger diameter")
