"""P08: sampling of a production function: number, range and ages of the drawn craters."""
from sx import shims
from sx.ctx import harness


def _prod(ctx, models=("powerlaw", "Moon", "Mars")):
    from cratermaker.components.production import Production

    which = ctx.choice("model", models)
    if which == "powerlaw":
        p = Production.maker("powerlaw", rng_seed=1)
    else:
        p = Production.maker("neukum", version=which, rng_seed=1)
    rng = ctx.rng(pois_max=1)
    ctx.patch(p, "_rng", rng)
    return p, rng


def _poisson(rng):
    return [e for e in rng.log if e[0] == "poisson"]


@harness("P08", bounds="power law, Moon and Mars; any interval of 0-4499 My and any area, 3 diameter ranges, 3 ways to give the interval and the area; no craters drawn", time=100, stubs="size table of 50 points reduced to 4")
def expected_number(ctx):
    p, rng = _prod(ctx)
    rng.pois_max = 0
    ctx.patch(shims.NP_HOOKS, "linspace_max", 4)
    d0, d1 = ctx.choice("range", [(10.0, 1e4), (1e3, 1e6), (0.5, 2.0)])
    t0, t1, area = ctx.real("t0", 0, 4499), ctx.real("t1", 0.01, 4499), ctx.real("area", 1e-3, 1e14)
    ctx.assume(t0 + 0.01 <= t1)
    how = ctx.choice("how", ["age", "start", "interval", "no area", "own range"])
    kw = {
        "age": {"age": t1, "area": area, "diameter_range": (d0, d1)},
        "start": {"time_start": t1, "area": area, "diameter_range": [d0, d1]},
        "interval": {"time_start": t1, "time_end": t0, "area": area, "diameter_range": (d0, d1)},
        "no area": {"time_start": t1, "time_end": t0, "diameter_range": (d0, d1)},
        "own range": {"time_start": t1, "time_end": t0, "area": area},
    }[how]
    if how == "own range":
        p.diameter_range = (d0, d1)
    d, t = p.sample(**kw)
    ctx.check(len(d) == 0 and len(t) == 0, "no crater drawn, none returned")
    pois = _poisson(rng)
    ctx.check(len(pois) == 1, "one Poisson number drawn")
    want = p.function(diameter=d0, time_start=t1, time_end=t0 if how in ("interval", "no area", "own range") else 0.0)
    scale = p.csfd(d0)
    ctx.close(pois[0][1] / scale / (area if how != "no area" else 1.0), want / scale, "expected number is that of the smallest diameter over the area and interval", rel=1e-6, abs_=1e-12)


@harness("P08", bounds="power law, Moon and Mars; 2 diameter ranges, any interval and area, one crater drawn, every value of the draw", time=100, stubs="size table of 50 points reduced to 4", prefer_exp=True)
def one_crater(ctx):
    p, rng = _prod(ctx)
    ctx.patch(shims.NP_HOOKS, "linspace_max", 4)
    d0, d1 = ctx.choice("range", [(10.0, 1e4), (1e3, 1e6)])
    t0, t1 = ctx.real("t0", 0, 4400), ctx.real("t1", 0.01, 4499)
    ctx.assume(t0 + 1.0 <= t1)
    d, t = p.sample(time_start=t1, time_end=t0, area=1e6, diameter_range=(d0, d1), compute_time=False)
    if len(d) == 0:
        return
    ctx.check(len(d) == 1 and len(t) == 0, "one crater drawn, one returned, no time unless asked for")
    ctx.check((d[0] >= d0 * (1 - 1e-6)) & (d[0] <= d1 * (1 + 1e-6)), "diameter within the range")


GRID = 5


@harness("P08", bounds="power law, Moon and Mars; any interval of at least 1 My within 0-4499 My, 1-2 diameters of a list of 2, every value of the draws, a time grid of 5 points", time=150, stubs="time grid of 1000 points reduced to 5", shard=("model", 3))
def times(ctx):
    p, rng = _prod(ctx)
    ctx.patch(shims.NP_HOOKS, "linspace_max", GRID)
    t0, t1 = ctx.real("t0", 0, 4400), ctx.real("t1", 0.01, 4499)
    ctx.assume(t0 + 1.0 <= t1)
    ds = ctx.choice("d", [[1000.0], [100.0, 5e4]])
    import numpy as np

    t = p.compute_time(diameters=np.array(ds), time_start=t1, time_end=t0)
    ctx.check(len(t) == len(ds), "one time per crater")
    w = (t1 - t0) / ((GRID if ctx.sym else 1000) - 1)
    for x in t:
        ctx.check((x >= t0 - 1e-9) & (x <= t1 + 1e-9), "time within the interval")
    if len(ds) == 2:
        ctx.check(t[0] >= t[1], "sorted from the oldest")
    else:
        u = rng.drawn[0]
        c0, c1 = p.chronology(time_start=t0), p.chronology(time_start=t1)
        tot = (c1 - c0) * 1e9
        # the fraction of the craters of the interval younger than the drawn time is the uniform draw, to a cell of the grid
        lo = p.chronology(time_start=ctx.np.maximum(t[0] - w, t0)) - c0
        hi = p.chronology(time_start=ctx.np.minimum(t[0] + w, t1)) - c0
        lo, hi = lo * 1e9, hi * 1e9
        e = 1e-9 * tot
        ctx.check(ctx.any([ctx.all([lo <= u * tot + e, u * tot <= hi + e]), ctx.all([lo <= (1 - u) * tot + e, (1 - u) * tot <= hi + e])]), "times are distributed like the craters produced")


@harness("P08", bounds="power law, Moon and Mars; any numbers N at start and end for one of 2 diameters each, any area, 3 units of N and 2 of D; the root finder returns a root inside its bracket", time=100, stubs="root_scalar", prefer_exp=True, shard=("model", 3))
def number_gives_age(ctx):
    p, rng = _prod(ctx)
    rng.pois_max = 0
    how = ctx.choice("how", ["diameter_number", "N_D", "diameter_number_end", "N_D_end", "time and number_end"])
    ta, tb = ctx.real("ta", 1.0, 4400), ctx.real("tb", 0.0, 4400)
    ctx.assume(tb + 0.5 <= ta)
    area = ctx.choice("area", [1.0, 1e10])
    d, d2 = ctx.choice("D", [(1000.0, 1000.0), (1000.0, 500.0), (2e4, 1e3)])
    na, nb = p.function(diameter=d, time_start=ta), p.function(diameter=d2, time_start=tb)
    if how.startswith("N_D"):
        p.D_conversion_factor, p.N_conversion_factor = ctx.choice("units", [(1.0, 1.0), (1000.0, 1e6), (1000.0, 1e12)])
    D, N = p.D_conversion_factor, p.N_conversion_factor
    kw = {
        "diameter_number": {"diameter_number": (d, na * area)},
        "N_D": {"N_D": (d / D, na * N)},
        "diameter_number_end": {"diameter_number": (d, na * area), "diameter_number_end": (d2, nb * area)},
        "N_D_end": {"N_D": (d / D, na * N), "N_D_end": (d2 / D, nb * N)},
        "time and number_end": {"time_start": ta, "diameter_number_end": (d2, nb * area)},
    }[how]
    out = ctx.call(p._validate_sample_args, area=area, diameter_range=(10.0, 1e4), **kw)
    ctx.check(out.ok, "a number of craters is accepted as an age")
    if not out.ok:
        return
    ctx.close(out.value["time_start"], ta, "the age at the start is that of the number of craters", rel=1e-3)
    ctx.close(out.value["time_end"], tb if how.endswith("end") else 0.0, "the age at the end is that of the number of craters", rel=1e-3, abs_=1e-3)


@harness("P08", bounds="power law, Moon and Mars; all ways to give contradictory, missing, reversed or out-of-range arguments, any values", time=80)
def rejects(ctx):
    p, rng = _prod(ctx)
    t0, t1 = ctx.real("t0", 0, 4000), ctx.real("t1", 0, 4000)
    neg, a = ctx.real("neg", -1e9, 0, hi_open=True), ctx.real("a", 0, 1e9)
    ctx.assume(t0 < t1)
    R = {"diameter_range": (10.0, 1e4)}
    bad = {
        "no time": {},
        "time and number": {"time_start": t1, "diameter_number": (1e3, 1.0), **R},
        "time and N_D": {"time_start": t1, "N_D": (1.0, 1.0), **R},
        "age and N_D": {"age": t1, "N_D": (1.0, 1.0), **R},
        "two ends": {"time_start": t1, "time_end": t0, "diameter_number_end": (1e3, 0.0), **R},
        "two ends N_D": {"time_start": t1, "time_end": t0, "N_D_end": (1.0, 0.0), **R},
        "reversed": {"time_start": t0, "time_end": t1, **R},
        "negative area": {"time_start": t1, "area": neg, **R},
        "range reversed": {"time_start": t1, "diameter_range": (10.0 + a * 2 + 1, 10.0 + a)},
        "range zero": {"time_start": t1, "diameter_range": (neg, 100.0)},
        "range of one": {"time_start": t1, "diameter_range": (10.0,)},
        "number of one": {"diameter_number": (1e3,), **R},
        "negative number": {"diameter_number": (1e3, neg), **R},
        "negative diameter": {"diameter_number": (neg, 1.0), **R},
        "list of times": {"time_start": [t1, t1], **R},
        "compute_time": {"time_start": t1, "compute_time": "yes", **R},
    }
    k = ctx.choice("kind", sorted(bad))
    o = ctx.call(p.sample, raises=(ValueError, TypeError), **bad[k])
    ctx.check(not o.ok, f"{k}: rejected")
    ctx.check(not rng.drawn, "nothing is drawn for a rejected request")
