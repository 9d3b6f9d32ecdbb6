"""P10: quasi-Monte Carlo craters: each gets its time, in sequence, and enters the population exactly once."""
from sx import shims
from sx.ctx import harness


def _prod(ctx, models=("powerlaw", "Moon")):
    from cratermaker.components.production import Production

    which = ctx.choice("model", models)
    p = Production.maker("powerlaw", rng_seed=1) if which == "powerlaw" else Production.maker("neukum", version=which, rng_seed=1)
    ctx.patch(p, "_rng", ctx.rng())
    return p


def _truncnorm(ctx, rng):
    """Any value of the support of the truncated normal distribution."""
    from cratermaker.utils import montecarlo_utils as mc

    real = mc.truncnorm

    class TN:
        def __init__(self, a, b, loc=0.0, scale=1.0):
            self.args = (a, b, loc, scale)
            self.lo, self.hi = loc + scale * a, loc + scale * b

        def rvs(self, size=1, random_state=None, **k):
            if random_state is not rng:  # draws of the scaling model, not of the production function
                a, b, loc, scale = self.args
                return real(a, b, loc=loc, scale=scale).rvs(size, random_state=random_state, **k)
            return ctx.arr([self.lo + (self.hi - self.lo) * ctx.real("tn", 0, 1)])

    ctx.patch(mc, "truncnorm", TN)


def _crater(d, **kw):
    from cratermaker.components.crater import Crater

    return Crater.maker(diameter=d, location=(10.0, 20.0), projectile_velocity=2e4, projectile_angle=45.0, projectile_direction=0.0, rng_seed=1, **kw)


def _sizes(tier):
    one = [((), (200.0,)), ((100.0,), ()), ((100.0,), (200.0,)), ((300.0,), (200.0,)), ((300.0,), (250.0, 150.0)), ((200.0,), (250.0, 150.0)), ((100.0, 300.0), (200.0,)), ((300.0, 300.0), (200.0,)), ((300.0, 200.0), ()), ((), (250.0, 150.0)), ((200.0, 300.0), (250.0, 150.0))]
    if tier == "thorough":
        one += [((100.0, 300.0), (250.0, 150.0)), ((300.0, 300.0), (150.0, 250.0)), ((100.0, 100.0), (200.0, 200.0)), ((100.0, 200.0, 300.0), (200.0,)), ((100.0, 300.0, 300.0), (150.0, 250.0)), ((200.0, 200.0, 200.0), (200.0,))]
    return one


@harness("P10", bounds="up to 2 random and 2 quasi-Monte Carlo craters (3 and 2 in thorough) in 11 (17) combinations of diameters, with any times, any interval", time=150, max_paths=4000, shard=("sizes", 11))
def merge(ctx):
    p = _prod(ctx, ("powerlaw",))
    ctx.patch(shims.NP_HOOKS, "linspace_max", 3)
    t0, t1 = ctx.real("t0", 0, 4000), ctx.real("t1", 0, 4000)
    ctx.assume(t0 < t1)
    dr, dq = ctx.choice("sizes", _sizes(ctx.tier))
    rnd = [_crater(d, time=ctx.real(f"tr{i}", 0, 4500), name=f"r{i}") for i, d in enumerate(dr)]
    qmc = [_crater(d, time=ctx.real(f"tq{i}", 0, 4500), name=f"q{i}") for i, d in enumerate(dq)]
    ctx.patch(p, "_quasimc_craters", list(qmc))
    out = p.quasimc_merge(list(rnd), time_start=t1, time_end=t0, diameter_range=(10.0, 1e4))
    names = [c.name for c in out]

    def inside(c):
        return bool(ctx.all([c.time <= t1, c.time > t0]))

    rin, qin = [c for c in rnd if inside(c)], [c for c in qmc if inside(c)]
    for c in qmc:
        ctx.check(names.count(c.name) == (1 if c in qin else 0), "a given crater is emplaced once in its own interval and in no other")
    for c in rnd:
        ctx.check(names.count(c.name) <= (1 if c in rin else 0), "no random crater outside the interval, none twice")
        if c in rin and all(c.diameter < q.diameter for q in qin):
            ctx.check(names.count(c.name) == 1, "random craters smaller than the given ones are kept")
    ctx.check(len(out) == len(set(names)) and set(names) <= {c.name for c in rnd + qmc}, "no other craters")
    ctx.check(len(rin) - sum(1 for c in rin if c.name in names) <= len(qin), "each given crater replaces at most one random crater")
    for a, b in zip(out[:-1], out[1:]):
        ctx.check(a.time >= b.time, "sorted from the oldest")
    for c in rnd + qmc:
        for o in out:
            if o.name == c.name:
                ctx.check(ctx.all([o.diameter == c.diameter, o.time == c.time]), "craters are not changed by the merge")


@harness("P10", bounds="1-2 random craters without time, any interval of at least 1 My, every value of the draws", time=60, max_paths=400)
def merge_untimed(ctx):
    ctx.patch(shims.NP_HOOKS, "linspace_max", 3)
    p = _prod(ctx)
    t0, t1 = ctx.real("t0", 0, 4000), ctx.real("t1", 0, 4000)
    ctx.assume(t0 + 1 <= t1)
    n = ctx.choice("n", [1, 2])
    rnd = [_crater(100.0 * (i + 1), name=f"r{i}") for i in range(n)]
    ctx.patch(p, "_quasimc_craters", [])
    out = p.quasimc_merge(list(rnd), time_start=t1, time_end=t0, diameter_range=(10.0, 1e4))
    ctx.check(sorted(c.name for c in out) == [c.name for c in rnd], "every random crater kept")
    for c in out:
        ctx.check(ctx.all([c.time >= t0 - 1e-9, c.time <= t1 + 1e-9]), "it gets a time within the interval")
    for a, b in zip(out[:-1], out[1:]):
        ctx.check(a.time >= b.time, "sorted from the oldest")
    ctx.check(all(c.time is None for c in rnd), "the given craters are not changed")


@harness("P10", bounds="one crater with any production time, any N(D) at one of 2 diameters in one of 3 units, exact or uncertain; power law and Moon; the root finder returns a root inside its bracket", time=100, stubs="root_scalar", prefer_exp=True, shard=("kind", 6))
def own_time(ctx):
    p = _prod(ctx)
    kind = ctx.choice("kind", ["time", "time and sigma", "ND", "ND and sigma", "both", "nothing"])
    D, N = ctx.choice("units", [(1000.0, 1e6), (1.0, 1.0), (1000.0, 1e12)])
    p.D_conversion_factor, p.N_conversion_factor = D, N
    t = ctx.real("t", 1, 4000)
    sig = ctx.real("sig", 0.01, 30)
    d = ctx.choice("d", [1000.0, 2.0e4])
    n = p.function(diameter=d, time_start=t) * N
    kw = {
        "time": {"production_time": t},
        "time and sigma": {"production_time": (t, sig)},
        "ND": {"production_ND": (d / D, n)},
        "ND and sigma": {"production_ND": (d / D, n, n * sig / 100)},
        "both": {"production_ND": (d / D, n), "production_time": (t / 2, 0.0)},
        "nothing": {},
    }[kind]
    size = ctx.choice("size", [500.0, 5e4])
    top = ctx.choice("top", [1e3, 1e6])
    p.diameter_range = (10.0, top)
    c = _crater(size, name="x", **kw)
    p.quasimc_craters = [c]
    out = p.quasimc_craters
    if kind == "nothing":
        ctx.check(len(out) == 0, "a crater without production metadata is left out")
        ctx.close(p.diameter_range[1], top, "range unchanged")
        return
    ctx.check(len(out) == 1 and out[0].name == "x", "the crater is kept")
    ctx.check(out[0].time >= 0, "not in the future")
    if "sigma" not in kind:
        ctx.close(out[0].time, t, "the time is that of the production metadata, N(D) first", rel=1e-3)
    ctx.close(out[0].diameter, size, "size unchanged")
    ctx.check(c.time is None, "the given crater is not changed")
    ctx.close(p.diameter_range[0], 10.0, "lower limit of the random population unchanged")
    ctx.close(p.diameter_range[1], min(size, top), "random population limited to sizes below the given craters")


@harness("P10", bounds="2-3 craters in a sequence, each with any time (exact or uncertain), any N(1) or none; power law; every value of the draws", time=150, stubs="root_scalar; truncated normal draws any value within its bounds", prefer_exp=True, max_paths=1500, shard=("kinds", 7))
def sequence(ctx):
    p = _prod(ctx, ("powerlaw",))
    _truncnorm(ctx, p.rng)
    p.D_conversion_factor, p.N_conversion_factor = 1000.0, 1.0
    kinds = ctx.choice("kinds", [("t", "t"), ("t", "-"), ("t", "s"), ("s", "-"), ("n", "t"), ("t", "-", "t"), ("t", "t", "-")] + ([("t", "-", "-"), ("s", "-", "t"), ("t", "n", "s"), ("s", "s", "s")] if ctx.tier == "thorough" else []))
    cs = []
    for i, k in enumerate(kinds):
        kw = {"production_sequence": i + 1, "name": f"c{i}"}
        t = ctx.real(f"t{i}", 1, 4000)
        if k == "t":
            kw["production_time"] = (t, 0.0)
        elif k == "s":
            kw["production_time"] = (t, ctx.real(f"s{i}", 0.1, 100))
        elif k == "n":
            kw["production_ND"] = (1.0, p.function(diameter=1000.0, time_start=t))
        cs.append(_crater(100.0, **kw))
    given = list(cs)
    if ctx.choice("order", [0, 1]):
        given = given[::-1]
    o = ctx.call(p._process_quasimc_craters, given, raises=(RuntimeError,))
    if not o.ok:
        return
    out = {c.name: c.time for c in o.value}
    ctx.check(sorted(out) == [c.name for c in cs], "every crater of the sequence gets a time")
    for i in range(len(cs) - 1):
        ctx.check(out[f"c{i}"] >= out[f"c{i + 1}"] - 1e-6, "a lower sequence number is older")
    for a, b in zip(o.value[:-1], o.value[1:]):
        ctx.check(a.time >= b.time, "sorted from the oldest")
    for c in o.value:
        ctx.check(c.time >= 0, "not in the future")


@harness("P10", bounds="one crater with any N(D) or time, given at construction; 3 units; power law with any coefficient and slope, Moon", time=60, stubs="root_scalar", prefer_exp=True, shard=("model", 2))
def given_at_construction(ctx):
    from cratermaker.components.production import Production

    model = ctx.choice("model", ["powerlaw", "Moon"])
    D, N = ctx.choice("units", [(1000.0, 1e6), (1.0, 1.0), (1000.0, 1e12)])
    kind = ctx.choice("kind", ["ND", "time"])
    t = ctx.real("t", 1, 4000)
    if model == "powerlaw":
        kw = {"N1_coef": ctx.real("coef", 1e-7, 1e-5), "slope": -ctx.real("slope", 1, 4)}
        make = lambda **k: Production.maker("powerlaw", rng_seed=1, **kw, **k)
    else:
        make = lambda **k: Production.maker("neukum", version="Moon", rng_seed=1, **k)
    q = make(N_conversion_factor=N, D_conversion_factor=D)
    c = _crater(500.0, name="x", **({"production_time": (t, 0.0)} if kind == "time" else {"production_ND": (1000.0 / D, q.function(diameter=1000.0, time_start=t) * N)}))
    p = make(N_conversion_factor=N, D_conversion_factor=D, quasimc_craters=[c])
    ctx.check(len(p.quasimc_craters) == 1, "the crater given is kept")
    ctx.close(p.quasimc_craters[0].time, t, "it has the time of its production data", rel=1e-3)
