"""P11: a run covers its time span exactly once, in consecutive intervals, and keeps its clocks."""
from sx.ctx import harness


class _Surf:
    def __init__(self, area):
        self.area = area


class _Count:
    _emplaced = None


def _sim(ctx, model, area):
    from cratermaker.components.production import Production
    from cratermaker.core.simulation import Simulation

    class Sim(Simulation):
        def populate(self, **kw):
            self.log.append(("populate", dict(kw)))
            object.__setattr__(self, "_is_new", False)
            return []

        def save(self, **kw):
            self.log.append(("save", {"interval": self.interval, "time": self.time, "elapsed_time": self.elapsed_time}))

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

        @property
        def surface(self):
            return self._s

        @property
        def production(self):
            return self._p

        @property
        def counting(self):
            return self._c

    s = object.__new__(Sim)
    p = Production.maker("powerlaw", rng_seed=1) if model == "powerlaw" else Production.maker("neukum", version=model, rng_seed=1)
    p.diameter_range = (10.0, 1e4)
    for k, v in {"log": [], "_s": _Surf(area), "_p": p, "_c": _Count(), "_time": None, "_interval": None, "_elapsed_time": None, "_elapsed_n1": None, "_is_new": True, "_user_defined": set(), "_config_readonly": True}.items():
        object.__setattr__(s, k, v)
    return s, p


def _span(ctx, p, kw, area):
    """Start and end of a populate call, as chronology (number of 1 km craters) so that both conventions compare."""
    f = p.csfd(1000.0)

    def n1(t):
        return p.function(diameter=1000.0, time_start=t, validate_inputs=False)

    out = []
    for a, b in (("time_start", "diameter_number"), ("time_end", "diameter_number_end")):
        if kw.get(a) is not None:
            out.append(n1(kw[a]))
        else:
            d, n = kw[b]
            out.append(n / area * f / p.csfd(d))
    return out


def _verify(ctx, s, p, area, t_from, t_to, nint, first=True, whole=None):
    n1 = lambda t: p.function(diameter=1000.0, time_start=t, validate_inputs=False)
    pops = [kw for k, kw in s.log if k == "populate"]
    spans = [_span(ctx, p, kw, area) for kw in pops]
    tot = n1(t_from if whole is None else whole) - n1(t_to)
    e = 1e-6

    def same(a, b, label):
        ctx.check(abs(a - b) <= e * tot + 1e-30, label)

    span_t = (t_from if whole is None else whole) - t_to

    def same_end(kw, k, t, label):
        if kw.get(k) is not None:
            ctx.check(abs(kw[k] - t) <= e * span_t, label)
        else:
            same(spans[0 if k == "time_start" else -1][k == "time_end"], n1(t), label)

    if pops:
        same_end(pops[0], "time_start", t_from, "the first interval starts where the simulation is")
        same_end(pops[-1], "time_end", t_to, "the last interval ends where the run ends")
    for i, (a, b) in enumerate(zip(pops[:-1], pops[1:])):
        label = "each interval starts where the previous one ended"
        if a.get("time_end") is not None and b.get("time_start") is not None:
            ctx.check(abs(a["time_end"] - b["time_start"]) <= e * span_t, label)
        else:
            same(spans[i][1], spans[i + 1][0], label)
    for a in spans:
        ctx.check(a[0] >= a[1], "every interval goes forward in time")
        ctx.check(a[1] >= -e * tot, "no interval ends in the future")
    ctx.check(len(spans) >= 1, "the time span is populated")
    ctx.close(s.time, t_to, "the clock ends at the end of the run", rel=1e-4, abs_=1e-3)
    saves = [kw for k, kw in s.log if k == "save"]
    ctx.check(len(saves) == len(pops) + (1 if first else 0), "the initial state and every interval are saved")
    if nint is not None:
        ctx.check(len(pops) == nint, "as many intervals as requested")
    iv = [x["interval"] for x in saves]
    ctx.check(all(b == a + 1 for a, b in zip(iv[:-1], iv[1:])), "saved intervals are numbered consecutively")
    for a, b in zip(saves[:-1], saves[1:]):
        ctx.check(b["time"] <= a["time"], "saved times go forward")
    return spans


@harness("P11", bounds="1-3 equal number intervals (thorough 1-4), power law and Moon, any start and end, given as age, times or N(D) in 2 units, 2 areas; the root finder returns a root inside its bracket", time=150, stubs="root_scalar; populate and save recorded", prefer_exp=True, shard=("n", 3))
def number_intervals(ctx):
    n = ctx.choice("n", [1, 2, 3] if ctx.tier == "quick" else [1, 2, 3, 4])
    area = ctx.choice("area", [1e9, 3.7e13])
    s, p = _sim(ctx, ctx.choice("model", ["powerlaw", "Moon"]), area)
    how = ctx.choice("how", ["age", "times", "N_D", "N_D_end"])
    a, b = ctx.real("a", 10, 4400), ctx.real("b", 0, 4000)
    ctx.assume(b + 5 <= a)
    to = b if how in ("times", "N_D_end") else 0.0
    if how.startswith("N_D"):
        p.D_conversion_factor, p.N_conversion_factor = ctx.choice("units", [(1000.0, 1e12), (1.0, 1.0)])
    D, N = p.D_conversion_factor, p.N_conversion_factor
    kw = {
        "age": lambda: {"age": a},
        "times": lambda: {"time_start": a, "time_end": b},
        "N_D": lambda: {"N_D": (1e4 / D, p.function(diameter=1e4, time_start=a) * N)},
        "N_D_end": lambda: {"N_D": (1e4 / D, p.function(diameter=1e4, time_start=a) * N), "N_D_end": (1e4 / D, p.function(diameter=1e4, time_start=b) * N)},
    }[how]()
    s.run(ninterval=n, **kw)
    spans = _verify(ctx, s, p, area, a, to, n)
    for x in spans[1:]:
        ctx.check(abs((x[0] - x[1]) - (spans[0][0] - spans[0][1])) <= 1e-6 * (spans[0][0] - spans[0][1]), "equal numbers in every interval")
    ctx.close(s.elapsed_time, a - to, "elapsed time is the time simulated", rel=1e-4, abs_=1e-3)
    ctx.close(s.elapsed_n1 / p.N_conversion_factor * 1e6, (p.function(diameter=1000.0, time_start=a) - p.function(diameter=1000.0, time_start=to, validate_inputs=False)) * 1e6, "elapsed N(1) is the number produced", rel=1e-4, abs_=1e-9)


@harness("P11", bounds="any start, end and interval with at most 3 intervals (thorough 5), dividing the span or not, power law and Moon, given as times or N(D); the root finder returns a root inside its bracket", time=150, stubs="root_scalar; populate and save recorded", prefer_exp=True, shard=("how", 3))
def time_intervals(ctx):
    area = 1e12
    s, p = _sim(ctx, ctx.choice("model", ["powerlaw", "Moon"]), area)
    how = ctx.choice("how", ["age", "times", "N_D"])
    a, b, dt = ctx.real("a", 10, 4400), ctx.real("b", 0, 4000), ctx.real("dt", 1, 4000)
    ctx.assume(b + 5 <= a)
    to = b if how == "times" else 0.0
    ctx.assume(ctx.all([dt <= (a - to) * 0.999999, (a - to) <= (3 if ctx.tier == 'quick' else 5) * dt]))
    kw = {"age": lambda: {"age": a}, "times": lambda: {"time_start": a, "time_end": b}, "N_D": lambda: {"N_D": (10.0, p.function(diameter=1e4, time_start=a) * p.N_conversion_factor)}}[how]()
    s.run(time_interval=dt, **kw)
    _verify(ctx, s, p, area, a, to, None)
    ctx.close(s.elapsed_time, a - to, "elapsed time is the time simulated", rel=1e-4, abs_=1e-3)
    saves = [kw for k, kw in s.log if k == "save"]
    for i in range(len(saves) - 2):
        ctx.close(saves[i]["time"] - saves[i + 1]["time"], dt, "every interval but the last has the requested length", rel=1e-4, abs_=1e-3)


@harness("P11", bounds="a run continued from any current time between start and end, at most 2 time intervals (thorough 3) or 3 number intervals; power law and Moon", time=150, stubs="root_scalar; populate and save recorded", prefer_exp=True, shard=("mode", 3))
def continued(ctx):
    area = 1e12
    mode = ctx.choice("mode", ["time", "number", "single"])
    s, p = _sim(ctx, ctx.choice("model", ["powerlaw", "Moon"]), area)
    a, b, now = ctx.real("a", 10, 4400), ctx.real("b", 0, 4000), ctx.real("now", 0, 4400)
    ctx.assume(ctx.all([b + 5 <= a, now <= a, now >= b + 1]))
    object.__setattr__(s, "_time", now)
    object.__setattr__(s, "_interval", 2)
    object.__setattr__(s, "_is_new", False)
    if mode == "time":
        dt = ctx.real("dt", 1, 4000)
        ctx.assume(ctx.all([dt <= (a - b) * 0.999999, (a - b) <= (2 if ctx.tier == "quick" else 3) * dt]))
        s.run(time_start=a, time_end=b, time_interval=dt)
    else:
        s.run(time_start=a, time_end=b, ninterval=3 if mode == "number" else 1)
    pops = [kw for k, kw in s.log if k == "populate"]
    # a remainder shorter than the resolution of the interval count may be attached to the next interval
    _verify(ctx, s, p, area, now, b, None, first=False, whole=a)
    ctx.check(s.interval == 2 + len(pops), "numbering continues")
    ctx.close(s.elapsed_time, now - b, "elapsed time grows by the time simulated", rel=1e-4, abs_=1e-3)


@harness("P11", bounds="a finished run called again, and a start later than the current time; power law and Moon, any times", time=60, stubs="root_scalar; populate and save recorded", prefer_exp=True)
def finished_or_late(ctx):
    area = 1e12
    s, p = _sim(ctx, ctx.choice("model", ["powerlaw", "Moon"]), area)
    a, b, now = ctx.real("a", 10, 4400), ctx.real("b", 0, 4000), ctx.real("now", 0, 4400)
    ctx.assume(b + 5 <= a)
    late = ctx.choice("late", [False, True])
    mode = ctx.choice("mode", [{"ninterval": 2}, {"ninterval": 1}, {"time_interval": 4.0}, {"time_interval": 3.0}])
    if "time_interval" in mode:
        ctx.assume(a - b <= 10)
    object.__setattr__(s, "_is_new", False)
    if late:
        ctx.assume(now >= a + 1)
        object.__setattr__(s, "_time", now)
        o = ctx.call(s.run, time_start=a, time_end=b, raises=(RuntimeError,), **mode)
        ctx.check(not o.ok and not s.log, "a start later than the current time is refused")
        return
    object.__setattr__(s, "_time", b)
    object.__setattr__(s, "_interval", 5)
    s.run(time_start=a, time_end=b, **mode)
    ctx.check(not [1 for k, kw in s.log if k == "populate"], "a finished run is not repeated")
    ctx.check(s.interval == 5, "its number is kept")
    ctx.close(s.time, b, "its time is kept")


@harness("P11", bounds="every contradictory or incomplete way to give the span and the intervals; any values", time=60, stubs="root_scalar; populate and save recorded")
def rejects(ctx):
    s, p = _sim(ctx, "powerlaw", 1e12)
    a, neg = ctx.real("a", 10, 4000), ctx.real("neg", -1e3, 0)
    bad = {
        "nothing": {},
        "age and start": {"age": a, "time_start": a},
        "age and end": {"age": a, "time_end": 1.0},
        "age and N_D": {"age": a, "N_D": (1.0, 1.0)},
        "start and N_D": {"time_start": a, "N_D": (1.0, 1.0)},
        "age and number": {"age": a, "diameter_number": (1e3, 1.0)},
        "only end": {"time_end": 1.0},
        "only N_D_end": {"N_D_end": (1.0, 1.0)},
        "N_D of one": {"N_D": (1.0,)},
        "both intervals": {"age": a, "ninterval": 2, "time_interval": 1.0},
        "no interval": {"age": a, "ninterval": 0},
        "half interval": {"age": a, "ninterval": 1.5},
        "negative interval": {"age": a, "time_interval": neg},
        "long interval": {"age": a, "time_interval": a * 1.5},
        "reversed": {"time_start": a, "time_end": a * 2},
        "list": {"time_start": [a, a]},
    }
    k = ctx.choice("kind", sorted(bad))
    o = ctx.call(s.run, raises=(ValueError, TypeError), **bad[k])
    ctx.check(not o.ok, f"{k}: rejected")
    ctx.check(not s.log, "nothing is simulated or saved")
