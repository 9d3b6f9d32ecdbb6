"""P12: populating draws for every part of the surface its own share of craters, once."""
import numpy as np

from sx.ctx import harness


def _surface(ctx, areas):
    from cratermaker.components.surface import Surface

    arr = ctx.arr(areas)

    class S(Surface):
        face_area = property(lambda self: arr)
        face_size = property(lambda self: self._fs)
        area = property(lambda self: self._total)
        n_face = property(lambda self: len(areas))

        def get_random_location_on_face(self, face_index, **kw):
            self.located.append([int(i) for i in np.atleast_1d(face_index)])
            n = len(self.located[-1])
            lon = [self.next_loc(i) for i in self.located[-1]]
            return np.array([x[0] for x in lon]), np.array([x[1] for x in lon])

        def next_loc(self, i):
            self.count += 1
            return (float(i), float(self.count))

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

    S.__abstractmethods__ = frozenset()
    s = object.__new__(S)
    total = areas[0]
    for a in areas[1:]:
        total = total + a
    for k in ("_face_bin_indices", "_face_bin_argmin", "_face_bin_argmax", "_face_bin_area"):
        object.__setattr__(s, k, None)
    object.__setattr__(s, "_fs", ctx.np.sqrt(arr))
    object.__setattr__(s, "_total", total)
    object.__setattr__(s, "located", [])
    object.__setattr__(s, "count", 0)
    object.__setattr__(s, "_uxds", {})
    return s


def _areas(ctx, n, span=64):
    a = [ctx.real(f"area{i}", 1e2, 1e9) for i in range(n)]
    for i in range(1, n):
        ctx.assume(ctx.all([a[i] <= span * a[0], a[0] <= span * a[i]]))
    return a


def _bins_ok(ctx, s, a):
    bins = [[int(i) for i in b] for b in s.face_bin_indices]
    flat = sorted(i for b in bins for i in b)
    ctx.check(flat == list(range(len(a))), "every face is in exactly one bin")
    ctx.check(all(bins), "no bin is empty")
    lens = {len(bins), len(s.face_bin_area), len(s.face_bin_min_areas), len(s.face_bin_max_areas), len(s.face_bin_min_sizes), len(s.face_bin_max_sizes)}
    ctx.check(len(lens) == 1, "one area and size range per bin")
    for k, b in enumerate(bins):
        lo, hi = a[b[0]], a[b[0]]
        tot = 0.0
        for i in b:
            lo, hi = ctx.ite(a[i] < lo, a[i], lo), ctx.ite(a[i] > hi, a[i], hi)
            tot = tot + a[i]
        ctx.check(hi <= lo * 2 * (1 + 1e-9), "faces of a bin are within a factor of 2 in area")
        ctx.close(s.face_bin_area[k], tot, "the area of a bin is the sum of its faces")
        ctx.close(s.face_bin_min_areas[k], lo, "smallest area of the bin")
        ctx.close(s.face_bin_max_areas[k], hi, "largest area of the bin")
        ctx.close(s.face_bin_min_sizes[k] ** 2, lo, "smallest size of the bin")
        ctx.close(s.face_bin_max_sizes[k] ** 2, hi, "largest size of the bin")
    return bins


@harness("P12", bounds="1-3 faces (thorough 4) of any areas within a factor 64 (three faces: 7, thorough 16), equal and power-of-two ratios included", time=100, shard=("n", 3))
def bins(ctx):
    n = ctx.choice("n", [1, 2, 3] if ctx.tier == "quick" else [1, 2, 3, 4])
    a = _areas(ctx, n, 64 if n < 3 else 7 if ctx.tier == "quick" else 16)
    s = _surface(ctx, a)
    _bins_ok(ctx, s, a)


@harness("P12", bounds="equal areas, and areas in exact ratios 2, 4, 8", time=30)
def exact_ratios(ctx):
    a = ctx.real("a", 1.0, 1e9)
    k = ctx.choice("k", [(1,), (1, 1), (1, 1, 1), (1, 2), (2, 1), (1, 4), (1, 2, 4), (1, 1, 8)])
    # the rounding of an exact power of two leaves the faces on either side of a bin boundary
    areas = [a * x for x in k]
    s = _surface(ctx, areas)
    _bins_ok(ctx, s, areas)


def _sim(ctx, s, gen, per_bin, prod):
    from cratermaker.core.simulation import Simulation

    class Common:
        pass

    class Maker:
        def __init__(self, sim):
            self.sim = sim

        def maker(self, **kw):
            c = Rec(kw)
            self.sim.made.append(c)
            return c

    class Rec:
        def __init__(self, kw):
            self.kw = kw
            self.time = kw["time"]

    class Sim(Simulation):
        surface = property(lambda self: s)
        production = property(lambda self: prod)
        common_args = property(lambda self: Common())
        Crater = property(lambda self: Maker(self))
        do_quasimc = property(lambda self: False)
        smallest_crater = property(lambda self: self.lim[0])
        largest_crater = property(lambda self: self.lim[1])
        smallest_projectile = property(lambda self: self.lim[0])
        largest_projectile = property(lambda self: self.lim[1])
        rng = property(lambda self: self._r)

        def _get_diameter_limit(self, limit, crater_diameter=None, projectile_diameter=None):
            return crater_diameter / 16 if crater_diameter is not None else projectile_diameter * 16

        def emplace(self, craters=None, **kw):
            self.emplaced_calls.append(list(craters))
            return list(craters)

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

    sim = object.__new__(Sim)
    for k, v in {"made": [], "emplaced_calls": [], "_r": ctx.rng(), "_time": None, "_interval": 0, "_user_defined": set()}.items():
        object.__setattr__(sim, k, v)
    return sim


@harness("P12", bounds="2 faces of any areas within a factor 3, none or 2+1 (thorough 0-2) craters per bin of any sizes and times; crater and projectile production; span given as age, times or N(D)", time=150, stubs="production.sample, Crater.maker, emplace and the random location recorded; the size limit of a projectile is proportional to that of its crater; root_scalar", shard=("case", 6))
def populate(ctx):
    from cratermaker.components.production import Production

    gen, how = ctx.choice("case", [(g, h) for g in ("crater", "projectile") for h in ("age", "times", "N_D")])
    a = _areas(ctx, 2, 3)
    s = _surface(ctx, a)
    counts = ctx.choice("counts", [(0, 0), (2, 1)] if ctx.tier == "quick" else [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2)])
    real = Production.maker("powerlaw", rng_seed=1, generator_type=gen)
    cls = type(real)
    calls = []

    class Prod(cls):
        def sample(self, **kw):
            k = counts[len(calls)] if len(calls) < len(counts) else 0
            lo, hi = kw["diameter_range"]
            ds = [ctx.real(f"d{len(calls)}_{i}", 0, 1e6) for i in range(k)]
            ts = [ctx.real(f"t{len(calls)}_{i}", 0, 4000) for i in range(k)]
            for d in ds:
                ctx.assume(ctx.all([d >= lo, d <= hi]))
            calls.append((kw, ds, ts))
            return ctx.arr(ds) if ds else np.array([]), ctx.arr(ts) if ts else np.array([])

    real.__class__ = Prod
    real.diameter_range = (1.0, 1e6)
    sim = _sim(ctx, s, gen, counts, real)
    lim = (ctx.real("dmin", 1e1, 1e5), 1e6)
    object.__setattr__(sim, "lim", lim)
    t0, t1 = ctx.real("t0", 10, 4000), ctx.real("t1", 0, 3000)
    ctx.assume(t1 + 5 <= t0)
    total = a[0] + a[1]
    end = t1 if how == "times" else 0.0
    kw = {"age": lambda: {"age": t0}, "times": lambda: {"time_start": t0, "time_end": t1}, "N_D": lambda: {"N_D": (1.0, real.function(diameter=1000.0, time_start=t0, validate_inputs=False) * 1e12)}}[how]()
    out = sim.populate(**kw)

    bins = [[int(i) for i in b] for b in s.face_bin_indices]
    ctx.check(len(calls) == len(bins), "every bin is sampled once")
    ctx.check(real.N_conversion_factor == 1e12 and real.D_conversion_factor == 1e3, "default units")
    for (c, ds, ts), b in zip(calls, bins):
        area = sum((a[i] for i in b[1:]), a[b[0]])
        ctx.close(c["area"], area, "a bin is sampled over its own area")
        for k, t in (("", t0), ("_end", end)):
            if c.get("diameter_number" + k) is not None:
                d, n = c["diameter_number" + k]
                want = real.function(diameter=d, time_start=t, validate_inputs=False) * area
            else:
                n, want = c["age" if k == "" and c.get("age") is not None else "time_start" if k == "" else "time_end"], t
            ctx.check(abs(n - want) <= 1e-6 * abs(want) + 1e-12, "a bin gets its share of the number of craters" if k == "" else "a bin ends at its share of the number at the end")
        lo, hi = c["diameter_range"]
        m = a[b[0]]
        for i in b:
            m = ctx.ite(a[i] < m, a[i], m)
        size = ctx.np.sqrt(m) / (16 if gen == "projectile" else 1)
        want = ctx.ite(size > lim[0], size, lim[0])
        ctx.close(lo, want, "craters down to the smallest resolved by the bin, not below the limit", rel=1e-6)
        ctx.close(hi, lim[1], "craters up to the largest")
    n_all = sum(len(ds) for c, ds, ts in calls)
    ctx.check(len(sim.made) == n_all, "one crater for each sampled size")
    if n_all == 0:
        ctx.check(not sim.emplaced_calls and list(out) == [], "nothing to emplace")
        return
    ctx.check(len(sim.emplaced_calls) == 1, "emplaced once")
    em = sim.emplaced_calls[0]
    ctx.check(len(em) == n_all and {id(c) for c in em} == {id(c) for c in sim.made}, "every crater is emplaced exactly once")
    ctx.check(all(bool(x is y) for x, y in zip(out, em)) and len(out) == n_all, "the emplaced craters are returned")
    for x, y in zip(em[:-1], em[1:]):
        ctx.check(x.time >= y.time, "emplaced from the oldest")
    want = [(d, t, bins[k]) for k, (c, ds, ts) in enumerate(calls) for d, t in zip(ds, ts)]
    key = "projectile_diameter" if gen == "projectile" else "diameter"
    for c, (d, t, b) in zip(sorted(sim.made, key=lambda c: c.kw["location"][1]), want):
        ctx.check(key in c.kw and len([k for k in c.kw if "diameter" in k or "radius" in k]) == 1, "the size is of the type produced")
        ctx.close(c.kw[key], d, "the sampled size", abs_=1e-9)
        ctx.close(c.kw["time"], t, "with its own time", abs_=1e-9)
        ctx.check(int(c.kw["location"][0]) in b, "on a face of its bin")
    for entry in sim._r.log:
        if entry[0] == "choice":
            faces, p = [int(i) for i in entry[1]], entry[2]
            if p is None:
                ctx.check(len(faces) == 1, "faces weighted by area")
                continue
            tot = sum((a[i] for i in faces[1:]), a[faces[0]])
            for i, q in zip(faces, p):
                ctx.close(q, a[i] / tot, "faces weighted by area", rel=1e-9)
