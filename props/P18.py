"""P18: every crater given is emplaced once, overlapping ones in the order given, and what lies between them is degraded once."""
from sx.ctx import harness
from props.P15 import _scratch, _quiet, _surface


class Region:
    """A stand-in for the part of the surface extracted around a crater."""

    def __init__(self, faces, nodes):
        self.face_indices, self.node_indices = faces, nodes
        self.n_face, self.n_node = len(faces), len(nodes)


class Site:
    """A morphology on a surface whose regions are whatever the history chooses."""

    def __init__(self, ctx, n, overlap, emplaceable, subpixel=True, counting=True):
        from cratermaker.components.morphology import Morphology
        from cratermaker.components.morphology.basicmoon import BasicMoonMorphology

        self.ctx, self.n = ctx, n
        self.root, _ = _scratch(ctx)
        self.surface = _surface(self.root, "cells")
        m = self.m = Morphology.maker("basicmoon", surface=self.surface, simdir=self.root, ask_overwrite=False, do_subpixel_degradation=subpixel, do_counting=counting, scaling="ctem", rng_seed=1)
        self.overlap, self.emplaceable = overlap, emplaceable
        self.log, self.asked = [], []
        ctx.patch(BasicMoonMorphology, "rmax", lambda s, crater, *a, **k: 5.0 * crater.radius)
        ctx.patch(type(self.surface), "extract_region", lambda s, location, region_radius, *a, **k: self.region(location, region_radius))
        ctx.patch(BasicMoonMorphology, "form_crater", lambda s, crater, **k: self.log.append(("form", self.index(crater.location))))
        ctx.patch(BasicMoonMorphology, "compute_subpixel_degradation", lambda s, time_start, time_end, **k: self.log.append(("between", time_start, time_end)))
        ctx.patch(BasicMoonMorphology, "apply_subpixel_degradation", lambda s, **k: self.log.append(("apply",)))
        ctx.patch(type(m.counting), "tally", lambda s, *a, **k: self.log.append(("tally",)))

    def index(self, location):
        return int(round(float(location[0]))) // 3

    def region(self, location, radius):
        i = self.index(location)
        if not self.emplaceable[i]:
            return None
        if radius < 2e4:  # the crater itself; its ejecta reach further
            return Region([i], [i])
        faces, nodes = [i], [i]
        for j in range(self.n):
            kind = self.overlap.get((min(i, j), max(i, j)))
            cell = 100 + 10 * min(i, j) + max(i, j)
            if kind == "faces":
                faces.append(cell)
            elif kind == "nodes":
                nodes.append(cell)
        return Region(faces, nodes)

    def crater(self, i, time=None, plain=False):
        from cratermaker.components.crater import Crater
        from cratermaker.components.morphology.basicmoon import BasicMoonCrater

        kw = {"diameter": 1e4, "location": (3.0 * i, 10.0), "time": time, "rng_seed": 5}
        return Crater.maker(scaling="ctem", **kw) if plain else BasicMoonCrater.maker(morphology=self.m, **kw)


PAIRS = {n: [(i, j) for i in range(n) for j in range(i + 1, n)] for n in range(6)}


def _queue(ctx, n, counting=True, given="one list"):
    kinds = [None, "faces", "nodes"] if given == "one list" else [None, "faces"]
    overlap = {p: ctx.choice(f"overlap{p[0]}{p[1]}", kinds) for p in PAIRS[n]}
    # at most one crater too small for the mesh
    small = ctx.choice("too small", [None, *range(n)])
    return Site(ctx, n, overlap, [i != small for i in range(n)], counting=counting), small


def _formed(ctx, site, small, order, since=0):
    formed = [e[1] for e in site.log[since:] if e[0] == "form"]
    want = [i for i in order if i != small]
    ctx.check(sorted(formed) == sorted(want), "every crater large enough is formed exactly once, and no other")
    pos = {i: k for k, i in enumerate(formed)}
    for k, i in enumerate(want):
        for j in want[k + 1 :]:
            if site.overlap.get((min(i, j), max(i, j))):
                ctx.check(pos[i] < pos[j], "of two craters that overlap, the one given first is formed first")


def _history(ctx, n):
    batch = ctx.choice("given", ["one list", "a tuple", "one by one", "plain craters"])
    site, small = _queue(ctx, n, given=batch)
    craters = [site.crater(i, plain=batch == "plain craters") for i in range(n)]
    order = list(range(n))
    if batch == "one by one":
        for i in order:
            since = len(site.log)
            r = site.m.emplace(craters[i])
            _formed(ctx, site, small, [i], since)
            ctx.check(len(r) == 1 and r[0] is craters[i], "the crater emplaced is returned")
    else:
        given = tuple(craters) if batch == "a tuple" else list(craters)
        r = site.m.emplace(given)
        _formed(ctx, site, small, order)
        ctx.check(len(given) == n and all(a is b for a, b in zip(given, craters)), "the craters given stay as they were")
        ctx.check([site.index(c.location) for c in r] == order, "the craters emplaced are returned in order")
    ctx.check(site.log[-1] == ("tally",) and ("apply",) in site.log[-2:], "at the end the degradation left is applied and the craters are counted")
    ctx.check(site.m._queue_manager.is_empty, "nothing is left in the queue")
    since = len(site.log)
    again = site.m.emplace(site.crater(0))
    _formed(ctx, site, small, [0], since)
    ctx.check(len(again) == 1, "later craters do not emplace the earlier ones again")


@harness("P18", bounds="up to 3 craters, each pair apart or sharing a face or a node, one or none too small for the mesh; given as a list, a tuple, one by one or as plain craters", time=70, stubs="regions: any overlaps; forming a crater, degradation and tally are recorded", max_paths=4000, shard=("n", 3))
def queue(ctx):
    _history(ctx, ctx.choice("n", [1, 2, 3]))


@harness("P18", bounds="4 craters given as a list, each pair apart or sharing a face or a node, one or none too small", time=800, stubs="as queue", max_paths=20000, thorough_only=True, shard=("overlap01", 3))
def queue_of_four(ctx):
    site, small = _queue(ctx, 4)
    site.m.emplace([site.crater(i) for i in range(4)])
    _formed(ctx, site, small, range(4))
    ctx.check(site.m._queue_manager.is_empty, "nothing is left in the queue")


@harness("P18", bounds="3 craters with any times between 0 and 4500 million years, oldest first, or without a time; each pair apart or overlapping; degradation on or off", time=70, stubs="as queue", max_paths=4000)
def between(ctx):
    n = 3
    overlap = {p: ctx.choice(f"overlap{p[0]}{p[1]}", [None, "faces"]) for p in PAIRS[n]}
    on = ctx.choice("degradation", [True, False])
    timed = [ctx.choice(f"timed{i}", [True, False]) for i in range(n)]
    times = [ctx.real(f"t{i}", 0, 4500) if timed[i] else None for i in range(n)]
    known = [t for t in times if t is not None]
    for a, b in zip(known, known[1:]):
        ctx.assume(a >= b)
    site = Site(ctx, n, overlap, [True] * n, subpixel=on, counting=False)
    site.m.emplace([site.crater(i, times[i]) for i in range(n)])
    _formed(ctx, site, None, range(n))
    spans = [(e[1], e[2]) for e in site.log if e[0] == "between"]
    if not on:
        ctx.check(not spans and ("apply",) not in site.log, "no degradation when it is switched off")
        return
    for a, b in spans:
        ctx.check(a > b, "time runs forward")
        ctx.check(ctx.all([a <= known[0], b >= known[-1]]), "only the time between the craters is degraded")
    for k, (a, b) in enumerate(spans):
        for c, d in spans[k + 1 :]:
            ctx.check(ctx.any([d >= a, b >= c]), "no time is degraded twice")
    if len(known) == n and not any(overlap.values()):
        total = sum((a - b for a, b in spans), 0.0)
        ctx.close(total, times[0] - times[-1], "the time between craters emplaced together is degraded")
    ctx.check(site.log[-1] == ("apply",), "the degradation left is applied at the end")


@harness("P18", bounds="3 timed craters in any order, none overlapping", time=30, stubs="as queue", max_paths=200)
def any_order(ctx):
    times = [ctx.real(f"t{i}", 0, 4500) for i in range(3)]
    site = Site(ctx, 3, {}, [True] * 3, counting=False)
    site.m.emplace([site.crater(i, times[i]) for i in range(3)])
    _formed(ctx, site, None, range(3))
    spans = [(e[1], e[2]) for e in site.log if e[0] == "between"]
    lo, hi = ctx.np.minimum(ctx.np.minimum(times[0], times[1]), times[2]), ctx.np.maximum(ctx.np.maximum(times[0], times[1]), times[2])
    for a, b in spans:
        ctx.check(a > b, "time runs forward")
        ctx.check(ctx.all([a <= hi, b >= lo]), "only the time between the craters is degraded")
    ctx.close(sum((a - b for a, b in spans), 0.0), hi - lo, "the time between craters emplaced together is degraded")


@harness("P18", bounds="3 to 5 craters of which two or three have the same parameters, at any positions of the list", time=40, stubs="as queue", max_paths=200)
def twins(ctx):
    n = ctx.choice("n", [3, 4, 5])
    twin = sorted({ctx.choice("a", [0, 1]), n - 1, ctx.choice("b", [1, 2])})
    place = [0 if i in twin else 1 + i for i in range(n)]
    site = Site(ctx, 8, {}, [True] * 8)
    given = [site.crater(i, 5.0) for i in place]
    site.m.emplace(given)
    ctx.check(sorted(e[1] for e in site.log if e[0] == "form") == sorted(place), "craters with the same parameters are each formed once")
    ctx.check(site.m._queue_manager.is_empty, "nothing is left in the queue")


@harness("P18", bounds="queues of 4 craters, each pair apart or sharing a face or a node", time=60, stubs="what each crater affects: any faces and nodes", max_paths=1500, shard=("overlap01", 3))
def batches(ctx):
    """The batches the queue hands out: the craters in order, none overlapping another of its batch."""
    from cratermaker.components.crater import Crater
    from cratermaker.components.morphology import Morphology

    class Queued(Crater):
        def __init__(self, i):
            object.__setattr__(self, "i", i)

        def remove_complex_data(self):
            pass

    n = 4
    overlap = {p: ctx.choice(f"overlap{p[0]}{p[1]}", [None, "faces", "nodes"]) for p in PAIRS[n]}
    cells = {k: [{i} | {100 + 10 * a + b for (a, b), how in overlap.items() if i in (a, b) and how == k} for i in range(n)] for k in ("nodes", "faces")}
    q = Morphology.CraterQueueManager(lambda c: (cells["nodes"][c.i], cells["faces"][c.i]))
    craters = [Queued(i) for i in range(n)]
    for c in craters:
        q.push(c)
    out = []
    while not q.is_empty:
        batch = q.peek_next_batch()
        ctx.check(len(batch) > 0, "a queue that is not empty has a next batch")
        if not batch:
            return
        ids = [c.i for c in batch]
        ctx.check(not any(overlap.get((a, b)) or overlap.get((b, a)) for a in ids for b in ids if a != b), "no two craters of a batch overlap")
        out += ids
        q.pop_batch(batch)
    ctx.check(out == list(range(n)), "batches hand out each crater once, in order")
    ctx.check(not ctx.call(q.push, "crater", raises=TypeError).ok, "only craters can be queued")


@harness("P18", bounds="9 to 12 craters, one overlapping pair of any position", time=40, stubs="as queue", max_paths=200)
def many(ctx):
    n = ctx.choice("n", [9, 10, 11, 12])
    k = ctx.choice("pair", [(0, 1), (0, n - 1), (n - 2, n - 1), None])
    site = Site(ctx, n, {k: "faces"} if k else {}, [True] * n)
    site.m.emplace([site.crater(i) for i in range(n)])
    _formed(ctx, site, None, range(n))
    ctx.check(site.log.count(("tally",)) >= 1 and site.log[-1] == ("tally",), "the craters are counted at the end")
    ctx.check(("apply",) in site.log[-2:], "the degradation left is applied at the end")


@harness("P18", bounds="an empty list or tuple, a crater, something else", time=15, stubs="as queue")
def edge(ctx):
    site = Site(ctx, 1, {}, [True])
    k = ctx.choice("given", ["empty list", "empty tuple", "text", "number"])
    r = ctx.call(site.m.emplace, {"empty list": [], "empty tuple": (), "text": "crater", "number": 3}[k], raises=(ValueError, TypeError))
    if k.startswith("empty"):
        ctx.check(r.ok and len(r.value) == 0, "no craters: nothing is emplaced")
    else:
        ctx.check(not r.ok, "what is not a crater is refused")
    ctx.check(not any(e[0] == "form" for e in site.log), "nothing is formed")
    # a quantity in place of a list: one crater from its parameters
    got = site.m.emplace(diameter=1e4, location=(0.0, 10.0))
    ctx.check(len(got) == 1 and [e for e in site.log if e[0] == "form"] == [("form", 0)], "one crater from its parameters")
