"""P09: random draws stay inside the documented support of their distribution, for every value of the underlying generator."""
import math

from sx.ctx import harness


@harness("P09", bounds="1-3 locations, every value of the uniform draws", time=40)
def locations(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    n = ctx.choice("n", [1, 2, 3])
    rng = ctx.rng()
    out = mc.get_random_location(size=n, rng=rng)
    ctx.check(len(out) == n, "as many locations as asked for")
    for i in range(n):
        lon, lat = out["lon"][i], out["lat"][i]
        ctx.check((lon >= -180 - 1e-9) & (lon <= 180 + 1e-9), "longitude in [-180, 180]")
        ctx.check((lat >= -90 - 1e-9) & (lat <= 90 + 1e-9), "latitude in [-90, 90]")


@harness("P09", bounds="two independent draws of one location: every pair of uniform values", time=40)
def location_is_area_uniform(ctx):
    """The draw of the latitude is uniform in its sine, that of the longitude uniform: equal areas, equal probability."""
    from cratermaker.utils import montecarlo_utils as mc

    rng = ctx.rng()
    out = mc.get_random_location(size=1, rng=rng)
    draws = [d for d in rng.drawn]
    if len(draws) != 2:
        return
    lon, lat = out["lon"][0], out["lat"][0]
    s = ctx.np.sin(ctx.np.deg2rad(lat))
    u = [lon / 360 + 0.5, s / 2 + 0.5]
    x, y = draws[0], draws[1]

    def lin(a, b):
        return ctx.any([abs(a - b) < 1e-6, abs(a - (1 - b)) < 1e-6])

    ctx.check(ctx.any([ctx.all([lin(u[0], x), lin(u[1], y)]), ctx.all([lin(u[0], y), lin(u[1], x)])]), "longitude and sine of latitude are uniform")


@harness("P09", bounds="1-3 angles / directions, every value of the draws", time=40)
def angles(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    n = ctx.choice("n", [1, 2, 3])
    rng = ctx.rng()
    a = mc.get_random_impact_angle(size=n, rng=rng)
    u = list(rng.drawn)
    ctx.check(len(a) == n, "as many angles as asked for")
    for i in range(n):
        ctx.check((a[i] >= 0) & (a[i] <= 90 + 1e-9), "impact angle in [0, 90]")
        s = ctx.np.sin(ctx.np.deg2rad(a[i]))
        ctx.check(ctx.any([abs(s * s - u[i]) < 1e-6, abs(s * s - (1 - u[i])) < 1e-6]), "squared sine of the impact angle is uniform (most likely angle 45 degrees)")
    d = mc.get_random_impact_direction(size=n, rng=rng)
    for i in range(n):
        ctx.check((d[i] >= 0) & (d[i] <= 360), "direction in [0, 360]")


@harness("P09", bounds="one velocity, any mean velocity (0, 1e5] above the escape velocity (0, 5e4]; any normal draws within 6 sigma", time=60)
def velocity_above_escape(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    vm, ve = ctx.real("vmean", 1, 1e5), ctx.real("vesc", 1, 5e4)
    ctx.assume(vm > ve)
    v = mc.get_random_velocity(vm, vescape=ve, rng=ctx.rng())
    ctx.check(len(v) == 1, "one velocity")
    ctx.le(ve, v[0], "impact velocity is at least the escape velocity")


@harness("P09", bounds="one or two velocities (three in thorough), mean below, close to or equal to the escape velocity (4 pairs of values); motion along one axis, any normal draw within 6 sigma; rejection loop up to 3 rounds", time=60, max_paths=300, stubs="the draws of two of the three velocity components are zero")
def velocity_below_escape(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    vm, ve = ctx.choice("vv", [(900.0, 1000.0), (2000.0, 2000.0), (10.0, 5000.0), (2380.0, 2380.5)])
    n = ctx.choice("n", [1, 2] if ctx.tier == "quick" else [1, 2, 3])
    rng = ctx.rng()
    rng.only = lambda k: k % 3 == 0
    rng.max_draws, rng.max_calls = n + 2, 9
    v = mc.get_random_velocity(vm, vescape=ve, size=n, rng=rng)
    ctx.check(len(v) == n, "as many velocities as asked for")
    for x in v:
        ctx.le(x, ve, "velocity truncated at the escape velocity")
        ctx.le(0, x, "velocity not negative")


@harness("P09", bounds="1-2 velocities with no escape velocity", time=60)
def velocity_maxwell(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    vm = ctx.real("vmean", 1, 1e5)
    n = ctx.choice("n", [1, 2])
    rng = ctx.rng()
    v = mc.get_random_velocity(vm, size=n, rng=rng)
    z = rng.drawn
    ctx.check(len(v) == n, "as many velocities as asked for")
    if len(z) != 3 * n or len(rng.normals) != 3 * n:
        return
    tot = sum([v[i] * v[i] for i in range(n)], 0.0)
    ctx.close(tot, sum([x * x for x in z], 0.0), "speed is the norm of its components")
    for nm, loc, scale in rng.normals:
        ctx.close(loc, 0.0, "components centred on zero")
        ctx.close(scale * scale * 8, vm * vm * math.pi, "component spread gives the requested mean speed", rel=1e-6)


@harness("P09", bounds="tables of 2-3 diameters (4 in thorough) with any positive decreasing cumulative values, 1-2 samples", prefer_exp=True, time=150, max_paths=300)
def sizes(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    n = ctx.choice("n", [2, 3] if ctx.tier == "quick" else [2, 3, 4])
    k = ctx.choice("k", [1, 2])
    D = [ctx.real(f"D{i}", 1, 1e6) for i in range(n)]
    N = [ctx.real(f"N{i}", 1e-6, 1e6) for i in range(n)]
    for i in range(n - 1):
        ctx.assume(D[i] > D[i + 1])
        ctx.assume(N[i] < N[i + 1])
    order = ctx.permutation("o", n)
    d = ctx.arr([D[i] for i in order])
    c = ctx.arr([N[i] for i in order])
    c0 = [x for x in c]
    out = mc.get_random_size(d, c, size=k, rng=ctx.rng())
    ctx.check(len(out) == k, "as many sizes as asked for")
    for x in out:
        ctx.check(ctx.not_(ctx.less(x, D[-1] * (1 - 1e-6))), "sampled size is not below the smallest of the table")
        ctx.check(ctx.not_(ctx.less(D[0] * (1 + 1e-6), x)), "sampled size is not above the largest of the table")
    for a, b in zip(c, c0):
        ctx.close(a, b, "the caller's table is not modified")


@harness("P09", bounds="tables of 2-3 diameters that are non-positive, non-monotonic, mismatched or empty, any values", time=40)
def sizes_rejected(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    kind = ctx.choice("kind", ["badD", "badN", "notmono", "short", "both", "scalar"])
    a, b = ctx.real("a", 1, 1e4), ctx.real("b", 1, 1e4)
    bad = ctx.real("bad", -1e4, 0)
    D, N, kw = [100.0, 10.0, 1.0], [1.0, 2.0, 3.0], {"size": 1}
    if kind == "badD":
        D[ctx.choice("i", [0, 1, 2])] = bad
    elif kind == "badN":
        N[ctx.choice("i", [0, 1, 2])] = bad
    elif kind == "notmono":
        ctx.assume(a > b)
        N = [a, b, a + 1]
    elif kind == "short":
        D, N = D[:1], N[:1]
    elif kind == "both":
        kw = {"size": 1, "mu": 2}
    elif kind == "scalar":
        o = ctx.call(mc.get_random_size, a, b, raises=(ValueError,), rng=ctx.rng())
        ctx.check(not o.ok, "scalar: a table that is no size distribution is rejected")
        return
    o = ctx.call(mc.get_random_size, ctx.arr(D), ctx.arr(N), raises=(ValueError,), rng=ctx.rng(), **kw)
    ctx.check(not o.ok, f"{kind}: a table that is no size distribution is rejected")


@harness("P09", bounds="one triangle or quadrilateral face with fixed corners; every value of the three uniform draws; interpreted source of the compiled kernel", time=60, public=False)
def location_on_face(ctx):
    import numpy as np

    from cratermaker.utils import montecarlo_utils as mc

    nodes = np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.6, -0.48, 0.64]])
    face = ctx.choice("face", [[0, 1, 2, -1], [3, 0, 1, 2], [2, 1, 0, -1]])
    f = mc._get_one_random_location
    f = getattr(f, "py_func", f)
    u = [ctx.real(f"u{i}", 0, 1, hi_open=True) for i in range(3)]
    p = f(np.array(face), nodes[:, 0], nodes[:, 1], nodes[:, 2], ctx.arr(u))
    V = [nodes[i] for i in face if i >= 0]
    # inside the polygon's (planar or folded) triangles: a convex combination of three consecutive fan corners
    inside = []
    for j in range(1, len(V) - 1):
        M = np.array([V[0], V[j], V[j + 1]]).T
        W = np.linalg.inv(M)
        w = [sum([W[r][c] * p[c] for c in range(3)], 0.0) for r in range(3)]
        inside.append(ctx.all([x >= -1e-9 for x in w] + [abs(w[0] + w[1] + w[2] - 1) < 1e-6]))
    ctx.check(ctx.any(inside), "random location on a face lies on that face")


@harness("P09", bounds="any centre, spread and bounds; the truncated-normal sampler of scipy is assumed to respect its support", time=30)
def bounded_normal(ctx):
    import numpy as np

    from cratermaker.utils import montecarlo_utils as mc

    loc, sc = ctx.real("loc", -1e4, 1e4), ctx.real("scale", 1e-3, 1e3)
    z = ctx.real("z", 0, 1)
    seen = []

    class TN:
        def __init__(self, a, b, loc=0.0, scale=1.0):
            self.a, self.b, self.loc, self.scale = a, b, loc, scale

        def rvs(self, size=1, random_state=None, **k):
            seen.append((size, random_state))
            return ctx.arr([self.loc + self.scale * (self.a + (self.b - self.a) * z)])

    ctx.patch(mc, "truncnorm", TN)
    rng = np.random.default_rng(1)
    mode = ctx.choice("mode", ["none", "lower", "upper", "both"])
    lo, hi = ctx.real("lo", -2e4, 2e4), ctx.real("hi", -2e4, 2e4)
    ctx.assume(lo < hi)
    kw = {}
    el, eh = loc - sc, loc + sc
    if mode in ("lower", "both"):
        kw["lower_bound"] = lo
        el = lo
    if mode in ("upper", "both"):
        kw["upper_bound"] = hi
        eh = hi
    ctx.assume(el < eh)
    x = mc.bounded_norm(loc, sc, rng=rng, **kw)[0]
    ctx.close(x, el + (eh - el) * z, "draw spans exactly the interval between the bounds (default: one spread either side)", rel=1e-6, abs_=1e-6)
    ctx.check(seen and seen[0][1] is rng, "the generator given is the generator used")
