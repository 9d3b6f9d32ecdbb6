"""P16: the seed (or generator, or state) given is the only source of randomness, and it is shared."""
import pathlib
import shutil
import tempfile

import numpy as np

from sx import engine as E
from sx import shims
from sx.ctx import DrawRNG, harness


class Tape:
    """The inputs drawn by one generator; a second generator on the same tape gets the same values for the same requests."""

    def __init__(self, ctx):
        self.ctx, self.items = ctx, {}

    def reader(self):
        return Reader(self)


class Reader:
    def __init__(self, tape):
        self.tape, self.pos, self.sym = tape, 0, tape.ctx.sym

    def _next(self, key, draw):
        at = self.tape.items.setdefault(self.pos, {})
        self.pos += 1
        if key not in at:
            at[key] = draw()
        return at[key]

    def real(self, name, lo=None, hi=None, **k):
        if lo in (0, -6.0) and hi in (1, 6.0):  # away from the values for which a velocity or angle is exactly zero
            lo = 0.01
        return self._next(("real", name, lo, hi), lambda: self.tape.ctx.real(name, lo, hi, **k))

    def int(self, name, lo, hi):
        return self._next(("int", name, lo, hi), lambda: self.tape.ctx.int(name, lo, hi))

    def choice(self, name, options):
        options = list(options)
        return self._next(("choice", name, len(options)), lambda: self.tape.ctx.choice(name, options))

    def permutation(self, name, n):
        return self._next(("perm", n), lambda: self.tape.ctx.permutation(self.tape.ctx.name("perm"), n))

    def name(self, n):
        return n

    def assume(self, c):
        self.tape.ctx.assume(c)


class Seeds:
    """default_rng: an equal seed gives an equal stream; no seed gives a stream of its own."""

    def __init__(self, ctx):
        self.ctx, self.tapes, self.unseeded = ctx, {}, 0
        ctx.patch(shims.NP_HOOKS, "default_rng", self.make)
        ctx.patch(np.random, "default_rng", self.make)

    def make(self, seed=None):
        if seed is None:
            self.unseeded += 1
            return DrawRNG(self.ctx, f"unseeded{self.unseeded}")
        t = self.tapes.setdefault(int(seed), Tape(self.ctx))
        r = DrawRNG(t.reader(), f"seed{int(seed)}", pois_max=1)
        return r


def _same(ctx, a, b, what, depth=0):
    if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.ndim):
        ctx.check(len(a) == len(b), what)
        for x, y in zip(a, b):
            _same(ctx, x, y, what)
    elif isinstance(a, np.ndarray):
        _same(ctx, a.item(), b.item(), what)
    elif isinstance(a, (int, float, np.number)) or E.is_sym(a) or E.is_sym(b):
        if a is None or b is None:
            ctx.check(a is b, what)
        else:
            ctx.close(a, b, what, rel=1e-12)
    else:
        ctx.check(a == b, what)


CRATER = ["diameter", "transient_diameter", "projectile_diameter", "projectile_mass", "projectile_velocity", "projectile_angle", "projectile_direction", "projectile_density", "location", "orientation", "time", "morphology_type"]


def _do(ctx, kind, how):
    from cratermaker.components.crater import Crater
    from cratermaker.components.production import Production
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling
    from cratermaker.bindings import morphology_bindings as mb
    from cratermaker.bindings import surface_bindings as sb
    from cratermaker.components.morphology import Morphology
    from cratermaker.components.morphology.basicmoon import BasicMoonCrater
    from cratermaker.utils import montecarlo_utils as mc

    if kind == "crater":
        c = Crater.maker(projectile_diameter=1e3, scaling="ctem", **how())
        return [getattr(c, n) for n in CRATER]
    if kind == "crater from diameter":
        c = Crater.maker(diameter=5e4, scaling="ctem", **how())
        return [getattr(c, n) for n in CRATER]
    if kind in ("asteroids", "comets", "generic"):
        p = Projectile.maker(kind, **({"mean_velocity": 2e4} if kind == "generic" else {}), **how())
        q = p.new_projectile()
        return [getattr(o, n) for o in (p, q) for n in ("velocity", "angle", "direction", "density", "location")]
    if kind == "scaling":
        s = Scaling.maker("montecarlo", **how())
        return [s.K1, s.Ybar, s.mu, s.transition_nominal, s.final_to_transient(1e5)]
    if kind == "production":
        p = Production.maker("powerlaw", **how())
        return list(p.sample(time_start=3000.0, time_end=2000.0, diameter_range=(1e3, 1e5), area=1e8))
    if kind == "given craters":
        p = Production.maker("powerlaw", **how())
        k = {"projectile_velocity": 2e4, "projectile_angle": 45.0, "projectile_direction": 0.0, "location": (1.0, 2.0), "rng_seed": 3, "scaling": "ctem"}
        a = Crater.maker(diameter=1e3, production_time=(3000.0, 100.0), production_sequence=1, name="a", **k)
        b = Crater.maker(diameter=2e3, production_time=(ctx.real("t", 1000, 2900), 50.0), production_sequence=2, name="b", **k)
        return [(c.name, c.time) for c in p._process_quasimc_craters([a, b])]
    if kind == "utilities":
        g = how()
        g = g["rng"] if "rng" in g else None
        k = {"rng": g} if g is not None else {"rng_seed": 7}
        return [mc.get_random_location(**k), mc.get_random_impact_angle(**k), mc.get_random_impact_direction(**k), mc.get_random_velocity(2e4, **k), mc.bounded_norm(1.0, 0.5, **k)]
    if kind == "place on a face":
        s = _surface(ctx, how)
        return [x for i in (0, 5, 5) for x in s.get_random_location_on_face(i).tolist()[0]]
    if kind == "noise":
        s = _surface(ctx, how)
        seen = []
        ctx.patch(sb, "turbulence_noise", lambda anchor=None, seed=None, **k: seen.append((list(np.ravel(anchor)), seed)) or np.zeros(s.n_face + s.n_node))
        s.apply_noise(noise_height=10.0)
        s.extract_region((10.0, 20.0), 6e5).extract_subregion(6e5)
        return seen
    if kind == "rays":
        s = _surface(ctx, lambda: {"rng_seed": 3})
        m = Morphology.maker("basicmoon", surface=s, simdir=s.simdir, ask_overwrite=False, scaling="ctem", **how())
        c = BasicMoonCrater.maker(morphology=m, radius=1e5, location=(1.0, 2.0), rng_seed=5)
        seen = []
        ctx.patch(mb, "ray_intensity", lambda *a, seed=None, **k: seen.append(seed) or np.ones(2))
        ctx.patch(mb, "ejecta_profile", lambda *a, **k: np.ones(2))
        r, theta = np.array([2e5, 3e5]), np.array([10.0, 20.0])
        m.ray_intensity(c, r, theta)
        m.ejecta_distribution(c, r, theta)
        return seen
    raise KeyError(kind)


def _surface(ctx, how):
    """The 12-face surface with a generator of its own; its grid is made once."""
    from props.P19 import _bindings, _template

    t = _template(ctx)
    _bindings(ctx)
    from cratermaker.components.surface import Surface

    d = pathlib.Path(tempfile.mkdtemp(prefix="p16_"))
    ctx.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    (d / "surface").mkdir()
    shutil.copy(t.grid_file, d / "surface" / "grid.nc")
    return Surface.maker("icosphere", gridlevel=0, simdir=d, ask_overwrite=False, **how())


KINDS = ["crater", "crater from diameter", "asteroids", "comets", "generic", "scaling", "production", "given craters", "utilities", "place on a face", "noise", "rays"]


def _truncnorm(ctx, make):
    """Any value of the support of the truncated normal distribution, drawn from the generator given."""
    from cratermaker.utils import montecarlo_utils as mc

    class TN:
        def __init__(self, a, b, loc=0.0, scale=1.0):
            self.lo, self.hi = loc + scale * a, loc + scale * b

        def rvs(self, size=1, random_state=None, **k):
            g = make() if random_state is None else random_state
            return ctx.arr([self.lo + (self.hi - self.lo) * g.random()])

    ctx.patch(mc, "truncnorm", TN)


@harness("P16", bounds="craters, projectiles, scaling, production, given craters, the sampling utilities, places on faces, noise and rays, from a seed or from a generator; every value of the draws (uniform ones of at least 0.01, normal ones above the mean; up to 1 crater per sample)", time=50, stubs="root_scalar; truncnorm: any value of its support; equal seeds give equal streams of any values, no seed a stream of its own", max_paths=3000, prefer_exp=True, shard=("kind", 12))
def same_seed(ctx):
    kind = ctx.choice("kind", KINDS)
    by = ctx.choice("by", ["seed", "generator"])
    seeds = Seeds(ctx)
    _truncnorm(ctx, seeds.make)
    if by == "seed":
        how = lambda: {"rng_seed": 7}
    else:
        how = lambda: {"rng": seeds.make(7)}
    memo = {}

    def once(f):
        def g(name, *a, **k):
            if name not in memo:
                memo[name] = f(name, *a, **k)
            return memo[name]

        return g

    class Once:
        sym = ctx.sym
        real = staticmethod(once(ctx.real))
        choice = staticmethod(once(ctx.choice))
        patch, cleanup, plain_files = ctx.patch, ctx.cleanup, ctx.plain_files

    a = ctx.call(lambda: _do(Once, kind, how), raises=(ZeroDivisionError, ValueError))
    b = ctx.call(lambda: _do(Once, kind, how), raises=(ZeroDivisionError, ValueError))
    ctx.check(a.ok == b.ok, "the same seed gives the same result")
    if a.ok and b.ok:
        _same(ctx, a.value, b.value, "the same seed gives the same result")


def _components():
    from cratermaker.components.production import Production
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target

    return {
        "target": lambda **k: Target.maker("Moon", **k),
        "scaling": lambda **k: Scaling.maker("montecarlo", **k),
        "projectile": lambda **k: Projectile.maker("asteroids", **k),
        "production": lambda **k: Production.maker("powerlaw", **k),
        "neukum": lambda **k: Production.maker("neukum", **k),
    }


@harness("P16", bounds="a generator, a seed and a state given in any combination (valid or not), every seed value below 2**63, to each component and to the sampling utilities", time=60, stubs="default_rng: any seed value accepted is the one asked for", max_paths=2000, shard=("who", 6))
def precedence(ctx):
    from cratermaker.utils import montecarlo_utils as mc

    who = ctx.choice("who", ["target", "scaling", "projectile", "production", "neukum", "utility"])
    has = {n: ctx.choice("has " + n, ["no", "yes", "bad"]) for n in ("rng", "seed", "state")}
    asked = []

    def make(seed=None):
        if seed is not None and not E.is_sym(seed) and seed < 0:
            raise ValueError("expected non-negative integer")
        g = DrawRNG(ctx, f"g{len(asked)}")
        asked.append((seed, g))
        return g

    ctx.patch(shims.NP_HOOKS, "default_rng", make)
    ctx.patch(np.random, "default_rng", make)
    _truncnorm(ctx, make)
    given = DrawRNG(ctx, "given")
    state = np.random.PCG64(99).state
    seed = ctx.int("seed", 0, 2**63 - 1)
    kw = {}
    if has["rng"] != "no":
        kw["rng"] = given if has["rng"] == "yes" else object()
    if has["seed"] != "no":
        kw["rng_seed"] = seed if has["seed"] == "yes" else -1
    if has["state"] != "no":
        kw["rng_state"] = dict(state) if has["state"] == "yes" else {"bit_generator": "nonsense"}
    if who == "utility":
        def f():
            seen = []
            g0 = {n: getattr(DrawRNG, n) for n in ("uniform",)}
            used = lambda self, *a, **k: (seen.append(self), g0["uniform"](self, *a, **k))[1]
            ctx.patch(DrawRNG, "uniform", used)
            mc.get_random_impact_direction(**kw)
            return seen[0]

        res = ctx.call(f, raises=(ValueError, TypeError))
    else:
        maker = _components()[who]
        res = ctx.call(lambda: maker(**kw).rng, raises=(ValueError, TypeError))
    if has["rng"] == "bad":
        ctx.check(not res.ok, "what is not a generator is refused")
        return
    if has["rng"] == "yes":
        if not res.ok:  # a seed or state that is not valid may be refused though it would not be used
            ctx.check("bad" in (has["seed"], has["state"]), "a generator given is used")
            return
        ctx.check(res.value is given, "a generator given is used whatever seed or state comes with it")
        return
    if has["state"] == "bad" or (has["seed"] == "bad" and has["state"] == "no" and who != "utility"):
        ctx.check(not res.ok, "an invalid seed or state is refused")
        return
    if not res.ok:
        ctx.check(has["seed"] == "bad", "a valid seed or state is accepted")
        return
    g = res.value
    mine = [s for s, x in asked if x is g]
    ctx.check(len(mine) == 1, "the generator of a component is its own")
    if has["state"] == "yes":
        ctx.check(g.bit_generator.state["state"] == state["state"], "a state given is the state of the generator")
    elif has["seed"] == "yes":
        ctx.check(mine[0] is not None and ctx.all([mine[0] == seed]), "the generator is made from the seed given")
    elif has["seed"] == "no":
        ctx.check(mine[0] is None, "without a seed the generator is not seeded with a fixed value")


@harness("P16", bounds="simulations made with a generator, a seed (0, 7, 2**40), a state or none of them, resumed or not, models given by name or left to the default", time=90, stubs="default_rng: the seed asked for is recorded; the mesh is the level-0 icosphere", max_paths=60)
def one_generator(ctx):
    from cratermaker import Simulation

    by = ctx.choice("by", ["seed", "generator", "state", "nothing"])
    resumed = ctx.choice("resumed", [False, True])
    explicit = ctx.choice("models", [False, True])
    asked = []

    def make(seed=None):
        if seed is not None and not E.is_sym(seed) and seed < 0:
            raise ValueError("expected non-negative integer")
        g = DrawRNG(ctx, f"g{len(asked)}")
        asked.append((seed, g))
        return g

    ctx.patch(shims.NP_HOOKS, "default_rng", make)
    ctx.patch(np.random, "default_rng", make)
    ctx.plain_files()
    d = pathlib.Path(tempfile.mkdtemp(prefix="p16_"))
    ctx.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
    _truncnorm(ctx, make)
    given = DrawRNG(ctx, "given")
    state = np.random.PCG64(99).state
    seed = ctx.choice("value", [0, 7, 2**40])
    kw = {"seed": {"rng_seed": seed}, "generator": {"rng": given}, "state": {"rng_state": dict(state)}, "nothing": {}}[by]
    if resumed:
        first = Simulation(gridlevel=0, simdir=d, ask_overwrite=False, reset=True)
        last = first.rng_state
        first.save()
        first.to_config()
    models = {"production": "powerlaw", "projectile": "comets", "scaling": "ctem"} if explicit else {}
    asked.clear()
    s = Simulation(gridlevel=0, simdir=d, ask_overwrite=False, reset=not resumed, resume_old=resumed, **models, **kw)
    for n in ("target", "scaling", "production", "surface", "projectile", "morphology", "counting"):
        ctx.check(getattr(s, n).rng is s.rng, "every component draws from the generator of the simulation: " + n)
    if by == "generator":
        ctx.check(s.rng is given, "the generator given is the one used")
    mine = [q for q, x in asked if x is s.rng]
    if by == "seed":
        ctx.check(len(mine) == 1 and mine[0] is not None and mine[0] == seed, "the generator is made from the seed given")
        ctx.check(s.rng_seed == seed, "the seed given is reported")
    if by == "state":
        ctx.check(s.rng.bit_generator.state["state"] == state["state"], "the state given is the state of the generator")
    if by == "nothing" and resumed:
        ctx.check(s.rng.bit_generator.state["state"] == last["state"], "a resumed simulation carries on with the random numbers where it stopped")
    if by == "nothing" and not resumed:
        ctx.check(len(mine) == 1 and mine[0] is None, "without a seed the generator is not seeded with a fixed value")
