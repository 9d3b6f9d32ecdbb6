"""P14: what is saved of a simulation's configuration restores it."""
import yaml

from sx import engine as E
from sx.ctx import harness


def stored(ctx, cfg, where="configuration"):
    """The configuration as it comes back from the YAML file: sequences are lists, everything else plain values."""
    if isinstance(cfg, dict):
        ctx.check(all(isinstance(k, str) for k in cfg), "configuration keys are names")
        return {k: stored(ctx, v, where) for k, v in cfg.items()}
    if isinstance(cfg, (list, tuple)):
        return [stored(ctx, v, where) for v in cfg]
    ok = cfg is None or E.is_sym(cfg) or isinstance(cfg, (str, bool, int, float))
    ctx.check(ok, "configuration values can be saved")
    if not E.is_sym(cfg) and ok:
        cfg = yaml.safe_load(yaml.safe_dump(cfg))
    return cfg


def same(ctx, a, b, names, what):
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        if isinstance(x, (str, bool)) or x is None or isinstance(y, (str, bool)) or y is None:
            ctx.check(type(x) is type(y) and x == y, f"{what} {n} is restored")
        elif isinstance(x, (tuple, list)):
            ctx.check(len(x) == len(y), f"{what} {n} is restored")
            for p, q in zip(x, y):
                ctx.close(q, p, f"{what} {n} is restored")
        else:
            ctx.close(y, x, f"{what} {n} is restored")


TARGET = ["name", "radius", "mass", "density", "material", "transition_scale_type", "gravity", "escape_velocity", "diameter", "surface_area"]


def _set(ctx, obj, name, value, later):
    if later:
        setattr(obj, name, value)
        return {}
    return {name: value}


def _target(ctx, names=("Moon", "Europa", "Custom")):
    from cratermaker.components.target import Target

    name = ctx.choice("target", names)
    which = ctx.choice("target_set", ["none", "size", "mass", "density", "material", "scale", "all"]) if name != "Custom" else "all"
    later = ctx.choice("target_later", [False, True]) if which != "none" else False
    new = {}
    if which in ("size", "all"):
        r = ctx.real("radius", 1e3, 1e8)
        new["radius"] = r
    if which in ("mass", "all"):
        new["mass"] = ctx.real("mass", 1e12, 1e27)
    if which in ("density", "all"):
        new["density"] = ctx.real("target_density", 100, 1e4)
    if which in ("material", "all"):
        new["material"] = ctx.choice("target_material", ["Sand", "Ice"])
    if which in ("scale", "all"):
        new["transition_scale_type"] = ctx.choice("scale", ["ice", "silicate"])
    if later and name != "Custom":
        t = Target.maker(name)
        for k, v in new.items():
            setattr(t, k, v)
    else:
        if "radius" in new and not later:
            new = dict(new)
            if ctx.choice("as_diameter", [False, True]):
                new["diameter"] = new.pop("radius") * 2
        t = Target.maker(name, **new)
    return t


@harness("P14", bounds="3 bodies (one unknown to the catalogue); any radius, mass, density, material and transition type, given to the maker or set later", time=60)
def target(ctx):
    from cratermaker.components.target import Target

    t = _target(ctx)
    cfg = stored(ctx, t.to_config(remove_common_args=True))
    u = Target.maker(t.component_name, **cfg)
    same(ctx, t, u, TARGET, "target")
    ctx.check(u.component_name == t.component_name, "the target is restored by name")


@harness("P14", bounds="both scaling models; any target density, K1, mu, Ybar, strength material; given to the maker or set later, Monte Carlo scaling on or off", time=90, shard=("model", 2))
def scaling(ctx):
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target

    model = ctx.choice("model", ["montecarlo", "ctem"])
    tdens = ctx.choice("target_density", [False, True])
    targ = {"density": ctx.real("td", 100, 1e4)} if tdens else {}
    t = Target.maker("Moon", **targ)
    p = Projectile.maker("asteroids", target=t, rng_seed=1)
    kw = {}
    which = ctx.choice("set", ["none", "material", "density", "K1", "mu", "Ybar", "all"])
    if which in ("material", "all"):
        kw["material"] = ctx.choice("material", ["Sand", "soft rock", "Ice"])
    if which in ("density", "all"):
        kw["density"] = ctx.real("density", 100, 1e4)
    if which in ("K1", "all"):
        kw["K1"] = ctx.real("K1", 0.01, 20)
    if which in ("mu", "all"):
        kw["mu"] = ctx.real("mu", 0.3, 0.7)
    if which in ("Ybar", "all"):
        kw["Ybar"] = ctx.real("Ybar", 0, 1e9)
    later = ctx.choice("later", [False, True])
    mc = ctx.choice("mc", [True, False]) if model == "montecarlo" else None
    if later:
        s = Scaling.maker(model, target=t, projectile=p, rng_seed=1)
        for k, v in kw.items():
            setattr(s.target if k == "density" else s, k, v)
        if mc is not None:
            s.monte_carlo_scaling = mc
    else:
        if mc is not None:
            kw["monte_carlo_scaling"] = mc
        s = Scaling.maker(model, target=t, projectile=p, rng_seed=1, **kw)
    cfg_t = stored(ctx, t.to_config(remove_common_args=True))
    cfg = stored(ctx, s.to_config(remove_common_args=True))
    t2 = Target.maker(t.component_name, **cfg_t)
    p2 = Projectile.maker("asteroids", target=t2, rng_seed=1)
    s2 = Scaling.maker(s.component_name, target=t2, projectile=p2, rng_seed=1, **cfg)
    ctx.check(type(s2) is type(s), "the scaling model is restored")
    same(ctx, s, s2, ["K1", "mu", "Ybar", "material", "monte_carlo_scaling"], "scaling")
    same(ctx, t, t2, TARGET, "target")


@harness("P14", bounds="3 populations on 3 targets; any density, velocity, angle, direction and location; sampled or not", time=60)
def projectile(ctx):
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.target import Target

    kind = ctx.choice("kind", ["asteroids", "comets", "generic"])
    t = Target.maker({"asteroids": "Mars", "comets": "Europa", "generic": "Moon"}[kind])
    sample = ctx.choice("sample", [True, False])
    kw = {"sample": sample}
    which = ctx.choice("set", ["none", "density", "all"])
    if which != "none":
        kw["density"] = ctx.real("density", 100, 9000)
    if kind == "generic":
        if sample:
            kw["mean_velocity"] = ctx.real("mean_velocity", 3e3, 1e5)
        else:
            kw["velocity"] = ctx.real("velocity", 1, 1e5)
    if which == "all" and not sample:
        kw["angle"] = ctx.real("angle", 0, 90)
        kw["direction"] = ctx.real("direction", 0, 360)
        kw["location"] = (ctx.real("lon", -179, 179), ctx.real("lat", -89, 89))
        if kind == "generic":
            kw["velocity"] = ctx.real("velocity2", 1, 1e5)
    p = Projectile.maker(kind, target=t, rng_seed=1, **kw)
    if ctx.choice("later", [False, True]):
        p.density = ctx.real("later_density", 100, 9000)
    cfg = stored(ctx, p.to_config(remove_common_args=True))
    q = Projectile.maker(p.component_name, target=t, rng_seed=1, **cfg)
    names = ["density", "sample"] + (["mean_velocity"] if sample else ["velocity", "angle", "direction", "location"])
    same(ctx, p, q, names, "projectile")
    ctx.check(type(p) is type(q), "the population is restored")


@harness("P14", bounds="power law with any slope and coefficient, Neukum with 3 versions on 3 targets; both generator types; all units", time=60)
def production(ctx):
    from cratermaker.components.production import Production
    from cratermaker.components.target import Target

    model = ctx.choice("model", ["powerlaw", "neukum"])
    t = Target.maker(ctx.choice("target", ["Moon", "Mars", "Mercury"]))
    kw = {}
    names = ["generator_type", "N_conversion_factor", "D_conversion_factor"]
    if model == "powerlaw":
        names += ["slope", "N1_coef"]
        kw["generator_type"] = ctx.choice("gen", ["crater", "projectile"])
        if ctx.choice("custom", [False, True]):
            kw["slope"] = ctx.real("slope", -6, 6)
            kw["N1_coef"] = ctx.real("N1", 0, 1)
    else:
        names += ["version", "valid_time"]
        v = ctx.choice("version", [None, "Moon", "Mars", "Projectile"])
        if v is not None:
            kw["version"] = v
    later = ctx.choice("later", [False, True])
    units = {"N_conversion_factor": ctx.choice("N", [1.0, 1e6, 1e12]), "D_conversion_factor": ctx.choice("D", [1.0, 1e3])}
    p = Production.maker(model, target=t, rng_seed=1, **kw, **({} if later else units))
    if later:
        for k, v in units.items():
            setattr(p, k, v)
        if model == "powerlaw":
            p.slope = ctx.real("later_slope", -6, -1)
    cfg = stored(ctx, p.to_config(remove_common_args=True))
    q = Production.maker(p.component_name, target=t, rng_seed=1, **cfg)
    ctx.check(type(p) is type(q), "the production model is restored")
    same(ctx, p, q, names, "production")
    d = ctx.real("d", 10, 1e6)
    if model == "powerlaw":
        ctx.close(q.csfd(d), p.csfd(d), "the restored production function is the same")


class Grid:
    """Stand-in of the surface, morphology and counting files on disk: whether a grid has been made."""

    made = False


def _env(ctx):
    """A directory for simulations, with surfaces and counting that keep no files, and (symbolically) a YAML file kept as values."""
    import os
    import tempfile

    import numpy as np

    from cratermaker.components.counting import Counting
    from cratermaker.components.surface import Surface
    from cratermaker.core import simulation as M
    from cratermaker.core.base import CratermakerBase
    from cratermaker.utils import general_utils as U

    base = tempfile.mkdtemp(dir=os.environ.get("SX_SCRATCH", "/tmp"))

    def clean():
        for d, _, fs in os.walk(base, topdown=False):
            for f in fs:
                os.unlink(os.path.join(d, f))
            os.rmdir(d)

    ctx.cleanup(clean)
    grid = Grid()

    class S(Surface):
        _component_name = "icosphere"
        face_size = property(lambda self: np.array([500.0, 800.0]))
        uxds = property(lambda self: None)

        def __init__(self, target, reset, kw):
            object.__setattr__(self, "_user_defined", set())
            CratermakerBase.__init__(self, simdir=base, ask_overwrite=False, rng_seed=1)
            object.__setattr__(self, "_target", target)
            self.kw = kw
            self.is_new = bool(reset) or not grid.made
            grid.made = True

        is_new = None

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

        def __getattr__(self, k):
            raise AttributeError(k)

        def to_config(self, **kw):
            return {k: self.kw[k] for k in ("gridlevel",) if k in self.kw}

        def save(self, **kw):
            pass

        def reset(self, **kw):
            pass

        def saved_output_files(self, **kw):
            return []

    S.__abstractmethods__ = frozenset()

    class C(Counting):
        _component_name = "depthcount"
        morphology = None

        def __init__(self, surface):
            object.__setattr__(self, "_user_defined", set())
            CratermakerBase.__init__(self, simdir=base, ask_overwrite=False, rng_seed=1)
            self.surf = surface

        surface = property(lambda self: self.surf)

        def to_config(self, **kw):
            return {}

        def save(self, **kw):
            pass

        def reset(self, **kw):
            pass

        def saved_output_files(self, **kw):
            return []

    C.__abstractmethods__ = frozenset()

    def make_surface(cls, surface=None, target=None, reset=False, **kw):
        return surface if isinstance(surface, Surface) else S(target, reset, kw)

    def make_counting(cls, counting=None, surface=None, **kw):
        return counting if isinstance(counting, Counting) else C(surface)

    ctx.patch(Surface, "maker", classmethod(make_surface))
    ctx.patch(Counting, "maker", classmethod(make_counting))
    if ctx.sym:
        files = {}

        class Yaml:
            @staticmethod
            def safe_dump(cfg, f, **kw):
                files[f.name] = stored(ctx, cfg)

            @staticmethod
            def safe_load(f):
                return stored(ctx, files[f.name])

        ctx.patch(M, "yaml", Yaml)
        ctx.patch(U, "yaml", Yaml)
    return base


MORPH = ["do_counting", "do_slope_collapse", "do_subpixel_degradation", "ejecta_truncation", "dorays"]
CLOCK = ["interval", "time", "elapsed_time", "elapsed_n1", "smallest_crater", "largest_crater", "save_actions", "rng_seed", "rng_state"]


def _same_sim(ctx, a, b, skip=()):
    for n in CLOCK:
        if n in skip:
            continue
        x, y = getattr(a, n), getattr(b, n)
        if n in ("save_actions", "rng_state", "rng_seed", "interval") or x is None or y is None:
            ctx.check((x is None) == (y is None) and (x is None or x == y), f"simulation {n} is restored")
        else:
            ctx.close(y, x, f"simulation {n} is restored")
    same(ctx, a.morphology, b.morphology, MORPH, "morphology")
    same(ctx, a.target, b.target, TARGET, "target")
    same(ctx, a.scaling, b.scaling, ["K1", "mu", "Ybar", "material", "monte_carlo_scaling", "transition_nominal"], "scaling")
    prod = ["generator_type", "N_conversion_factor", "D_conversion_factor"] + (["slope", "N1_coef"] if a.production.component_name == "powerlaw" else ["version"])
    ctx.check(a.production.component_name == b.production.component_name, "the production model is restored")
    same(ctx, a.production, b.production, prod, "production")
    ctx.check(a.projectile.component_name == b.projectile.component_name, "the projectile population is restored")
    same(ctx, a.projectile, b.projectile, ["density", "sample", "mean_velocity"], "projectile")
    ctx.check(b.surface.kw.get("gridlevel") == a.surface.kw.get("gridlevel"), "the surface is restored")
    ctx.check(not b.is_new, "a resumed simulation is not a new one")


def _evolve(ctx, s, k):
    """Some history: time passes, limits change, random numbers are drawn."""
    t = ctx.real(f"time{k}", 0, 4000)
    s.interval = k
    s.time = t
    s.elapsed_time = 4000 - t
    s.elapsed_n1 = ctx.real(f"n1_{k}", 0, 1e5)
    limits = ctx.choice(f"limits{k}", ["none", "both"])
    if limits == "both":
        lo = ctx.real(f"lo{k}", 1, 1e5)
        hi = ctx.real(f"hi{k}", 1e5, 1e7)
        s.smallest_crater = lo
        s.largest_crater = hi
    for _ in range(k):
        s.rng.random()
    s.save(skip_actions=True)


def _options(ctx):
    kind = ctx.choice("kind", ["plain", "custom target", "switches", "scaling", "production", "morphology"])
    kw = {}
    if kind == "custom target":
        from cratermaker.components.target import Target

        kw["target"] = Target.maker("Custom", radius=ctx.real("radius", 1e5, 1e8), mass=ctx.real("mass", 1e18, 1e27), material="Ice", transition_scale_type="ice", density=ctx.real("density", 500, 5000))
    elif kind == "switches":
        kw["do_counting"] = ctx.choice("do_counting", [True, False])
        kw["save_actions"] = ctx.choice("save_actions", [None, "default", [{"plot": {"show": True}}]])
    elif kind == "scaling":
        kw["scaling"] = ctx.choice("scaling", ["montecarlo", "ctem"])
        kw["material"] = "Sand"
        kw["K1"] = ctx.real("K1", 0.01, 20)
        if kw["scaling"] == "montecarlo":
            kw["monte_carlo_scaling"] = False
    elif kind == "production":
        kw["production"] = "powerlaw"
        kw["slope"] = ctx.real("slope", -6, -1)
        kw["N1_coef"] = ctx.real("N1", 0, 1)
        kw["N_conversion_factor"] = 1.0
    elif kind == "morphology":
        kw["do_slope_collapse"] = ctx.choice("collapse", [True, False])
        kw["do_subpixel_degradation"] = ctx.choice("subpixel", [True, False])
        kw["ejecta_truncation"] = ctx.real("truncation", 1, 10)
        kw["dorays"] = ctx.choice("rays", [True, False])
    return kw


@harness("P14", bounds="a simulation with any of 6 kinds of options, changed, saved and resumed twice; any times, numbers and limits", time=120, stubs="surface and counting keep no files; the YAML file keeps values as they are; 2 faces", shard=("kind", 6))
def resume(ctx):
    from cratermaker.core.simulation import Simulation

    base = _env(ctx)
    s = Simulation(simdir=base, gridlevel=4, rng_seed=7, ask_overwrite=False, **_options(ctx))
    ctx.check(s.is_new, "without saved files a simulation is new")
    _evolve(ctx, s, 1)
    s2 = Simulation(simdir=base, ask_overwrite=False)
    _same_sim(ctx, s, s2)
    _evolve(ctx, s2, 2)
    s3 = Simulation(simdir=base, ask_overwrite=False)
    _same_sim(ctx, s2, s3)


@harness("P14", bounds="a saved simulation resumed with another target, production, scaling, seed, counting or save actions", time=60, stubs="as above")
def resume_with_arguments(ctx):
    import numpy as np

    from cratermaker.components.target import Target
    from cratermaker.core.simulation import Simulation

    base = _env(ctx)
    t = Target.maker("Moon", density=ctx.real("density", 500, 5000))
    s = Simulation(simdir=base, gridlevel=4, rng_seed=7, ask_overwrite=False, target=t, do_counting=True)
    _evolve(ctx, s, 1)
    kind = ctx.choice("arg", ["target", "same target", "seed", "do_counting", "save_actions", "K1", "production", "reset"])
    if kind == "target":
        s2 = Simulation(simdir=base, ask_overwrite=False, target="Mars")
        ref = Target.maker("Mars")
        ctx.check(s2.target.name == "Mars", "an argument wins over the saved configuration")
        for n in ("radius", "mass", "transition_scale_type"):
            ctx.check(getattr(s2.target, n) == getattr(ref, n), "a different target is not given the properties of the saved one")
    elif kind == "same target":
        s2 = Simulation(simdir=base, ask_overwrite=False, target="Moon")
        _same_sim(ctx, s, s2)
    elif kind == "seed":
        seed = ctx.choice("seed", [7, 8])
        s2 = Simulation(simdir=base, ask_overwrite=False, rng_seed=seed)
        _same_sim(ctx, s, s2, skip=("rng_state", "rng_seed"))
        ctx.check(s2.rng_seed == seed, "an argument wins over the saved configuration")
        ctx.check(s2.rng_state != s.rng_state, "a seed given starts the generator anew")
    elif kind == "do_counting":
        s2 = Simulation(simdir=base, ask_overwrite=False, do_counting=False)
        ctx.check(s2.morphology.do_counting is False, "an argument wins over the saved configuration")
    elif kind == "save_actions":
        v = ctx.choice("actions", [None, [{"plot": {"show": True}}]])
        s2 = Simulation(simdir=base, ask_overwrite=False, save_actions=v)
        ctx.check(s2.save_actions == (v or []), "an argument wins over the saved configuration")
    elif kind == "K1":
        k = ctx.real("K1", 0.01, 20)
        s2 = Simulation(simdir=base, ask_overwrite=False, K1=k)
        ctx.close(s2.scaling.K1, k, "an argument wins over the saved configuration")
        ctx.close(s2.scaling.mu, s.scaling.mu, "settings not given are restored")
    elif kind == "production":
        s2 = Simulation(simdir=base, ask_overwrite=False, production="powerlaw")
        ctx.check(s2.production.component_name == "powerlaw" and s2.production.slope == -3.328, "an argument wins over the saved configuration")
    else:
        s2 = Simulation(simdir=base, ask_overwrite=False, reset=True, gridlevel=4)
        ctx.check(s2.is_new, "a reset simulation is a new one")
        ctx.check(s2.interval == 0 and s2.time is None and s2.elapsed_time == 0 and s2.elapsed_n1 == 0, "a reset simulation starts at the beginning")
