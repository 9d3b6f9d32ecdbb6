"""P15: saved files are deleted or overwritten only with consent, and only a run's own files."""
import os
import pathlib
import shutil
import tempfile

from sx.ctx import harness


def _scratch(ctx):
    base = pathlib.Path(tempfile.mkdtemp(dir=os.environ.get("SX_SCRATCH", tempfile.gettempdir())))
    keep = base / "keep"
    keep.mkdir()
    root = base / "run"
    root.mkdir()
    ctx.plain_files()
    real = {"unlink": pathlib.Path.unlink, "rmdir": pathlib.Path.rmdir, "rmtree": shutil.rmtree}
    escaped = []

    def inside(p):
        ok = str(os.path.realpath(p)).startswith(str(os.path.realpath(base)) + os.sep)
        if not ok and not str(p).startswith("/tmp/"):
            escaped.append(str(p))
        return ok

    def unlink(self, *a, **k):
        return real["unlink"](self, *a, **k) if inside(self) or str(self).startswith("/tmp/") else None

    def rmtree(p, *a, **k):
        return real["rmtree"](p, *a, **k) if inside(p) or str(p).startswith("/tmp/") else None

    ctx.patch(pathlib.Path, "unlink", unlink)
    ctx.patch(shutil, "rmtree", rmtree)
    ctx.cleanup(lambda: real["rmtree"](base, ignore_errors=True))
    return root, escaped


def _write(p, text="x"):
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(text)
    return p


class Prompts:
    """Any answer to each question; the oracle reads what was answered."""

    def __init__(self, ctx, module, maxlen=2, forbid=False):
        self.ctx, self.answers, self.asked = ctx, [], []
        ctx.patch(module, "input", self._input)
        self.maxlen = maxlen

    def _input(self, text=""):
        a = self.ctx.text("answer", self.maxlen)
        self.asked.append(text)
        self.answers.append(a)
        return a

    def kind(self, i):
        """'y', 'a' or 'n': what the i-th answer means."""
        a = self.answers[i]
        if bool(self.ctx.any([a == "y", a == "Y"])):
            return "y"
        if bool(self.ctx.any([a == "a", a == "A"])):
            return "a"
        return "n"

    def consent(self, needed):
        """Whether the answers given amount to consent for `needed` questions, stopping at the first 'a'."""
        for i in range(needed):
            k = self.kind(i) if i < len(self.answers) else "missing"
            if k == "a":
                return True
            if k != "y":
                return False
        return True


def _quiet(ctx, *mods):
    for m in mods:
        ctx.patch(m, "print", lambda *a, **k: None)


@harness("P15", bounds="up to 3 files or folders, each existing or not; any answers of up to 2 printable characters; prompts on or off", time=100, shard=("n", 3), max_paths=6000)
def overwrite_check(ctx):
    from cratermaker.core import base as B

    root, escaped = _scratch(ctx)
    _quiet(ctx, B)
    other = _write(root / "other.txt", "mine")
    n = ctx.choice("n", [1, 2, 3])
    ask = bool(ctx.bool("ask"))
    o = B.CratermakerBase(simdir=root, ask_overwrite=ask, rng_seed=1)
    files, there = [], []
    for i in range(n):
        f = root / f"f{i}.nc"
        if bool(ctx.bool(f"exists{i}")):
            if i == 1:
                _write(f / "inner.txt")
            else:
                _write(f)
            there.append(f)
        files.append(f)
    q = Prompts(ctx, B)
    arg = files if n > 1 or ctx.choice("as list", [True, False]) else files[0]
    r = o._overwrite_check([str(f) for f in arg] if isinstance(arg, list) and ctx.choice("text", [False, True]) else arg)
    if not ask:
        ctx.check(q.asked == [], "no question when prompts are off")
        ok = True
    else:
        ok = q.consent(len(there))
    ctx.check(r is ok, "True is reported exactly when the user consented to all files")
    for f in there:
        ctx.check(f.exists() is (not ok), "every file is deleted with consent, and none without")
    ctx.check(other.read_text() == "mine" and escaped == [], "no other file is touched")
    ctx.check(o.ask_overwrite is ask, "the setting is not changed by an answer")
    ctx.check(len(q.asked) <= len(there), "at most one question per file")


def _surface(ctx, root, ask=False, **kw):
    from cratermaker.components.surface import Surface

    return Surface.maker("icosphere", gridlevel=0, simdir=root, ask_overwrite=ask, **kw)


def _counting(ctx, surf, root, ask):
    from cratermaker.components.counting import Counting

    class C(Counting):
        _component_name = "x"

    C.__abstractmethods__ = frozenset()
    ctx.patch(Counting, "tally", lambda self, *a, **k: None)
    return C(surf, simdir=root, ask_overwrite=ask, reset=True)


def _files(root):
    out = [
        _write(root / "counting" / "observed_craters000000.nc"),
        _write(root / "counting" / "emplaced_craters000003.nc"),
        _write(root / "counting_images" / "plot000000.png"),
    ]
    own = [root / "surface" / "surface000000.nc", _write(root / "surface" / "surface000002.nc"), _write(root / "surface_images" / "map000000.png")]
    keep = [
        root / "surface" / "grid.nc",
        _write(root / "surface" / "notes.txt"),
        _write(root / "counting" / "my_craters.csv"),
        _write(root / "counting_images" / "figure.pdf"),
        _write(root / "export" / "observed000000.scc"),
        _write(root / "observed_craters000000.nc"),
        _write(root / "surface000000.nc"),
        _write(root.parent / "keep" / "surface000000.nc"),
        _write(root / "surface_images.png"),
    ]
    return out, own, keep


@harness("P15", bounds="a surface and counting component with 3 saved files each beside 9 others; any answers of up to 1 character; prompts on or off; any elevation", time=100, shard=("which", 2), max_paths=3000)
def component_reset(ctx):
    from cratermaker.core import base as B

    root, escaped = _scratch(ctx)
    _quiet(ctx, B)
    ask = bool(ctx.bool("ask"))
    s = _surface(ctx, root)
    c = _counting(ctx, s, root, False)
    cfiles, sfiles, keep = _files(root)
    marks = {f: f.read_bytes() for f in keep}
    h = ctx.real("h", -1e4, 1e4)
    which = ctx.choice("which", ["surface", "counting"])
    s.update_elevation(ctx.arr([h] * (s.n_face + s.n_node)), overwrite=True)
    c._emplaced = ["one"]
    c._observed = {1: "one"}
    o = s if which == "surface" else c
    mine, theirs = (sfiles, cfiles) if which == "surface" else (cfiles, sfiles)
    o.ask_overwrite = ask
    q = Prompts(ctx, B, maxlen=1)
    o.reset()
    ok = q.consent(len(mine)) if ask else True
    if which == "surface":
        ctx.check(mine[1].exists() is (not ok) and mine[2].exists() is (not ok), "the component's own files are deleted with consent, and none without")
    else:
        for f in mine:
            ctx.check(f.exists() is (not ok), "the component's own files are deleted with consent, and none without")
    for f in theirs:
        ctx.check(f.exists(), "files of other components stay")
    for f, b in marks.items():
        ctx.check(f.exists() and f.read_bytes() == b, "the grid and the user's own files stay")
    ctx.check(escaped == [], "nothing outside the run is touched")
    if which == "surface":
        ctx.close(s.face_elevation[3], 0.0 if ok else h, "the surface is flat after a reset, and unchanged when it was cancelled")
    else:
        ctx.check((c._emplaced == []) is ok and (c._observed == {}) is ok, "the craters are cleared by a reset, and kept when it was cancelled")
    ctx.check(o.ask_overwrite is ask, "the setting is not changed by an answer")


@harness("P15", bounds="opening a saved surface anew or resuming it; 3 saved files; any answers of up to 1 character; prompts on or off", time=60, max_paths=2000)
def surface_reopened(ctx):
    from cratermaker.core import base as B

    root, escaped = _scratch(ctx)
    _quiet(ctx, B)
    ask = bool(ctx.bool("ask"))
    reset = bool(ctx.bool("reset"))
    s = _surface(ctx, root)
    s.update_elevation(7.0)
    s.save(interval=0)
    _, own, keep = _files(root)
    own[1].unlink()  # not a data set
    marks = {f: f.read_bytes() for f in keep + own[:1]}
    q = Prompts(ctx, B, maxlen=1)
    o = ctx.call(_surface, ctx, root, ask, reset=reset, raises=(RuntimeError,))
    if not reset:
        ctx.check(o.ok and q.asked == [], "nothing is asked when resuming")
    ok = q.consent(2) if ask and reset else True
    ctx.check(o.ok is ok, "a surface that may not be reset is not made")
    for f, b in marks.items():
        if f in keep or not reset or not ok:
            ctx.check(f.exists() and f.read_bytes() == b, "saved data stay without consent, the grid and the user's files always")
    if reset:
        ctx.check(own[2].exists() is (not ok), "images are deleted with consent only")
    else:
        ctx.check(own[2].exists(), "images stay when resuming")
    if o.ok:
        ctx.close(o.value.face_elevation[2], 0.0 if reset else 7.0, "a reset surface is flat, a resumed one as saved")
    ctx.check(escaped == [], "nothing outside the run is touched")


@harness("P15", bounds="a simulation with 3 saved files per component beside 9 others; any answers of up to 1 character; prompts on or off in the simulation and its components; any clock; skipping none or one component", time=100, shard=("skip", 3), max_paths=2000)
def simulation_reset(ctx):
    from cratermaker.core import base as B
    from cratermaker.core import simulation as M

    root, escaped = _scratch(ctx)
    _quiet(ctx, B, M)
    s = M.Simulation(simdir=root, gridlevel=0, ask_overwrite=False, reset=True, rng_seed=1)
    cfiles, sfiles, keep = _files(root)
    marks = {f: f.read_bytes() for f in keep}
    skip = ctx.choice("skip", ["", "surface", "counting"])
    ctx.patch(M.Simulation, "to_config", lambda self, **k: None)
    ask, ask_c = bool(ctx.bool("ask")), bool(ctx.bool("ask component"))
    t = ctx.real("t", 0, 4000)
    s.interval, s.time, s.elapsed_time = 3, t, 4000 - t
    s.counting._emplaced = ["one"]
    s.ask_overwrite = ask
    s.surface.ask_overwrite = s.counting.ask_overwrite = ask_c
    q = Prompts(ctx, M, maxlen=1)
    ctx.patch(B, "input", q._input)
    ctx.patch(s, "save", lambda **k: None)
    o = ctx.call(s.reset, *([skip] if skip else []), raises=(RuntimeError,))
    ok = q.consent(1) if ask else True
    ctx.check(o.ok is ok, "a reset that is not consented to is aborted")
    ctx.check(len(q.asked) == (1 if ask else 0), "consent is asked for once")
    for name, files in (("surface", sfiles[1:]), ("counting", cfiles)):
        for f in files:
            ctx.check(f.exists() is (not ok or skip == name), "saved files are deleted with consent, and none without or of a skipped component")
    for f, b in marks.items():
        ctx.check(f.exists() and f.read_bytes() == b, "the grid and the user's own files stay")
    ctx.check(escaped == [], "nothing outside the run is touched")
    ctx.check((s.counting._emplaced == []) is (ok and skip != "counting"), "the craters are cleared by a reset, and kept when it was cancelled")
    if ok:
        ctx.check(s.interval == 0 and s.time is None and s.elapsed_time == 0 and s.is_new, "the clocks start anew")
    else:
        ctx.check(s.interval == 3, "the interval is kept")
        ctx.close(s.time, t, "the clocks are kept")
    ctx.check(s.ask_overwrite is ask and s.surface.ask_overwrite is ask_c and s.counting.ask_overwrite is ask_c, "the settings are not changed by an answer")


@harness("P15", bounds="an exported file that exists or not; any answers of up to 1 character; prompts on or off, or the method's own setting; CSV and SCC", time=60, max_paths=2000)
def export_overwrites(ctx):
    import xarray as xr

    from cratermaker.components import counting as K
    from cratermaker.core import base as B

    root, escaped = _scratch(ctx)
    _quiet(ctx, B, K)
    ask = bool(ctx.bool("ask"))
    own = ctx.choice("own", [None, True, False])
    driver = ctx.choice("driver", ["CSV", "SCC"])
    s = _surface(ctx, root)
    c = _counting(ctx, s, root, ask)
    f = root / "export" / ("observed_craters000000.csv" if driver == "CSV" else "observed000000.scc")
    if exists := bool(ctx.bool("exists")):
        _write(f, "mine")
    ctx.patch(c, "read_saved_output", lambda **k: (xr.Dataset(coords={"interval": [0]}), None))
    ctx.patch(c, "_Crater", c.Crater) if hasattr(c, "_Crater") else None
    crater = c.Crater.maker(diameter=1000.0, location=(1.0, 2.0), rng_seed=1)
    ctx.patch(type(c.Crater) if not isinstance(c.Crater, type) else c.Crater, "from_xarray", classmethod(lambda cls, *a, **k: [crater]))
    ctx.patch(c, "_validate_export_args", lambda **k: [crater])
    q = Prompts(ctx, B, maxlen=1)
    c.export(driver=driver, crater_type="observed", interval=0, ask_overwrite=own)
    eff = ask if own is None else own
    ctx.check(len(q.asked) == (1 if eff and exists else 0), "a question is asked exactly when a file would be overwritten")
    ok = q.consent(1) if eff and exists else True
    ctx.check(f.exists(), "the file exists afterwards")
    ctx.check((f.read_text() == "mine") is (not ok), "an existing file is replaced with consent only")
    ctx.check(c.ask_overwrite is ask, "the setting is that of before the export")
    ctx.check(escaped == [], "nothing outside the run is touched")
