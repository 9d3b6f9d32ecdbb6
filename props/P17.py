"""P17: the crater record survives saving, resuming, export and import."""
from sx.ctx import harness
from props.P15 import _scratch, _quiet, _surface

ATTR = ["semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle", "projectile_mass", "morphology_type", "time", "name",
        "measured_semimajor_axis", "measured_semiminor_axis", "measured_orientation", "measured_rim_height", "measured_floor_depth", "degradation_state", "production_sequence"]  # fmt: skip
PAIR = ["location", "measured_location", "production_ND", "production_time"]


def _store(ctx):
    """NetCDF files of the symbolic run are kept in memory, so that symbolic values can be saved; a concrete run uses real files."""
    if not ctx.sym:
        return
    import pathlib

    import xarray as xr
    from xarray.backends import api

    kept = {}

    def to_netcdf(ds, path=None, *a, **k):
        pathlib.Path(path).write_text("data")
        kept[str(path)] = ds.copy(deep=False)

    def open_dataset(path, *a, **k):
        ds = kept[str(path)].copy(deep=False)
        ds.set_close(lambda: None)
        return ds

    ctx.patch(xr.Dataset, "to_netcdf", to_netcdf)
    ctx.patch(api, "open_dataset", open_dataset)
    ctx.patch(xr, "open_dataset", open_dataset)


def _counting(ctx, surf, root, reset=True):
    from cratermaker.components.counting import Counting

    class C(Counting):
        _component_name = "x"

    C.__abstractmethods__ = frozenset()
    return C(surf, simdir=root, ask_overwrite=False, reset=reset)


def _crater(ctx, cls, n, full, round_, lon=None):
    """A crater with any sizes; `full`: with every optional attribute."""
    v = lambda s, lo, hi: ctx.real(f"{s}{n}", lo, hi)
    a = v("a", 1, 1e6)
    kw = dict(semimajor_axis=a, semiminor_axis=a if round_ else v("b", 1, 1e6), transient_diameter=v("td", 1, 1e6), projectile_diameter=v("pd", 1, 1e5), projectile_mass=v("pm", 1, 1e15), projectile_velocity=15e3,
              projectile_angle=v("ang", 1, 89), location=(10.0 * n if lon is None else lon, -20.0), orientation=v("or", 0, 360), morphology_type="simple", check_redundant_inputs=False)  # fmt: skip
    if not round_:
        ctx.assume(kw["semimajor_axis"] > kw["semiminor_axis"])
    if full:
        ma = v("ma", 1, 1e6)
        kw |= dict(time=v("t", 0, 4500), name=["", "Tycho", "7"][n], measured_semimajor_axis=ma, measured_semiminor_axis=ma if round_ else v("mb", 1, 1e6), measured_location=(11.0 * n, -21.0), measured_rim_height=v("h", 0, 1e4),
                   measured_floor_depth=v("fd", -1e4, 0), degradation_state=v("K", 0, 1e6), production_sequence=n + 3)  # fmt: skip
        if n == 1:
            kw["production_ND"] = (v("pD", 0.1, 1e3), v("pN", 0, 1e6), v("ps", 0, 10))
        else:
            kw["production_time"] = (v("pt", 0, 4500), v("pts", 0, 10))
    return cls.maker(**kw)


def _same(ctx, got, want, what, lost=()):
    for n in ATTR + PAIR:
        if n in lost:
            continue
        u, w = getattr(want, n, None), getattr(got, n, None)
        ctx.check((u is None) == (w is None), f"{what}: {n} is there exactly when it was")
        if u is None or w is None:
            continue
        if isinstance(u, str) or n == "production_sequence":
            ctx.check(type(u) is type(w) and u == w, f"{what}: {n} is the same")
        elif n in PAIR:
            ctx.check(len(u) == len(w), f"{what}: {n} is the same")
            for x, y in zip(u, w):
                ctx.close(y, x, f"{what}: {n} is the same")
        else:
            ctx.close(w, u, f"{what}: {n} is the same")
    ctx.check(got.id == want.id, f"{what}: the identifier is the same")


def _same_list(ctx, got, want, what, **k):
    ctx.check(len(got) == len(want), f"{what}: as many craters")
    by = {int(c.id): c for c in got}
    ctx.check(len(by) == len(got), f"{what}: every crater once")
    for w in want:
        if int(w.id) not in by:
            ctx.fail(f"{what}: the identifier is the same", f"{int(w.id)} not in {list(by)}")
            continue
        _same(ctx, by[int(w.id)], w, what, **k)


HIST = {"first": (0,), "two": (1, 2), "ten": (9, 10), "million": (999999, 1000000), "again": (4, 4), "gap": (2, 7)}


@harness("P17", bounds="up to 2 saves of any of 2 craters each as observed and as emplaced, at 6 kinds of interval numbers incl. the same twice and above 999999; craters round or not, with all or no optional attributes, any values; interrupted between the two files or not", time=120, max_paths=3000, shard=("history", 6))
def saved_and_resumed(ctx):
    from cratermaker.components import counting as K
    from cratermaker.core import base as B

    root, _ = _scratch(ctx)
    _quiet(ctx, B, K)
    s = _surface(ctx, root)
    _store(ctx)
    c = _counting(ctx, s, root)
    hist = ctx.choice("history", list(HIST))
    kinds = ctx.choice("craters", ["mixed", "shapes"] + (["full", "bare"] if hist in ("first", "two") else []))
    c1 = _crater(ctx, c.Crater, 1, kinds != "bare", True)
    c2 = _crater(ctx, c.Crater, 2, kinds == "full", kinds in ("full", "bare"))
    sets = [[], [c1], [c1, c2], [c2]]
    crash = False
    record = {}
    for k, i in enumerate(HIST[hist]):
        o, e = (ctx.choice("observed0", [0, 1, 2]), ctx.choice("emplaced0", [1, 2])) if k == 0 else (ctx.choice("observed1", [0, 2]), ctx.choice("emplaced1", [0, 3]))
        c._observed, c._emplaced = {x.id: x for x in sets[o]}, list(sets[e])
        crash = k == len(HIST[hist]) - 1 and hist == "two" and ctx.choice("interrupted", [False, True])
        c.save(interval=i, **({"crater_type": "observed"} if crash else {}))
        record[i] = (sets[o], [] if crash else sets[e])
    r = _counting(ctx, s, root, reset=False)
    last = HIST[hist][-1]
    _same_list(ctx, list(r.observed.values()), record[last][0], "resumed, observed")
    _same_list(ctx, r.emplaced, record[last][1], "resumed, emplaced")
    for k, v in r.observed.items():
        ctx.check(k == v.id, "observed craters are kept by identifier")
    saved = c.get_saved_interval_numbers()
    ctx.check(saved[0] == sorted(record), "the saved intervals are listed in order")
    for i in record:
        for what, ds, want in zip(("observed", "emplaced"), c.read_saved_output(interval=i), record[i]):
            if crash and what == "emplaced" and i == last:
                continue
            _same_list(ctx, c.Crater.from_xarray(ds, interval=i), want, f"read back, {what}")
    for what, ds, col in zip(("observed", "emplaced"), c.read_saved_output(), (0, 1)):
        for i in record:
            if crash and what == "emplaced" and i == last:
                continue
            _same_list(ctx, c.Crater.from_xarray(ds, interval=i), record[i][col], f"all read back, {what}")


def _given(ctx, c, craters, how, interval):
    """The craters in each form in which the export functions take them."""
    if how == "list":
        return {"craters": craters}
    if how == "dict":
        return {"craters": {x.id: x for x in craters}}
    if how == "kept":
        c._observed = {x.id: x for x in craters}
        return {}
    ds = c.to_xarray(craters)
    if how == "dataset":
        return {"craters": ds}
    return {"craters": {0: c.to_xarray(craters[:1]), interval: ds}}


@harness("P17", bounds="up to 2 craters of any values, round or not, with all or no optional attributes; given as list, dictionary, the counting's own, a data set or one per interval; CSV written and read", time=90, format_mode="token", max_paths=2000, shard=("how", 5))
def csv_file(ctx):
    from cratermaker.components import counting as K
    from cratermaker.core import base as B

    root, _ = _scratch(ctx)
    _quiet(ctx, B, K)
    c = _counting(ctx, _surface(ctx, root), root)
    how = ctx.choice("how", ["list", "dict", "kept", "dataset", "datasets"])
    kinds = ctx.choice("craters", ["mixed", "shapes", "full", "bare"])
    c1 = _crater(ctx, c.Crater, 1, kinds != "bare", True)
    c2 = _crater(ctx, c.Crater, 2, kinds == "full", kinds in ("full", "bare"))
    which = ctx.choice("which", ["both", "swapped", "one", "other", "none"])
    craters = {"both": [c1, c2], "swapped": [c2, c1], "one": [c1], "other": [c2], "none": []}[which]
    interval = ctx.choice("interval", [3, 1000000])
    c.to_csv_file(crater_type="observed", interval=interval, **_given(ctx, c, craters, how, interval))
    f = root / "export" / f"observed_craters{interval:06d}.csv"
    ctx.check(f.exists(), "the file is written")
    lines = f.read_text().splitlines()
    ctx.check(len(lines) == (len(craters) + 1 if craters else 0), "one line per crater, after the header")
    _same_list(ctx, c.Crater.from_file(f), craters, "CSV")


@harness("P17", bounds="up to 2 craters of any values and locations, round or not; given in 4 ways; SCC written for a numbered interval or none; read with any sizes and locations", time=90, format_mode="token", max_paths=2000, stubs="craterstats' reader of SCC files: the harness reads the lines it is given")
def scc_file(ctx):
    import sys
    import types

    from cratermaker.components import counting as K
    from cratermaker.core import base as B

    root, _ = _scratch(ctx)
    _quiet(ctx, B, K)
    s = _surface(ctx, root)
    c = _counting(ctx, s, root)
    how = ctx.choice("how", ["list", "dict", "kept", "dataset"])
    lon = ctx.real("lon", -180, 179.9)
    c1 = _crater(ctx, c.Crater, 1, True, bool(ctx.bool("round")), lon=lon)
    c2 = _crater(ctx, c.Crater, 2, False, True)
    craters = ctx.choice("which", [[], [c1], [c1, c2]])
    interval = ctx.choice("interval", [3, None])
    c.to_scc_file(crater_type="observed", interval=interval, **_given(ctx, c, craters, how, interval))
    f = root / "export" / ("observed000003.scc" if interval else "observed.scc")
    ctx.check(f.exists(), "the file is written")
    text = f.read_text()
    body = text.split("crater = {diam, fraction, lon, lat, topo_scale_factor\n")[1].split("}")[0].splitlines()
    num = ctx.number
    rows = [[num(x) for x in ln.split("\t")] for ln in body]
    ctx.check(len(rows) == len(craters), "one line per crater")
    for r, w in zip(rows, sorted(craters, key=lambda x: int(x.id)) if how == "dataset" else craters):
        ctx.close(r[0] * 1e3, w.measured_diameter, "the diameter is the measured one")
        ctx.close(r[1], 1.0, "craters of a global surface count whole")
        ctx.close(r[2], w.measured_location[0], "the longitude is the measured one")
        ctx.close(r[3], w.measured_location[1], "the latitude is the measured one")
    area = text.split("Total_area = ")[1].split(" ")[0]
    ctx.close(num(area) * 1e6, s.area, "the area is that of the surface")

    class Read:
        def __init__(self, filename):
            self.diam, self.lon, self.lat = ([r[k] for r in rows] for k in (0, 2, 3))

    ctx.patch(sys.modules, "craterstats", types.SimpleNamespace(Spatialcount=Read))
    ctx.patch(c.Crater, "maker", classmethod(lambda cls, **k: k))
    got = c.Crater.from_file(f)
    ctx.check(len(got) == len(rows), "as many craters are read as there are")
    for g, r in zip(got, rows):
        ctx.check(set(g) == {"diameter", "location"}, "the size and the place are read")
        ctx.close(g["diameter"], r[0] * 1e3, "the diameter is read in km")
        ctx.close(g["location"][0], r[2], "the longitude is read")
        ctx.close(g["location"][1], r[3], "the latitude is read")


@harness("P17", bounds="2 saved intervals of any of 2 craters each, numbered in 3 ways; any clocks; one interval or all exported, one kind or both, CSV or SCC", time=60, max_paths=2000, shard=("intervals", 3))
def exported_intervals(ctx):
    from cratermaker.components import counting as K
    from cratermaker.core import base as B

    root, _ = _scratch(ctx)
    _quiet(ctx, B, K)
    s = _surface(ctx, root)
    _store(ctx)
    c = _counting(ctx, s, root)
    c1, c2 = _crater(ctx, c.Crater, 1, True, True), _crater(ctx, c.Crater, 2, False, True)
    num = ctx.choice("intervals", [(0, 1), (9, 10), (999999, 1000000)])
    sets = ctx.choice("craters", [([c1], [c1, c2]), ([c1, c2], [c2]), ([c1], [])])
    clock = [ctx.real(f"t{k}", 0, 4500) for k in (0, 1)]
    for i, x, t in zip(num, sets, clock):
        c._observed, c._emplaced = {v.id: v for v in x}, x[:1]
        c.save(interval=i, time_variables={"current_age": t, "elapsed_time": t / 2})
    one = ctx.choice("one", [None, 0, 1])
    kind = ctx.choice("kind", ["observed", "emplaced", "both"])
    driver = ctx.choice("driver", ["CSV", "scc"])
    out = []
    rec = lambda craters=None, interval=None, crater_type=None, **k: out.append((crater_type, int(interval), list(craters)))
    other = lambda **k: ctx.fail("the export is of the kind of file asked for")
    ctx.patch(c, "to_csv_file", rec if driver == "CSV" else other)
    ctx.patch(c, "to_scc_file", rec if driver == "scc" else other)
    c.export(crater_type=kind, interval=None if one is None else num[one], driver=driver)
    want = [(t, num[k], sets[k] if t == "observed" else sets[k][:1]) for t in ("observed", "emplaced") if kind in (t, "both") for k in (0, 1) if one in (None, k)]
    ctx.check(sorted(o[:2] for o in out) == sorted(w[:2] for w in want), "every interval asked for is exported once for each kind, and no other")
    for t, i, x in out:
        w = [w[2] for w in want if w[:2] == (t, i)]
        if w:
            _same_list(ctx, x, w[0], f"exported, {t}")
    for k, i in enumerate(num):
        for tv in c.get_time_variables(interval=i):
            ctx.close(tv.current_age.data[0], clock[k], "the clocks saved with the craters are read back")
            ctx.check(len(tv.current_age.data) == 1 and int(tv.data[0]) == i, "the clocks are those of the interval")
    for tv in c.get_time_variables():
        for k in (0, 1):
            ctx.close(tv.elapsed_time.data[k], clock[k] / 2, "the clocks of all intervals are read back in order")
    ds = {i: d for i, d in zip(num, (c.to_xarray(x).expand_dims("interval").assign_coords(interval=[i]) for i, x in zip(num, sets)))}
    _same_list(ctx, c.Crater.from_xarray(ds), sets[1], "the last interval is read when none is named")


@harness("P17", bounds="2 saved intervals of any of 2 craters each; either one plotted, or none named", time=40, max_paths=500, stubs="the drawing itself (the surface's map, the outlines): the harness records which craters are drawn")
def plotted_interval(ctx):
    from cratermaker.components import counting as K
    from cratermaker.core import base as B

    root, _ = _scratch(ctx)
    _quiet(ctx, B, K)
    s = _surface(ctx, root)
    _store(ctx)
    c = _counting(ctx, s, root)
    c1, c2 = _crater(ctx, c.Crater, 1, True, True), _crater(ctx, c.Crater, 2, False, True)
    num = ctx.choice("intervals", [(0, 1), (9, 10)])
    sets = ctx.choice("craters", [([c1], [c1, c2]), ([c1, c2], [c2]), ([c1], []), ([], [c2])])
    for i, x in zip(num, sets):
        c._observed, c._emplaced = {v.id: v for v in x}, x[:1]
        c.save(interval=i)
    k = ctx.choice("plotted", [None, 0, 1])
    drawn = {}

    class Shapes:
        def to_crs(self, *a, **k):
            return self

        def plot(self, ax=None, **k):
            return ax

    def outlines(craters=None, use_measured_properties=None, **kw):
        drawn[use_measured_properties] = list(craters)
        return Shapes()

    ctx.patch(type(s), "plot", lambda self, **k: "axes")
    ctx.patch(type(c), "to_geoseries", staticmethod(outlines))
    ctx.check(c.plot(interval=None if k is None else num[k], emplaced_color="red", save=False, show=False) == "axes", "the axes are returned")
    want = sets[1 if k is None else k]
    _same_list(ctx, drawn.get(True, []), want, "plotted, observed")
    _same_list(ctx, drawn.get(False, []), want[:1], "plotted, emplaced")
