"""P22: the data of the surface survive saving and resuming."""
import pathlib
import shutil

import numpy as np

from sx.ctx import harness
from props.P15 import _quiet, _scratch, _surface
from props.P19 import _bindings

INIT = {"face_elevation", "node_elevation"}


def _files(ctx):
    """NetCDF files of the symbolic run hold a token for a data set kept in memory, so that symbolic values can be saved; a concrete run uses real files."""
    if not ctx.sym:
        return
    import xarray as xr
    from xarray.backends import api

    kept = []
    real = api.open_dataset

    def snapshot(ds):
        out = xr.Dataset({k: (v.dims, np.array(v.data, copy=True), dict(v.attrs)) for k, v in ds.variables.items() if k not in ds.coords}, coords={k: (v.dims, np.array(v.data, copy=True)) for k, v in ds.coords.items()})
        return out.assign_attrs(ds.attrs)

    def to_netcdf(ds, path=None, *a, **k):
        pathlib.Path(path).write_text(f"data {len(kept)}")
        kept.append(snapshot(ds))

    def open_dataset(path, *a, **k):
        raw = pathlib.Path(path).read_bytes()
        if not raw.startswith(b"data "):
            return real(path, *a, **k)
        ds = snapshot(kept[int(raw[5:])])
        ds.set_close(lambda: None)
        return ds

    ctx.patch(xr.Dataset, "to_netcdf", to_netcdf)
    ctx.patch(api, "open_dataset", open_dataset)
    ctx.patch(xr, "open_dataset", open_dataset)


_GRID = []


def _new(ctx, root, reset=True, **kw):
    """A surface in the run's folder (the grid itself is made once)."""
    from cratermaker.components import surface as S

    _bindings(ctx)
    _quiet(ctx, S)
    if not _GRID:
        import os
        import tempfile

        d = pathlib.Path(tempfile.mkdtemp(dir=os.environ.get("SX_SCRATCH")))
        _surface(ctx, d)
        _GRID.append((d / "surface" / "grid.nc").read_bytes())
    g = root / "surface" / "grid.nc"
    if not g.exists():
        g.parent.mkdir(parents=True, exist_ok=True)
        g.write_bytes(_GRID[0])
    return _surface(ctx, root, reset=reset, **kw)


def _data(s):
    return {str(k): list(np.asarray(s.uxds[k].data).reshape(-1)) for k in s.uxds.data_vars}


def _same(ctx, got, want, what, only=False):
    names = set(got) if not only else set(got) & set(want)
    ctx.check(names == set(want), f"{what}: the same variables")
    for k in want:
        ctx.check(len(got[k]) == len(want[k]), f"{what}: {k} has as many values")
        for a, b in zip(got[k], want[k]):
            if isinstance(b, (int, np.integer)):
                ctx.check(int(a) == int(b), f"{what}: {k} has the same values")
            else:
                ctx.close(a, b, f"{what}: {k} has the same values")


def _change(ctx, s, n, what):
    """Any change of the surface between one save and the next."""
    v = lambda k, m, lo=-1e4: ctx.arr([ctx.real(f"{k}{n}{i}", lo, 1e4) if i in (0, m - 1) else 2.5 * i - 7.0 + n for i in range(m)])
    s.update_elevation(ctx.np.concatenate([v("f", s.n_face), v("n", s.n_node)]), overwrite=True)
    if what == "ejecta":
        s.add_data("ejecta_thickness", v("e", s.n_face, 0), long_name="ejecta thickness", units="m")
    elif what == "nodes":
        s.add_data("roughness", v("r", s.n_node), isfacedata=False)
    elif what == "tags":
        s.add_tag("crater_id", tag=41 + n)
        s.extract_region((20.0, 30.0), 6e5).add_tag("crater_id", tag=7 + n)


@harness("P22", bounds="1 to 3 saves at increasing interval numbers or the same one, each after any change of elevations and one of 4 others; 12 faces, 20 nodes; up to 6 values free per change; with a clock; then resumed, saved and resumed again", time=80, max_paths=300, stubs="symbolic NetCDF files kept in memory; edge lengths", shard=("saves", 6))
def saved(ctx):
    root, _ = _scratch(ctx)
    _files(ctx)
    numbers = ctx.choice("saves", [[0], [4], [0, 1], [5, 5], [1, 2, 10], [999999, 1000000]])
    kinds = ctx.choice("changes", [["none", "ejecta", "tags"], ["ejecta", "nodes", "ejecta"], ["tags", "tags", "none"]])
    s = _new(ctx, root)
    ctx.check(set(_data(s)) == INIT, "a new surface has its elevations only")
    saved = {}
    for n, (i, kind) in enumerate(zip(numbers, kinds)):
        _change(ctx, s, n, kind)
        t = ctx.real(f"t{n}", 0, 4500)
        s.save(interval=i, time_variables={"current_time": t if ctx.sym else float(t)})
        saved[i] = _data(s) | {"current_time": [t]}
    s.update_elevation(123.0)  # not saved
    last = saved[numbers[-1]]
    for i, want in saved.items():
        got = s.read_saved_output(interval=i)
        _same(ctx, {str(k): list(np.asarray(got[k].data).reshape(-1)) for k in got.data_vars}, want, "an interval read back")
    got = s.read_saved_output(interval=1234567)
    ctx.check(len(got.data_vars) == 0, "an interval that was not saved has no data")
    every = s.read_saved_output()
    at = [int(x) for x in np.asarray(every["interval"].data).reshape(-1)]
    ctx.check(at == sorted(set(numbers) | {0}), "all intervals are read, in order")
    for i, want in saved.items():
        for k in INIT | {"current_time"}:
            vals = list(np.asarray(every[k].sel(interval=i).data).reshape(-1))
            _same(ctx, {k: vals}, {k: want[k]}, "all intervals read back")
    r = _new(ctx, root, reset=False)
    _same(ctx, _data(r), last, "the resumed surface")
    ctx.check(r.is_new is False, "a resumed surface is not new")
    _change(ctx, r, 3, "ejecta" if "ejecta_thickness" in last else "none")
    t = ctx.real("t3", 0, 4500)
    nxt = numbers[-1] + 1
    r.save(interval=nxt, time_variables={"current_time": t if ctx.sym else float(t)})
    now = _data(r) | {"current_time": [t]}
    again = _new(ctx, root, reset=False)
    _same(ctx, _data(again), now, "the surface resumed a second time")
    got = again.read_saved_output(interval=numbers[-1])
    _same(ctx, {str(k): list(np.asarray(got[k].data).reshape(-1)) for k in got.data_vars}, last, "an earlier interval, after resuming")


@harness("P22", bounds="a surface with any elevations and ejecta, saved up to twice; reset, opened anew, or opened with another grid; then resumed", time=50, max_paths=100, stubs="as saved")
def reset(ctx):
    root, _ = _scratch(ctx)
    _files(ctx)
    s = _new(ctx, root)
    kind = ctx.choice("change", ["none", "ejecta", "tags"])
    saves = ctx.choice("saves", [0, 1, 2])
    how = ctx.choice("how", ["reset", "anew"])
    for n in range(saves):
        _change(ctx, s, n, kind)
        s.save(interval=n)
    _change(ctx, s, 5, kind if saves == 0 else "none")
    if how == "reset":
        ctx.check(s.reset() is True, "a reset reports that it was done")
    else:
        s = _new(ctx, root, reset=True)
    blank = {"face_elevation": [0.0] * s.n_face, "node_elevation": [0.0] * s.n_node}
    _same(ctx, _data(s), blank, "after a reset")
    ctx.check(s.is_new is True, "after a reset the surface is new")
    ctx.check((root / "surface" / "grid.nc").exists(), "the grid is kept")
    r = _new(ctx, root, reset=False)
    _same(ctx, _data(r), blank, "a surface resumed after a reset")
