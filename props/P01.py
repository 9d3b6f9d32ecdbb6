"""P01: geographic locations are normalised without moving the point."""
import numpy as np

from sx.ctx import harness


def _norm_checks(ctx, lon, lat, a, b, tag):
    ctx.check((a >= -180) & (a < 180), f"{tag}: longitude in [-180, 180)")
    ctx.check((b >= -90) & (b <= 90), f"{tag}: latitude in [-90, 90]")
    ctx.check(ctx.same_point(lon, lat, a, b), f"{tag}: same point of the sphere")


def _pair(ctx, i="", r=720):
    return ctx.real(f"lon{i}", -r, r), ctx.real(f"lat{i}", -r, r)


@harness("P01", bounds="lon, lat any real in [-1500, 1500] degrees")
def normalize(ctx):
    from cratermaker.utils.general_utils import normalize_coords

    lon, lat = _pair(ctx, r=1500)
    a, b = normalize_coords((lon, lat))
    ctx.observe("lon", a)
    ctx.observe("lat", b)
    _norm_checks(ctx, lon, lat, a, b, "normalise")


@harness("P01", bounds="lon in [-180, 180), lat in [-90, 90]")
def idempotent(ctx):
    from cratermaker.utils.general_utils import normalize_coords

    lon = ctx.real("lon", -180, 180, hi_open=True)
    lat = ctx.real("lat", -90, 90)
    a, b = normalize_coords((lon, lat))
    ctx.close(a, lon, "a normalised longitude is unchanged", rel=1e-12, abs_=1e-9)
    ctx.close(b, lat, "a normalised latitude is unchanged", rel=1e-12, abs_=1e-9)


@harness("P01", bounds="every accepted form of one location (tuple, list, dict, array, (1,2) array, nested list, structured arrays of both field orders); lon, lat in [-720, 720]")
def forms(ctx):
    from cratermaker.utils.general_utils import validate_and_normalize_location as v

    form = ctx.choice("form", ["tuple", "list", "dict", "array", "array12", "nested", "nested_tuple", "lonlat", "latlon", "lonlat0", "latlon_row"])
    lon, lat = _pair(ctx)
    dt1, dt2 = ("lon", "lat"), ("lat", "lon")
    ft = object if ctx.sym else float
    if form == "tuple":
        loc = (lon, lat)
    elif form == "list":
        loc = [lon, lat]
    elif form == "dict":
        loc = {"lat": lat, "lon": lon}
    elif form == "array":
        loc = ctx.arr([lon, lat])
    elif form == "array12":
        loc = ctx.arr([lon, lat]).reshape((1, 2))
    elif form == "nested":
        loc = [(lon, lat)]
    elif form == "nested_tuple":
        loc = ([lon, lat],)
    elif form == "lonlat":
        loc = np.array([(lon, lat)], dtype=[(n, ft) for n in dt1])
    elif form == "latlon":
        loc = np.array([(lat, lon)], dtype=[(n, ft) for n in dt2])
    elif form == "lonlat0":
        loc = np.array((lon, lat), dtype=[(n, ft) for n in dt1])
    else:
        loc = np.array([(lat, lon)], dtype=[(n, ft) for n in dt2])[0]
    out = v(loc)
    ctx.check(isinstance(out, tuple) and len(out) == 2, f"{form}: one location gives one pair")
    _norm_checks(ctx, lon, lat, out[0], out[1], form)


@harness("P01", bounds="sequences of 2 or 3 locations (list of tuples, tuple of lists, (N,2) array, structured array); lon, lat in [-400, 400]", max_paths=2500, time=90)
def sequences(ctx):
    from cratermaker.utils.general_utils import validate_and_normalize_location as v

    n = ctx.choice("n", [2, 3] if ctx.tier == "thorough" else [2])
    form = ctx.choice("form", ["list", "tuple", "array", "struct"])
    pts = [_pair(ctx, i, 400) for i in range(n)]
    if form == "list":
        loc = [tuple(p) for p in pts]
    elif form == "tuple":
        loc = tuple(list(p) for p in pts)
    elif form == "array":
        loc = ctx.arr([x for p in pts for x in p]).reshape((n, 2))
    else:
        loc = np.array([(p[1], p[0]) for p in pts], dtype=[("lat", object if ctx.sym else float), ("lon", object if ctx.sym else float)])
    out = v(loc)
    ctx.check(len(out) == n, f"{form}: as many pairs as locations")
    for i in range(n):
        _norm_checks(ctx, pts[i][0], pts[i][1], out[i][0], out[i][1], f"{form}[{i}]")


@harness("P01", bounds="a sequence of other than 2 numbers (0 excluded, up to 4), or a dict lacking a coordinate")
def malformed(ctx):
    from cratermaker.utils.general_utils import validate_and_normalize_location as v

    form = ctx.choice("form", ["one", "three", "four", "lononly", "latonly", "row3"])
    x = [ctx.real(f"x{i}", -400, 400) for i in range(4)]
    loc = {"one": (x[0],), "three": tuple(x[:3]), "four": list(x), "lononly": {"lon": x[0]}, "latonly": {"lat": x[0]}, "row3": ctx.arr(x[:3]).reshape((1, 3))}[form]
    r = ctx.call(v, loc, raises=(ValueError, TypeError, IndexError, KeyError))
    ctx.check(not r.ok, f"{form}: rejected")


@harness("P01", bounds="crater locations and measured locations set to any lon, lat in [-720, 720]")
def crater_location(ctx):
    from cratermaker.components.crater import Crater

    lon, lat = _pair(ctx)
    mlon, mlat = ctx.real("mlon", -180, 180, hi_open=True), ctx.real("mlat", -90, 90)
    c = Crater.maker(diameter=1000.0, location=(lon, lat), check_redundant_inputs=False)
    a, b = c.location
    _norm_checks(ctx, lon, lat, a, b, "crater")
    ctx.check((c.measured_location[0] == a) & (c.measured_location[1] == b), "a new crater is measured where it is")
    c.measured_location = (mlon, mlat)
    ctx.close(c.measured_location[0], mlon, "measured longitude is the one given")
    ctx.close(c.measured_location[1], mlat, "measured latitude is the one given")
    ctx.check((c.location[0] == a) & (c.location[1] == b), "measuring does not move the crater")
