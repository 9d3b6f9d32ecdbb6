"""P21: the craters counted and the marks they leave on the surface agree."""
import numpy as np

from sx.ctx import harness
from props.P19 import Mesh, _faces

BIG = 2**32 - 1
PATCHES = [[0, 1, 2, 3, 4], [3, 4, 5, 6], [6, 7, 8, 9, 10, 11], [4]]


def _marks(s, name="marks"):
    """The tags of each face."""
    return [sorted(int(x) for x in row if x != 0) for row in s._uxds[name].data]


def _same_marks(ctx, s, want, what, name="marks"):
    got = _marks(s, name)
    for i in range(s.n_face):
        ctx.check(got[i] == sorted(want[i]), what)


def _site(ctx, fill):
    """A surface with tags already there: none, seven per face, scattered over the layers, or seven with room in different layers."""
    mesh = Mesh(ctx)
    s = mesh.s
    if fill == "fresh":
        return mesh, [[] for _ in range(s.n_face)]
    data = np.zeros((s.n_face, 8), dtype=np.uint32)
    for i in range(s.n_face):
        for k in range(8):
            if fill == "some" and (i + k) % 3 == 0 or fill == "apart" and k != i % 8:
                data[i, k] = 100 + 10 * i + k
    import uxarray as uxr

    s._uxds["marks"] = uxr.UxDataArray(data=data, dims=("n_face", "layer"), name="marks", uxgrid=s.uxgrid)
    return mesh, _marks(s)


@harness("P21", bounds="surfaces without tags, with scattered tags, with room for one more in different layers; adding, then 1 (thorough: 2) of adding, removing (from a region or everywhere), sorting and clearing, on 4 overlapping regions or the whole", time=60, max_paths=1500, shard=("fill", 3))
def tags(ctx):
    fill = ctx.choice("fill", ["fresh", "some", "apart"])
    mesh, want = _site(ctx, fill)
    s = mesh.s
    steps = 1 if ctx.tier == "quick" else 2
    tag = [7, BIG, 3]
    for k in range(steps + 1):
        op = ctx.choice(f"op{k}", ["add", "remove", "sort", "clear"]) if k else "add"
        at = ctx.choice(f"at{k}", [0, 1, 2, "all"]) if op in ("add", "remove") else 0
        cells = list(range(s.n_face)) if at == "all" else PATCHES[at]
        r = s if at == "all" else mesh.region(cells, 6e5)
        if op == "add":
            if any(len(want[i]) >= 8 for i in cells):
                return  # no room: a warning is given and a tag lost
            t = tag[k]
            r.add_tag("marks", tag=t, long_name="marks")
            for i in cells:
                want[i] = [*want[i], t]
        elif op == "remove":
            t = ctx.choice("which", [7, BIG, 101])
            r.remove_tag("marks", t)
            for i in cells:
                want[i] = [x for x in want[i] if x != t]
        elif op == "sort":
            s._full().sort_tags("marks")
        else:
            r.add_tag("marks", tag=None)
            want = [[] for _ in range(s.n_face)]
        _same_marks(ctx, s, want, f"after {op}, every face has the tags it should have")
    q = ctx.call(s.remove_tag, "absent", 3, raises=ValueError)
    ctx.check(not q.ok, "a tag layer that is not there is refused")


class Fake:
    """A crater as the counting sees it."""


def _crater(ctx, mesh, i, cells, rim, diameter):
    from cratermaker.components.morphology.basicmoon import BasicMoonCrater

    s = mesh.s
    region = mesh.region(cells, 3e6)
    at = [1e6 if f not in rim else 1e3 for f in cells]
    region._face_distance = np.array(at)
    c = Fake()
    cls = type("C", (BasicMoonCrater,), {k: property(lambda self, k=k: self.__dict__[k]) for k in ("id", "diameter", "radius", "crater_region", "measured_diameter", "measured_radius")} | {"remove_complex_data": lambda self, **k: None, "__init__": lambda self: None, "__str__": lambda self: "crater", "__repr__": lambda self: "crater"})
    c = object.__new__(cls)
    c.__dict__.update(id=[11, BIG, 5][i], diameter=diameter, radius=2e5, crater_region=region, measured_diameter=diameter, measured_radius=diameter / 2)
    return c


def _counting(ctx, mesh):
    from cratermaker.components import counting as M
    from cratermaker.components.counting import Counting

    if hasattr(M, "_MIN_FACE_FOR_COUNTING"):
        ctx.patch(M, "_MIN_FACE_FOR_COUNTING", 3)
    return Counting.maker("depthcount", surface=mesh.s, simdir=mesh.root, ask_overwrite=False, reset=True)


CELLS = [([0, 1, 2, 3, 4, 5], [0, 1, 2]), ([2, 3, 5, 6, 7], [3, 5, 6]), ([2], [2])]


@harness("P21", bounds="3 craters of any sizes formed one after the other on overlapping regions, the first inside, partly inside or beside the later ones", time=60, stubs="the regions and rims: 3 shapes each; smallest region counted: 3 faces", max_paths=600, shard=("c0", 3))
def recorded(ctx):
    mesh = Mesh(ctx)
    s = mesh.s
    # the mesh has only 12 faces, so what lies within the rim is given, not its surroundings
    from cratermaker.components.surface import LocalSurface

    def inside(region, subregion_radius, **k):
        f = [int(i) for i, d in zip(region.face_indices, region.face_distance) if d <= subregion_radius]
        return mesh.region(f, subregion_radius) if f else None

    ctx.patch(LocalSurface, "extract_subregion", inside)
    q = _counting(ctx, mesh)
    shapes = [([0, 1, 2, 3, 4, 5], [0, 1, 2]), ([2, 3, 5, 6, 7], [3, 5, 6]), ([1, 2, 3], [1, 2, 3]), ([8, 9], [8])]
    used = [shapes[ctx.choice("c0", [0, 1, 2])], shapes[ctx.choice("c1", [0, 1, 2])], shapes[ctx.choice("c2", [0, 1, 3])]]
    d = [ctx.real(f"d{i}", 1e3, 1e6) for i in range(3)]
    craters = [_crater(ctx, mesh, i, *used[i], d[i]) for i in range(3)]
    want = [[] for _ in range(s.n_face)]
    seen = {}
    for i, c in enumerate(craters):
        q.add(c)
        cells, rim = used[i]
        if len(cells) < 3:
            continue
        for f in cells:
            want[f] = [*want[f], i]
        seen[i] = c
        for j in list(seen):
            if j == i:
                continue
            here = [f for f in rim if j in want[f]]
            if here and bool(d[j] < d[i]):
                for f in here:
                    want[f] = [x for x in want[f] if x != j]
                if not any(j in w for w in want):
                    del seen[j]
        _same_marks(ctx, s, [[craters[x].id for x in w] for w in want], "a crater marks its region and takes the marks of smaller craters within its rim", "crater_id")
        ctx.check(sorted(q.observed) == sorted(craters[j].id for j in seen), "the craters observed are those that still have a mark")
        ctx.check(all(q.observed[craters[j].id] is craters[j] for j in seen), "each identifier names its own crater")
    q.remove(BIG)
    ctx.check(BIG not in q.observed and not (s._uxds["crater_id"].data == BIG).any(), "a crater removed is gone from the record and the surface")


@harness("P21", bounds="3 marked craters with any state of degradation and any threshold each, one unknown mark; tally of the surface or a region, measuring rims or not", time=40, stubs="degradation and visibility: any values; rim measurement", max_paths=400)
def tally(ctx):
    mesh = Mesh(ctx)
    s = mesh.s
    q = _counting(ctx, mesh)
    where = [[0, 1, 2], [2, 3], [5, 6]]
    craters = [_crater(ctx, mesh, i, where[i], where[i], ctx.real(f"d{i}", 1e3, 1e6)) for i in range(3)]
    s.add_tag("crater_id", tag=None)
    data = s._uxds["crater_id"].data
    for c, cells in zip(craters, where):
        q.observed[c.id] = c
        for f in cells:
            data[f, 1 + cells.index(f)] = c.id
    data[9, 0] = data[2, 7] = 77  # a mark without a crater
    state = {c.id: ctx.real(f"state{i}", 0, 1e6) for i, c in enumerate(craters)}
    limit = {c.id: ctx.real(f"limit{i}", 0, 1e6) for i, c in enumerate(craters)}
    measured = []
    ctx.patch(type(q), "measure_degradation_state", lambda self, crater, **k: state[crater.id])
    ctx.patch(type(q), "visibility_function", lambda self, crater, **k: limit[crater.id])
    ctx.patch(type(q), "fit_rim", lambda self, crater, fit_center=False, fit_ellipse=False, **k: (measured.append((crater.id, fit_center, fit_ellipse)), crater)[1])
    rim = ctx.choice("measure", [False, True])
    part = ctx.choice("part", ["all", "region", "quiet"])
    kw = {"fit_center": True, "fit_ellipse": True} if rim else {}
    if part == "region":
        q.tally(mesh.region([0, 1, 9], 6e5), measure_rim=rim, **kw)
        counted = [0]
    else:
        q.tally(measure_rim=rim, quiet=part == "quiet", **kw)
        counted = [0, 1, 2]
    left = _marks(s, "crater_id")
    for i, c in enumerate(craters):
        gone = i in counted and bool(state[c.id] >= limit[c.id])
        ctx.check((c.id in q.observed) == (not gone), "a crater counted is kept if it can be seen, and dropped if not")
        ctx.check(all((c.id in left[f]) == (not gone) for f in where[i]), "its marks go with it")
        if not gone:
            ctx.check(q.observed[c.id] is c, "the crater kept is the one recorded")
    ctx.check(not any(77 in x for x in left), "marks without a crater are removed")
    if rim:
        ctx.check(sorted(m[0] for m in measured) == sorted(craters[i].id for i in counted), "each crater counted is measured once")
        ctx.check(all(m[1] and m[2] for m in measured), "each crater is measured in the way asked for")
    else:
        ctx.check(measured == [], "rims are measured only when asked for")


@harness("P21", bounds="any measured depth of craters of 4 sizes, against any other", time=40, max_paths=100)
def degradation(ctx):
    from cratermaker.components.counting.depthcount import DepthCount

    class C(Fake):
        pass

    class D(DepthCount):
        def __init__(self):
            pass

    q = D()
    size = ctx.choice("size", [20.0, 5e3, 1e4, 8e4])
    fresh = ctx.choice("fresh", [0.2, 0.08])
    ratio = ctx.real("ratio", 0.01, 2.0)
    than = ctx.real("than", 0.01, 2.0)
    out = []
    for r in (ratio, than, 0.01, 0.0, -0.5):
        c = C()
        c.measured_diameter, c.measured_radius, c.depth_to_diameter = size, size / 2, fresh
        c.measured_depth_to_diameter = r * fresh
        K = q.measure_degradation_state(c)
        ctx.close(c.degradation_state, K, "the state measured is recorded")
        out.append(K)
    if bool(ratio < than * 0.999):
        ctx.lt(out[1], out[0], "the shallower of two craters is the more degraded")
    elif bool(ratio > than * 1.001):
        ctx.lt(out[0], out[1], "the deeper of two craters is the less degraded")
    ctx.check(out[2] < out[3] and out[2] < out[4], "a crater filled in is more degraded than one that is not")
    c.measured_depth_to_diameter = fresh
    K = q.measure_degradation_state(c)
    ctx.close(K, 0.0, "a crater as deep as it was made is not degraded", abs_=1e-3)
    c.measured_depth_to_diameter = None
    ctx.check(q.measure_degradation_state(c) == 0.0, "a crater that cannot be measured counts as fresh")
    k1, g = ctx.real("Kv1", 0.01, 10), ctx.choice("gamma", [1.0, 2.0, 3.0])
    ctx.close(q.visibility_function(c, Kv1=k1, gamma=g), k1 * (size / 2) ** g, "visibility grows with the radius as stated")
    ctx.close(q.visibility_function(c), 0.30 * (size / 2) ** 2, "visibility without parameters")
