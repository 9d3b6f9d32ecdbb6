"""P20: a region is a window on the surface: it holds what lies within it, and what is done through it is done there and nowhere else."""
import numpy as np

from sx.ctx import harness
from props.P19 import Mesh, _faces, _nodes

FILL = -9223372036854775808


def _cells(ctx, mesh, kind):
    """A region of the mesh: extracted, the surroundings of one face, any three faces, one with as many faces as nodes, or everything."""
    s = mesh.s
    at = (float(s.face_lon[4]) + 2.0, float(s.face_lat[4]) - 3.0)
    if kind == "extracted":
        return s.extract_region(at, 6e5)
    if kind == "wide":
        return s.extract_region(at, 6e6)
    if kind == "subregion":
        return s.extract_region(at, 2.2e6).extract_subregion(6e5)
    if kind == "three":
        return mesh.region([7, 2, 9], 6e5)
    if kind == "square":  # as many nodes as faces
        return mesh.region([1, 3, 5, 8, 10], 6e5, nodes=[0, 4, 11, 17, 19])
    return s._full()


def _only(ctx, before, after, ids, want, what):
    """`after` differs from `before` at the places `ids` only, and is `want` there."""
    for i, (a, b) in enumerate(zip(before, after)):
        if i in ids:
            ctx.close(b, want[ids.index(i)], what + ": the value within the region", abs_=1e-6)
        else:
            ctx.check(a == b, what + ": nothing beyond the region changes")


REGIONS = ["extracted", "wide", "subregion", "three", "square", "whole"]


@harness("P20", bounds="regions of the 12-face mesh: extracted, all around, a subregion, 3 faces in any order, with as many faces as nodes, the whole; any data, any values before", time=60, stubs="distances in Python; node elevation from faces: any values", max_paths=600, shard=("region", 6))
def write(ctx):
    kind = ctx.choice("region", REGIONS)
    what = ctx.choice("what", ["add", "replace", "positive", "new", "scalar", "new node scalar", "elevation of both", "elevation of faces", "elevation of nodes", "one elevation", "wrong size"])
    over = ctx.choice("overwrite", [False, True])
    mesh = Mesh(ctx)
    s = mesh.s
    mesh.put("node_data", [1.5 * i for i in range(s.n_node)])
    mesh.put("ejecta_thickness", [ctx.real(f"old{i}", -1e3, 1e3) if i < 6 else 30.0 - 4.0 * i for i in range(s.n_face)])  # of either sign
    r = _cells(ctx, mesh, kind)
    F, N = _faces(r, s.n_face), _nodes(r, s.n_node)
    ctx.check(r.n_face == len(F) and r.n_node == len(N), "the region knows how many faces and nodes it has")
    names = ["face_elevation", "node_elevation", "ejecta_thickness", "node_data"]
    old = {k: mesh.get(k) for k in names}
    vals = lambda n, tag, lo=-1e4: [ctx.real(f"{tag}{i}", lo, 1e4) if i < 3 else 2.5 * i - 3.0 for i in range(n)]
    from cratermaker.bindings import surface_bindings as sb

    target, ids, want, created = None, F, None, None
    changed = {}
    if what in ("add", "replace", "positive"):
        v = vals(len(F), "v")
        r.add_data("ejecta_thickness", ctx.arr(v), overwrite=over or what == "replace", positive_only=what == "positive")
        w = [x if over or what == "replace" else old["ejecta_thickness"][i] + x for i, x in zip(F, v)]
        if what == "positive":
            w = [ctx.np.maximum(x, 0.0) for x in w]
        changed = {"ejecta_thickness": (F, w)}
    elif what == "new":
        v = vals(len(F), "v")
        r.add_data("fresh", ctx.arr(v), fill_value=7.0, overwrite=over)
        got = mesh.get("fresh")
        _only(ctx, [7.0] * s.n_face, got, F, v, "new data are added to the surface")
    elif what == "scalar":
        v = ctx.real("v0", -1e4, 1e4)
        v = float(v) if not ctx.sym else v
        r.add_data("ejecta_thickness", v, overwrite=over)
        changed = {"ejecta_thickness": (F, [v if over else old["ejecta_thickness"][i] + v for i in F])}
    elif what == "new node scalar":
        r.add_data("fresh", 4.0, isfacedata=False, fill_value=7.0, overwrite=over)
        got = mesh.get("fresh")
        ctx.check(len(got) == s.n_node, "data for nodes have a value for each node")
        _only(ctx, [7.0] * s.n_node, got, N, [4.0] * len(N), "new node data are added to the surface")
    elif what == "elevation of both":
        v = vals(len(F), "v") + vals(len(N), "w")
        r.update_elevation(ctx.arr(v), overwrite=over)
        changed = {
            "face_elevation": (F, [x if over else old["face_elevation"][i] + x for i, x in zip(F, v)]),
            "node_elevation": (N, [x if over else old["node_elevation"][i] + x for i, x in zip(N, v[len(F) :])]),
        }
    elif what == "elevation of faces":
        v, w = vals(len(F), "v"), vals(len(N), "w")
        ctx.patch(sb, "interpolate_node_elevation_from_faces", lambda region=None, **k: ctx.arr(w))
        r.update_elevation(ctx.arr(v), overwrite=over)
        changed = {"face_elevation": (F, [x if over else old["face_elevation"][i] + x for i, x in zip(F, v)]), "node_elevation": (N, w)}
    elif what == "elevation of nodes":
        if len(F) == len(N):  # could be either
            return
        w = vals(len(N), "w")
        r.update_elevation(ctx.arr(w), overwrite=over)
        changed = {"node_elevation": (N, [x if over else old["node_elevation"][i] + x for i, x in zip(N, w)])}
    elif what == "one elevation":
        v = -12.5
        r.update_elevation(v, overwrite=over)
        changed = {k: (ids, [v if over else old[k][i] + v for i in ids]) for k, ids in (("face_elevation", F), ("node_elevation", N))}
    else:
        n = len(F) + len(N) + 1
        a = ctx.call(r.update_elevation, np.zeros(n), raises=ValueError)
        b = ctx.call(r.add_data, "ejecta_thickness", np.zeros(n), raises=ValueError)
        c = ctx.call(r.compute_volume, np.zeros(len(F) + 1), raises=ValueError)
        ctx.check(not a.ok and not b.ok and not c.ok, "data of another size are refused")
    for k in names:
        ids, want = changed.get(k, ([], []))
        _only(ctx, old[k], mesh.get(k), ids, want, k)


@harness("P20", bounds="the same regions; any elevations; any diffusion result, noise and collapse", time=40, stubs="as write; diffusion, collapse and noise: any values", max_paths=200)
def process(ctx):
    kind = ctx.choice("region", REGIONS)
    what = ctx.choice("what", ["diffusion", "no diffusion", "negative diffusion", "collapse", "noise"])
    mesh = Mesh(ctx)
    s = mesh.s
    r = _cells(ctx, mesh, kind)
    F, N = _faces(r, s.n_face), _nodes(r, s.n_node)
    names = ["face_elevation", "node_elevation", "ejecta_thickness"]
    old = {k: mesh.get(k) for k in names}
    from cratermaker.bindings import surface_bindings as sb

    d = [ctx.real(f"d{i}", -1e3, 1e3) if i < 3 else 4.0 - 2.5 * i for i in range(len(F))]
    nodes = [9.0 + i for i in range(len(N))]
    asked = []

    def diffuse(face_kappa, face_variable, region):
        asked.append(list(face_kappa))
        for i, x in zip(F, face_variable):
            ctx.close(x, old["face_elevation"][i], "the elevations of the region are diffused")
        return ctx.arr(d)

    ctx.patch(sb, "apply_diffusion", diffuse)
    ctx.patch(sb, "slope_collapse", lambda critical_slope, region: ctx.arr(d))
    ctx.patch(sb, "interpolate_node_elevation_from_faces", lambda region=None, **k: ctx.arr(nodes))
    raw = d + [3.0 * i for i in range(len(N))]
    ctx.patch(sb, "turbulence_noise", lambda **k: ctx.arr(raw))
    if what == "negative diffusion":
        k = [1.0] * len(F)
        k[1] = ctx.real("k", -1e3, -1e-3)
        q = ctx.call(r.apply_diffusion, ctx.arr(k), raises=ValueError)
        ctx.check(not q.ok, "a negative diffusion is refused")
        for n in names:
            _only(ctx, old[n], mesh.get(n), [], [], n)
        return
    if what == "no diffusion":
        r.apply_diffusion(0.0)
        for n in names:
            _only(ctx, old[n], mesh.get(n), [], [], n)
        return
    if what == "diffusion":
        k = [ctx.real(f"k{i}", 0, 1e3) if i < 2 else 0.5 * i for i in range(len(F))]
        one = ctx.choice("one value", [False, True])
        r.apply_diffusion(2.5 if one else ctx.arr(k))
        ctx.check(len(asked) == 1, "the diffusion is applied once")
        for x, y in zip(asked[0], [2.5] * len(F) if one else k):
            ctx.close(x, y, "each face diffuses by its own amount")
    if what == "collapse":
        r.slope_collapse()
    if what == "noise":
        r.apply_noise()
        total = sum(((mesh.get("face_elevation")[i] - old["face_elevation"][i]) * mesh.area[i] for i in F), 0.0)
        ctx.close(total, 0.0, "noise does not change the volume of the region", abs_=1e7)
        for n, ids in (("face_elevation", F), ("node_elevation", N)):
            now = mesh.get(n)
            for i in range(len(now)):
                if i not in ids:
                    ctx.check(now[i] == old[n][i], "noise stays within the region")
        a, b = F[0], F[-1]
        diff = (mesh.get("face_elevation")[a] - old["face_elevation"][a]) - (mesh.get("face_elevation")[b] - old["face_elevation"][b])
        ctx.close(diff, d[0] - d[len(F) - 1], "the shape of the noise is kept", abs_=1e-6)
        return
    _only(ctx, old["face_elevation"], mesh.get("face_elevation"), F, [old["face_elevation"][i] + x for i, x in zip(F, d)], "elevation")
    _only(ctx, old["node_elevation"], mesh.get("node_elevation"), N, nodes, "node elevation")
    _only(ctx, old["ejecta_thickness"], mesh.get("ejecta_thickness"), F, [ctx.np.maximum(old["ejecta_thickness"][i] + x, 0.0) for i, x in zip(F, d)], "ejecta")


CONN = {"face_node_connectivity": "fn", "face_edge_connectivity": "fe", "face_face_connectivity": "ff", "node_face_connectivity": "nf", "edge_face_connectivity": "ef", "edge_node_connectivity": "en"}


@harness("P20", bounds="the 12-face mesh: any 1 or 2 faces, or all within any radius of 3 places, as the centre of the region; subregions of any radius", time=60, stubs="the faces within the radius: any", max_paths=900, shard=("how", 2))
def members(ctx):
    how = ctx.choice("how", ["any faces", "radius"])
    mesh = Mesh(ctx)
    s = mesh.s
    fn, fe, ff = s.face_node_connectivity, s.face_edge_connectivity, s.face_face_connectivity
    if how == "any faces":
        a, b = ctx.choice("a", range(s.n_face)), ctx.choice("b", [0, 1, 5, 11])
        core = sorted({a, b})

        class Tree:
            def query_radius(self, coords, angle, *a, **k):
                return np.array(core)

        ctx.patch(type(s), "face_tree", property(lambda x: Tree()))
        r = s.extract_region((10.0, 20.0), 1e6)
    else:
        place = ctx.choice("place", [0, 4, 8])
        at = (float(s.face_lon[place]), float(s.face_lat[place]))
        full = s.extract_region(at, ctx.choice("full", [1.3e6, 2.5e6, 6e6]))
        dist = dict(zip(_faces(full, s.n_face), full.face_distance))
        radius = ctx.choice("radius", [1e3, 1.2e6, 2.1e6])
        r = full.extract_subregion(radius)
        core = [i for i, x in dist.items() if x <= radius]
        ctx.check((r is not None) or not core, "a subregion with a face within its radius is not empty")
        if r is None:
            return
        ctx.check(tuple(r.location) == tuple(full.location) and r.region_radius == radius, "a subregion has the place of its region and the radius asked for")
        if radius >= full.region_radius:
            ctx.check(sorted(_faces(r, 12)) == sorted(_faces(full, 12)), "a subregion is not larger than its region")
            core = []
    F, N = _faces(r, s.n_face), _nodes(r, s.n_node)
    E_ = [int(i) for i in np.arange(s.n_edge)[r.edge_indices]]
    ctx.check(len(set(F)) == len(F) and len(set(N)) == len(N) and len(set(E_)) == len(E_), "nothing is in a region twice")
    nodes_of = lambda i: {int(x) for x in fn[i] if x != FILL}
    for i in core:
        ctx.check(i in F, "every face within the radius is in the region")
        for j in range(s.n_face):
            if nodes_of(i) & nodes_of(j):
                ctx.check(j in F, "so is every face that touches one of them")
        for x in fe[i]:
            if x != FILL:
                ctx.check(int(x) in E_, "the edges of a face within the radius are in the region")
    if core:
        for j in F:
            ctx.check(any(nodes_of(i) & nodes_of(j) for i in core), "no face beyond those is in the region")
    for i in F:
        ctx.check(nodes_of(i) <= set(N), "the nodes of a face of the region are in the region")
    for x in N:
        ctx.check(any(x in nodes_of(i) for i in F), "every node of the region belongs to one of its faces")
    rows = {"f": F, "n": N, "e": E_}
    for name, (a, b) in CONN.items():
        local, glob = getattr(r, name), getattr(s, name)
        ctx.check(local.shape == (len(rows[a]), glob.shape[1]), name + " has a row for each of its own")
        for k, i in enumerate(rows[a]):
            for x, y in zip(local[k], glob[i]):
                inside = y != FILL and int(y) in rows[b]
                if not inside:
                    ctx.check(x == FILL, name + " has no entry for what is not in the region")
                else:
                    ctx.check(0 <= x < len(rows[b]) and rows[b][int(x)] == y, name + " names the same neighbour as the surface")


@harness("P20", bounds="the same regions; any elevations (3 free)", time=30, stubs="as write; least squares: any plane", max_paths=60)
def reading(ctx):
    """Looking at a region tells what the surface has there, and changes nothing."""
    kind = ctx.choice("region", REGIONS)
    mesh = Mesh(ctx)
    s = mesh.s
    r = _cells(ctx, mesh, kind)
    F, N = _faces(r, s.n_face), _nodes(r, s.n_node)
    names = ["face_elevation", "node_elevation", "ejecta_thickness"]
    old = {k: mesh.get(k) for k in names}
    for k, ids in (("face_elevation", F), ("node_elevation", N), ("ejecta_thickness", F)):
        got = getattr(r, k)
        ctx.check(len(got) == len(ids), k + " has the size of the region")
        for x, i in zip(got, ids):
            ctx.check(x == old[k][i], k + " is that of the surface")
    for k in ("face_lon", "face_lat", "face_x", "face_y", "face_z", "face_area", "face_size"):
        ctx.check([float(x) for x in getattr(r, k)] == [float(getattr(s, k)[i]) for i in F], k + " is that of the surface")
    for k in ("node_lon", "node_lat", "node_x", "node_y", "node_z"):
        ctx.check([float(x) for x in getattr(r, k)] == [float(getattr(s, k)[i]) for i in N], k + " is that of the surface")
    ctx.close(r.area, float(sum(mesh.area[i] for i in F)), "the area is that of its faces")
    h = [ctx.real(f"h{i}", -1e4, 1e4) if i < 4 else 1.0 for i in range(len(F))]
    ctx.close(r.compute_volume(ctx.arr(h)), sum((x * mesh.area[i] for x, i in zip(h, F)), 0.0), "a volume is height times area", abs_=1e4)
    if kind != "whole":
        c = [ctx.real(f"c{i}", -1e-3, 1e-3) for i in range(3)]
        fits = []

        def lstsq(A, z, rcond=None):
            fits.append((A, list(z)))
            return ctx.arr(c), None, None, None

        ctx.patch(np.linalg, "lstsq", lstsq)
        only = ctx.choice("only faces", [True, False])
        R = ctx.choice("radius", [1e3, 4e6, None])
        q = r.get_reference_surface(reference_radius=R, only_faces=only)
        ctx.check(len(q) == len(F) + (0 if only else len(N)), "a reference has the size of the region")
        dist = list(r.face_distance) + ([] if only else list(r.node_distance))
        elev = [old["face_elevation"][i] for i in F] + ([] if only else [old["node_elevation"][i] for i in N])
        near = [d <= (r.region_radius if R is None else R) for d in dist]
        if fits:
            ctx.check(len(fits) == 1 and len(fits[0][1]) == sum(near), "a plane through the points within the reference radius")
            for z, w in zip(fits[0][1], [e for e, n in zip(elev, near) if n]):
                ctx.check(z == w, "at their elevations")
            plane = [c[0] * float(a[0]) + c[1] * float(a[1]) + c[2] for a in fits[0][0]]
        else:
            ctx.check(sum(near) < 5 or not (only or any(near[len(F) :])), "a reference is fitted to 5 points or more")
        k = 0
        for x, e, n in zip(q, elev, near):
            if n and fits:
                ctx.close(x, plane[k], "the reference is the plane within the radius", abs_=1e-6)
                k += 1
            else:
                ctx.close(x, e, "the reference is the surface beyond the radius")
        r.compute_desloped_face_elevation()
    for k in names:
        for a, b in zip(old[k], mesh.get(k)):
            ctx.check(a == b, "looking at a region does not change the surface")
