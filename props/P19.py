"""P19: forming a crater moves material within its own region and neither creates nor destroys any."""
import numpy as np

from sx.ctx import harness
from props.P15 import _scratch, _surface


def _bindings(ctx, level=0):
    """Great circle distances and bearings as the compiled module computes them."""
    from cratermaker.bindings import surface_bindings as sb

    def distances(lon1, lat1, lon2, lat2, radius):
        h = np.sin((lat2 - lat1) / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin((lon2 - lon1) / 2) ** 2
        return 2 * radius * np.arcsin(np.sqrt(h))

    def bearings(lon1, lat1, lon2, lat2):
        return np.arctan2(np.sin(lon2 - lon1) * np.cos(lat2), np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(lon2 - lon1))

    ctx.patch(sb, "compute_distances", distances)
    ctx.patch(sb, "compute_bearings", bearings)
    # no property here asks for the elevation of the nodes between given faces: any values will do
    ctx.patch(sb, "interpolate_node_elevation_from_faces", lambda region=None, **k: np.full(region.n_node, 77.0))
    ctx.patch(sb, "compute_edge_distances", lambda *a, edge_face_connectivity=None, **k: np.ones(30 * 4**level))


_MADE = {}


def _template(ctx, level=0):
    """The 12-face surface (42 faces at level 1, 162 at level 2) is made once; each history gets a copy of it."""
    if level not in _MADE:
        import os
        import pathlib
        import tempfile

        root = pathlib.Path(tempfile.mkdtemp(dir=os.environ.get("SX_SCRATCH")))
        _MADE[level] = _surface(ctx, root) if level == 0 else _fine(root, level)
    t = _MADE[level]
    s = object.__new__(type(t))
    s.__dict__.update(t.__dict__)
    object.__setattr__(s, "_uxds", t._uxds.copy())
    return s


def _fine(root, level):
    from cratermaker import Surface

    return Surface.maker("icosphere", gridlevel=level, simdir=root, ask_overwrite=False)


class Mesh:
    """The 12-face surface (or a finer one) with any elevations (of the first few faces and nodes); face areas all differ."""

    def __init__(self, ctx, ejecta=True, level=0):
        self.ctx = ctx
        self.root, _ = _scratch(ctx)
        _bindings(ctx, level)
        s = self.s = _template(ctx, level)
        self.area = np.array([1e10 * (1 + i / 7) for i in range(s.n_face)])
        s._uxds["face_area"] = (("n_face",), self.area)
        ctx.patch(type(s), "face_area", property(lambda x: self.area))
        ctx.patch(s, "_add_new_data", self._new)
        self.put("face_elevation", [ctx.real(f"ef{i}", -1e4, 1e4) if i < 12 else 5.0 for i in range(s.n_face)])
        self.put("node_elevation", [ctx.real(f"en{i}", -1e4, 1e4) if i < 20 else 5.0 for i in range(s.n_node)])
        if ejecta:
            self.put("ejecta_thickness", [ctx.real(f"ej{i}", 0, 1e3) if i < 12 else 50.0 + i for i in range(s.n_face)])

    def put(self, name, values):
        dim = "n_face" if len(values) == self.s.n_face else "n_node"
        self.s._uxds[name] = ((dim,), self.ctx.arr(values))

    def _new(self, name, data, long_name=None, units=None, isfacedata=True, dtype=None, **k):
        self.put(name, [data] * (self.s.n_face if isfacedata else self.s.n_node))

    def get(self, name):
        return list(self.s._uxds[name].data)

    def region(self, faces, radius, location=(10.0, 20.0), nodes=None):
        from cratermaker.components.surface import LocalSurface

        faces = np.array(faces)
        return LocalSurface(self.s, face_indices=faces, node_indices=None if nodes is None else np.array(nodes), location=location, region_radius=radius)


class Site:
    """A crater and its surroundings on the mesh, with any change of shape."""

    def __init__(self, ctx, place, radius, rmax, ejecta=True, rays=False, counting=True, symbolic=4, level=0):
        from cratermaker.components.morphology import Morphology
        from cratermaker.components.morphology.basicmoon import BasicMoonCrater, BasicMoonMorphology

        self.ctx = ctx
        self.mesh = Mesh(ctx, ejecta=ejecta, level=level)
        s = self.s = self.mesh.s
        m = self.m = Morphology.maker("basicmoon", surface=s, simdir=self.mesh.root, ask_overwrite=False, do_slope_collapse=False, do_counting=counting, dorays=rays, rng_seed=1, scaling="ctem")
        self.calls = []
        ctx.patch(BasicMoonMorphology, "rmax", lambda m, c, *a, **k: rmax)
        ctx.patch(BasicMoonMorphology, "crater_shape", lambda m, c, region, **k: self.shape(region))
        ctx.patch(BasicMoonMorphology, "ejecta_shape", lambda m, c, region, **k: self.blanket(region))
        L = type(s._full())
        ctx.patch(L, "apply_diffusion", lambda r, k: self.calls.append(("diffusion", r, k)))
        ctx.patch(L, "slope_collapse", lambda r, *a, **k: self.calls.append(("collapse", r)))
        ctx.patch(type(m.counting), "add", lambda c, crater, **k: self.calls.append(("count", crater)))
        self.symbolic = symbolic
        self.c = BasicMoonCrater.maker(morphology=m, radius=radius, location=(float(s.face_lon[place]) + 1.0, float(s.face_lat[place])), rng_seed=5)
        self.dug, self.thrown = None, None
        self.n_thrown = 0

    def shape(self, region):
        n, k = region.n_face + region.n_node, self.symbolic
        self.dug = self.ctx.arr([self.ctx.real(f"dug{i}", -1e4, 1e4) if i < k or i == region.n_face else -3.0 * i for i in range(n)])
        return self.dug.copy()

    def blanket(self, region):
        n = region.n_face + region.n_node
        t = [self.ctx.real(f"thrown{i}", 0, 1e3) if i in (1, 3, region.n_face + 1) else 2.0 + i for i in range(n)]
        t[0] = -1.0  # thinner than nothing: no ejecta
        if self.n_thrown is None:
            t = [0.0] * n
        self.thrown = t
        return self.ctx.arr(t), np.ones(n)


def _faces(region, n):
    return [int(i) for i in np.arange(n)[region.face_indices]]


def _nodes(region, n):
    return [int(i) for i in np.arange(n)[region.node_indices]]


@harness("P19", bounds="3 places on the 12-face mesh (areas all different), the crater within one face's surroundings, ejecta reaching 6 or all faces or the whole surface; any elevations, any excavation, any ejecta profile (4 + 3 values free)", time=80, stubs="crater and ejecta shapes: any values; diffusion; distances in Python", max_paths=200, shard=("place", 3))
def crater(ctx):
    place = ctx.choice("place", [0, 5, 11])
    rmax = ctx.choice("rmax", [6e5, 2.2e6, 6e6])
    ejecta = ctx.choice("old ejecta", [True, False])
    counting = ctx.choice("counting", [True, False])
    site = Site(ctx, place, 5e5, rmax, ejecta=ejecta, counting=counting)
    s, m, c = site.s, site.m, site.c
    before = {k: site.mesh.get(k) for k in ("face_elevation", "node_elevation")}
    ctx.check(bool(c.emplaceable), "the crater is large enough for the mesh")
    old = site.mesh.get("ejecta_thickness") if ejecta else [0.0] * s.n_face
    region = c.ejecta_region
    faces, nodes = _faces(region, s.n_face), _nodes(region, s.n_node)
    m.form_crater(c)
    after = {k: site.mesh.get(k) for k in before}
    for k, inside in (("face_elevation", faces), ("node_elevation", nodes)):
        for i, (a, b) in enumerate(zip(before[k], after[k])):
            if i not in inside:
                ctx.check(a == b, "the surface beyond the ejecta is not changed")
    dug = sum((site.dug[j] * site.mesh.area[i] for j, i in enumerate(faces)), 0.0)
    if not bool(dug == 0):
        total = sum(((after["face_elevation"][i] - before["face_elevation"][i]) * site.mesh.area[i] for i in faces), 0.0)
        ctx.close(total, 0.0, "what is excavated is what is thrown out: the volume of the surface is the same", abs_=1e-3 * 1e13)
        t = [site.ctx.np.maximum(x, 0.0) if not isinstance(x, float) else max(x, 0.0) for x in site.thrown]
        factor = -dug / sum((t[j] * site.mesh.area[i] for j, i in enumerate(faces)), 0.0)
        for j, i in enumerate(faces):
            ctx.close(after["face_elevation"][i], before["face_elevation"][i] + site.dug[j] + t[j] * factor, "each face changes by the crater and its share of the ejecta", abs_=1e-3)
        for j, i in enumerate(nodes):
            k = len(faces) + j
            ctx.close(after["node_elevation"][i], before["node_elevation"][i] + site.dug[k] + t[k] * factor, "each node changes by the crater and its share of the ejecta", abs_=1e-3)
    ctx.check(sum(1 for e in m.counting.emplaced if e is c) == 1 and len(m.counting.emplaced) == 1, "the crater is recorded once")
    ctx.check(sum(1 for e in site.calls if e[0] == "count") == (1 if counting else 0), "it is counted if counting is on")


@harness("P19", bounds="as crater; ejecta thickness before: any", time=40, stubs="as crater", max_paths=100)
def ejecta_record(ctx):
    """Where the ejecta lie is recorded: new ejecta are added, those within the crater are gone."""
    place = ctx.choice("place", [0, 7])
    rmax = ctx.choice("rmax", [6e5, 2.2e6, 6e6])
    present = ctx.choice("old ejecta", [True, False])
    site = Site(ctx, place, 5e5, rmax, ejecta=present, symbolic=2)
    s, c = site.s, site.c
    old = site.mesh.get("ejecta_thickness") if present else [0.0] * s.n_face
    faces = _faces(c.ejecta_region, s.n_face)
    buffer = set(_faces(c.crater_region, s.n_face))
    inner = {i for i, d in zip(_faces(c.crater_region, s.n_face), c.crater_region.face_distance) if d <= c.radius}
    site.m.form_crater(c)
    new = site.mesh.get("ejecta_thickness")
    dug = sum((site.dug[j] * site.mesh.area[i] for j, i in enumerate(faces)), 0.0)
    if bool(dug == 0):
        return
    t = [ctx.np.maximum(x, 0.0) if not isinstance(x, float) else max(x, 0.0) for x in site.thrown]
    factor = -dug / sum((t[j] * site.mesh.area[i] for j, i in enumerate(faces)), 0.0)
    for i in range(s.n_face):
        if i not in faces:
            ctx.check(new[i] == old[i], "ejecta beyond the region stay as they were")
            continue
        gain = t[faces.index(i)] * factor
        if i in inner:
            ctx.close(new[i], gain, "ejecta within the crater are gone before new ones fall", abs_=1e-3)
        elif i not in buffer:
            ctx.close(new[i], old[i] + gain, "new ejecta are added to the old ones", abs_=1e-3)
        else:
            ctx.check(ctx.any([abs(new[i] - gain) < 1e-3, abs(new[i] - old[i] - gain) < 1e-3]), "around the rim new ejecta are added")
    kept = [e for e in site.calls if e[0] == "diffusion"]
    ctx.check(all(e[1] is c.ejecta_region or _faces(e[1], s.n_face) == faces for e in kept), "what the ejecta degrade lies within the region")


@harness("P19", bounds="a finer mesh of 162 faces; 3 places, radius 400 km or 1000 km; any thickness of the new ejecta (3 values free)", time=60, stubs="as crater", max_paths=60, shard=("place", 3))
def rim(ctx):
    """On a mesh that resolves the rim: the ejecta thickness starts anew within the crater, and only there."""
    place = ctx.choice("place", [3, 70, 161])
    radius = ctx.choice("radius", [4e5, 1e6])
    site = Site(ctx, place, radius, 2.5e6, symbolic=1, level=2)
    s, c = site.s, site.c
    old = site.mesh.get("ejecta_thickness")
    faces = _faces(c.ejecta_region, s.n_face)
    far = dict(zip(faces, c.ejecta_region.face_distance))
    inner = {i for i in faces if far[i] <= c.radius}
    near = set()  # faces that touch a face within the rim
    for i in inner:
        nodes = {int(n) for n in s.face_node_connectivity[i] if n >= 0}
        near |= {j for j in range(s.n_face) if nodes & {int(n) for n in s.face_node_connectivity[j] if n >= 0}}
    site.m.form_crater(c)
    new = site.mesh.get("ejecta_thickness")
    dug = sum((site.dug[j] * site.mesh.area[i] for j, i in enumerate(faces)), 0.0)
    if bool(dug == 0):
        return
    t = [ctx.np.maximum(x, 0.0) if not isinstance(x, float) else max(x, 0.0) for x in site.thrown]
    factor = -dug / sum((t[j] * site.mesh.area[i] for j, i in enumerate(faces)), 0.0)
    for i in range(s.n_face):
        if i in inner:
            ctx.close(new[i], t[faces.index(i)] * factor, "ejecta within the crater are gone before new ones fall", abs_=1e-3)
        elif i not in far:
            ctx.check(new[i] == old[i], "ejecta beyond the region stay as they were")
        elif i not in near:
            ctx.close(new[i], old[i] + t[faces.index(i)] * factor, "new ejecta are added to the old ones beyond the rim", abs_=1e-3)
    ctx.check(len(inner) > 0 and len(set(far) - near) > 0, "the mesh resolves the rim")


@harness("P19", bounds="a crater not larger than its face; nothing excavated; no ejecta within the region; ejecta asked for before anything was excavated", time=30, stubs="as crater", max_paths=60)
def nothing(ctx):
    kind = ctx.choice("kind", ["small", "large enough", "level", "no ejecta", "ejecta first"])
    site = Site(ctx, 3, 5e5, 2.2e6, symbolic=1)
    s, m, c = site.s, site.m, site.c
    names = ("face_elevation", "node_elevation", "ejecta_thickness")
    if kind == "large enough":
        area = ctx.arr([1e15] * s.n_face)
        area[c.face_index] = np.pi * c.crater_region.radius**2 * (0.9 - ctx.real("share", 0.0, 0.5))
        ctx.patch(type(s), "face_area", property(lambda x: area))
    if kind == "small":
        k = ctx.real("share", 0.0, 1.0)
        site.mesh.area[:] = ctx.choice("other faces", [1e15, 1e5])
        area = ctx.arr(list(site.mesh.area))
        area[c.face_index] = np.pi * c.crater_region.radius**2 * 1.0 if ctx.choice("equal", [False, True]) else np.pi * c.crater_region.radius**2 * (1.0 + k)
        ctx.patch(type(s), "face_area", property(lambda x: area))
    if kind == "level":
        n = c.ejecta_region.n_face + c.ejecta_region.n_node
        site.shape = lambda region: np.zeros(n)
    if kind == "no ejecta":
        site.n_thrown = None
        site.dug = None
    before = {k: site.mesh.get(k) for k in names}
    if kind == "ejecta first":
        m.form_ejecta(c)
    else:
        m.form_crater(c)
    after = {k: site.mesh.get(k) for k in names}
    if kind == "small":
        ctx.check(m.counting.emplaced == [] and site.calls == [], "a crater smaller than a face is not formed, recorded or counted")
    if kind == "large enough":
        ctx.check(m.counting.emplaced == [c], "a crater larger than the face it lies on is formed, whatever the other faces")
    elif kind in ("small", "ejecta first"):
        for k in names:
            for a, b in zip(before[k], after[k]):
                ctx.check(a == b, "the surface is not changed")
    else:
        ejr = c.ejecta_region
        for k, ids, off in (("face_elevation", _faces(ejr, s.n_face), 0), ("node_elevation", _nodes(ejr, s.n_node), ejr.n_face)):
            for j, i in enumerate(ids):
                d = 0.0 if kind == "level" else site.dug[off + j]
                ctx.close(after[k][i], before[k][i] + d, "without ejecta only the crater changes the surface")
