"""P31: exported surface files show every face in its place with the data of the asked interval."""
import math
import re
from pathlib import Path

import numpy as np

from lib.geo import unit

PROPERTY = "P31"
RULE = "Surfaces and regions (poles and antimeridian included) with float, integer and tag data and gaps in the interval numbering, exported as vector or VTK files for one or all intervals before and after later changes; a state is (driver, who, region placement, interval asked, number of intervals, changed since)."


def body(R):
    import cratermaker as cm

    return cm.Target.maker("Thing", radius=R, mass=3000 * 4 / 3 * math.pi * R**3, material="Soft Rock", transition_scale_type="silicate")


def build(c):
    import cratermaker as cm

    rng = c.rng
    R = float(10 ** rng.uniform(3.5, 7))
    kw = dict(target=body(R), simdir=c.dir("x"), ask_overwrite=False)
    if rng.random() < 0.65:
        s = cm.Surface.maker("icosphere", gridlevel=int(rng.choice([2, 3, 3])), **kw)
    else:
        s = cm.Surface.maker("arbitrary_resolution", pix=R / float(rng.uniform(3, 9)), **kw)
    return s, R


def field(rng, n, kind):
    if kind == "int":
        return rng.integers(-1000, 1000, n)
    if kind == "flag":
        return rng.integers(0, 2, n).astype(np.int32)
    return rng.normal(size=n) * 10.0 ** rng.uniform(-3, 5)


NAMES = ["temperature", "albedo", "rock_abundance_fraction", "rock_abundance_error", "d2", "identity", "ejecta", "face_slope", "x" * 12]


def history(c, s, R):
    """Random data and saves; returns {interval: {variable: values}} of copies taken here, and whether the data changed afterwards."""
    rng = c.rng
    extra = [str(x) for x in rng.choice(NAMES, int(rng.integers(0, 4)), replace=False)]
    kinds = {x: str(rng.choice(["float", "float", "int", "flag"])) for x in extra}
    numbers = sorted(int(x) for x in rng.choice(12, int(rng.integers(1, 4)), replace=False))
    if rng.random() < 0.5:
        numbers = list(range(len(numbers)))
    elif rng.random() < 0.4:
        numbers = sorted({int(x) for x in 10 ** rng.uniform(0.5, 5.9, len(numbers))} - {0})
    tags = [str(x) for x in rng.choice(["crater_id", "unit", "some_long_named_layer"], int(rng.integers(1, 3)), replace=False)]
    keep = lambda: {v: np.array(s.uxds[v].data) for v in s.uxds.data_vars if "n_face" in s.uxds[v].dims or v == "node_elevation"}
    model = {0: keep()}  # saved on creation

    def change(k):
        s.update_elevation(rng.normal(size=s.n_face) * R * 1e-3)
        if rng.random() < 0.7:
            s.update_elevation(rng.normal(size=s.n_node) * R * 1e-3)
        for x in extra:
            s.add_data(x, data=field(rng, s.n_face, kinds[x]), units="K", long_name=x, overwrite=True, dtype={"float": np.float64, "int": np.int64, "flag": np.int32}[kinds[x]])
        for t in tags:
            for _ in range(int(rng.integers(1, 4))):
                loc = (float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1)))))
                r = s.extract_region(loc, R * float(rng.uniform(0.2, 0.8)))
                if r is not None:
                    r.add_tag(t, tag=int(rng.choice([1, 7, 2**31 + 5, 4294967295, rng.integers(1, 1 << 30)])))

    for k in numbers:
        change(k)
        s.save(interval=k)
        model[k] = keep()
    changed = bool(rng.random() < 0.4)
    if changed:
        change(99)
    return model, changed, extra, tags


def pick(c, model, changed):
    """An interval to ask for and the intervals that must come out."""
    ks = sorted(model)
    if changed and len(ks) == 1:
        opts = [None, -1]
    else:
        opts = [None, -1, -len(ks)] + (ks[:-1] if changed else ks)
    a = opts[int(c.rng.integers(len(opts)))]
    return a, ks if a is None else [ks[a]] if a < 0 else [a]


def region(c, s, R):
    rng = c.rng
    lon = float(rng.choice([180.0, 0.0, 179.0, -179.0, rng.uniform(-180, 180), rng.uniform(-180, 180)]))
    lat = float(rng.choice([90.0, -90.0, 88.0, rng.uniform(-80, 80), rng.uniform(-80, 80), rng.uniform(-80, 80)]))
    return s.extract_region((lon, lat), R * float(rng.uniform(0.4, 1.1))), (lon, lat)


def idx(f, n):
    return np.arange(n)[f]


def laea(loc, R, lon, lat):
    lo, la, l0, p0 = np.radians(lon), np.radians(lat), math.radians(loc[0]), math.radians(loc[1])
    dl = lo - l0
    k = np.sqrt(2 / (1 + math.sin(p0) * np.sin(la) + math.cos(p0) * np.cos(la) * np.cos(dl)))
    return R * k * np.cos(la) * np.sin(dl), R * k * (math.cos(p0) * np.sin(la) - math.sin(p0) * np.cos(la) * np.cos(dl))


def ring(g):
    return np.array(g.exterior.coords)[:-1, :2]


def match(c, g, faces, s, at, R, geographic, **info):
    """Face of every exported polygon, found from its corners alone."""
    from scipy.spatial import cKDTree

    fn = np.asarray(s.face_node_connectivity)
    if geographic:
        px, py, tol = np.asarray(s.node_lon), np.asarray(s.node_lat), 1e-5
    else:
        (px, py), tol = laea(at, R, np.asarray(s.node_lon), np.asarray(s.node_lat)), 1e-6 * R
    P = np.column_stack([px, py])
    rings = [thin(P[x[x >= 0]], tol) for x in fn[faces]]
    t = cKDTree(np.array([r.mean(0) for r in rings]))
    out = []
    for geom in g.geometry:
        if geom is None or geom.geom_type != "Polygon":
            c.fail("an exported face is not a polygon", got=str(geom)[:80], **info)
        q = thin(ring(geom), tol)
        i = int(t.query(q.mean(0))[1])
        d = alike(q, rings[i])
        c.check(d <= 5 * tol, "an exported polygon is not a face of the surface", dist=d, corners=len(q), want=len(rings[i]), nearest=int(faces[i]), **info)
        out.append(int(faces[i]))
    return np.array(out, int)


def thin(q, tol):
    """A polygon without repeated corners."""
    keep = [q[0]]
    for x in q[1:]:
        if np.abs(x - keep[-1]).max() > tol:
            keep.append(x)
    while len(keep) > 1 and np.abs(keep[0] - keep[-1]).max() <= tol:
        keep.pop()
    return np.array(keep)


def alike(q, w):
    """Largest distance of the corners of two polygons, compared in order, whatever the first corner and the sense; some corners may coincide."""
    if len(q) != len(w):
        a = np.linalg.norm(q[:, None] - w[None], axis=2)
        return float(max(a.min(0).max(), a.min(1).max()))
    return float(min(np.linalg.norm(np.roll(z, j, axis=0) - w, axis=1).max() for z in (q, q[::-1]) for j in range(len(q))))


def same(got, want, rtol):
    got, want = np.asarray(got, float), np.asarray(want, float)
    return got.shape == want.shape and bool(np.all((np.abs(got - want) <= rtol * np.abs(want) + 1e-12) | (np.isnan(got) & np.isnan(want))))


def vector(c):
    """Vector files: one polygon per face, with every variable of the asked interval, and nothing else."""
    import geopandas as gpd

    rng = c.rng
    s, R = build(c)
    model, changed, extra, tags = history(c, s, R)
    glob = bool(rng.random() < 0.5)
    obj, loc = (s, None) if glob else region(c, s, R)
    if obj is None:
        return
    driver, ext, shp = [("GPKG", "gpkg", 0), ("gpkg", "gpkg", 0), ("ESRI Shapefile", "shp", 1), ("Esri shapefile", "shp", 1), ("ESRI SHAPEFILE", "shp", 1), ("FlatGeobuf", "fgb", 0), ("GeoJSON", "json", 0), ("geojson", "json", 0)][int(rng.integers(6 if not glob else 8))]
    ask, want = pick(c, model, changed)
    obj.export(driver=driver, interval=ask)
    info = dict(driver=driver, glob=glob, ask=str(ask), intervals=str(sorted(model)), changed=changed, loc=str(loc), radius=R, names=str(extra + tags))
    files = {}
    for p in Path(s.export_dir).glob(f"*.{ext}"):
        m = re.fullmatch(r"(local_)?surface(\d{6})", p.stem)
        c.check(m is not None and bool(m.group(1)) == (not glob), "an export has an unexpected name", name=p.name, **info)
        files[int(m.group(2))] = p
    c.check(sorted(files) == sorted(want), "an export does not write the asked intervals", got=str(sorted(files)), want=str(want), **info)
    faces = np.arange(s.n_face) if glob else idx(obj.face_indices, s.n_face)
    fn = np.asarray(s.face_node_connectivity)
    must, may = set(faces.tolist()), set(faces.tolist())
    if glob:
        for f in faces.tolist():
            x = fn[f][fn[f] >= 0]
            lo = np.asarray(s.node_lon)[x]
            jump = np.abs(lo - np.roll(lo, 1)).max()
            if jump > 179:
                must.discard(f)
            if jump > 181:
                may.discard(f)
    for k in want:
        g = gpd.read_file(files[k])
        f = match(c, g, np.array(sorted(may)), s, loc, R, glob, **info)
        c.check(len(set(f.tolist())) == len(f), "a face is exported twice", interval=k, **info)
        c.check(must <= set(f.tolist()) <= may, "an export does not hold the faces it should", n=len(f), want=len(must), missing=str(sorted(must - set(f.tolist()))[:5]), extra=str(sorted(set(f.tolist()) - may)[:5]), interval=k, **info)
        if ext != "json":
            ell = g.crs.ellipsoid
            c.check(g.crs.is_geographic == glob and abs(ell.semi_major_metre - R) < 1e-6 * R and abs(ell.semi_minor_metre - R) < 1e-6 * R, "an export has another reference system than the surface", crs=g.crs.to_wkt()[:120], interval=k, **info)
        cols = {}
        for v, a in model[k].items():
            if v == "node_elevation":
                continue
            if a.ndim == 1:
                cols[v] = a
            else:
                a = a if a.shape[0] == s.n_face else a.T
                for j in range(a.shape[1]):
                    cols[f"{v}{j:02d}"] = a[:, j]
        got = [x for x in g.columns if x != "geometry"]
        blank = lambda x: g[x].isna().all() or same(g[x], np.full(len(g), g[x].iloc[0]), 0)
        if ask is None:  # variables of other intervals may be there, empty
            got = [x for x in got if (any(v[:2].upper() == x[:2].upper() for v in cols) if shp else x in cols) or not blank(x)]
        if not shp:
            c.check(sorted(got) == sorted(cols), "an export does not hold the variables of the surface", got=str(got), want=str(sorted(cols)), interval=k, **info)
            for v in got:
                c.check(same(g[v], cols[v][f], 1e-12 if ext != "json" else 1e-9), "an exported face has other data than the surface", var=v, interval=k, **info)
        else:
            c.check((len(got) == len(cols) or len(got) > len(cols) and ask is None) and all(len(x) <= 10 for x in got) and len({x.upper() for x in got}) == len(got), "a shapefile does not hold the variables of the surface", got=str(got), want=str(sorted(cols)), interval=k, **info)
            left = dict(cols)
            for x in got:
                # the field of a variable is recognised by its beginning; values decide among those truncated alike
                hit = [v for v in left if same(g[x], left[v][f], 1e-9)]
                near = [v for v in hit if v[:2].upper() == x[:2].upper()]
                if not near and ask is None and blank(x):
                    continue
                c.check(bool(near), "a field of a shapefile has the data of none of its variables", field=x, hit=str(hit), interval=k, **info)
                left.pop(near[0])
            c.check(not left, "a shapefile lacks a variable of the surface", left=str(sorted(left)), got=str(got), interval=k, **info)
    c.seen(driver.lower(), glob, place(loc), kind(ask), len(model), changed, len(want), len(extra))
    c.note(polygons=len(f) * len(want))


def kind(a):
    return "all" if a is None else "last" if a == -1 else "back" if a < 0 else "number"


def place(loc):
    return "global" if loc is None else "pole" if abs(loc[1]) > 85 else "antimeridian" if abs(loc[0]) > 178 else "other"


def read_vtp(p):
    from vtkmodules.util.numpy_support import vtk_to_numpy
    from vtkmodules.vtkIOXML import vtkXMLPolyDataReader

    r = vtkXMLPolyDataReader()
    r.SetFileName(str(p))
    r.Update()
    m = r.GetOutput()
    pts = vtk_to_numpy(m.GetPoints().GetData()).astype(float)
    polys = m.GetPolys()
    con, off = vtk_to_numpy(polys.GetConnectivityArray()), vtk_to_numpy(polys.GetOffsetsArray())
    cells = [con[a:b] for a, b in zip(off[:-1], off[1:])]
    arr = lambda d: {d.GetArrayName(i): vtk_to_numpy(d.GetArray(i)) for i in range(d.GetNumberOfArrays())}
    return pts, cells, arr(m.GetCellData()), arr(m.GetPointData())


def vtk(c):
    """VTK files: the mesh raised by its elevations, with every variable of the asked interval."""
    from scipy.spatial import cKDTree

    rng = c.rng
    s, R = build(c)
    model, changed, extra, tags = history(c, s, R)
    glob = bool(rng.random() < 0.5)
    obj, loc = (s, None) if glob else region(c, s, R)
    if obj is None:
        return
    ask, want = pick(c, model, changed)
    driver = str(rng.choice(["VTK", "VTP", "vtk", "vtp"]))
    obj.export(driver=driver, interval=ask)
    info = dict(driver=driver, glob=glob, ask=str(ask), intervals=str(sorted(model)), changed=changed, loc=str(loc), radius=R, names=str(extra + tags))
    files, grid = {}, None
    for p in Path(s.export_dir).glob("*.vtp"):
        m = re.fullmatch(r"(local_)?(surface(\d{6})|grid)", p.stem)
        c.check(m is not None and bool(m.group(1)) == (not glob), "an export has an unexpected name", name=p.name, **info)
        if m.group(3):
            files[int(m.group(3))] = p
        else:
            grid = p
    c.check(sorted(files) == sorted(want), "an export does not write the asked intervals", got=str(sorted(files)), want=str(want), **info)
    c.check(grid is not None, "a VTK export does not write the mesh", **info)
    faces = np.arange(s.n_face) if glob else idx(obj.face_indices, s.n_face)
    fn = np.asarray(s.face_node_connectivity)
    nodes = np.unique(fn[faces][fn[faces] >= 0])
    u = unit(np.asarray(s.node_lon), np.asarray(s.node_lat))
    for k, p in [(None, grid)] + [(k, files[k]) for k in want]:
        pts, cells, cd, pd = read_vtp(p)
        el = np.zeros(s.n_node) if k is None else model[k]["node_elevation"]
        P = u * (R + el)[:, None]
        tol = 3e-6 * R
        t = cKDTree(P[nodes])
        d, i = t.query(pts)
        c.check(d.max() <= tol, "a point of an exported mesh is not at a node raised by its elevation", dist=float(d.max()), interval=k, **info)
        c.check(cKDTree(pts).query(P[nodes])[0].max() <= tol, "an exported mesh lacks nodes", interval=k, **info)
        rings = [thin(P[x[x >= 0]], tol) for x in fn[faces]]
        polys = [thin(pts[x], tol) for x in cells]
        f = cKDTree(np.array([r.mean(0) for r in rings])).query(np.array([r.mean(0) for r in polys]))[1]
        c.check(sorted(f.tolist()) == list(range(len(faces))), "an exported mesh does not hold every face once", n=len(f), want=len(faces), interval=k, **info)
        far = max(alike(x, rings[j]) for x, j in zip(polys, f))
        c.check(far <= 5 * tol, "an exported cell does not have the corners of its face", dist=far, interval=k, **info)
        if k is None:
            continue
        f = faces[f]
        for v, a in model[k].items():
            if v == "node_elevation":
                ok = v in pd and len(pd[v]) == len(pts)
                c.check(ok and all(np.any(np.abs(a[nodes[j]] - e) <= 1e-6 * abs(e)) for e, j in zip(pd[v], t.query_ball_point(pts, 2 * tol))), "an exported mesh has other node elevations than the surface", interval=k, **info)
            else:
                if a.ndim == 2 and a.shape[0] != s.n_face:
                    a = a.T
                c.check(v in cd and same(cd[v], a[f], 1e-6), "an exported mesh has other data than the surface", var=v, interval=k, **info)
    c.seen(driver, glob, place(loc), kind(ask), len(model), changed, len(want), len(extra))
    c.note(cells=len(f) * len(want))


def outline(c):
    """The exported outline of a region is the circle of its radius around its place."""
    import geopandas as gpd

    rng = c.rng
    s, R = build(c)
    r, loc = region(c, s, R)
    if r is None:
        return
    driver, ext = [("GPKG", "gpkg"), ("gpkg", "gpkg"), ("ESRI Shapefile", "shp"), ("FlatGeobuf", "fgb")][int(rng.integers(4))]
    r.export_region_polygon(driver=driver)
    fs = list(Path(s.export_dir).glob(f"*.{ext}"))
    info = dict(driver=driver, loc=str(loc), radius=R, region=float(r.region_radius))
    c.check(len(fs) == 1, "the outline of a region is not in one file", got=str(fs), **info)
    g = gpd.read_file(fs[0])
    geoms = [x for x in g.geometry if x is not None and not x.is_empty]
    c.check(len(g) == len(geoms) == 1, "the outline of a region is not one polygon", rows=len(g), geometries=len(geoms), **info)
    q = ring(geoms[0])
    th = r.region_radius / R
    c.close(np.hypot(q[:, 0], q[:, 1]), np.full(len(q), 2 * R * math.sin(th / 2)), "the outline of a region is not at its radius", rtol=2e-3, **info)
    a = np.sort(np.arctan2(q[:, 1], q[:, 0]))
    c.check(len(q) >= 16 and np.diff(np.append(a, a[0] + 2 * np.pi)).max() < 0.6, "the outline of a region does not go around it", n=len(q), **info)
    c.seen("outline", driver, place(loc))


SCENARIOS = [("vector", vector, 60, 700), ("vtk", vtk, 36, 420), ("outline", outline, 16, 120)]
