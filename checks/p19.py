"""P19: a region holds exactly the faces in reach and their neighbours, and measures them from its own centre."""
import math

import numpy as np

from lib.geo import bearing, central_angle, unit

PROPERTY = "P19"
TECHNIQUE = "differential monitoring: every region extracted by a random workload is compared with a brute-force search over the whole mesh with independent spherical geometry"
RULE = "random regions (poles, antimeridian, unnormalised longitudes, tiny to whole-body radii) on icosphere, arbitrary resolution and high resolution local meshes, subregions, projections, reference surfaces and extents; a state is (mesh, region size class, polar or not, across the antimeridian or not)."

MESH = {}


def mesh(c, rng):
    from cratermaker import Surface

    k = int(rng.integers(6))
    t = str(rng.choice(["Moon", "Mars", "Ceres"]))
    if k < 4:
        return Surface.maker("icosphere", gridlevel=int([1, 2, 3, 3][k]), target=t, simdir=c.dir("s")), "icosphere"
    if k == 4:
        return Surface.maker("arbitrary_resolution", pix={"Moon": 17.4e5, "Mars": 33.9e5, "Ceres": 4.7e5}[t] * float(rng.uniform(0.12, 0.3)), target=t, simdir=c.dir("s")), "arbitrary"
    R = {"Moon": 17.4e5, "Mars": 33.9e5, "Ceres": 4.7e5}[t]
    return Surface.maker("hireslocal", pix=R / 60, local_radius=R / 10, local_location=(float(rng.uniform(-180, 180)), float(rng.choice([-90, -40, 0, 60, 90]))), superdomain_scale_factor=10, target=t, simdir=c.dir("s")), "hireslocal"


def place(rng, s):
    m = rng.random()
    if m < 0.15:
        return (float(rng.uniform(-180, 180)), float(rng.choice([90.0, -90.0, 89.99, -89.5])))
    if m < 0.35:
        return (float(rng.choice([180.0, -180.0, 179.99, -179.5, 181.0, 359.0, 540.0])), float(rng.uniform(-80, 80)))
    if m < 0.45:
        i = int(rng.integers(s.n_face))
        return (float(s.face_lon[i]), float(s.face_lat[i]))
    if m < 0.55 and hasattr(type(s), "local_location"):
        return tuple(float(x) for x in s.local_location)
    return (float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1)))))


def clean(a):
    a = np.unique(np.asarray(a).ravel())
    return a[a >= 0]


def grow(s, inner):
    """Faces sharing a node with the given faces."""
    nodes = clean(s.face_node_connectivity[inner])
    return set(np.where(np.isin(s.face_node_connectivity, nodes).any(axis=1))[0].tolist())


def idx(v, n):
    return np.arange(n)[v] if isinstance(v, slice) else np.asarray(v)


def expected(s, d, r, tol):
    """Sets of faces certainly and possibly inside the radius."""
    return np.where(d <= r - tol)[0], np.where(d <= r + tol)[0]


def view(c, s, reg, loc, kind):
    R = s.radius
    f, n, e = idx(reg.face_indices, s.n_face), idx(reg.node_indices, s.n_node), idx(reg.edge_indices, s.n_edge)
    c.check(reg.n_face == len(f) and reg.n_node == len(n) and reg.n_edge == len(e), "a region does not report its own number of elements", got=(reg.n_face, reg.n_node, reg.n_edge), want=(len(f), len(n), len(e)))
    for nm in ("face_lon", "face_lat", "face_x", "face_y", "face_z", "face_area", "face_size", "face_elevation"):
        c.check(np.array_equal(getattr(reg, nm), getattr(s, nm)[f]), f"a region's {nm} is not that of its faces", kind=kind)
    for nm in ("node_lon", "node_lat", "node_x", "node_y", "node_z", "node_elevation"):
        c.check(np.array_equal(getattr(reg, nm), getattr(s, nm)[n]), f"a region's {nm} is not that of its nodes", kind=kind)
    c.check(np.array_equal(reg.edge_length, s.edge_length[e]) and np.array_equal(reg.edge_face_distance, s.edge_face_distance[e]), "a region's edges are not measured as on the surface", kind=kind)
    c.close(reg.area, float(s.face_area[f].sum()), "a region's area is not that of its faces", rtol=1e-9)
    el = c.rng.normal(size=len(f))
    c.close(float(reg.compute_volume(el)), float((el * s.face_area[f]).sum()), "a volume is not the sum of height times area", rtol=1e-9, atol=1e-9 * R * R)
    for nm, lon, lat, gd, gb in (("face", s.face_lon[f], s.face_lat[f], reg.face_distance, reg.face_bearing), ("node", s.node_lon[n], s.node_lat[n], reg.node_distance, reg.node_bearing)):
        p = np.stack([lon, lat], 1)
        w = central_angle(np.array(loc, float), p)
        err = float(np.abs(np.asarray(gd) / R - w).max())
        c.check(err < 1e-6, f"{nm} distances are not measured from the centre of the region", err=err, loc=loc, kind=kind)
        far = (w > 1e-4) & (w < math.pi - 1e-4)
        if far.any() and abs(loc[1]) < 89.999:
            db = np.abs((np.asarray(gb)[far] - bearing(np.array(loc, float), p[far]) + 180) % 360 - 180)
            c.check(float(db.max()) < 1e-3, f"{nm} bearings are not measured clockwise from north at the centre of the region", err=float(db.max()), loc=loc, kind=kind)
    # local connectivity refers to the same elements
    for nm, rows_, vals in (("face_node_connectivity", f, n), ("face_edge_connectivity", f, e), ("face_face_connectivity", f, f), ("node_face_connectivity", n, f), ("edge_face_connectivity", e, f), ("edge_node_connectivity", e, n)):
        g, l = np.asarray(getattr(s, nm))[rows_], np.asarray(getattr(reg, nm))
        if not c.check(g.shape == l.shape, f"a region's {nm} has another shape", got=l.shape, want=g.shape):
            continue
        inside = np.isin(g, vals) & (g >= 0)
        ok = np.array_equal(l >= 0, inside) and np.array_equal(vals[l[inside]], g[inside])
        c.check(ok, f"a region's {nm} does not refer to the same elements as the surface's", kind=kind)


def regions(c):
    rng = c.rng
    s, kind = mesh(c, rng)
    R = s.radius
    fl = np.stack([s.face_lon, s.face_lat], 1)
    s.update_elevation(rng.normal(0, 100, s.n_face + s.n_node), overwrite=True)
    for _ in range(6 if c.tier == "quick" else 10):
        loc = place(rng, s)
        r = float(rng.choice([s.pix_min * rng.uniform(0.05, 1), s.pix * rng.uniform(1, 4), R * rng.uniform(0.2, 1.5), R * rng.uniform(1.5, 3.1), R * rng.uniform(3.15, 10)], p=[0.2, 0.35, 0.25, 0.1, 0.1]))
        d = central_angle(fl, np.array(loc)) * R
        sure, maybe = expected(s, d, r, 1e-6 * R if abs(loc[1]) < 89.9 else 3e-4 * R)
        if len(sure) != len(maybe):
            continue
        reg = s.extract_region(loc, r)
        if r >= math.pi * R:
            if c.check(reg is not None, "a region as large as the body is missing"):
                c.check(reg.n_face == s.n_face and reg.n_node == s.n_node, "a region as large as the body is not the whole surface", got=reg.n_face)
        elif len(sure) == 0:
            c.check(reg is None, "a region with no face in reach is not None", loc=loc, r=r)
            reg = s.extract_region(loc, r, at_least_one_face=True)
            near = np.where(d <= d.min() + 1e-9 * R)[0]
            if c.check(reg is not None, "at_least_one_face returned nothing", loc=loc, r=r):
                got = set(idx(reg.face_indices, s.n_face).tolist())
                c.check(any(got == grow(s, [i]) for i in near), "at_least_one_face is not the nearest face with its neighbours", loc=loc, r=r, got=sorted(got)[:10])
        else:
            if c.check(reg is not None, "faces in reach, but no region", loc=loc, r=r, faces=len(sure)):
                got = set(idx(reg.face_indices, s.n_face).tolist())
                want = grow(s, sure)
                c.check(got == want, "a region is not the faces in reach and their neighbours", loc=loc, r=r, kind=kind, missing=sorted(want - got)[:5], extra=sorted(got - want)[:5])
        if reg is None:
            continue
        f = idx(reg.face_indices, s.n_face)
        c.check(len(set(f.tolist())) == len(f), "a face appears twice in a region", loc=loc, r=r)
        c.check(set(idx(reg.node_indices, s.n_node).tolist()) == set(clean(s.face_node_connectivity[f]).tolist()), "a region's nodes are not those of its faces", loc=loc, r=r)
        if r < math.pi * R and len(sure):
            c.check(set(idx(reg.edge_indices, s.n_edge).tolist()) == set(clean(s.face_edge_connectivity[sure]).tolist()), "a region's edges are not those of the faces in reach", loc=loc, r=r)
        rl = np.array(reg.location, float)
        c.check(float(central_angle(rl, np.array(loc))) < 1e-9 and abs(rl[0]) <= 180, "the centre of a region is not where it was asked", loc=loc, got=reg.location)
        c.close(reg.region_radius, r, "the radius of a region is not the one asked", rtol=1e-12)
        if abs(loc[1]) < 89.9 or True:
            view(c, s, reg, tuple(rl), kind)
        c.seen(kind, int(math.log10(r / R) * 2), abs(loc[1]) > 80, abs(loc[0]) > 170)
        # subregions
        for r2 in (r * float(rng.uniform(0.2, 0.9)), r * float(1 - 10 ** rng.uniform(-2.5, -1)), r * float(rng.uniform(1.0, 3))):
            sure, maybe = expected(s, d, r2, 1e-6 * R if abs(loc[1]) < 89.9 else 3e-4 * R)
            if len(sure) != len(maybe) or len(maybe) == 0 and r2 < r:
                if len(maybe) == 0:
                    c.check(reg.extract_subregion(r2) is None, "a subregion with no face in reach is not None", r=r, r2=r2)
                continue
            sub = reg.extract_subregion(r2)
            if not c.check(sub is not None, "faces in reach, but no subregion", r=r, r2=r2):
                continue
            got = set(idx(sub.face_indices, s.n_face).tolist())
            want = grow(s, sure) if r2 < r else set(f.tolist())
            c.check(got == want, "a subregion is not the faces in reach and their neighbours" if r2 < r else "a subregion larger than its region is not the region", loc=loc, r=r, r2=r2, missing=sorted(want - got)[:5], extra=sorted(got - want)[:5])
            c.check(set(idx(sub.node_indices, s.n_node).tolist()) == set(clean(s.face_node_connectivity[idx(sub.face_indices, s.n_face)]).tolist()), "a subregion's nodes are not those of its faces", loc=loc, r=r, r2=r2)
            c.check(tuple(sub.location) == tuple(reg.location), "a subregion has another centre")
            view(c, s, sub, tuple(rl), kind)


def reference(c):
    """The reference surface is the least-squares plane of the points in reach; nothing else changes, the surface least of all."""
    rng = c.rng
    s, kind = mesh(c, rng)
    R = s.radius
    el = rng.normal(0, 100, s.n_face + s.n_node)
    s.update_elevation(el, overwrite=True)
    for _ in range(6):
        loc = place(rng, s)
        r = float(rng.choice([s.pix * rng.uniform(2, 6), R * rng.uniform(0.3, 1.2), R * 4], p=[0.55, 0.25, 0.2]))
        reg = s.extract_region(loc, r)
        if reg is None:
            continue
        f, n = idx(reg.face_indices, s.n_face), idx(reg.node_indices, s.n_node)
        rr = float(r * rng.uniform(0.3, 1)) if rng.random() < 0.7 else None
        only = bool(rng.random() < 0.4)
        lim = r if rr is None else rr
        ll = np.stack([np.concatenate([s.face_lon[f], s.node_lon[n]]), np.concatenate([s.face_lat[f], s.node_lat[n]])], 1)
        z = np.concatenate([el[f], el[s.n_face + n]])
        fin = central_angle(ll[: len(f)], np.array(loc)) * R
        nin = central_angle(ll[len(f) :], np.array(loc)) * R
        if only:
            ll, z, dist = ll[: len(f)], z[: len(f)], fin
        else:
            dist = np.concatenate([fin, nin])
        if np.any(np.abs(np.concatenate([fin, nin]) - lim) < 1e-6 * R) or abs(loc[1]) > 89.9:
            continue
        got = reg.get_reference_surface(reference_radius=rr, only_faces=only)
        c.check(np.array_equal(s.face_elevation, el[: s.n_face]) and np.array_equal(s.node_elevation, el[s.n_face :]), "computing a reference surface changed the surface", r=r, only=only, kind=kind)
        s.update_elevation(el, overwrite=True)
        if dist.max() > (math.pi - 1e-3) * R:  # the bearing of the antipode is arbitrary
            c.seen(kind, "whole body", only)
            continue
        inside = dist <= lim
        want = z.copy()
        enough = inside.sum() >= 5 and (only or (nin <= lim).any())
        if enough:
            b = np.radians(bearing(np.array(loc, float), ll))
            A = np.stack([dist * np.sin(b), dist * np.cos(b), np.ones(len(z))], 1)[inside]
            co = np.linalg.lstsq(A / [R, R, 1], z[inside], rcond=None)[0]
            want[inside] = (A / [R, R, 1]) @ co
        c.check(got.shape == want.shape and np.allclose(got, want, atol=1e-3, rtol=1e-6), "the reference surface is not the mean plane of the points in reach", loc=loc, r=r, rr=rr, only=only, err=float(np.abs(got - want).max()) if got.shape == want.shape else None)
        c.seen(kind, enough, only, rr is None, r > 3 * R)


def geometry(c):
    """Distance, bearing and destination agree with each other and with the geometry of the body."""
    rng = c.rng
    s, kind = mesh(c, rng)
    R = s.radius
    for _ in range(10):
        ref = place(rng, s)
        if abs(ref[1]) > 89.9:
            continue
        n = int(rng.integers(1, 30))
        q = np.stack([rng.uniform(-180, 360, n), np.degrees(np.arcsin(rng.uniform(-1, 1, n)))], 1)
        w = central_angle(np.array(ref), q) * R
        got = np.asarray(s.compute_distances(locations=q, reference_location=ref))
        c.check(np.allclose(got, w, rtol=1e-7, atol=1e-6 * R), "a distance is not the great circle distance", ref=ref, err=float(np.abs(got - w).max()))
        b = np.asarray(s.compute_bearings(locations=q, reference_location=ref))
        ok = (w > 1e-3 * R) & (w < (math.pi - 1e-3) * R)
        db = np.abs((b - bearing(np.array(ref, float), q) + 180) % 360 - 180)[ok]
        c.check(len(db) == 0 or float(db.max()) < 1e-4, "a bearing is not the initial bearing", ref=ref, err=float(db.max()) if len(db) else 0)
        back = np.asarray(s.compute_location_from_distance_bearing(distance=got, bearing=b, reference_location=ref)).reshape(-1, 2)
        err = float((central_angle(back, q)[ok]).max()) if ok.any() else 0.0
        c.check(err < 1e-5, "going the distance along the bearing does not lead to the place", ref=ref, err=err)
        c.check(np.all(np.abs(back[:, 0]) <= 180) and np.all(np.abs(back[:, 1]) <= 90), "a destination is not a canonical location", ref=ref)
        fd, nd = s.calculate_face_and_node_distances(ref)
        fb, nb = s.calculate_face_and_node_bearings(ref)
        for nm, lon, lat, d, bb in (("face", s.face_lon, s.face_lat, fd, fb), ("node", s.node_lon, s.node_lat, nd, nb)):
            p = np.stack([lon, lat], 1)
            w = central_angle(np.array(ref), p)
            c.check(float(np.abs(d / R - w).max()) < 1e-6, f"{nm} distances are not the great circle distances", ref=ref)
            far = (w > 1e-3) & (w < math.pi - 1e-3) & (np.abs(lat) < 89.9)
            db = np.abs((bb - bearing(np.array(ref, float), p) + 180) % 360 - 180)[far]
            c.check(float(db.max()) < 1e-3, f"{nm} bearings are not the initial bearings", ref=ref, err=float(db.max()))
        # extents
        r = float(R * 10 ** rng.uniform(-3, 0.3))
        lo0, lo1, la0, la1 = s.get_location_extents(ref, r)
        a = r / R
        az = np.linspace(0, 2 * math.pi, 721)
        u = unit(np.array(ref[0]), np.array(ref[1]))
        lon0, lat0 = np.radians(ref)
        east = np.array([-math.sin(lon0), math.cos(lon0), 0])
        north = np.array([-math.sin(lat0) * math.cos(lon0), -math.sin(lat0) * math.sin(lon0), math.cos(lat0)])
        rim = math.cos(a) * u + math.sin(a) * (np.cos(az)[:, None] * north + np.sin(az)[:, None] * east)
        rlat = np.degrees(np.arcsin(np.clip(rim[:, 2], -1, 1)))
        dlon = (np.degrees(np.arctan2(rim[:, 1], rim[:, 0])) - ref[0] + 180) % 360 - 180
        c.check(la0 <= rlat.min() + 1e-6 and la1 >= rlat.max() - 1e-6, "the extents of a region do not contain its latitudes", loc=ref, r=r, got=(la0, la1), want=(float(rlat.min()), float(rlat.max())))
        polar = abs(ref[1]) + math.degrees(a) >= 90
        if polar:
            c.check(lo1 - lo0 >= 360 - 1e-9, "the extents of a polar region do not span all longitudes", loc=ref, r=r, got=(lo0, lo1))
        else:
            c.check(lo0 - ref[0] <= dlon.min() + 1e-6 and lo1 - ref[0] >= dlon.max() - 1e-6, "the extents of a region do not contain its longitudes", loc=ref, r=r, got=(lo0 - ref[0], lo1 - ref[0]), want=(float(dlon.min()), float(dlon.max())))
            c.check(lo1 - lo0 <= 1.5 * (dlon.max() - dlon.min()) + 1e-6, "the extents of a region are far larger than it", loc=ref, r=r)
        c.seen(kind, polar, int(math.log10(a) * 2))


def projections(c):
    """The local projection keeps areas and has its origin at the centre of the region."""
    rng = c.rng
    s, kind = mesh(c, rng)
    R = s.radius
    for _ in range(4):
        loc = place(rng, s)
        r = float(s.pix * rng.uniform(2, 5))
        reg = s.extract_region(loc, r)
        if reg is None:
            continue
        q = np.asarray(s.compute_location_from_distance_bearing(distance=r * np.sqrt(rng.uniform(0, 1, 20)), bearing=rng.uniform(0, 360, 20), reference_location=loc))
        lon, lat = q[:, 0], q[:, 1]
        x, y = (np.asarray(v) for v in reg.from_surface.transform(lon, lat))
        d = central_angle(np.stack([lon, lat], 1), np.array(loc))
        c.check(np.allclose(np.hypot(x, y), 2 * R * np.sin(d / 2), rtol=1e-5, atol=1e-5 * R), "the local projection is not the equal-area one about the centre of the region", loc=loc, err=float(np.abs(np.hypot(x, y) - 2 * R * np.sin(d / 2)).max() / R))
        far = d > 1e-3
        if abs(loc[1]) < 89.9 and far.any():
            b = bearing(np.array(loc, float), np.stack([lon, lat], 1))[far]
            db = np.abs((np.degrees(np.arctan2(x[far], y[far])) - b + 180) % 360 - 180)
            c.check(float(db.max()) < 1e-2, "the local projection does not point north at the centre of the region", loc=loc, err=float(db.max()))
        lo, la = (np.asarray(v) for v in reg.to_surface.transform(x, y))
        c.check(float(central_angle(np.stack([lo, la], 1), np.stack([lon, lat], 1)).max()) < 1e-6, "projecting and back leads elsewhere", loc=loc)
        c.seen(kind, abs(loc[1]) > 80)


SCENARIOS = [("regions", regions, 20, 500), ("reference", reference, 16, 300), ("geometry", geometry, 8, 200), ("projections", projections, 8, 200)]
