"""P18: the mesh tiles the whole body, consistently, at the requested resolution."""
import math

import numpy as np

from lib.geo import central_angle, unit

PROPERTY = "P18"
TECHNIQUE = "geometric monitor: every mesh built by a random workload is re-measured with independent spherical geometry (polygon areas, Euler characteristic, Voronoi distances, adjacency) "
RULE = "icosphere, arbitrary resolution and high resolution local meshes over random bodies, sizes and locations; a state is (kind of mesh, resolution decade, kind of body)."

FILL = np.iinfo(np.int64).min


def body(c, rng):
    from cratermaker import Target

    if rng.random() < 0.5:
        return Target.maker(str(rng.choice(["Moon", "Mars", "Vesta", "Europa", "Ceres"])))
    r = float(10 ** rng.uniform(2, 7.5))
    return Target.maker("Thing", radius=r, mass=2500.0 * 4.19 * r**3, material="Soft Rock", transition_scale_type="silicate")


def rows(conn):
    """Connectivity table -> list of index arrays without fill values."""
    return [r[r >= 0] for r in np.asarray(conn)]


def polygon_areas(xyz, faces):
    out = np.zeros(len(faces))
    for i, f in enumerate(faces):
        p = xyz[f]
        a, b, d = p[0], p[1:-1], p[2:]
        num = np.einsum("j,ij->i", a, np.cross(b, d))
        den = 1 + b @ a + d @ a + np.einsum("ij,ij->i", b, d)
        out[i] = np.sum(2 * np.arctan2(num, den))
    return out


def measure(c, s, kind, expect_pix=None):
    from scipy.spatial import cKDTree

    R, F, N, E = s.radius, s.n_face, s.n_node, s.n_edge
    c.check(N - E + F == 2, "the mesh is not a closed surface (Euler characteristic is not 2)", nodes=N, edges=E, faces=F, kind=kind)
    fl, nl = np.stack([s.face_lon, s.face_lat], 1), np.stack([s.node_lon, s.node_lat], 1)
    for nm, ll in (("face", fl), ("node", nl)):
        c.check(np.all(np.isfinite(ll)) and np.all(np.abs(ll[:, 0]) <= 180 + 1e-9) and np.all(np.abs(ll[:, 1]) <= 90 + 1e-9), f"{nm} coordinates are out of range", kind=kind)
    fx, nx = (np.stack(v, 1) / R for v in ((s.face_x, s.face_y, s.face_z), (s.node_x, s.node_y, s.node_z)))
    for nm, u, ll in (("face", fx, fl), ("node", nx, nl)):
        c.check(np.abs(np.linalg.norm(u, axis=1) - 1).max() < 1e-7, f"{nm}s are not on the body's radius", kind=kind)
        err = np.abs(u - unit(*ll.T)).max(axis=1)
        tol = np.where(np.abs(ll[:, 1]) > 89.97, 3e-4, 1e-7)  # latitudes lose precision at the poles
        c.check(np.all(err < tol), f"Cartesian {nm} positions do not match their longitude and latitude on the body", err=float((err / tol).max()), kind=kind)
    fn = rows(s.face_node_connectivity)
    c.check(len(fn) == F and min(map(len, fn)) >= 3 and np.array_equal(np.asarray(s.n_nodes_per_face), [len(f) for f in fn]), "a face has fewer than three nodes", kind=kind)
    areas = polygon_areas(nx, fn)
    tot = np.abs(areas).sum()
    c.check(np.all(np.abs(areas) > 0) and np.all(s.face_area > 0), "a face has no area", kind=kind)
    c.close(tot, 4 * math.pi, "the faces do not cover the sphere exactly once", rtol=1e-7, kind=kind)
    size = np.sqrt(np.abs(areas))
    tol = 2e-2 * size**4 + 1e-7
    worst = int(np.argmax(np.abs(s.face_area / R**2 / np.abs(areas) - 1) / tol))
    c.check(np.all(np.abs(s.face_area / R**2 / np.abs(areas) - 1) < tol), "a face area is not the area of its polygon", kind=kind, face=worst, got=float(s.face_area[worst] / R**2), want=float(abs(areas[worst])))
    c.close(s.area, float(np.sum(s.face_area)), "the surface area is not the sum of its faces", rtol=1e-9, kind=kind)
    c.check(np.allclose(s.face_size, np.sqrt(s.face_area), rtol=1e-12), "face sizes are not the root of the face areas", kind=kind)
    for nm, v in (("pix_min", s.face_size.min()), ("pix_max", s.face_size.max()), ("pix_mean", s.face_size.mean()), ("pix_std", s.face_size.std())):
        c.close(getattr(s, nm), float(v), f"{nm} is not that of the faces", rtol=1e-9, atol=1e-9 * R, kind=kind)
    # each face's centre lies inside its polygon
    out = 0
    for i, f in enumerate(fn):
        p = nx[f]
        side = np.einsum("ij,j->i", np.cross(p, np.roll(p, -1, axis=0)), fx[i]) * np.sign(areas[i])
        out += bool(side.min() < -1e-7)
    c.check(out == 0, "the centre of a face is outside the face", bad=out, faces=F, kind=kind)
    tree = cKDTree(fx)
    nf = rows(s.node_face_connectivity)
    inv = [set() for _ in range(N)]
    for i, f in enumerate(fn):
        for n in f:
            inv[n].add(i)
    for n in range(N):
        if set(nf[n].tolist()) != inv[n] or len(inv[n]) < 3:
            c.fail("node-to-face connectivity is not the inverse of face-to-node connectivity", node=n, got=nf[n].tolist(), want=sorted(inv[n]), kind=kind)
            break
    # edges
    ef, en, fe, ff = rows(s.edge_face_connectivity), rows(s.edge_node_connectivity), rows(s.face_edge_connectivity), rows(s.face_face_connectivity)
    ok = all(len(f) == 2 and len(n) == 2 for f, n in zip(ef, en))
    if c.check(ok and len(ef) == E, "an edge does not have two nodes and two faces", kind=kind):
        ef, en = np.array(ef), np.array(en)
        sets = [set(f.tolist()) for f in fn]
        bade = sum(1 for i in range(E) if not set(en[i]) <= (sets[ef[i][0]] & sets[ef[i][1]]))
        c.check(bade == 0, "an edge's nodes do not belong to both its faces", bad=bade, kind=kind)
        want = [set() for _ in range(F)]
        wantf = [set() for _ in range(F)]
        for i in range(E):
            a, b = (int(x) for x in ef[i])
            want[a].add(i)
            want[b].add(i)
            wantf[a].add(b)
            wantf[b].add(a)
        c.check(all(set(fe[i].tolist()) == want[i] for i in range(F)), "face-to-edge connectivity is not the inverse of edge-to-face connectivity", kind=kind)
        c.check(all(set(ff[i].tolist()) == wantf[i] for i in range(F)), "face-to-face connectivity does not list the faces across each edge", kind=kind)
        for nm, got, w in (("edge_length", s.edge_length, central_angle(nl[en[:, 0]], nl[en[:, 1]])), ("edge_face_distance", s.edge_face_distance, central_angle(fl[ef[:, 0]], fl[ef[:, 1]]))):
            err = float(np.abs(np.asarray(got) / R - w).max())
            c.check(err < 1e-6, f"{nm} is not the great circle distance", err=err, kind=kind)
    # size classes partition the faces
    b = s.face_bin_indices
    flat = np.concatenate(b)
    c.check(len(flat) == F and np.array_equal(np.sort(flat), np.arange(F)), "the size classes do not partition the faces", kind=kind, n=len(flat), faces=F)
    for i, idx in enumerate(b):
        ar = s.face_area[idx]
        c.check(ar.max() <= 2 * ar.min() * (1 + 1e-9), "faces in one size class differ by more than a factor of two in area", kind=kind, ratio=float(ar.max() / ar.min()))
        c.check(math.isclose(s.face_bin_area[i], ar.sum(), rel_tol=1e-9) and math.isclose(s.face_bin_min_areas[i], ar.min(), rel_tol=1e-12) and math.isclose(s.face_bin_max_areas[i], ar.max(), rel_tol=1e-12), "a size class does not report its own areas", kind=kind)
        c.check(math.isclose(s.face_bin_min_sizes[i], math.sqrt(ar.min()), rel_tol=1e-9) and math.isclose(s.face_bin_max_sizes[i], math.sqrt(ar.max()), rel_tol=1e-9) and s.face_bin_argmin[i] in idx and s.face_bin_argmax[i] in idx, "a size class does not report its own sizes", kind=kind)
    # nearest face and node of arbitrary places
    tn = cKDTree(nx)
    rng = c.rng
    q = [(float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1))))) for _ in range(8)] + [(180.0, 0.0), (-180.0, 5.0), (0.0, 90.0), (37.0, -90.0), (359.0, 10.0), (float(fl[0, 0]), float(fl[0, 1]))]
    for p in q:
        u = unit(np.array(p[0]), np.array(p[1]))
        for nm, t, xyz, got in (("face", tree, fx, s.find_nearest_face(p)), ("node", tn, nx, s.find_nearest_node(p))):
            d = t.query(u)[0]
            c.check(np.linalg.norm(xyz[int(got)] - u) <= d + (3e-4 if abs(p[1]) > 89.9 else 1e-7), f"find_nearest_{nm} returned one that is not the nearest", at=p, got=int(got), kind=kind)
    # elevation is radial
    el = rng.uniform(-0.01, 0.02, F + N) * R
    s.update_elevation(el, overwrite=True)
    for nm, u, e in (("face", fx, el[:F]), ("node", nx, el[F:])):
        err = float(np.abs(s.elevation_to_cartesian(element=nm) / R - u * (1 + e / R)[:, None]).max())
        c.check(err < 1e-7, f"{nm} elevations are not measured outwards from the body's radius", err=err, kind=kind)
    c.note(faces=F, nodes=N, edges=E)
    c.seen(kind, int(math.log10(F) * 2), s.target.name)
    return fx, areas, fl


def icosphere(c):
    from cratermaker import Surface

    rng, t = c.rng, body(c, c.rng)
    g = int(rng.integers(0, 4 if c.tier == "quick" else 6))
    s = Surface.maker("icosphere", gridlevel=g, target=t, simdir=c.dir("s"))
    c.check(s.n_face == 10 * 4**g + 2 and s.n_node == 20 * 4**g, "an icosphere does not have the documented number of faces and nodes", gridlevel=g, faces=s.n_face, nodes=s.n_node)
    c.close(s.radius, t.radius, "the surface does not have the radius of its body", rtol=1e-12)
    c.close(s.pix, s.pix_mean, "pix is not the size of the faces", rtol=0.01, gridlevel=g)
    c.check(s.pix_min > 0.85 * s.pix and s.pix_max < 1.15 * s.pix, "icosphere faces are not uniform", gridlevel=g, lo=s.pix_min / s.pix, hi=s.pix_max / s.pix)
    measure(c, s, "icosphere")


def remade(c):
    """A surface made where another one was has the mesh that was asked for, not the one found there."""
    import cratermaker as cm
    from cratermaker import Surface

    rng = c.rng
    d = c.dir("s")
    R = float(10 ** rng.uniform(5, 6.8))
    ask = lambda: {"kind": str(rng.choice(["icosphere", "arbitrary_resolution"])), "level": int(rng.integers(0, 3)), "f": float(rng.uniform(0.3, 0.6)), "R": R}
    cur = ask()
    for i in range(6):
        if i:
            what = str(rng.choice(["level", "level", "radius", "kind", "same"]))
            if what in ("level", "both"):
                cur["level"] = (cur["level"] + 1) % 3
                cur["f"] *= float(rng.choice([0.8, 1.3, 1.008, 1.0006, 0.997]))
            if what in ("radius", "both"):
                cur["R"] *= float(rng.choice([0.5, 1.01, 1.0004, 2.0]))
            if what == "kind":
                cur["kind"] = "icosphere" if cur["kind"] != "icosphere" else "arbitrary_resolution"
        else:
            what = "first"
        t = cm.Target.maker("Same Name", diameter=2 * cur["R"], mass=1e22, material="Soft Rock", transition_scale_type="silicate")
        more = {"gridlevel": cur["level"]} if cur["kind"] == "icosphere" else {"pix": (0.3 + (cur["f"] - 0.3) % 0.4) * cur["R"]}
        keep = bool(rng.random() < 0.6)
        s = Surface.maker(cur["kind"], target=t, simdir=d, ask_overwrite=False, reset=not keep, **more)
        info = dict(step=i, what=what, reset=not keep, **cur)
        w = Surface.maker(cur["kind"], target=t, simdir=c.dir(f"w{i}"), ask_overwrite=False, **more)
        c.check(s.n_face == w.n_face and s.n_node == w.n_node and np.allclose(np.sort(np.asarray(s.face_lat)), np.sort(np.asarray(w.face_lat)), atol=1e-6) and np.allclose(np.sort(np.asarray(s.face_area)), np.sort(np.asarray(w.face_area)), rtol=1e-6), "a surface made over an older one has another mesh than one made afresh", faces=int(s.n_face), want=int(w.n_face), **info)
        c.close(s.radius, cur["R"], "a remade surface does not have the radius of its body", rtol=1e-9, **info)
        c.close(float(np.sum(s.face_area)), 4 * np.pi * cur["R"] ** 2, "a remade surface does not have the area of its body", rtol=5e-3, **info)
        if cur["kind"] == "icosphere":
            c.check(s.n_face == 10 * 4 ** cur["level"] + 2, "a remade surface has another mesh than asked for", faces=int(s.n_face), **info)
        else:
            c.close(s.pix_mean, more["pix"], "a remade surface has another face size than asked for", rtol=0.06, **info)
        xyz = np.column_stack([np.asarray(s.node_x), np.asarray(s.node_y), np.asarray(s.node_z)]) if hasattr(s, "node_x") else None
        if xyz is not None:
            rr = np.linalg.norm(xyz, axis=1)
            c.check(np.allclose(rr, rr[0], rtol=1e-6) and (abs(rr[0] - 1) < 1e-6 or abs(rr[0] / cur["R"] - 1) < 1e-6), "the nodes of a remade surface are not on its body", got=float(rr[0]), **info)
        c.check(len(s.face_elevation) == s.n_face and len(s.node_elevation) == s.n_node, "the data of a remade surface does not fit its mesh", **info)
        if what == "same":
            c.check(np.array_equal(np.asarray(s.face_elevation), mark if keep else 0 * mark), "making the same surface again does not find its data" if keep else "a surface made anew is not blank", **info)
        s.update_elevation(rng.normal(size=s.n_face), overwrite=True)
        s.save()
        mark = np.array(s.face_elevation)
        c.seen("remade", what, cur["kind"], cur["level"])
    c.note(last=cur)


def arbitrary(c):
    from cratermaker import Surface

    rng, t = c.rng, body(c, c.rng)
    f = float(np.exp(rng.uniform(np.log(0.12 if c.tier == "quick" else 0.06), np.log(0.6))))
    s = Surface.maker("arbitrary_resolution", pix=f * t.radius, target=t, simdir=c.dir("s"))
    c.close(s.pix, f * t.radius, "pix is not the requested size", rtol=1e-12)
    c.close(s.pix_mean, s.pix, "the mean face size is not the requested size", rtol=0.03 + 0.05 * f, f=f)
    c.check(s.pix_min > 0.6 * s.pix and s.pix_max < 1.35 * s.pix, "faces are not uniform", f=f, lo=s.pix_min / s.pix, hi=s.pix_max / s.pix)
    measure(c, s, "arbitrary")


def hireslocal(c):
    from cratermaker import Surface

    rng, t = c.rng, body(c, c.rng)
    R = t.radius
    loc = [(0.0, 0.0), (180.0, 0.0), (12.0, 90.0), (-30.0, -90.0), (179.9, 45.0), (0.0, -89.9)][int(rng.integers(6))] if rng.random() < 0.4 else (float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1)))))
    rad = float(rng.uniform(0.03, 0.25)) * R
    pix = rad / float(rng.uniform(4, 9))
    fac = float(rng.uniform(4, 20))
    s = Surface.maker("hireslocal", pix=pix, local_radius=rad, local_location=loc, superdomain_scale_factor=fac, target=t, simdir=c.dir("s"))
    fx, areas, fl = measure(c, s, "hireslocal")
    c.close(s.pix, pix, "pix is not the requested size", rtol=1e-12)
    c.close(s.local_radius, rad, "local_radius is not the requested one", rtol=1e-12)
    dist = central_angle(fl, np.array(loc)) * R
    size = np.sqrt(np.abs(areas)) * R
    inner = size[dist < rad - 2 * pix]
    if len(inner) > 5:
        c.close(float(np.median(inner)), pix, "faces inside the local region do not have the requested size", rtol=0.25, loc=loc)
        c.check(inner.min() > 0.6 * pix and inner.max() < 1.5 * pix, "faces inside the local region are not uniform", lo=float(inner.min() / pix), hi=float(inner.max() / pix), loc=loc)
    far = size[dist > 0.9 * math.pi * R]
    if len(far):
        c.note(far=float(np.median(far) / pix / fac))
        c.check(float(far.max()) < 2 * fac * pix, "faces far from the local region exceed the requested scale factor", ratio=float(far.max() / pix), fac=fac)
    out = size[dist > rad + 3 * pix]
    c.check(len(out) == 0 or out.min() > 0.6 * pix, "faces outside the local region are finer than inside it", lo=float(out.min() / pix) if len(out) else 0)
    # the local part holds the faces of the region, the rest is outside
    loc_idx = np.arange(s.n_face)[s.local.face_indices]
    inside = np.where(dist < rad - 1e-6 * R)[0]
    c.check(set(inside.tolist()) <= set(loc_idx.tolist()), "a face inside the local radius is missing from the local surface", missing=len(set(inside.tolist()) - set(loc_idx.tolist())))
    c.check(dist[loc_idx].max() < rad + 6 * size[loc_idx].max(), "the local surface holds faces far outside the local radius", far=float(dist[loc_idx].max() / rad))
    c.seen("hireslocal-loc", loc in ((0.0, 0.0),), abs(loc[1]) > 80, abs(loc[0]) > 170)


SCENARIOS = [("icosphere", icosphere, 10, 120), ("remade", remade, 7, 100), ("arbitrary", arbitrary, 8, 120), ("hireslocal", hireslocal, 8, 120)]
