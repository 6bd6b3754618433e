"""P28: a high-resolution local surface is fine inside its region, coarse outside, and records craters only inside."""
import math
import os
from pathlib import Path

import numpy as np

from lib.geo import central_angle as angle
from checks.p25 import Guard, snap

PROPERTY = "P28"
RULE = "High-resolution local surfaces over body radius, location (poles and antimeridian included), pixel size, region radius and superdomain factor; histories of region operations, craters, saves, outputs and reopenings; a state is (operation, placement relative to the local region, settings class)."


def settings(rng, small=True):
    R = float(rng.choice([1737.4e3, 1.0, 6371e3, 262.7e3])) * float(rng.uniform(0.9, 1.1))
    R = max(R, 2e5)
    lr = R * float(rng.uniform(0.13, 0.35))
    return R, dict(pix=lr / float(rng.uniform(5, 9)), local_radius=lr, superdomain_scale_factor=float(rng.choice([1.0, 4.0, 12.0, 20.0, 40.0])),
                   local_location=(float(rng.choice([0.0, 180.0, -179.5, rng.uniform(-180, 180)])), float(rng.choice([0.0, 90.0, -90.0, 89.0, rng.uniform(-80, 80), rng.uniform(-80, 80)]))))


def body(R):
    import cratermaker as cm

    return cm.Target.maker("Thing", radius=R, mass=3000 * 4 / 3 * math.pi * R**3, material="Soft Rock", transition_scale_type="silicate")


def make(c, name, R, kw, **more):
    import cratermaker as cm

    return cm.Surface.maker("hireslocal", target=body(R), simdir=c.dir(name), **{"ask_overwrite": False, **kw, **more})


def lonlat(s):
    return np.column_stack([s.face_lon, s.face_lat])


def dist(s, loc):
    """Distance of every face of s from a place, computed here."""
    return angle(np.array(loc, float), lonlat(s)) * s.radius


def idx(f, n):
    return np.arange(n)[f]


def grow(s, faces):
    """Faces sharing a node with the given ones, and they."""
    m = np.zeros(s.n_node, bool)
    fn = np.asarray(s.face_node_connectivity)
    x = fn[faces].ravel()
    m[x[x >= 0]] = True
    ok = fn >= 0
    return np.nonzero((m[np.where(ok, fn, 0)] & ok).any(1))[0]


def mesh(c):
    """Region, flags, pixel sizes and the size function of one surface."""
    rng = c.rng
    R, kw = settings(rng)
    s = make(c, "m", R, kw)
    loc, lr, pix, fac = kw["local_location"], kw["local_radius"], kw["pix"], kw["superdomain_scale_factor"]
    L = s.local
    d = dist(s, loc)
    inr = np.nonzero(d <= lr)[0]
    edge = np.abs(d - lr) < 1e-6 * R
    want = set(grow(s, inr).tolist())
    got = set(idx(L.face_indices, s.n_face).tolist())
    if not edge.any():
        c.check(got == want, "the local region is not the faces within its radius and their neighbours", n=len(got), want=len(want), missing=len(want - got), extra=len(got - want), **kw)
    fn = np.asarray(s.face_node_connectivity)
    nodes = np.unique(fn[sorted(got)])
    nodes = set(nodes[nodes >= 0].tolist())
    c.check(set(idx(L.node_indices, s.n_node).tolist()) == nodes, "the nodes of the local region are not those of its faces", **kw)
    for nm, n, w in (("is_local_face", s.n_face, got), ("is_local_node", s.n_node, nodes)):
        c.check(nm in s.uxds and set(np.nonzero(np.asarray(s.uxds[nm].data))[0].tolist()) == w, f"{nm} does not mark the local region", **kw)
    c.close([L.region_radius, L.location[1]], [lr, loc[1]], "the local region has another radius or place than asked", rtol=1e-9, atol=1e-9)
    c.close(math.remainder(L.location[0] - loc[0], 360), 0, "the local region is elsewhere", atol=1e-9)
    fd = np.asarray(L.face_distance)
    c.check(np.abs(fd - d[idx(L.face_indices, s.n_face)]).max() < 1e-3 * pix, "the distances of the local faces are not measured from the middle of the region", err=float(np.abs(fd - d[idx(L.face_indices, s.n_face)]).max()), **kw)
    # sizes
    area = np.asarray(s.face_area)
    size = np.sqrt(area)
    core = d < lr - 2 * pix
    c.check(0.8 < np.median(size[core]) / pix < 1.25, "the local pixels do not have the size asked for", got=float(np.median(size[core])), want=pix, **kw)
    c.check(size[core].max() < 2.2 * pix and size[core].min() > 0.2 * pix, "a local pixel is far from the size asked for", lo=float(size[core].min() / pix), hi=float(size[core].max() / pix), **kw)
    f = np.asarray(s.superdomain_function(np.linspace(0, math.pi * R, 400)), float)
    x = np.linspace(0, math.pi * R, 400)
    c.check((f[x < lr] == pix).all(), "the size function is not the pixel size inside of the region", **kw)
    c.check((np.diff(f) >= -1e-9 * pix).all(), "the size function decreases away from the region", **kw)
    c.check(abs(float(s.superdomain_function(np.array([lr * (1 + 1e-9)]))[0]) - pix) < 1e-3 * pix * max(fac, 1), "the size function jumps at the border of the region", **kw)
    c.check(0.98 * fac * pix <= f[-1] <= 1.25 * fac * pix, "the size function does not reach the superdomain factor on the far side", got=float(f[-1] / pix), **kw)
    out = d > lr + 2 * pix
    fo = np.asarray(s.superdomain_function(d[out]), float)
    r = size[out] / fo
    c.check(0.6 < np.median(r) < 1.6, "the superdomain pixels do not follow the size function", got=float(np.median(r)), **kw)
    c.check(np.quantile(r, 0.98) < 3, "superdomain pixels are much larger than the size function", got=float(np.quantile(r, 0.98)), **kw)
    c.check(s.pix == pix and s.local_radius == lr and s.superdomain_scale_factor == fac, "a setting does not have the value given", got=(s.pix, s.local_radius, s.superdomain_scale_factor), **kw)
    if abs(loc[1]) < 89.9:  # places are relative to the region unless said otherwise
        dd, bb = float(rng.uniform(0.1, 2) * lr), float(rng.uniform(0, 360))
        p = s.compute_location_from_distance_bearing(distance=dd, bearing=bb)
        c.close(float(angle(np.array([p], float), np.array([loc], float))[0]) * R, dd, "a place given by distance is not at that distance from the middle of the region", rtol=1e-6)
        q = s.compute_location_from_distance_bearing(distance=dd, bearing=bb, reference_location=loc)
        c.check(np.allclose(p, q, atol=1e-9), "the middle of the region is not the reference by default", p=p, q=q)
    c.seen("mesh", fac, round(abs(loc[1]) / 30), abs(loc[0]) > 170, round(lr / pix))
    c.note(R=R, n_face=s.n_face, n_local=L.n_face, **kw)


def invalid(c):
    """Settings that make no sense are refused."""
    rng = c.rng
    R, kw = settings(rng)
    bad = [("pix", -1.0), ("pix", 0.0), ("pix", math.nan), ("local_radius", 0.0), ("local_radius", -5.0), ("local_radius", math.inf), ("local_radius", 3.2 * R), ("local_radius", kw["pix"] * 0.5),
           ("superdomain_scale_factor", 0.5), ("superdomain_scale_factor", math.nan), ("local_location", (1.0,)), ("local_location", 3.0)]
    for i, (k, v) in enumerate(bad):
        c.raises(lambda: make(c, f"b{i}", R, {**kw, k: v}), f"{k}={v}", (TypeError, ValueError))
        c.seen("invalid", k, i)
    c.note(n=len(bad))


def place(rng, s, kw):
    """A place and radius inside of, across the border of, or outside of the local region."""
    lr = kw["local_radius"]
    where = int(rng.integers(4))
    if where == 0:
        dd, r = rng.uniform(0, 0.4) * lr, rng.uniform(0.2, 0.5) * lr
    elif where == 1:
        dd, r = rng.uniform(0.8, 1.3) * lr, rng.uniform(0.4, 1) * lr
    elif where == 2:
        dd, r = rng.uniform(2.6, 6) * lr, rng.uniform(0.3, 1.2) * lr
    else:
        dd, r = rng.uniform(0, 1) * lr, rng.uniform(2, 3) * lr
    loc = s.compute_location_from_distance_bearing(distance=float(dd), bearing=float(rng.uniform(0, 360)), reference_location=kw["local_location"])
    return ["inside", "across", "outside", "around"][where], (float(loc[0]), float(loc[1])), float(r)


def regions(c):
    """Operations on a region change the faces it shares with the local region, in the right places, and nothing else."""
    rng = c.rng
    R, kw = settings(rng)
    kw["superdomain_scale_factor"] = 12.0
    s = make(c, "r", R, kw)
    isl = np.zeros(s.n_face, bool)
    isl[idx(s.local.face_indices, s.n_face)] = True
    for step in range(14):
        where, loc, r = place(rng, s, kw)
        reg = s.extract_region(loc, r)
        if reg is None:
            continue
        if rng.random() < 0.3:
            r = r * float(rng.uniform(0.4, 1.2))
            reg = reg.extract_subregion(r)
            if reg is None:
                continue
        F = np.zeros(s.n_face, bool)
        F[idx(reg.face_indices, s.n_face)] = True
        S = F & isl
        ov = reg.local_overlap
        core = F & isl & (dist(s, loc) < 0.999 * r) & (dist(s, kw["local_location"]) < 0.999 * kw["local_radius"])
        if ov is None and not core.any():  # only their borders touch: there need not be an overlap
            S = np.zeros_like(S)
        info = dict(where=where, F=int(F.sum()), shared=int(S.sum()))
        c.check((ov is None) == (not S.any()) if S.sum() != 0 or ov is None else False, "a region overlaps the local region where it does not, or not where it does", got=None if ov is None else ov.n_face, **info)
        if ov is not None:
            c.check(set(idx(ov.face_indices, s.n_face).tolist()) == set(np.nonzero(S)[0].tolist()), "the overlap is not the faces in both regions", **info)
            c.check(np.abs(np.asarray(ov.face_distance) - dist(s, loc)[idx(ov.face_indices, s.n_face)]).max() < 1e-6 * R, "distances in the overlap are not measured from the middle of the region", **info)
        op = ["tag", "tagsuper", "diffuse", "diffuse_array", "noise", "collapse"][int(rng.integers(6))]
        e = np.where(rng.random(s.n_face) < 0.5, 0.0, rng.uniform(-3, 3, s.n_face) * kw["pix"])
        s.update_elevation(e, overwrite=True)
        e = s.face_elevation.copy()
        area = np.asarray(s.face_area)
        if op.startswith("tag"):
            name, tag = f"t{step}", int(rng.integers(1, 2**31))
            s.add_tag(name=name, tag=None)
            reg.add_tag(name=name, tag=tag, **({"tag_superdomain": True} if op == "tagsuper" else {"tag_superdomain": False} if rng.random() < 0.5 else {}))
            t = np.asarray(s.uxds[name].data)
            c.check(np.array_equal((t == tag).any(1), F if op == "tagsuper" else S), "a tag does not mark the faces it was asked for", op=op, got=int((t == tag).any(1).sum()), **info)
            c.check(((t == tag) | (t == 0)).all(), "a tag appears that was not given", **info)
            c.check(np.array_equal(e, s.face_elevation), "tagging changes elevations", **info)
        elif op == "collapse":
            reg.slope_collapse(35.0)
            ch = s.face_elevation != e
            c.check(not (ch & ~S).any(), "a slope collapse changes faces outside of the shared ones", n=int((ch & ~S).sum()), **info)
            c.close(float((s.face_elevation * area).sum()) / (area.sum() * kw["pix"]), float((e * area).sum()) / (area.sum() * kw["pix"]), "a slope collapse changes the volume", rtol=1e-9, atol=1e-9)
        elif op == "noise":
            reg.apply_noise(model="turbulence", noise_width=kw["pix"] * 3, noise_height=kw["pix"] * 0.1)
            ch = s.face_elevation != e
            c.check(not (ch & ~S).any(), "noise changes faces outside of the shared ones", n=int((ch & ~S).sum()), **info)
            c.check(ch.any() == S.any(), "noise does not change the shared faces", changed=int(ch.sum()), **info)
        elif op == "diffuse":
            k = float(0.02 * kw["pix"] ** 2)
            reg.apply_diffusion(k)
            ch = s.face_elevation != e
            c.check(not (ch & ~S).any(), "diffusion changes faces outside of the shared ones", n=int((ch & ~S).sum()), **info)
            c.check(ch.sum() > 0.3 * S.sum() or S.sum() < 4, "diffusion does not change the shared faces", changed=int(ch.sum()), **info)
            c.close(float((s.face_elevation * area).sum()) / (area.sum() * kw["pix"]), float((e * area).sum()) / (area.sum() * kw["pix"]), "diffusion changes the volume", rtol=1e-9, atol=1e-9)
        else:  # only around one face
            k = np.zeros(reg.n_face)
            fi = idx(reg.face_indices, s.n_face)
            j = int(rng.integers(reg.n_face))
            if S.any() and rng.random() < 0.7:
                j = int(rng.choice(np.nonzero(S[fi])[0]))
            k[j] = 0.05 * kw["pix"] ** 2
            reg.apply_diffusion(k)
            ch = np.nonzero(s.face_elevation != e)[0]
            near = set(grow(s, [int(fi[j])]).tolist()) & set(np.nonzero(S)[0].tolist()) if S[fi[j]] else set()
            c.check(set(ch.tolist()) <= near, "diffusion given per face acts on other faces", face=int(fi[j]), changed=ch[:8], near=sorted(near)[:8], **info)
            if S[fi[j]]:
                ends = idx(ov.face_indices, s.n_face)[np.asarray(ov.edge_face_connectivity)]
                around = ends[(ends == fi[j]).any(1)].ravel()
                steep = any(abs(e[f] - e[fi[j]]) > 1e-3 * kw["pix"] for f in around)
                c.check(int(fi[j]) in ch.tolist() or not steep, "diffusion given per face does not act on that face", face=int(fi[j]), changed=ch[:8], **info)
        c.seen(op, where, bool(S.any()), bool((F & ~S).any()))
    c.note(R=R, n_local=int(isl.sum()), **kw)


def craters(c):
    """Craters form everywhere; those in the local region are recorded and counted, those outside are not."""
    import cratermaker as cm
    from lib.simkit import make_sim

    rng = c.rng
    R, kw = settings(rng)
    kw["superdomain_scale_factor"] = 12.0
    kw["pix"] = kw["local_radius"] / 9
    sim = make_sim(c, "c", surface="hireslocal", rng_seed=int(rng.integers(1 << 30)), target=body(R), **kw)
    s = sim.surface
    isl = np.zeros(s.n_face, bool)
    isl[idx(s.local.face_indices, s.n_face)] = True
    lr = kw["local_radius"]
    made = []
    for k in range(5):
        where = ["inside", "outside", "across"][int(rng.integers(3))] if k else "inside"
        dd = {"inside": rng.uniform(0, 0.25), "outside": rng.uniform(3.5, 6), "across": rng.uniform(0.8, 1.2)}[where] * lr
        loc = tuple(float(x) for x in s.compute_location_from_distance_bearing(distance=float(dd), bearing=float(rng.uniform(0, 360))))
        D = float(rng.uniform(1.2, 1.5) * lr)
        if dist(s, loc).min() > 0.3 * D:
            continue
        e = s.face_elevation.copy()
        sim.emplace(diameter=D, location=loc)
        cr = sim.emplaced[-1]
        made.append((where, cr))
        d = dist(s, loc)
        ch = s.face_elevation != e
        c.check(ch[d < 0.4 * D / 2].all(), "a crater did not change the surface at its place", where=where, n=int((d < 0.2 * D).sum()), R=R)
        tags = np.asarray(s.uxds["crater_id"].data)
        mine = (tags == int(cr.id)).any(1)
        c.check(not (mine & ~isl).any(), "a crater is recorded outside of the local region", where=where, n=int((mine & ~isl).sum()))
        kept = mine.any() or where == "inside"  # one that is largely outside can be found worn out right away, and is then forgotten
        c.check(mine[isl & (d < 0.5 * D)].all() or not kept, "a crater is not recorded on its faces in the local region", where=where, n=int(mine.sum()))
        c.check((int(cr.id) in sim.observed) == (bool(mine.any())) or where != "outside", "a crater outside of the local region is counted", where=where)
        if where == "inside":
            c.check(int(cr.id) in sim.observed, "a fresh crater in the local region is not counted", D=D, faces=int(mine.sum()))
        if where == "outside":
            c.check(not mine.any() and int(cr.id) not in sim.observed, "a crater outside of the local region is counted", faces=int(mine.sum()))
        c.seen("crater", where, k, round(kw["local_location"][1] / 45), bool(mine.any()), int(cr.id) in sim.observed)
    tags = np.asarray(s.uxds["crater_id"].data)
    ids = {int(cr.id) for _, cr in made}
    c.check(set(np.unique(tags).tolist()) - {0} <= ids, "a face is marked with a crater that was never made", extra=sorted(set(np.unique(tags).tolist()) - {0} - ids)[:5])
    obs = dict(sim.observed)
    e = s.face_elevation.copy()
    sim.save()
    with Guard(c, c.tmp):
        again = cm.Simulation(simdir=c.tmp / "c", reset=False, ask_overwrite=False, save_actions=None)
    s2 = again.surface
    c.check(s2.n_face == s.n_face and np.array_equal(s2.face_elevation, e), "a reopened simulation has another local surface", n=(s.n_face, s2.n_face))
    c.check(np.array_equal(idx(s2.local.face_indices, s2.n_face), idx(s.local.face_indices, s.n_face)), "a reopened simulation has another local region")
    c.check(np.array_equal(np.asarray(s2.uxds["crater_id"].data), tags), "a reopened simulation lost the marks of its craters")
    c.check({int(k) for k in again.observed} == {int(k) for k in obs}, "a reopened simulation counts other craters", got=sorted(again.observed), want=sorted(obs))
    c.note(R=R, craters=[w for w, _ in made], observed=len(obs), **kw)


def reopen(c):
    """Reopening keeps the mesh, region and data; changed settings regrid; nothing is lost without consent."""
    import cratermaker as cm

    rng = c.rng
    R, kw = settings(rng)
    kw["superdomain_scale_factor"] = float(rng.choice([8.0, 20.0]))
    s = make(c, "o", R, kw)
    e = rng.uniform(-100, 100, s.n_face + s.n_node)
    s.update_elevation(e, overwrite=True)
    s.add_data(name="mark", data=rng.uniform(0, 1, s.n_face), long_name="mark", units="m")
    s.save(interval=4)
    state = dict(elev=s.face_elevation.copy(), node=s.node_elevation.copy(), saved=True)
    base = dict(n=s.n_face, local=idx(s.local.face_indices, s.n_face), kw=dict(kw))
    d = c.tmp / "o"
    for step in range(5):
        op = ["reopen", "reopen", "reset", "change", "regrid"][int(rng.integers(5))]
        ask = bool(rng.random() < 0.6)
        yes = bool(rng.random() < 0.5)
        before = snap(d)
        k2 = dict(kw)
        more = {"reset": False}
        if op == "reset":
            more = {"reset": True}
        if op == "regrid":
            more = {"regrid": True}
        if op == "change":
            which = str(rng.choice(["pix", "local_radius", "superdomain_scale_factor", "local_location"]))
            k2[which] = (10.0, -33.0) if which == "local_location" and kw[which] != (10.0, -33.0) else (11.0, 33.0) if which == "local_location" else kw[which] * float(rng.uniform(1.1, 1.3))
            if k2["local_radius"] / k2["pix"] < 4 or k2["local_radius"] > 0.6 * R:
                continue
        with Guard(c, c.tmp, answers="", fallback="y" if yes else "n") as g:
            s = make(c, "o", R, k2, ask_overwrite=ask, **more)
        info = dict(op=op, ask=ask, yes=yes, step=step, prompts=len(g.prompts))
        c.check(s.ask_overwrite == ask, "ask_overwrite is not as given after creation", got=s.ask_overwrite, **info)
        if op == "reopen":
            c.check(not g.prompts and not [p for p in g.deleted if p.endswith(".nc") and "_scratch" not in p], "reopening a surface asks or deletes", deleted=g.deleted[:4], **info)
            c.check(s.n_face == base["n"] and np.array_equal(idx(s.local.face_indices, s.n_face), base["local"]), "a reopened surface has another mesh or local region", **info)
            c.check(np.array_equal(s.face_elevation, state["elev"]) and np.array_equal(s.node_elevation, state["node"]), "a reopened surface has other elevations", **info)
        elif op in ("reset", "regrid"):
            c.check(s.n_face == base["n"] and np.array_equal(idx(s.local.face_indices, s.n_face), base["local"]), "the same settings make another mesh or local region", **info)
            if op == "reset" and ask and not yes:
                gone = [p for p in before if p not in snap(d) or snap(d)[p] != before[p]]
                c.check(not [p for p in gone if "surface0" in p], "a declined reset changes saved output", gone=gone, **info)
                c.check(len(g.prompts) == 1, "output is there, but not one prompt was shown", files=sorted(before), **info)
                c.check(np.array_equal(s.face_elevation, state["elev"]) and np.array_equal(s.node_elevation, state["node"]), "a declined reset changes the surface", **info)
            else:
                c.check(not s.face_elevation.any() and not s.node_elevation.any(), "a reset surface is not flat", **info)
                state["elev"], state["node"] = s.face_elevation.copy(), s.node_elevation.copy()
        else:
            kw = k2
            c.check(s.pix == kw["pix"] and s.local_radius == kw["local_radius"] and s.superdomain_scale_factor == kw["superdomain_scale_factor"], "a changed setting is not used", **info)
            dd = dist(s, kw["local_location"])
            if not (np.abs(dd - kw["local_radius"]) < 1e-6 * R).any():
                c.check(set(idx(s.local.face_indices, s.n_face).tolist()) == set(grow(s, np.nonzero(dd <= kw["local_radius"])[0]).tolist()), "the local region is not that of the changed settings", **info)
            c.check(not s.face_elevation.any(), "a surface made anew is not flat", **info)
            base = dict(n=s.n_face, local=idx(s.local.face_indices, s.n_face), kw=dict(kw))
            state["elev"], state["node"] = s.face_elevation.copy(), s.node_elevation.copy()
        c.check(len(set(g.prompts)) == len(g.prompts), "the same question is asked twice", asked=g.prompts[:4], **info)
        nl = np.nonzero(np.asarray(s.uxds["is_local_face"].data))[0]
        c.check(np.array_equal(nl, np.sort(idx(s.local.face_indices, s.n_face))), "is_local_face does not mark the local region after reopening", **info)
        if rng.random() < 0.6:
            s.update_elevation(rng.uniform(-50, 50, s.n_face + s.n_node), overwrite=True)
            s.ask_overwrite = False
            s.save(interval=int(rng.integers(8, 12)) + 10 * step)
            state["elev"], state["node"] = s.face_elevation.copy(), s.node_elevation.copy()
        c.seen("reopen", op, ask, yes, bool(g.prompts))
    c.note(R=R, **base["kw"])


def outputs(c):
    """Rasters and exports show the local region, or with superdomain=True the whole surface."""
    import geopandas as gpd
    import rasterio

    rng = c.rng
    R, kw = settings(rng)
    kw["superdomain_scale_factor"] = 12.0
    kw["local_location"] = (kw["local_location"][0], float(rng.uniform(-70, 70)))
    s = make(c, "x", R, kw)
    lon, lat = np.radians(s.face_lon), np.radians(s.face_lat)
    v = np.cos(lat) * np.cos(lon) * 300 + np.sin(lat) * 100
    s.update_elevation(v, overwrite=True)
    L = s.local
    lr = kw["local_radius"]
    ras, ext, _tr, _crs = s.to_raster("face_elevation")
    a = np.asarray(ras, float)
    half = max(abs(x) for x in ext)
    c.check(0.95 * lr < half < 1.7 * lr + 6 * kw["pix"], "the raster of a local surface does not cover its local region", ext=ext, lr=lr)
    fin = a[np.isfinite(a)]
    lv = v[idx(L.face_indices, s.n_face)]
    c.check(len(fin) and lv.min() - 1e-3 <= fin.min() and fin.max() <= lv.max() + 1e-3, "the raster of the local region holds values from elsewhere", lo=float(fin.min()), hi=float(fin.max()), want=(float(lv.min()), float(lv.max())))
    mid = a[a.shape[0] // 2, a.shape[1] // 2]
    near = v[dist(s, kw["local_location"]) < 3 * kw["pix"]]
    c.check(near.min() - 1e-3 <= mid <= near.max() + 1e-3, "the middle of the raster is not the middle of the local region", mid=float(mid), want=(float(near.min()), float(near.max())))
    ras, ext, _tr, _crs = s.to_raster("face_elevation", superdomain=True)
    c.check(np.allclose(ext, (-180, 180, -90, 90)), "the raster of the superdomain does not cover the whole body", ext=ext)
    c.check(np.nanmax(np.asarray(ras, float)) > 0.8 * v.max() and np.nanmin(np.asarray(ras, float)) < 0.8 * v.min(), "the raster of the superdomain lacks parts of the body", hi=float(np.nanmax(ras)), lo=float(np.nanmin(ras)))
    s.save(interval=0)
    for sup in (False, True):
        s.to_geotiff_file(interval=0, superdomain=sup)
        s.export(driver="GPKG", interval=0, superdomain=sup)
        fs = sorted(p.name for p in Path(c.tmp / "x").rglob("*") if p.suffix in (".gpkg", ".tif", ".tiff") )
        loc = [f for f in fs if f.startswith("local_")]
        glo = [f for f in fs if not f.startswith("local_")]
        c.check(len(loc) == 2 and len(glo) == (2 if sup else 0), "the files written are not those of the local region, or of the whole surface", files=fs, superdomain=sup)
        if len(loc) != 2 or (sup and len(glo) != 2):
            return
    byname = {p.name: p for p in Path(c.tmp / "x").rglob("*")}
    fn = np.asarray(s.face_node_connectivity)
    cross = sum(np.ptp(s.node_lon[r[r >= 0]]) > 179 for r in fn)  # faces across the antimeridian are left out of global exports
    for nm, want, less in ((next(f for f in loc if f.endswith("gpkg")), L.n_face, 0), (next(f for f in glo if f.endswith("gpkg")), s.n_face, cross)):
        g = gpd.read_file(byname[nm])
        c.check(want - less <= len(g) <= want, "an exported file does not hold the faces of its surface", file=nm, n=len(g), want=want)
    for nm, isloc in ((next(f for f in loc if f.endswith(("tif", "tiff"))), True), (next(f for f in glo if f.endswith(("tif", "tiff"))), False)):
        with rasterio.open(byname[nm]) as ds:
            b = ds.bounds
            wide = max(b.right - b.left, b.top - b.bottom)
            ok = 1.9 * lr < wide < 3.4 * lr + 12 * kw["pix"] if isloc else abs(b.right - b.left - 360) < 1e-6 or wide > 5 * R
            c.check(ok, "a GeoTIFF does not cover its surface", file=nm, bounds=list(b), lr=lr)
    c.seen("outputs", round(kw["local_location"][1] / 30), abs(kw["local_location"][0]) > 150)
    c.note(R=R, files=fs, **kw)


def automatic(c):
    """Without a factor, a simulation derives the superdomain from the reach of its craters, the same one when reopened."""
    import cratermaker as cm
    from lib.simkit import make_sim

    rng = c.rng
    loc = [(30.0, 20.0), (-170.0, -60.0), (0.0, 90.0)][c.index % 3]
    kw = dict(pix=6e4, local_radius=3.6e5, local_location=loc)
    sim = make_sim(c, "a", surface="hireslocal", rng_seed=int(rng.integers(1 << 30)), **kw)
    s = sim.surface
    R = s.radius
    x = np.linspace(0, math.pi * R, 200)
    f = np.asarray(s.superdomain_function(x), float)
    c.check((f[x < kw["local_radius"]] == kw["pix"]).all() and (np.diff(f) >= 0).all() and f[-1] > kw["pix"], "the derived size function is not the pixel size inside and growing outside", last=float(f[-1]))
    d = dist(s, loc)
    size = np.sqrt(np.asarray(s.face_area))
    core = d < kw["local_radius"] - 2 * kw["pix"]
    c.check(0.8 < np.median(size[core]) / kw["pix"] < 1.25, "the local pixels do not have the size asked for", got=float(np.median(size[core])))
    out = d > kw["local_radius"] + 2 * kw["pix"]
    r = size[out] / np.asarray(s.superdomain_function(d[out]), float)
    c.check(0.5 < np.median(r) < 1.7, "the superdomain pixels do not follow the size function", got=float(np.median(r)))
    sim.emplace(diameter=4e5, location=loc)
    sim.run(time_start=3000, time_end=2900)
    e = s.face_elevation.copy()
    with Guard(c, c.tmp) as g:
        again = cm.Simulation(simdir=c.tmp / "a", reset=False, ask_overwrite=False, save_actions=None)
    s2 = again.surface
    c.check(s2.n_face == s.n_face and np.array_equal(s2.face_elevation, e), "a reopened simulation has another local surface", n=(s.n_face, s2.n_face))
    c.check(np.array_equal(idx(s2.local.face_indices, s2.n_face), idx(s.local.face_indices, s.n_face)), "a reopened simulation has another local region")
    c.check(not g.prompts, "reopening a simulation asks", prompts=g.prompts[:3])
    c.seen("auto", c.index % 3)
    c.note(n=s.n_face, n_local=s.local.n_face, factor=float(s.superdomain_scale_factor))


SCENARIOS = [("mesh", mesh, 24, 240), ("invalid", invalid, 2, 8), ("regions", regions, 12, 120), ("craters", craters, 8, 80), ("reopen", reopen, 8, 80), ("outputs", outputs, 6, 48), ("automatic", automatic, 1, 12)]
