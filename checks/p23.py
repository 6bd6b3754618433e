"""P23: forming craters moves material, it does not create or destroy any; what is out of reach stays as it was."""
import math

import numpy as np

from lib.simkit import make_sim, wrap_method

PROPERTY = "P23"
TECHNIQUE = "conservation monitoring: the volume on the mesh, the regolith thickness and everything out of reach are measured before and after every crater that is formed, by hooks on the live surface"
RULE = "emplacements of one to many craters (isolated, nested, overlapping, over rough terrain, at poles and antimeridian) with and without slope collapse, rays, ejecta truncation and subpixel degradation, on global and local meshes of several resolutions; a state is (mesh, options, number of faces in the crater, sign of the excavated volume)."


def idx(v, n):
    return np.arange(n)[v] if isinstance(v, slice) else np.asarray(v)


def loc(rng):
    m = rng.random()
    if m < 0.1:
        return float(rng.uniform(-180, 180)), float(rng.choice([-89.5, 89.5]))
    if m < 0.2:
        return float(rng.choice([-179.9, 179.9])), float(rng.uniform(-60, 60))
    return float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1))))


class Meter:
    """Checks the balance of every crater formed on sim."""

    def __init__(self, c, sim, opts):
        self.c, self.sim, self.opts, self.n = c, sim, opts, 0
        wrap_method(sim.morphology, "form_crater", self.form)

    def measure(self):
        s = self.sim.surface
        e = np.array(s.face_elevation, float)
        t = np.array(s.uxds["ejecta_thickness"].values, float) if "ejecta_thickness" in s.uxds else np.zeros_like(e)
        return e, np.array(s.node_elevation, float), t

    def form(self, orig, crater, *a, **k):
        c, s = self.c, self.sim.surface
        area = np.asarray(s.face_area, float)
        e0, n0, t0 = self.measure()
        emplaced = self.sim.counting.n_emplaced
        r = orig(crater, *a, **k)
        e1, n1, t1 = self.measure()
        if self.sim.counting.n_emplaced == emplaced:
            c.check(np.array_equal(e0, e1) and np.array_equal(n0, n1) and np.array_equal(t0, t1), "a crater that is not formed changes the surface", **self.opts)
            return r
        self.n += 1
        de = e1 - e0
        moved = float(np.sum(np.abs(de) * area))
        net = float(np.sum(de * area))
        ok = np.isfinite(e1).all() and np.isfinite(n1).all() and np.isfinite(t1).all()
        c.check(ok, "forming a crater leaves values that are not finite", diameter=crater.diameter, **self.opts)
        c.check(moved > 0, "forming a crater moves no material", diameter=crater.diameter, **self.opts)
        noise = 1e-12 * float(np.sum(np.abs(e0) * area))
        c.check(abs(net) <= 1e-8 * moved + noise, "forming a crater creates or destroys material", net=net, moved=moved, ratio=net / max(moved, 1e-300), diameter=crater.diameter, **self.opts)
        reg = s.extract_region(crater.location, crater.ejecta_rmax)
        f, nd = idx(reg.face_indices, s.n_face), idx(reg.node_indices, s.n_node)
        out = np.ones(s.n_face, bool)
        out[f] = False
        outn = np.ones(s.n_node, bool)
        outn[nd] = False
        c.check(np.array_equal(e0[out], e1[out]) and np.array_equal(n0[outn], n1[outn]) and np.array_equal(t0[out], t1[out]), "forming a crater changes the surface beyond its ejecta", diameter=crater.diameter, rmax=crater.ejecta_rmax, **self.opts)
        inner = np.asarray(reg.face_distance, float) < 0.6 * crater.radius
        if inner.sum() >= 4:
            c.check(float(np.sum((de * area)[f][inner])) < 0, "the inside of a new crater is not excavated", diameter=crater.diameter, **self.opts)
            # the interior has lost its regolith, apart from what slides or creeps back from the walls
            m = self.sim.morphology
            if not m.do_slope_collapse and not m.do_subpixel_degradation:
                old, left = np.median(t0[f][inner]), np.median(t1[f][inner])
                c.check(old < 10 or left < 0.5 * old, "older ejecta is left inside a new crater", diameter=crater.diameter, before=float(old), left=float(left), **self.opts)
                c.seen("bare", bool(old >= 10))
        c.seen(*self.opts.values(), min(int(inner.sum()), 5), bool(out.any()))
        return r


def rough(rng, sim):
    s = sim.surface
    if rng.random() < 0.5:
        s.update_elevation(rng.normal(0, 10 ** rng.uniform(0, 3), s.n_face + s.n_node))
        return True
    return False


def balance(c):
    rng = c.rng
    level = int(rng.choice([1, 2, 3, 4], p=[0.15, 0.35, 0.4, 0.1]))
    kw = dict(
        do_slope_collapse=bool(rng.random() < 0.5), dorays=bool(rng.random() < 0.3), do_subpixel_degradation=bool(rng.random() < 0.2),
        ejecta_truncation=[None, None, 1.3, 2.5, 6.0][int(rng.integers(5))], morphology=str(rng.choice(["basicmoon", "realisticmoon"], p=[0.85, 0.15])),
    )
    target = str(rng.choice(["Moon", "Moon", "Mercury", "Ceres"]))
    sim = make_sim(c, "s", gridlevel=level, rng_seed=int(rng.integers(1 << 30)), target=target, projectile="asteroids" if target != "Moon" else None, production="powerlaw", **kw)
    r = rough(rng, sim)
    m = Meter(c, sim, {"level": level, "rough": r, "target": target, **{k: v for k, v in kw.items() if k != "morphology"}})
    f = math.sqrt(float(np.mean(sim.surface.face_area)))
    first = None
    for _ in range(int(rng.integers(2, 5))):
        crs = []
        for _ in range(int(rng.integers(1, 5))):
            x = first if first is not None and rng.random() < 0.25 else loc(rng)
            first = first or x
            crs.append(sim.Crater.maker(diameter=float(f * 10 ** rng.uniform(-0.2, 0.8)), location=x))
        sim.emplace(crs)
    e = np.asarray(sim.surface.face_elevation)
    c.check(np.isfinite(e).all(), "an emplacement leaves elevations that are not finite")
    c.note(craters=m.n, level=level)


def local(c):
    """The same on a local high-resolution mesh with its coarse surroundings, and on a mesh of arbitrary resolution."""
    rng = c.rng
    if rng.random() < 0.6:
        rad = float(10 ** rng.uniform(4.7, 5.7))
        sim = make_sim(c, "s", surface="hireslocal", local_location=(float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80))), pix=rad / 8, local_radius=rad, superdomain_scale_factor=20, do_subpixel_degradation=False, rng_seed=int(rng.integers(1 << 30)))
        x, f, kind = sim.surface.local_location, rad / 8, "hireslocal"
    else:
        sim = make_sim(c, "s", surface="arbitrary_resolution", pix=3e5, do_subpixel_degradation=False, rng_seed=int(rng.integers(1 << 30)))
        x, f, kind = None, 3e5, "arbitrary"
    sim.morphology.do_slope_collapse = bool(rng.random() < 0.5)
    r = rough(rng, sim)
    m = Meter(c, sim, {"kind": kind, "rough": r, "collapse": sim.morphology.do_slope_collapse})
    s = sim.surface
    for _ in range(3):
        if x is None:
            y = loc(rng)
        else:
            y = tuple(float(v) for v in np.ravel(s.compute_location_from_distance_bearing(distance=float(rng.uniform(0, 6) * f), bearing=float(rng.uniform(0, 360)), reference_location=x)))
        sim.emplace(diameter=float(f * 10 ** rng.uniform(0.2, 0.9)), location=y)
    c.check(m.n > 0, "no crater was formed on a mesh that resolves it", kind=kind)


def history(c):
    """A whole run conserves the volume, whatever its production population, degradation and intervals."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=3, rng_seed=int(rng.integers(1 << 30)), dorays=bool(rng.random() < 0.3))
    s = sim.surface
    area = np.asarray(s.face_area)
    m = Meter(c, sim, {"run": True})
    sim.run(age=float(rng.uniform(3500, 4100)), ninterval=int(rng.integers(1, 4)))
    e = np.asarray(s.face_elevation)
    net, tot = float(np.sum(e * area)), float(np.sum(np.abs(e) * area))
    c.check(abs(net) <= 1e-7 * max(tot, 1e-9), "a run creates or destroys material", net=net, total=tot, craters=m.n)
    t = np.asarray(s.uxds["ejecta_thickness"].values) if "ejecta_thickness" in s.uxds else np.zeros(1)
    c.check(np.isfinite(t).all(), "a run leaves a regolith thickness that is not finite")
    c.note(craters=m.n)


SCENARIOS = [("balance", balance, 40, 900), ("local", local, 8, 120), ("history", history, 8, 64)]
