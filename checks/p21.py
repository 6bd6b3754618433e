"""P21: the observed craters are those whose marks are on the surface: tagged, overprinted, degraded, removed as documented."""
import math

import numpy as np

from lib import geo
from lib.simkit import crater_fields, make_sim

PROPERTY = "P21"
TECHNIQUE = "model-based monitoring: a reference model of crater tags and of the observed tally, updated by the documented rules, compared with the surface and the tally after every operation of random histories"
RULE = "random histories of count.add / remove / reset / tally over overlapping, nested and equal-sized craters (of the surface's own class and plain ones), on surfaces later flattened, filled or left alone, and over whole emplacements with counting on or off; a state is (operation, crater class, overprinted or not, outcome)."

MIN_FACES = 100
BUFFER = 1.5


def idx(v, n):
    return np.arange(n)[v] if isinstance(v, slice) else np.asarray(v)


def tagsets(s):
    if "crater_id" not in s.uxds:
        return [set() for _ in range(s.n_face)]
    return [set(int(x) for x in row if x) for row in np.asarray(s.uxds["crater_id"].values)]


def rand_loc(rng):
    return float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-0.98, 0.98))))


def near(rng, loc, ang):
    lon, lat = loc
    return float((lon + rng.uniform(-ang, ang) / max(0.2, math.cos(math.radians(lat))) + 180) % 360 - 180), float(np.clip(lat + rng.uniform(-ang, ang), -89, 89))


def big_sim(c, **kw):
    return make_sim(c, "s", gridlevel=4, rng_seed=int(c.rng.integers(1 << 30)), do_subpixel_degradation=False, **kw)


class Model:
    """tags: the set of ids of each face; observed: ids in the order in which they were observed."""

    def __init__(self, s):
        self.s = s
        self.tags = [set() for _ in range(s.n_face)]
        self.observed = {}

    def add(self, cr):
        reg = self.s.extract_region(cr.location, BUFFER * cr.radius)
        if reg is None or reg.n_face < MIN_FACES:
            return "small", 0
        f = idx(reg.face_indices, self.s.n_face)
        for i in f:
            self.tags[i].add(cr.id)
        self.observed[cr.id] = cr.diameter
        sub = reg.extract_subregion(subregion_radius=cr.radius)
        inner = idx(sub.face_indices, self.s.n_face)
        ids = set().union(*[self.tags[i] for i in inner]) if len(inner) else set()
        gone = 0
        for k in list(self.observed):
            if k in ids and self.observed[k] < cr.diameter:
                for i in inner:
                    self.tags[i].discard(k)
                if not any(k in t for t in self.tags):
                    del self.observed[k]
                    gone += 1
        return "observed", gone

    def remove(self, k):
        for t in self.tags:
            t.discard(k)
        self.observed.pop(k, None)

    def compare(self, c, counting, what, **kw):
        got = tagsets(self.s)
        bad = [i for i in range(self.s.n_face) if got[i] != self.tags[i]]
        c.check(not bad, f"{what}: the crater marks on the surface are not those of the craters", faces=len(bad), got=sorted(got[bad[0]]) if bad else None, want=sorted(self.tags[bad[0]]) if bad else None, **kw)
        o = counting.observed
        c.check(set(o) == set(self.observed) and counting.n_observed == len(self.observed), f"{what}: the observed craters are not those left on the surface", got=sorted(o), want=sorted(self.observed), **kw)
        c.check(all(k == v.id for k, v in o.items()), f"{what}: an observed crater is filed under another id", **kw)


def history(c):
    """Random add/remove/reset histories against the model."""
    rng = c.rng
    from cratermaker import Crater

    sim = big_sim(c)
    ct, s = sim.counting, sim.surface
    m = Model(s)
    centre = rand_loc(rng)
    made = []
    for step in range(14):
        op = str(rng.choice(["add"] * 8 + ["again", "remove", "remove_unknown", "reset"], p=[0.1] * 8 + [0.06, 0.1, 0.02, 0.02]))
        if op == "add" or not made:
            op = "add"
            k = rng.random()
            d = float(rng.uniform(4e5, 1.6e6)) if not made or k < 0.75 else made[int(rng.integers(len(made)))].diameter
            loc = near(rng, centre, 18) if rng.random() < 0.8 else rand_loc(rng)
            if made and rng.random() < 0.2:
                loc = made[int(rng.integers(len(made)))].location
            if max(len(t) for t in m.tags) >= 7:  # a ninth mark on a face replaces an older one: outside this model
                continue
            own = bool(rng.random() < 0.6)
            cr = sim.Crater.maker(diameter=d, location=loc) if own else Crater.maker(diameter=d, location=loc)
            before = crater_fields(cr)
            ct.add(cr)
            made.append(cr)
            st = m.add(cr)
            if st[0] == "observed":
                o = ct.observed.get(cr.id)
                if c.check(o is not None, "a crater marked on the surface is not observed", diameter=d, own=own):
                    a = crater_fields(o, ("id", "diameter", "location", "orientation", "semiminor_axis", "measured_diameter", "time", "name"))
                    c.check(a == {k: before[k] for k in a}, "an observed crater is not the crater that was added", got=a)
            c.seen(op, own, st[0], min(st[1], 3))
            m.compare(c, ct, op, outcome=st)
        elif op == "again":
            cr = made[int(rng.integers(len(made)))]
            if cr.id in m.observed:
                continue
            if max(len(t) for t in m.tags) >= 7:
                continue
            ct.add(cr)
            st = m.add(cr)
            c.seen(op, st[0])
            m.compare(c, ct, op)
        elif op == "remove":
            cr = made[int(rng.integers(len(made)))]
            if "crater_id" in s.uxds:
                ct.remove(cr.id)
                m.remove(cr.id)
                c.seen(op, cr.id in m.observed)
                m.compare(c, ct, op)
        elif op == "remove_unknown" and "crater_id" in s.uxds:
            ct.remove(4_000_000_001)
            m.compare(c, ct, op)
        elif op == "reset":
            ct.reset()
            m.__init__(s)
            c.check(ct.n_emplaced == 0, "resetting the count keeps emplaced craters")
            c.seen(op)
            m.compare(c, ct, op)
    for bad in (None, 3, "x", {"id": 1}):
        c.raises(lambda: ct.add(bad), "something that is not a crater is counted", exc=TypeError, value=str(bad))
    m.compare(c, ct, "a refused crater")


# Minton et al. (2019), Riedel et al. (2020) as calibrated in the documentation of depthcount
def degradation(cr, ratio):
    d = cr.measured_diameter
    if d < 10e3:
        a = 0.11511000581387373 + 0.017078961587273955 * math.log(d)
    else:
        a = 0.2771649498066961 + 0.1032775007149389 * (1 - math.exp((10.0 - d * 1e-3) / 178.40182304735092))
    p = 2.0700104291102317 + 0.0920770504148557 * math.log(min(d, 10e3))
    return a * (ratio ** (-1 / p) - 1.0) * cr.measured_radius**2


def tally(c):
    """A tally keeps fresh craters, drops those too degraded to be seen and orphaned marks, and leaves the others alone."""
    rng = c.rng
    sim = big_sim(c, do_slope_collapse=False)
    ct, s = sim.counting, sim.surface
    locs = [(float(rng.uniform(-180, 180)), 0.0)]
    locs.append(((locs[0][0] + 120) % 360 - 180, float(rng.uniform(-20, 20))))
    locs.append(((locs[0][0] + 240) % 360 - 180, float(rng.uniform(-20, 20))))
    crs = []
    for loc in locs:
        cr = sim.Crater.maker(diameter=float(rng.uniform(8.6e5, 1.05e6)), location=loc)
        # shape the craters by hand: no ejecta from one reaches another
        reg = s.extract_region(cr.location, BUFFER * cr.radius)
        reg.update_elevation(sim.morphology.crater_shape(cr, reg))
        ct.add(cr)
        crs.append(cr)
    c.check(set(ct.observed) == {x.id for x in crs}, "separate craters are not all observed", got=sorted(ct.observed))
    shape = np.array(s.face_elevation)
    tags0 = tagsets(s)
    ct.tally(quiet=bool(rng.integers(2)))
    c.check(set(ct.observed) == {x.id for x in crs}, "a tally drops fresh craters", got=sorted(ct.observed), want=[x.id for x in crs])
    c.check(tagsets(s) == tags0 and np.array_equal(shape, s.face_elevation), "a tally that removes nothing changes the surface")
    # degrade: keep a fraction of the relief of each crater
    keep = {}
    for cr in crs:
        keep[cr.id] = float(rng.choice([0.0, 0.02, 0.1, 0.3, 0.5, 0.8, 1.0]))
        reg = s.extract_region(cr.location, BUFFER * cr.radius)
        f, n = idx(reg.face_indices, s.n_face), idx(reg.node_indices, s.n_node)
        fe, ne = np.array(s.face_elevation), np.array(s.node_elevation)
        fe[f] *= keep[cr.id]
        ne[n] *= keep[cr.id]
        s.update_elevation(np.concatenate([fe, ne]), overwrite=True)
        cr.remove_complex_data()
    kv1 = float(rng.choice([0.30, 0.30, 0.05, 2.0]))
    want_gone, unsure = set(), set()
    for cr in ct.observed.values():
        cr.remove_complex_data()
        r = cr.measured_depth_to_diameter / cr.depth_to_diameter
        r = max(r, np.finfo(float).tiny * 10)
        kd = degradation(cr, r)
        kv = kv1 * cr.measured_radius**2
        got = ct.measure_degradation_state(cr)
        if r > 1e-6:
            c.close(got, kd, "the degradation state is not the documented function of the relative depth", rtol=1e-9, ratio=r, diameter=cr.diameter)
            c.close(cr.degradation_state, kd, "the crater does not record its degradation state", rtol=1e-9)
        c.close(ct.visibility_function(cr, Kv1=kv1), kv, "the visibility limit is not Kv1 radius^2", rtol=1e-9)
        c.close(ct.visibility_function(cr), 0.30 * cr.measured_radius**2, "the default visibility limit is not 0.30 radius^2", rtol=1e-9)
        if abs(kd - kv) < 1e-6 * kv:
            unsure.add(cr.id)
        elif kd >= kv:
            want_gone.add(cr.id)
    orphan = None
    if rng.random() < 0.5:
        orphan = 123456789
        s.extract_region(rand_loc(rng), 5e5, at_least_one_face=True).add_tag(name="crater_id", tag=orphan)
    elev = np.array(s.face_elevation)
    before = dict(ct.observed)
    scope = None
    kw = {} if kv1 == 0.30 else {"Kv1": kv1}
    region_ids = set(before) | {orphan}
    if rng.random() < 0.4:
        scope = s.extract_region(locs[0], float(rng.uniform(3e5, 2.5e6)))
        f = idx(scope.face_indices, s.n_face)
        t = tagsets(s)
        region_ids = set().union(*[t[i] for i in f]) if len(f) else set()
        kw["region"] = scope
    want = {k for k in before if k not in want_gone or k not in region_ids}
    ct.tally(quiet=True, **kw)
    left = set(ct.observed)
    c.check(left - unsure == want - unsure, "a tally does not drop exactly the craters degraded beyond visibility", got=sorted(left), want=sorted(want), keep=keep, kv1=kv1, region=scope is not None)
    c.check(all(ct.observed[k] is before[k] or ct.observed[k].id == k for k in left), "a tally replaces craters")
    t = tagsets(s)
    for cr in crs:
        has = any(cr.id in x for x in t)
        c.check(has == (cr.id in left), "marks of a dropped crater stay, or marks of a kept one go", id=cr.id, marks=has, observed=cr.id in left)
    if orphan is not None and orphan in region_ids:
        c.check(not any(orphan in x for x in t), "an orphaned mark survives the tally")
    for a, b in zip(tags0, t):
        if a & left != b & left:
            c.fail("a tally changes the marks of a crater it keeps")
            break
    c.check(np.array_equal(elev, s.face_elevation), "a tally changes the elevations")
    c.seen("tally", len(want_gone), scope is not None, orphan is not None, kv1)
    again = set(ct.observed)
    ct.tally(quiet=True, **kw)
    c.check(set(ct.observed) == again, "a repeated tally changes the count")
    c.raises(lambda: ct.tally(region=3), "a tally over something that is not a region is accepted", exc=TypeError)


def emplaced(c):
    """Every crater large enough for the mesh is listed as emplaced once, in order; counting can be switched off."""
    rng = c.rng
    level = int(rng.choice([2, 3, 4], p=[0.4, 0.4, 0.2]))
    counting = bool(rng.random() < 0.7)
    sim = make_sim(c, "s", gridlevel=level, rng_seed=int(rng.integers(1 << 30)), do_subpixel_degradation=False)
    sim.morphology.do_counting = counting
    ct, s = sim.counting, sim.surface
    face = math.sqrt(float(np.mean(s.face_area)))
    want, ids = [], set()
    for batch in range(int(rng.integers(1, 4))):
        crs = [sim.Crater.maker(diameter=float(face * 10 ** rng.uniform(-1.5, 0.9)), location=rand_loc(rng)) for _ in range(int(rng.integers(1, 6)))]
        r = sim.emplace(crs)
        c.check([x.id for x in r] == [x.id for x in crs], "emplace does not return the craters it was given", got=[x.id for x in r], want=[x.id for x in crs])
        for cr in crs:
            reg = s.extract_region(cr.location, BUFFER * cr.radius)
            ok = reg is not None and math.pi * (BUFFER * cr.radius) ** 2 > float(s.face_area[int(s.find_nearest_face(cr.location))])
            if ok:
                want.append(cr.id)
            big = reg is not None and reg.n_face >= MIN_FACES
            if big:
                ids.add(cr.id)
            c.seen("emplace", level, counting, ok, big)
        c.check([x.id for x in ct.emplaced] == want and ct.n_emplaced == len(want), "the emplaced craters are not those formed, once and in order", got=[x.id for x in ct.emplaced], want=want)
        if not counting:
            c.check(not ct.observed and "crater_id" not in s.uxds or not any(tagsets(s)), "craters are counted although counting is off")
        c.check(set(ct.observed) <= ids, "a crater covering too few faces is observed", got=sorted(ct.observed), big=sorted(ids))
    t = set().union(*tagsets(s))
    c.check(t <= set(ct.observed), "the surface carries marks of craters that are not observed", marks=sorted(t), observed=sorted(ct.observed))
    n = len(ct.emplaced)
    c.check(sim.n_emplaced == n and sim.n_observed == (len(ct.observed) if counting else None) and [x.id for x in sim.emplaced] == [x.id for x in ct.emplaced], "the simulation reports another count than its counting component")


def resumed(c):
    """A counting component opened on saved output holds what was saved, whether or not anything was observed."""
    rng = c.rng
    level = int(rng.choice([3, 4], p=[0.6, 0.4]))
    sim = make_sim(c, "s", gridlevel=level, rng_seed=int(rng.integers(1 << 30)), do_subpixel_degradation=False)
    if rng.random() < 0.5:  # an earlier interval without craters
        sim.save()
        sim.interval = 1
    d = [float(rng.uniform(2.5e5, 5e5)) for _ in range(int(rng.integers(1, 5)))] + ([float(rng.uniform(1.2e6, 1.6e6))] if rng.random() < 0.5 else [])
    sim.emplace([sim.Crater.maker(diameter=x, location=rand_loc(rng)) for x in d])
    fields = ("id", "name", "diameter", "location", "semiminor_axis", "orientation", "morphology_type", "measured_diameter")
    em = [crater_fields(x, fields) for x in sim.counting.emplaced]
    ob = {k: crater_fields(x, fields) for k, x in sim.counting.observed.items()}
    sim.save()
    import cratermaker as cm

    new = cm.Simulation(simdir=c.dir("s"), reset=False, ask_overwrite=False)
    g = {x.id: crater_fields(x, fields) for x in new.counting.emplaced}

    def same(a, b):
        return set(a) == set(b) and all(all((np.allclose(a[k][f], b[k][f], rtol=1e-9) if f not in ("name", "morphology_type") else a[k][f] == b[k][f]) for f in fields if f in b[k] and b[k][f] is not None) for k in a)

    c.check(same(g, {e["id"]: e for e in em}) and len(new.counting.emplaced) == len(em), "reopening the output loses or changes the emplaced craters of the interval", got=len(g), want=len(em), observed=len(ob))
    h = {k: crater_fields(x, fields) for k, x in new.counting.observed.items()}
    c.check(same(h, ob), "reopening the output loses or changes observed craters", got=sorted(h), want=sorted(ob))
    c.check(tagsets(new.surface) == tagsets(sim.surface), "reopening the output loses or changes the crater marks")
    c.seen("resumed", level, len(em) > 0, len(ob) > 0)


def measured(c):
    """The degradation and the visibility limit are those of the size a crater is measured to have, not of the one it formed with."""
    import cratermaker as cm

    rng = c.rng
    where = (float(rng.uniform(-180, 180)), float(rng.uniform(-70, 70)))
    sim = make_sim(c, "m", surface="hireslocal", local_location=where, local_radius=24e3, pix=1.5e3, superdomain_scale_factor=1000, rng_seed=int(rng.integers(2**31)), target="Moon")
    ct = sim.counting
    sim.emplace(diameter=float(rng.uniform(15.5e3, 18e3)) if rng.random() < 0.3 else float(rng.uniform(9.5e3, 15e3)), location=where)
    x = next(iter(ct.observed.values()), None) or sim.counting.emplaced[-1]
    for f in 10 ** rng.uniform(math.log10(0.55), math.log10(1.4), 6):
        D = float(x.diameter * f)
        x.measured_diameter = D
        x.remove_complex_data()
        m = x.measured_depth_to_diameter
        if m is None or not m > 0:
            c.seen("no depth", m is None)
            continue
        r = m / x.depth_to_diameter
        c.close(ct.measure_degradation_state(x), degradation(x, r), "the degradation state is not that of the measured size", rtol=1e-9, ratio=r, diameter=x.diameter, measured=D)
        c.close(ct.visibility_function(x, Kv1=0.3), 0.30 * (D / 2) ** 2, "the visibility limit is not that of the measured size", rtol=1e-9, measured=D)
        c.seen("degradation", D < 10e3, r > 1)
    c.note(diameter=x.diameter, faces=int(sim.surface.n_face))


SCENARIOS = [("history", history, 16, 320), ("tally", tally, 24, 400), ("measured", measured, 8, 120), ("emplaced", emplaced, 16, 240), ("resumed", resumed, 8, 96)]
