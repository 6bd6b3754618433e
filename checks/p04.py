"""P04: crater identity: the id is a function of the fixed quantities, survives copying and measuring, and tells different craters apart."""
import math

import numpy as np

from lib.simkit import crater_fields, make_sim

PROPERTY = "P04"
RULE = "Craters over random sizes/inputs, chains of copies with overrides, promotion to a morphology's crater type, 32-bit collision count on large sets; a state is (operation, overridden field)."

FIXED = ["id", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle", "projectile_mass", "location", "morphology_type", "time",
         "radius", "diameter", "projectile_density", "projectile_vertical_velocity"]
VAR = ["name", "measured_semimajor_axis", "measured_semiminor_axis", "measured_diameter", "measured_orientation", "measured_location", "degradation_state", "production_time", "production_ND", "production_sequence"]


def special_location(rng):
    return (float(rng.choice([0.0, -180.0, 90.0, -90.0, 1e-9, rng.uniform(-180, 180), rng.uniform(-180, 180), rng.uniform(-180, 180)])),
            float(rng.choice([0.0, 90.0, -90.0, 1e-9, rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-90, 90)])))


def rand_crater(c, rng, **kw):
    import cratermaker as cm

    k = {}
    if rng.random() < 0.6:
        k["time"] = float(rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 4500), rng.uniform(0, 4500)]))
    if rng.random() < 0.6:
        k["location"] = special_location(rng)
    if rng.random() < 0.4:
        k["name"] = str(rng.choice(["Tycho", "a,b", "12", "Ünïcode", "x y"]))
    if rng.random() < 0.3:
        k["production_time"] = [(3.0, 0.5), 12.5, (0.0, 0.0)][int(rng.integers(3))]
    if rng.random() < 0.3:
        k["production_ND"] = [(100.0, 3.0), (20.0, 10.0, 0.5)][int(rng.integers(2))]
    if rng.random() < 0.3:
        k["production_sequence"] = int(rng.choice([0, 1, int(rng.integers(50)), 2**31]))
    if rng.random() < 0.3:
        k["measured_diameter"] = float(10 ** rng.uniform(1, 5))
    elif rng.random() < 0.3:
        k["measured_semimajor_axis"], k["measured_semiminor_axis"] = 500.0 * float(rng.choice([rng.uniform(1, 2), 1 + 10 ** rng.uniform(-6, -2)])), float(rng.choice([rng.uniform(100, 500), 500.0]))
    if rng.random() < 0.3:
        k["measured_location"] = special_location(rng)
    if rng.random() < 0.3:
        k["measured_orientation"] = float(rng.choice([0.0, rng.uniform(0, 360), rng.uniform(0, 360)]))
    if rng.random() < 0.3:
        k["degradation_state"] = float(rng.choice([0.0, 10 ** rng.uniform(0, 6), 10 ** rng.uniform(0, 6)]))
    if rng.random() < 0.3:
        a = float(10 ** rng.uniform(1, 5))
        size = {"semimajor_axis": a * float(rng.choice([1.5, 1 + 10 ** rng.uniform(-6, -1), 1 + 10 ** rng.uniform(-3, 0.5)])), "semiminor_axis": a}
    else:
        size = {str(rng.choice(["diameter", "transient_diameter"])): float(10 ** rng.uniform(0, 5.5))}
    k.update(size)
    k.update(kw)
    return cm.Crater.maker(**k, rng_seed=int(rng.integers(2**31)), simdir=c.tmp), k


def diff(a, b, names):
    x, y = crater_fields(a, names), crater_fields(b, names)
    return {k: (x.get(k), y.get(k)) for k in names if x.get(k) != y.get(k)}


def copies(c):
    import cratermaker as cm

    rng = c.rng
    for _ in range(4):
        cr, k = rand_crater(c, rng)
        for n in ("name", "production_sequence", "degradation_state", "measured_location", "measured_orientation", "measured_diameter", "measured_semimajor_axis", "measured_semiminor_axis"):
            if n in k:
                v = getattr(cr, n)
                c.check(v == k[n] or (isinstance(v, float) and math.isclose(v, k[n], rel_tol=1e-12)), f"{n} given at creation is not kept", got=str(v), want=str(k[n]))
        if "production_time" in k:
            pt = k["production_time"]
            c.check(tuple(cr.production_time) == (tuple(pt) if isinstance(pt, tuple) else (pt, 0.0)), "production_time is not (time, uncertainty)", got=cr.production_time)
        if "production_ND" in k:
            nd = k["production_ND"]
            c.check(tuple(cr.production_ND) == (nd if len(nd) == 3 else (*nd, 0.0)), "production_ND is not (D, N, uncertainty)", got=cr.production_ND)
        ref = crater_fields(cr)
        cp = cm.Crater.maker(crater=cr)
        d = diff(cr, cp, FIXED + VAR)
        c.check(not d, "a copy differs from its original", diff=d)
        c.check(cp is not cr, "the copy is the original object")
        # measured changes on the copy leave the original alone, and the id alone
        cp.measured_diameter = cr.diameter * 0.5
        cp.measured_location = (1.0, 2.0)
        cp.degradation_state = 7.0
        c.check(crater_fields(cr) == ref, "changing a copy changed the original")
        c.check(cp.id == cr.id, "measuring a crater changed its id")
        again = cm.Crater.maker(crater=cp)
        d = diff(cp, again, FIXED + VAR)
        c.check(not d, "a copy of a measured crater loses its measurements", diff=d)
        # overrides
        over = {
            "time": float(rng.uniform(5000, 6000)), "name": "other", "location": (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))), "measured_diameter": float(rng.uniform(1, 1e4)),
            "measured_location": (float(rng.uniform(-180, 180)), 3.0), "orientation": float(rng.uniform(0, 360)), "production_sequence": 77, "degradation_state": 3.25, "projectile_velocity": 12345.0, "projectile_angle": float(rng.uniform(5, 85)), "projectile_vertical_velocity": float(rng.uniform(1e3, 2e4)),
        }
        key = str(rng.choice(list(over)))
        o = cm.Crater.maker(crater=cr, **{key: over[key]})
        got = getattr(o, key)
        c.check(got == over[key] or (isinstance(got, float) and math.isclose(got, over[key], rel_tol=1e-12)), f"a copy ignores the overridden {key}", got=str(got), want=str(over[key]))
        touched = {key}
        if key == "location":
            touched |= {"id"}
        if key in ("time",):
            touched |= {"id"}
        if key == "orientation":
            touched |= {"id"}
        if key == "projectile_velocity":
            touched |= {"id", "projectile_vertical_velocity"}
        if key == "projectile_angle":
            touched |= {"id", "projectile_vertical_velocity"}
        if key == "projectile_vertical_velocity":
            touched |= {"id", "projectile_velocity"}
        c.check(math.isclose(o.projectile_vertical_velocity, o.projectile_velocity * math.sin(math.radians(o.projectile_angle)), rel_tol=1e-9), f"overriding {key} in a copy leaves velocity components that disagree",
                velocity=o.projectile_velocity, angle=o.projectile_angle, vertical=o.projectile_vertical_velocity)
        if key == "measured_diameter":
            touched |= {"measured_semimajor_axis", "measured_semiminor_axis"}
        d = {n: v for n, v in diff(cr, o, FIXED + VAR).items() if n not in touched}
        c.check(not d, f"overriding {key} in a copy changed something else", diff=d)
        if "id" in touched:
            c.check(o.id != cr.id, f"a crater with a different {key} has the same id", id=int(o.id))
        else:
            c.check(o.id == cr.id, f"overriding {key} changed the id")
        c.check(crater_fields(cr) == ref, "making an overridden copy changed the original")
        # a copy with a new size keeps the rest of the event
        s = cm.Crater.maker(crater=cr, diameter=cr.diameter * 2, simdir=c.tmp, rng_seed=1)
        c.close(s.diameter, cr.diameter * 2, "a resized copy does not have the requested size", 1e-12)
        c.check(s.location == cr.location and s.projectile_velocity == cr.projectile_velocity and s.projectile_angle == cr.projectile_angle and s.orientation == cr.orientation and s.time == cr.time,
                "a resized copy does not keep the location, time, velocity, angle or direction", diff=diff(cr, s, ["location", "projectile_velocity", "projectile_angle", "orientation", "time"]))
        c.check(s.id != cr.id, "a crater of a different size has the same id")
        c.seen(key, "ellipse" if cr.semimajor_axis != cr.semiminor_axis else "circle", cr.time is None)
    c.note(inputs=k, override=key)


def identity(c):
    """Same fixed quantities, same id; one changed by the smallest step, different id; few collisions on a large set."""
    import cratermaker as cm

    rng = c.rng
    cr, _ = rand_crater(c, rng, time=float(rng.uniform(1, 4000)))
    base = dict(semimajor_axis=cr.semimajor_axis, semiminor_axis=cr.semiminor_axis, transient_diameter=cr.transient_diameter, projectile_diameter=cr.projectile_diameter, projectile_mass=cr.projectile_mass,
                projectile_velocity=cr.projectile_velocity, projectile_angle=cr.projectile_angle, orientation=cr.orientation, location=cr.location, time=cr.time)
    ids = {}
    full = cm.Crater.maker(**base, check_redundant_inputs=False)
    c.check(full.id == cr.id, "the same fixed quantities give a different id", a=int(full.id), b=int(cr.id))
    named = cm.Crater.maker(**base, check_redundant_inputs=False, name="zzz", measured_diameter=12.0, degradation_state=1.0)
    c.check(named.id == cr.id, "name or measurements change the id")
    for k, v in base.items():
        for step in (1, -1):
            if isinstance(v, tuple):
                for j in (0, 1):
                    w = list(v)
                    w[j] = float(np.nextafter(w[j], step * np.inf))
                    o = cm.Crater.maker(**{**base, k: tuple(w)}, check_redundant_inputs=False)
                    if tuple(o.location) == tuple(cr.location):  # one step beyond a pole or the date line is the same point
                        continue
                    ids.setdefault(int(o.id), []).append((k, j, step))
                    c.seen(k, j, step)
            else:
                o = cm.Crater.maker(**{**base, k: float(np.nextafter(v, step * np.inf))}, check_redundant_inputs=False)
                ids.setdefault(int(o.id), []).append((k, step))
                c.seen(k, step)
    c.check(int(cr.id) not in ids, "a crater whose fixed quantity differs in the last digit has the same id", which=ids.get(int(cr.id)))
    # 24 ids of 32 bits: one chance collision ~6e-8, two are impossible in practice
    extra = sum(len(v) - 1 for v in ids.values())
    c.check(extra <= 1, "different craters share ids", shared=[v for v in ids.values() if len(v) > 1])
    many = [cm.Crater.maker(**{**base, "location": (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))}, check_redundant_inputs=False) for _ in range(300)]
    n = len({int(m.id) for m in many})
    c.check(n >= 298, "ids of random craters collide far more often than 32-bit hashes do", distinct=n, of=300)
    bits = np.array([[(int(m.id) >> b) & 1 for b in range(32)] for m in many]).mean(axis=0)
    c.check((np.abs(bits - 0.5) < 6.2 * 0.5 / math.sqrt(300)).all(), "id bits are not used uniformly", bits=bits)
    c.note(id=int(cr.id), near=len(ids))


def promotion(c):
    """Craters handed to a simulation keep id and fixed quantities through promotion, emplacement and counting."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=3, rng_seed=int(rng.integers(2**31)))
    mine = []
    for _ in range(3):
        cr, _ = rand_crater(c, rng, semimajor_axis=float(rng.uniform(1.5e5, 4e5)), semiminor_axis=float(1.5e5), diameter=None, transient_diameter=None)
        mine.append(cr)
    for cr in mine:
        p = sim.Crater.maker(crater=cr) if hasattr(sim, "Crater") else sim.morphology.Crater.maker(crater=cr)
        d = diff(cr, p, FIXED + VAR)
        c.check(not d, "promotion to the simulation's crater type changed the crater", diff=d)
        q = sim.morphology.Crater.maker(crater=p)
        d = diff(p, q, FIXED + VAR)
        c.check(not d, "copying a promoted crater changed it", diff=d)
    out = sim.emplace(list(mine) if rng.random() < 0.5 else mine[0])
    want = [int(m.id) for m in (mine if len(out) > 1 else mine[:1])]
    c.check(sorted(int(o.id) for o in out) == sorted(want), "emplacement returns craters with other ids", got=[int(o.id) for o in out], want=want)
    em = {int(x.id): x for x in sim.counting.emplaced}
    c.check(sorted(em) == sorted(set(want)), "the emplaced record does not hold exactly the craters emplaced", got=sorted(em), want=sorted(want))
    for m in mine:
        if int(m.id) in em:
            d = diff(m, em[int(m.id)], [f for f in FIXED])
            c.check(not d, "an emplaced crater's fixed quantities differ from those handed in", diff=d)
    c.seen("promotion", len(out))
    c.note(ids=want)


def python_copies(c):
    """copy, deepcopy and pickle give equal craters; deep ones are independent, and every field can be listed and is immutable or settable as documented."""
    import copy
    import pickle

    rng = c.rng
    for i in range(4):
        cr, _ = rand_crater(c, rng)
        if rng.random() < 0.3:
            sim = make_sim(c, f"py{i}", gridlevel=2)
            cr = sim.Crater.maker(crater=cr)
            ways = {"copy": copy.copy}
        else:
            ways = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda x: pickle.loads(pickle.dumps(x))}
        ref = crater_fields(cr)
        for name, way in ways.items():
            cp = way(cr)
            d = diff(cr, cp, FIXED + VAR)
            c.check(not d and type(cp) is type(cr), f"a {name} of a crater differs from it", diff=d, type=type(cp).__name__)
            if name != "copy":
                cp.measured_diameter = 7.5 * cr.diameter
                cp.name = "other"
                c.check(crater_fields(cr) == ref, f"changing a {name} of a crater changed the crater")
                c.check(int(cp.id) == int(cr.id), f"measuring a {name} of a crater changed its id")
            c.seen(name, type(cr).__name__)
        names = set(dir(cr))
        c.check(set(FIXED + VAR) <= names, "dir() of a crater leaves out some of its fields", missing=sorted(set(FIXED + VAR) - names))
        for f in FIXED:
            c.raises(lambda: setattr(cr, f, getattr(cr, f)), f"the fixed field {f} can be set", exc=AttributeError)
        c.check(crater_fields(cr) == ref, "a refused change of a fixed field changed the crater")
    c.note(ref={k: str(v) for k, v in list(ref.items())[:4]})


SCENARIOS = [("copies", copies, 60, 3000), ("identity", identity, 16, 400), ("promotion", promotion, 16, 200), ("python_copies", python_copies, 16, 400)]
