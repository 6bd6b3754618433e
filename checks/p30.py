"""P30: rim measurements are taken with the asked options, for every crater concerned, and kept as measured."""
import math

import numpy as np

from lib.simkit import crater_fields, make_sim

PROPERTY = "P30"
TECHNIQUE = "call log of the native rim fit (replaced by a recording stand-in that returns prescribed rims) compared with the options asked for and the craters concerned; stored measurements compared with the prescribed ones"
RULE = "random rims (place, axes, bearing) and options given by hand, to tallies over all or a region, and to craters being formed, also beyond the size of one tally; a state is (operation, options, outcome)."

TRUE = ("id", "name", "diameter", "radius", "semimajor_axis", "semiminor_axis", "orientation", "location", "time", "morphology_type", "transient_diameter", "projectile_diameter")


class Fit:
    """Stands in for the native fit: logs its arguments and returns the rim prescribed for the crater."""

    def __init__(self, rng):
        self.rng, self.calls, self.rims, self.hook = rng, [], {}, None

    def __call__(self, surface, crater, tol, nloops, score_quantile, fit_center, fit_ellipse):
        i = int(crater.id)
        self.calls.append(dict(id=i, surface=surface, tol=tol, nloops=nloops, score_quantile=score_quantile, fit_center=fit_center, fit_ellipse=fit_ellipse, crater=crater, hook=self.hook() if self.hook else None))
        a = crater.radius * float(self.rng.uniform(0.9, 1.1))
        b = a * float(self.rng.uniform(0.8, 1.0)) if fit_ellipse else a
        th = float(self.rng.uniform(0, 2 * math.pi))
        lon, lat = crater.location
        loc = (float(lon + self.rng.uniform(-3, 3)), float(np.clip(lat + self.rng.uniform(-2, 2), -89, 89))) if fit_center else (lon, lat)
        self.rims[i] = (loc, a, b, th)
        return loc, a, b, th


def install(rng):
    import cratermaker.components.counting as m

    f = Fit(rng)
    m.counting_bindings.fit_rim = f
    return f


def options(rng):
    o = {}
    if rng.random() < 0.6:
        o["fit_center"] = bool(rng.random() < 0.7)
    if rng.random() < 0.6:
        o["fit_ellipse"] = bool(rng.random() < 0.7)
    if rng.random() < 0.3:
        o["tol"] = float(rng.uniform(0.001, 0.1))
    if rng.random() < 0.3:
        o["nloops"] = int(rng.integers(1, 9))
    if rng.random() < 0.3:
        o["score_quantile"] = float(rng.uniform(0.5, 0.99))
    return o


DEFAULT = dict(fit_center=False, fit_ellipse=False, tol=0.01, nloops=4, score_quantile=0.95)


def asked(c, calls, o, surface, msg):
    want = {**DEFAULT, **o}
    for k in calls:
        got = {n: k[n] for n in want}
        if got != want or k["surface"] is not surface:
            c.fail(msg, got=got, want=want, n=len(calls), which=calls.index(k))
            return


def measured(c, cr, rim, **info):
    loc, a, b, th = rim
    c.check(abs(math.remainder(cr.measured_location[0] - loc[0], 360)) < 1e-9 and abs(cr.measured_location[1] - loc[1]) < 1e-9 and -180 <= cr.measured_location[0] <= 180, "the measured place is not the fitted one", got=cr.measured_location, want=loc, **info)
    c.close([cr.measured_semimajor_axis, cr.measured_semiminor_axis], [a, b], "the measured axes are not the fitted ones", rtol=1e-12, **info)
    c.close([cr.measured_radius, cr.measured_diameter], [math.sqrt(a * b), 2 * math.sqrt(a * b)], "the measured size is not that of the fitted rim", rtol=1e-12, **info)
    c.check(abs(math.remainder(cr.measured_orientation - math.degrees(th), 360)) < 1e-9, "the measured bearing is not the fitted one", got=cr.measured_orientation, want=math.degrees(th), **info)


def fit(c):
    """A rim fitted by hand, again and again."""
    rng = c.rng
    f = install(rng)
    sim = make_sim(c, "s", gridlevel=3, do_subpixel_degradation=False)
    for _ in range(6):
        loc = (float(rng.choice([179.5, -179.5, rng.uniform(-180, 180)])), float(rng.uniform(-85, 85)))
        more = {} if rng.random() < 0.6 else dict(semimajor_axis=5e5, semiminor_axis=4e5, orientation=float(rng.uniform(0, 360)))
        cr = sim.Crater.maker(location=loc, **(more or dict(diameter=float(rng.uniform(7e5, 1.2e6)))))
        if rng.random() < 0.4:
            cr.measured_diameter = cr.diameter * 0.7
        true = crater_fields(cr, TRUE)
        for k in range(3):
            o = options(rng)
            f.calls.clear()
            new = sim.counting.fit_rim(cr, **o)
            c.check(len(f.calls) == 1 and f.calls[0]["crater"] is cr, "a rim is not fitted once", n=len(f.calls))
            asked(c, f.calls, o, sim.surface, "a rim is fitted with other options")
            measured(c, new, f.rims[int(cr.id)], step=k)
            c.check(crater_fields(new, TRUE) == true, "fitting a rim changes the crater itself", got=crater_fields(new, TRUE), want=true)
            cr = new
            c.seen("fit", sorted(o), bool(more))
    for bad in (None, 3, "crater"):
        c.raises(lambda bad=bad: sim.counting.fit_rim(bad), "a rim fitted to no crater", exc=TypeError)
    c.note(rims=len(f.rims))


def tally(c):
    """A tally that measures rims does so once for each crater in its reach, with the options asked for; one that does not keeps what was measured."""
    rng = c.rng
    f = install(rng)
    sim = make_sim(c, "s", gridlevel=4, do_subpixel_degradation=False, do_slope_collapse=False)
    ct, s = sim.counting, sim.surface
    lon = float(rng.uniform(-180, 180))
    for k in range(3):
        cr = sim.Crater.maker(diameter=float(rng.uniform(8.7e5, 1.0e6)), location=((lon + 120 * k + 180) % 360 - 180, float(rng.uniform(-20, 20))))
        reg = s.extract_region(cr.location, 1.5 * cr.radius)
        reg.update_elevation(sim.morphology.crater_shape(cr, reg))
        ct.add(cr)
    ids = [int(k) for k in ct.observed]
    c.check(len(ids) == 3, "separate craters are not all observed", ids=ids)
    last = {}
    for step in range(3):
        o = options(rng)
        kw = dict(o, quiet=bool(rng.integers(2)))
        scope = set(ids)
        if rng.random() < 0.4:
            near = ct.observed[next(iter(ct.observed))]
            region = s.extract_region(near.location, float(rng.uniform(2e5, 3e6)))
            scope = {int(x) for x in np.unique(np.asarray(region.crater_id))} - {0}
            kw["region"] = region
        on = bool(rng.random() < 0.75)
        f.calls.clear()
        true = {int(k): crater_fields(v, TRUE) for k, v in ct.observed.items()}
        given = dict(kw) if on else {k: v for k, v in kw.items() if k not in o}
        ct.tally(measure_rim=on, **given)
        got = sorted(k["id"] for k in f.calls)
        c.check(got == (sorted(scope & set(true)) if on else []), "the craters measured in a tally are not those in its reach", got=got, want=sorted(scope), on=on, region="region" in kw)
        asked(c, f.calls, o, s, "a tally fits a rim with other options")
        if on:
            last.update({k: f.rims[k] for k in got})
        for k, cr in ct.observed.items():
            c.check(crater_fields(cr, TRUE) == true[int(k)], "measuring rims changes the crater itself")
            if int(k) in last:
                measured(c, cr, last[int(k)], step=step)
            else:
                c.close([cr.measured_diameter, *cr.measured_location], [cr.diameter, *cr.location], "a crater that was not measured has another measured size or place", rtol=1e-12)
        c.check(all(k in true for k in map(int, ct.observed)), "a tally adds craters")
        c.seen("tally", on, sorted(o), "region" in kw, len(ct.observed))
    sim.save()
    obs, _ = ct.read_saved_output(interval=0)
    back = ct.Crater.from_xarray(obs, interval=0) if obs is not None and len(obs) else []
    c.check({int(x.id) for x in back} == {int(k) for k in ct.observed}, "the saved craters are not the observed ones", got=[int(x.id) for x in back])
    for cr in back:
        if int(cr.id) in last:
            measured(c, cr, last[int(cr.id)], saved=True)
    c.note(ids=ids, observed=len(ct.observed), measured=len(last))


def heights(c):
    """Rim heights and floor depths are those of the surface as it is when they are read, and reading them changes nothing."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=4, do_subpixel_degradation=False, do_slope_collapse=False, rng_seed=int(rng.integers(1 << 30)))
    s, ct = sim.surface, sim.counting
    lon = float(rng.uniform(-180, 180))
    sim.emplace([sim.Crater.maker(diameter=float(rng.uniform(8.8e5, 1.1e6)), location=((lon + 180 * k + 180) % 360 - 180, float(rng.uniform(-20, 20)))) for k in range(2)])
    crs = list(ct.observed.values())
    if not c.check(len(crs) == 2, "separate craters are not both observed", n=len(crs)):
        return
    for x in crs:
        if rng.random() < 0.5:
            x.measured_diameter = x.diameter * float(rng.uniform(0.9, 1.1))
            x.measured_location = (x.location[0] + 0.5, x.location[1])
            x.measured_orientation = float(rng.uniform(0, 180))
    names = ["measured_rim_height", "measured_floor_depth", "measured_depth_to_diameter"]
    keep = ("measured_diameter", "measured_semimajor_axis", "measured_semiminor_axis", "measured_location", "measured_orientation", "measured_radius", "degradation_state", *TRUE)

    def read(x):
        got = {}
        for n in rng.permutation(names):
            got[str(n)] = getattr(x, str(n))
        return got

    for step in range(5):
        op = str(rng.choice(["scale", "add", "diffuse", "region", "tag", "nothing", "save"]))
        el = np.concatenate([np.asarray(s.face_elevation), np.asarray(s.node_elevation)])
        before = {x.id: read(x) for x in crs} if rng.random() < 0.8 else None
        k = float(rng.uniform(0.2, 2.0))
        if op == "scale":
            s.update_elevation(el * k, overwrite=True)
        elif op == "add":
            s.update_elevation(rng.normal(0, 300, el.size))
        elif op == "diffuse":
            s.apply_diffusion(float(10 ** rng.uniform(8, 10.5)))
        elif op == "region":
            reg = s.extract_region(crs[0].location, 0.8 * crs[0].radius)
            reg.update_elevation(np.full(reg.n_face + reg.n_node, -float(rng.uniform(100, 3000))))
        elif op == "tag":
            s.extract_region(crs[1].location, crs[1].radius).add_tag("other", tag=7)
        elif op == "save":
            sim.save()
        e0 = np.array(s.face_elevation)
        for x in crs:
            kept = crater_fields(x, keep)
            a = read(x)
            b = read(x)
            x.remove_complex_data()
            n = read(x)
            fin = all(v is not None and abs(v) < 1e15 for v in n.values())
            c.check(crater_fields(x, keep) == kept, "measuring heights or letting go of regions changes the crater", op=op, diff={q: (v, getattr(x, q)) for q, v in kept.items() if crater_fields(x, keep)[q] != v})
            if not fin:
                continue
            c.close([a[q] for q in names], [n[q] for q in names], "a rim height, floor depth or their ratio is not that of the present surface", rtol=1e-9, atol=1e-6, op=op, step=step, looked=before is not None)
            c.check(a == b, "reading a height twice gives two heights", op=op)
            c.close(n["measured_depth_to_diameter"], (n["measured_rim_height"] - n["measured_floor_depth"]) / x.measured_diameter, "the ratio of depth to diameter is not rim minus floor over the measured diameter", rtol=1e-9, atol=1e-12, op=op)
            if before and op == "scale" and abs(before[x.id]["measured_rim_height"]) < 1e15:
                c.close([n[q] for q in names], [k * before[x.id][q] for q in names], "heights do not scale with the surface", rtol=1e-6, atol=1e-3, k=k)
            if before and op in ("tag", "nothing", "save"):
                c.close([n[q] for q in names], [before[x.id][q] for q in names], "heights change although the surface does not", rtol=1e-9, atol=1e-6, op=op)
            c.seen("heights", op, before is not None)
        c.check(np.array_equal(e0, s.face_elevation), "measuring heights changes the surface")
    c.note(craters=[float(x.diameter) for x in crs])


def forming(c):
    """Rim measurements asked for while craters form happen after the last of them, for every crater that is observed."""
    rng = c.rng
    f = install(rng)
    sim = make_sim(c, "s", gridlevel=4, do_subpixel_degradation=False, rng_seed=int(rng.integers(1 << 30)))
    many = c.index % 4 == 0
    R = sim.target.radius
    f.hook = lambda: len(sim.emplaced)
    lon = float(rng.uniform(-180, 180))
    big = [sim.Crater.maker(diameter=float(rng.uniform(8.8e5, 1.0e6)), location=((lon + 120 * k + 180) % 360 - 180, float(rng.uniform(-20, 20)))) for k in range(3)]
    crs = list(big)
    if many:  # enough small ones next to the poles that the count is taken in between
        for _ in range(2100):
            crs.append(sim.Crater.maker(diameter=float(math.sqrt(4 * math.pi / sim.surface.n_face) * R * 2.2), location=(float(rng.uniform(-180, 180)), float(rng.choice([-1, 1]) * rng.uniform(55, 89)))))
    o = options(rng)
    sim.emplace(crs, measure_rim=True, **o)
    n = len(sim.emplaced)
    c.check(not many or n > 2000, "craters are missing", n=n)
    asked(c, f.calls, o, sim.surface, "a rim is fitted with other options than those given to the craters forming")
    final = [k["id"] for k in f.calls if k["hook"] == n]
    c.check(set(final) >= {int(k) for k in sim.observed}, "an observed crater is not measured after the last crater formed", got=final, want=[int(k) for k in sim.observed], n=n, calls=len(f.calls))
    c.check(len(sim.observed) >= 1, "no crater is observed")
    for k, cr in sim.observed.items():
        if int(k) in f.rims:
            measured(c, cr, f.rims[int(k)])
    f.calls.clear()
    sim.emplace(diameter=9e5, location=((lon + 60) % 360 - 180, 40.0))
    c.check(not f.calls, "rims are measured although that was not asked for", n=len(f.calls))
    o = options(rng)
    if c.index % 2:
        kept = {int(k) for k in sim.observed}
        sim.run(age=float(rng.uniform(5, 50)), measure_rim=True, **o)
        asked(c, f.calls, o, sim.surface, "a rim is fitted with other options than those given to the run")
        c.check(not sim.emplaced or {k["id"] for k in f.calls} >= {int(k) for k in sim.observed} - (set() if sim.emplaced else kept), "an observed crater is not measured in a run")
    c.seen("forming", many, sorted(o), len(sim.observed))
    c.note(n=n, observed=len(sim.observed), calls=len(f.calls))


def formed(c):
    """What a crater is measured to be, before it forms, has no part in the surface it makes."""
    rng = c.rng
    seed, D = int(rng.integers(2**31)), float(rng.uniform(6e5, 1.2e6))
    loc = (float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80)))
    opts = dict(gridlevel=4, rng_seed=seed, do_slope_collapse=bool(rng.integers(2)), ejecta_truncation=float(rng.uniform(2, 20)) if rng.random() < 0.5 else None)
    far = (float((loc[0] + 140) % 360 - 180), float(-loc[1]))
    f = float(10 ** rng.uniform(-0.5, 0.3))
    how = {
        "diameter": {"measured_diameter": D * f},
        "radius": {"measured_radius": D / 2 * f},
        "location": {"measured_location": far},
        "axes": {"measured_semimajor_axis": D / 2 * f, "measured_semiminor_axis": D / 3 * f, "measured_orientation": float(rng.uniform(0, 180))},
    }
    res = {}
    for name, kw in {"": {}, **how}.items():
        for late in (bool(rng.integers(2)),) if kw else (False,):
            sim = make_sim(c, f"s{len(res)}", **opts)
            x = sim.Crater.maker(diameter=D, location=loc, time=100.0, **({} if late else kw))
            if late:
                for k, v in kw.items():
                    setattr(x, k, v)
            sim.emplace(x)
            s = sim.surface
            res[name, late] = {k: np.array(s.uxds[k]) for k in ("face_elevation", "node_elevation", "ejecta_thickness") if k in s.uxds}
            want = res["", False]
            for k in want:
                c.check(np.array_equal(want[k], res[name, late][k]), f"a crater that was given a measured {name} makes another surface", variable=k, difference=float(np.abs(want[k] - res[name, late][k]).max()), late=late, kw=kw)
            c.check((x.diameter, tuple(x.location)) == (D, tuple(np.asarray(loc))), "the size or place of a crater is the measured one", diameter=x.diameter, location=x.location, want=(D, loc))
            c.seen("formed", name, late)
    c.note(diameter=D, location=loc, options=opts)


SCENARIOS = [("fit", fit, 8, 120), ("heights", heights, 8, 120), ("tally", tally, 12, 200), ("forming", forming, 8, 80), ("formed", formed, 4, 60)]
