"""P24: crater shapes, ejecta extents and degradation follow the documented relations."""
import math

import numpy as np

from lib import geo
from lib.simkit import crater_fields, make_sim, wrap_method

PROPERTY = "P24"
TECHNIQUE = "differential monitoring: every dimension, extent and degradation state is compared with independent closed forms or quadratures over random craters, and the degradation applied to the live surface is recorded by a hook and balanced against the time covered"
RULE = "random craters of every morphology class, targets, scalar / list / n-dimensional radii, features, thickness limits and truncations, random time spans split at random, and whole emplacements of dated craters; a state is (quantity, crater class, form of the argument, regime)."


def loc(rng):
    return float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1))))


def crater(sim, rng, **kw):
    from cratermaker import Crater

    d = float(10 ** rng.uniform(1, 6.3))
    base = (sim.Crater if rng.random() < 0.6 else Crater).maker(diameter=d, location=loc(rng), **kw)
    own = sim.Crater.maker(crater=base)
    return base, own


def dims(d, kind):
    k = d * 1e-3
    if kind in ("simple", "transitional"):
        return dict(rim_height=43.0 * k**1.014, rim_width=257.0 * k**1.011, floor_depth=-224.0 * k**1.010, floor_diameter=200.0 * k**1.143, peak_height=None)
    return dict(rim_height=236.0 * k**0.399, rim_width=467.0 * k**0.836, floor_depth=-1044.0 * k**0.301, floor_diameter=min(187.0 * k**1.249, 900.0 * k), peak_height=32.0 * k**0.9)


def shapes(c):
    """Dimensions by class; given dimensions win; conversion keeps the crater."""
    rng = c.rng
    target = str(rng.choice(["Moon", "Mars", "Vesta"]))
    sim = make_sim(c, "s", gridlevel=1, target=target, production="powerlaw", projectile="asteroids", morphology=str(rng.choice(["basicmoon", "realisticmoon"])))
    for _ in range(25):
        base, own = crater(sim, rng)
        a, b = crater_fields(base), crater_fields(own)
        bad = [k for k in a if a[k] != b.get(k)]
        c.check(not bad, "binding a crater to a surface changes it", fields=bad, got=[b.get(k) for k in bad][:3], want=[a[k] for k in bad][:3])
        want = dims(own.diameter, own.morphology_type)
        for k, v in want.items():
            if v is None:
                c.check(getattr(own, k) is None, "a simple crater has a central peak", got=getattr(own, k))
            else:
                c.close(getattr(own, k), v, f"the {k.replace('_', ' ')} is not that documented for the class", rtol=1e-9, diameter=own.diameter, kind=own.morphology_type)
        c.close(own.ejrim, 0.14 * (own.diameter / 2) ** 0.74, "the ejecta thickness at the rim is not 0.14 R^0.74", rtol=1e-9)
        c.close(own.depth_to_diameter, (want["rim_height"] - want["floor_depth"]) / own.diameter, "the depth-to-diameter ratio is not (rim - floor) / diameter", rtol=1e-9)
        over = {k: float(v * rng.uniform(0.5, 2)) for k, v in {**want, "ejrim": 0.14 * (own.diameter / 2) ** 0.74}.items() if v is not None and rng.random() < 0.3}
        o = sim.Crater.maker(crater=base, **over)
        for k, v in {**want, "ejrim": 0.14 * (own.diameter / 2) ** 0.74}.items():
            g = getattr(o, k)
            c.check(g == over[k] if k in over else (g is None if v is None else np.isclose(g, v, rtol=1e-9)), "a dimension given explicitly does not win, or disturbs another", name=k, got=g, over=sorted(over))
        c.check(o.diameter == own.diameter and o.location == own.location, "giving a dimension changes the crater")
        c.seen("dims", own.morphology_type, len(over), target)


def profile_ref(cr, r):
    R = cr.diameter / 2
    A, B = 4 / 11, -32 / 187
    fl = cr.floor_diameter / cr.diameter
    c1 = (cr.floor_depth - cr.rim_height) / (fl - 1 + A * (fl**2 - 1) + B * (fl**3 - 1))
    c0 = cr.rim_height - c1 * (1 + A + B)
    x = np.asarray(r, float) / R
    with np.errstate(divide="ignore"):
        return np.where(x > 1, (cr.rim_height - cr.ejrim) * np.where(x > 1, x, 1.0) ** -4.2, np.maximum(c0 + c1 * (x + A * x**2 + B * x**3), cr.floor_depth))


def forms(rng, r):
    k = int(rng.integers(5))
    if k == 0:
        return float(r[0]), r[:1], "scalar"
    if k == 1:
        return r.tolist(), r, "list"
    if k == 2:
        return tuple(r.tolist()), r, "tuple"
    if k == 3:
        return r.reshape(-1, 4).copy(), r.reshape(-1, 4), "2d"
    return r.copy(), r, "1d"


def profiles(c):
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=1)
    m = sim.morphology
    for _ in range(20):
        base, own = crater(sim, rng)
        R = own.radius
        r = R * np.concatenate([rng.uniform(0, 1, 10), 10 ** rng.uniform(0.001, 2, 10)])
        rng.shuffle(r)
        x, w, form = forms(rng, r)
        cr = own if rng.random() < 0.7 else base
        got = m.ejecta_profile(cr, x)
        want = np.where(w >= R, own.ejrim * (np.maximum(w, R) / R) ** -3, 0.0)
        c.check(np.shape(got) == np.shape(w), "an ejecta profile has another shape than its radii", got=np.shape(got), form=form)
        c.close(np.ravel(got), np.ravel(want), "the ejecta thickness is not ejrim (r/R)^-3 outside the rim and nothing inside", rtol=1e-9, form=form)
        got = m.crater_profile(cr, x)
        c.check(np.shape(got) == np.shape(w), "a crater profile has another shape than its radii", got=np.shape(got), form=form)
        c.close(np.ravel(got), np.ravel(profile_ref(own, w)), "the crater profile is not the documented one", rtol=1e-7, atol=1e-7 * abs(own.floor_depth), form=form, kind=own.morphology_type)
        if form != "scalar":
            h = float(rng.normal(0, 1000))
            ref = np.full(np.shape(w), h)
            c.close(np.ravel(m.crater_profile(cr, x, ref)), np.ravel(profile_ref(own, w)) + h, "a crater on a plain at another height has another shape", rtol=1e-7, atol=1e-6 * abs(own.floor_depth) + 1e-9 * abs(h))
        th = rng.uniform(0, 360, np.size(w)).reshape(np.shape(w))
        if form != "scalar":
            st = m.rng.bit_generator.state
            t, i = m.ejecta_distribution(cr, x, th)
            c.check(np.shape(t) == np.shape(w) == np.shape(i), "a ray distribution has another shape than its radii")
            i, t = np.asarray(i), np.asarray(t)
            c.check((i >= 0).all() and (i <= 1 + 1e-12).all(), "a ray intensity is outside 0..1", lo=float(i.min()), hi=float(i.max()))
            c.close(np.ravel(t), np.ravel(i * np.where(w >= R, own.ejrim * (np.maximum(w, R) / R) ** -3, 0.0)), "the ejecta thickness with rays is not profile x intensity", rtol=1e-9)
            m.rng.bit_generator.state = st
            c.close(np.ravel(m.ray_intensity(cr, x, th)), np.ravel(i), "the ray pattern depends on how it is asked for", rtol=1e-9)
            m.rng.bit_generator.state = st
            c.close(np.ravel(m.ray_intensity(cr, x, th + 360.0)), np.ravel(i), "bearings 360 degrees apart have different rays", rtol=1e-6, atol=1e-9)
        c.seen("profile", own.morphology_type, form, cr is own)


def extents(c):
    """rmax is where the profile falls to the given thickness, within the rim and the truncation or the body."""
    rng = c.rng
    tr = [None, None, 1.5, 3.0, 20.0][int(rng.integers(5))]
    target = str(rng.choice(["Moon", "Mars"]))
    sim = make_sim(c, "s", gridlevel=int(rng.integers(1, 4)), ejecta_truncation=tr, target=target, production="powerlaw", projectile="asteroids")
    m, s = sim.morphology, sim.surface
    for _ in range(20):
        base, own = crater(sim, rng)
        R = own.radius
        lo, hi = R * 1.0001, tr * R if tr else math.pi * s.target.radius
        t = float(10 ** rng.uniform(-6, 3))
        cr = own if rng.random() < 0.7 else base
        want = float(np.clip(R * (own.ejrim / t) ** (1 / 3), lo, max(lo, hi)))
        kw = {} if rng.random() < 0.5 else {"feature": "ejecta"}
        got = m.rmax(cr, minimum_thickness=t, **kw)
        c.check(isinstance(got, float), "rmax is not a plain number")
        c.close(got, want, "the ejecta extent is not where they thin to the given thickness", rtol=1e-4, t=t, R=R, truncation=tr)
        hr = own.rim_height - own.ejrim
        if hr > 0:
            want = float(np.clip(R * (hr / t) ** (1 / 4.2), lo, max(lo, hi)))
            c.close(m.rmax(cr, minimum_thickness=t, feature="crater"), want, "the rim extent is not where it falls to the given height", rtol=1e-4, t=t, R=R, truncation=tr)
        t2 = t * float(rng.uniform(1, 50))
        c.check(m.rmax(own, minimum_thickness=t2) <= got * (1 + 1e-6), "a larger thickness limit extends the ejecta")
        want = float(np.clip(R * (own.ejrim / s.smallest_length) ** (1 / 3), lo, max(lo, hi)))
        c.close(own.ejecta_rmax, want, "the ejecta region does not end where ejecta become thinner than the smallest length of the surface", rtol=1e-4, truncation=tr)
        c.check(own.face_index == int(s.find_nearest_face(own.location)), "a crater is centred on another face than the nearest", got=own.face_index)
        c.seen("extent", tr is not None, got == lo, math.isclose(got, hi))
        c.raises(lambda: m.rmax(own, minimum_thickness=1.0, feature=str(rng.choice(["rim", "", "Ejecta2"]))), "an unknown feature has an extent", exc=ValueError)
    for bad in ("3", [2.0], (1.0, 2.0)):
        c.raises(lambda: setattr(m, "ejecta_truncation", bad), "an invalid truncation is accepted", exc=TypeError)
    for bad in (1, "yes", None):
        for name in ("dorays", "do_slope_collapse", "do_subpixel_degradation", "do_counting"):
            c.raises(lambda: setattr(m, name, bad), "an option that is not a boolean is accepted", exc=TypeError, name=name, value=bad)
    m.ejecta_truncation = 2
    c.check(m.ejecta_truncation == 2.0 and isinstance(m.ejecta_truncation, float), "a truncation is not kept")
    m.ejecta_truncation = None
    c.check(m.ejecta_truncation is None, "a truncation cannot be switched off")


def degradation_ref(d, fe):
    r = d / 2
    eta, gam, beta = 3.2, 2.0, 2.0
    kd1 = 0.30 * (math.pi * fe**2 * 0.0084 * (gam * beta / ((eta - 2) * (beta + gam - eta)))) ** (-gam / (eta - beta))
    rb = 500.0
    a = kd1 * rb ** (gam * (eta - 2) / (eta - beta)) / (1 + (2.0 - 1.2) / 2.0) ** 2
    x = r / rb
    return a * x**2.0 * (0.5 * (1 + x)) ** (1.2 - 2.0)


def degradation(c):
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=2)
    m = sim.morphology
    last = None
    for d in np.sort(10 ** rng.uniform(-3, 6.3, 40)):
        fe = float(rng.choice([100.0, 100.0, 50.0, 300.0]))
        kw = {} if fe == 100.0 and rng.random() < 0.5 else {"fe": fe}
        g = m.degradation_function(float(d), **kw)
        c.close(g, degradation_ref(float(d), fe), "the degradation function is not the documented one", rtol=1e-9, diameter=d, fe=fe)
        h = m.degradation_function(float(d))
        c.check(last is None or h > last, "a larger crater degrades the surface less", diameter=d)
        last = h
        c.seen("degradation", int(math.log10(d)), fe)
    t = rng.uniform(0, 1000, 30)
    c.close(m.ejecta_burial_degradation(t), 1.5 * t**2, "burial does not degrade as 1.5 thickness^2", rtol=1e-12)
    c.close(m.ejecta_burial_degradation(t, ejecta_soften_factor=0.3), 0.3 * t**2, "burial does not degrade as factor x thickness^2", rtol=1e-12)


def integral(sim, dmax, t0, t1):
    """Degradation of a face by craters smaller than dmax between two ages, by quadrature on a logarithmic grid."""
    x = np.linspace(math.log(1e-8), math.log(dmax), 4001)
    d = np.exp(x)
    n = np.asarray(sim.production.function(diameter=d, time_start=t0, time_end=t1, validate_inputs=False), float).reshape(-1)
    y = np.array([degradation_ref(v, 100.0) for v in d]) * n * math.pi * d / 2 * 100.0 * d
    return float(np.sum((y[1:] + y[:-1]) / 2 * np.diff(x)))


def record(sim):
    log = []

    def diff(orig, kdiff, *a, **k):
        log.append(np.array(np.broadcast_to(kdiff, (sim.surface.n_face,)), float))
        return orig(kdiff, *a, **k)

    wrap_method(sim.surface, "apply_diffusion", diff)
    return log


def subpixel(c):
    """Degradation by craters below the mesh resolution adds up over time exactly once and reaches the surface."""
    rng = c.rng
    kind = int(rng.integers(3))
    production = str(rng.choice(["neukum", "powerlaw"], p=[0.7, 0.3]))
    kw = dict(production=production, rng_seed=int(rng.integers(1 << 30)))
    sim = make_sim(c, "s", gridlevel=[2, 3, 1][kind], **kw)
    s, m = sim.surface, sim.morphology
    log = record(sim)
    t0 = float(rng.uniform(100, 4000))
    t1 = float(rng.uniform(0, t0 * 0.9))
    cuts = [t0, *sorted(rng.uniform(t1, t0, int(rng.integers(0, 4))).tolist(), reverse=True), t1]
    for a, b in zip(cuts, cuts[1:]):
        m.compute_subpixel_degradation(time_start=a, time_end=b)
    m.apply_subpixel_degradation()
    total = np.sum(log, axis=0) if log else np.zeros(s.n_face)
    want = np.zeros(s.n_face)
    cover = np.zeros(s.n_face, int)
    for f, dmax in zip(s.face_bin_indices, s.face_bin_max_sizes):
        want[f] = integral(sim, float(dmax), t0, t1)
        cover[f] += 1
    c.check((cover == 1).all(), "the size classes of the faces do not cover every face once")
    c.close(total, want, "the degradation applied to the surface is not that of the craters below the mesh over the time covered", rtol=5e-3, cuts=cuts, production=production)
    n = len(log)
    m.apply_subpixel_degradation()
    extra = np.sum(log[n:], axis=0) if len(log) > n else np.zeros(s.n_face)
    c.check((np.abs(extra) <= 1e-12 * want.max()).all(), "degradation already applied is applied again")
    for a, b in ((t1, t0), (t0, t0)):
        c.raises(lambda: m.compute_subpixel_degradation(time_start=a, time_end=b), "degradation over a span that does not run forward is accepted", exc=ValueError)
    c.seen("subpixel", kind, production, len(cuts))


def dated(c):
    """Emplacing dated craters degrades the surface for the time each simultaneous batch covers, and not otherwise."""
    rng = c.rng
    on = bool(rng.random() < 0.7)
    sim = make_sim(c, "s", gridlevel=3, do_subpixel_degradation=on, rng_seed=int(rng.integers(1 << 30)))
    sim.morphology.ejecta_truncation = 1.5
    s = sim.surface
    log = record(sim)
    f = math.sqrt(float(np.mean(s.face_area)))
    n = int(rng.integers(2, 6))
    kind = str(rng.choice(["apart", "apart", "same_place", "undated"]))
    times = np.sort(rng.uniform(10, 4000, n))[::-1]
    places = [(-170 + i * 340 / n, float(rng.uniform(-20, 20))) for i in range(n)]
    if kind == "same_place":
        places = [places[0]] * n
    crs = [sim.Crater.maker(diameter=f * 1.5, location=p, **({} if kind == "undated" else {"time": float(t)})) for p, t in zip(places, times)]
    sim.emplace(crs)
    total = np.sum(log, axis=0) if log else np.zeros(s.n_face)
    want = np.zeros(s.n_face)
    if on and kind == "apart":  # one batch: everything between the oldest and the youngest
        for fi, dmax in zip(s.face_bin_indices, s.face_bin_max_sizes):
            want[fi] = integral(sim, float(dmax), float(times[0]), float(times[-1]))
    c.close(total, want, "the degradation applied while emplacing dated craters is not that of the time they span", rtol=5e-3, on=on, kind=kind, times=times)
    c.seen("dated", on, kind, n)


def places(c):
    """A crater placed by distance and bearing is there."""
    rng = c.rng
    hires = bool(c.index % 4 == 0)
    if hires:
        ref0 = loc(rng)
        rad = 3e5
        sim = make_sim(c, "s", surface="hireslocal", local_location=ref0, pix=rad / 8, local_radius=rad, superdomain_scale_factor=20)
    else:
        ref0 = None
        sim = make_sim(c, "s", gridlevel=1)
    R = sim.surface.target.radius
    for _ in range(20):
        ref = loc(rng)
        d, b = float(rng.uniform(0, 2.5) * R), float(rng.uniform(-360, 720))
        rel = {"distance": d, "bearing": b, "reference_location": ref}
        if hires and rng.random() < 0.5:
            ref = tuple(sim.surface.local_location)
            rel["reference_location"] = None
            if rng.random() < 0.5:
                del rel["reference_location"]
        keep = dict(rel)
        cr = sim.Crater.maker(diameter=1e4, relative_location=rel)
        c.check(rel == keep, "placing a crater changes the caller's dictionary")
        ang = float(geo.central_angle(np.array(ref), np.array(cr.location)))
        c.check(abs(ang - d / R) < 1e-6, "a crater placed at a distance is not at that distance", got=ang * R, want=d, ref=ref)
        if 1e-3 < d / R < math.pi - 1e-3 and abs(ref[1]) < 89:
            e = (float(geo.bearing(np.array(ref), np.array(cr.location))) - b + 180) % 360 - 180
            c.check(abs(e) * math.sin(d / R) < 1e-4, "a crater placed at a bearing is not at that bearing", got=float(geo.bearing(np.array(ref), np.array(cr.location))), want=b % 360, ref=ref)
        c.seen("place", hires, "reference_location" in rel and rel["reference_location"] is not None)
    for bad in ({"distance": 1.0}, {"bearing": 2.0}, 5, [1, 2], "x"):
        c.raises(lambda: sim.Crater.maker(diameter=1e4, relative_location=bad), "an incomplete relative location is accepted", exc=(TypeError, ValueError), value=bad)
    c.raises(lambda: sim.Crater.maker(diameter=1e4, relative_location={"distance": 1e3, "bearing": 2.0, "reference_location": (0, 0)}, location=(1, 2)), "a crater has two locations", exc=ValueError)
    if not hires:
        c.raises(lambda: sim.Crater.maker(diameter=1e4, relative_location={"distance": 1e3, "bearing": 2.0}), "a relative location without reference is accepted on a global surface")


SCENARIOS = [("shapes", shapes, 8, 120), ("profiles", profiles, 8, 160), ("extents", extents, 8, 160), ("degradation", degradation, 4, 80), ("subpixel", subpixel, 12, 200), ("dated", dated, 16, 240), ("places", places, 8, 96)]
