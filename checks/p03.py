"""P03: a crater's size, projectile and velocity quantities are mutually consistent whichever inputs built it; fixed ones never change."""
import math

import numpy as np

from lib.simkit import crater_fields

PROPERTY = "P03"
RULE = "Craters built from every size input over 12 decades with random velocity/angle/density/location/scaling inputs; a state is (size input, velocity inputs, scaling, log10 size, morphology)."

TARGETS = ["Moon", "Mars", "Mercury", "Vesta", "Earth"]
SCALINGS = ["montecarlo", "ctem"]


def _size(rng):
    return float(10 ** rng.uniform(-1, 5.7))


def _identities(c, cr, what):
    a, b = cr.semimajor_axis, cr.semiminor_axis
    for n in ("semimajor_axis", "semiminor_axis", "radius", "diameter", "transient_diameter", "projectile_diameter", "projectile_mass", "projectile_velocity"):
        v = getattr(cr, n)
        c.check(isinstance(v, float) and math.isfinite(v) and v > 0, f"{what}: {n} is not a positive finite float", v=str(v))
    c.close(cr.radius, math.sqrt(a * b), f"{what}: radius is not the geometric mean of the axes", 1e-12)
    c.close(cr.diameter, 2 * cr.radius, f"{what}: diameter is not twice the radius", 1e-12)
    c.close(cr.final_diameter, cr.diameter, f"{what}: final_diameter differs from diameter", 0)
    c.close(cr.final_radius, cr.radius, f"{what}: final_radius differs from radius", 0)
    c.close(cr.transient_radius, cr.transient_diameter / 2, f"{what}: transient_radius", 1e-12)
    c.close(cr.projectile_radius, cr.projectile_diameter / 2, f"{what}: projectile_radius", 1e-12)
    c.close(cr.projectile_mass, 4 / 3 * math.pi * (cr.projectile_diameter / 2) ** 3 * cr.projectile_density, f"{what}: mass, diameter and density disagree", 1e-9)
    c.close(cr.projectile_vertical_velocity, cr.projectile_velocity * math.sin(math.radians(cr.projectile_angle)), f"{what}: vertical velocity", 1e-9)
    c.check(cr.projectile_direction == cr.orientation, f"{what}: direction and orientation disagree", d=cr.projectile_direction, o=cr.orientation)
    c.check(0 <= cr.projectile_angle <= 90, f"{what}: impact angle outside [0, 90]", a=cr.projectile_angle)
    c.check(0 <= cr.orientation <= 360, f"{what}: orientation outside [0, 360]", o=cr.orientation)
    c.check(-180 <= cr.location[0] <= 180 and -90 <= cr.location[1] <= 90, f"{what}: location out of range", loc=cr.location)
    c.check(np.uint32(cr.id) == cr.id and 0 <= int(cr.id) < 2**32, f"{what}: id is not a 32-bit unsigned integer", id=str(cr.id))


SIZE_FORMS = {
    "diameter": lambda d: {"diameter": d}, "radius": lambda d: {"radius": d / 2}, "final_diameter": lambda d: {"final_diameter": d}, "final_radius": lambda d: {"final_radius": d / 2},
    "axes": lambda d: {"semimajor_axis": d / 2, "semiminor_axis": d / 2},
}
PAIRS = [("transient_diameter", "transient_radius"), ("projectile_diameter", "projectile_radius")]


def construct(c):
    import cratermaker as cm

    for _ in range(3):
        rng = c.rng
        kw = {"rng_seed": int(rng.integers(2**31)), "simdir": c.tmp, "target": str(rng.choice(TARGETS)), "scaling": str(rng.choice(SCALINGS))}
        given = {}
        vmode = int(rng.integers(5))
        v, ang = float(10 ** rng.uniform(2.7, 4.7)), float(rng.uniform(3, 90))
        vv = v * math.sin(math.radians(ang))
        vin = [{}, {"projectile_velocity": v, "projectile_angle": ang}, {"projectile_vertical_velocity": vv, "projectile_angle": ang}, {"projectile_vertical_velocity": vv, "projectile_velocity": v}, {"projectile_velocity": v}][vmode]
        given.update(vin)
        if rng.random() < 0.5:
            given["projectile_density"] = float(rng.uniform(200, 8000))
        if rng.random() < 0.5:
            given[str(rng.choice(["orientation", "projectile_direction"]))] = float(rng.uniform(0, 360))
        if rng.random() < 0.5:
            given["location"] = (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))
        if rng.random() < 0.5:
            given["time"] = float(rng.uniform(0, 4500))
        if rng.random() < 0.3:
            given["name"] = "N" + str(int(rng.integers(1000)))
        form = ["diameter", "radius", "final_diameter", "final_radius", "axes", "ellipse", "ellipse", "transient_diameter", "transient_radius", "projectile_diameter", "projectile_radius", "projectile_mass"][int(rng.integers(12))]
        d = _size(rng)
        q = float(rng.uniform(1, 3))
        if form in SIZE_FORMS:
            size = SIZE_FORMS[form](d)
        elif form == "ellipse":
            size = {"semimajor_axis": d / 2 * q, "semiminor_axis": d / 2}
        elif form.startswith("projectile"):
            size = {form: d / 15} if form != "projectile_mass" else {form: 1000 * (d / 15) ** 3}
        else:
            size = {form: d}
        cr = cm.Crater.maker(**size, **given, **kw)
        what = f"crater from {form}"
        _identities(c, cr, what)
        for k, val in size.items():
            got = getattr(cr, k)
            c.close(got, val, f"{what}: the given {k} is not what the crater reports", 1e-9)
        for k, val in given.items():
            got = getattr(cr, k)
            if isinstance(val, (str, tuple)):
                c.check(got == val, f"{what}: the given {k} is not what the crater reports", got=str(got), want=str(val))
            else:
                c.close(got, val, f"{what}: the given {k} is not what the crater reports", 1e-7)
        if vmode == 2:
            c.close(cr.projectile_velocity, v, f"{what}: velocity not inferred from vertical velocity and angle", 1e-9)
        if vmode == 3 and ang < 85:
            c.close(cr.projectile_angle, ang, f"{what}: angle not inferred from vertical velocity and velocity", 1e-6)
        if form == "ellipse":
            c.close(cr.semimajor_axis * cr.semiminor_axis, cr.radius**2, "ellipse area", 1e-9)
            if kw["scaling"] == "ctem":  # no draws: the impact that makes an ellipse is the one that makes the circle of the same area
                o = cm.Crater.maker(diameter=cr.diameter, **given, **kw)
                c.close([cr.transient_diameter, cr.projectile_diameter, cr.projectile_mass], [o.transient_diameter, o.projectile_diameter, o.projectile_mass],
                        "an elliptical crater and the circular one of the same diameter come from different impacts", 1e-9)
        c.check(cr.measured_semimajor_axis == cr.semimajor_axis and cr.measured_semiminor_axis == cr.semiminor_axis and cr.measured_location == cr.location
                and cr.measured_orientation == cr.orientation % 360, f"{what}: measured values do not start out equal to the fixed ones", fields=crater_fields(cr))
        c.seen(form, vmode, kw["scaling"], int(math.log10(d)), cr.morphology_type)
        # equivalent spellings of one size
        if form in SIZE_FORMS:
            ref = crater_fields(cr)
            for f2, mk in SIZE_FORMS.items():
                o = crater_fields(cm.Crater.maker(**mk(d), **given, **kw))
                c.check(o == ref, f"the same size given as {f2} and as {form} makes different craters", diff={k: (ref[k], o[k]) for k in ref if ref[k] != o[k]})
        if kw["scaling"] == "ctem":  # no draws either: every form leads back to the same impact
            for f2 in ("transient_diameter", "projectile_diameter"):
                o = cm.Crater.maker(**{f2: getattr(cr, f2)}, **given, **kw)
                if str(cr.morphology_type).lower() == str(o.morphology_type).lower() == "simple":
                    c.close([o.diameter, o.transient_diameter, o.projectile_diameter], [cr.diameter, cr.transient_diameter, cr.projectile_diameter], f"the {f2} of a crater makes another crater", 1e-5)
        for dk, rk in PAIRS:
            if form in (dk, rk):
                x = d if form.startswith("transient") else d / 15
                x = x if form == dk else 2 * x
                o1, o2 = crater_fields(cm.Crater.maker(**{dk: x}, **given, **kw)), crater_fields(cm.Crater.maker(**{rk: x / 2}, **given, **kw))
                c.check(o1 == o2, f"{dk} and {rk} of the same size make different craters", diff={k: (o1[k], o2[k]) for k in o1 if o1[k] != o2[k]})
        if form == "projectile_mass":
            rho = cr.projectile_density
            pd = 2 * (3 * size[form] / (4 * math.pi * rho)) ** (1 / 3)
            o = cm.Crater.maker(projectile_diameter=pd, **given, **kw)
            c.close(o.diameter, cr.diameter, "projectile mass and the projectile diameter of that mass make different craters", 1e-9)
    c.note(form=form, size=size, given=given, diameter=cr.diameter, morphology=cr.morphology_type)


def refused(c):
    """Contradictory or missing size inputs are refused rather than silently resolved."""
    import cratermaker as cm

    keys = ["diameter", "transient_diameter", "transient_radius", "projectile_diameter", "projectile_radius", "projectile_mass"]
    seed = int(c.rng.integers(2**31))
    c.raises(lambda: cm.Crater.maker(rng_seed=seed, simdir=c.tmp), "no size given", ValueError)
    for i, a in enumerate(keys):
        for b in keys[i + 1:]:
            x, y = _size(c.rng), _size(c.rng)
            c.raises(lambda: cm.Crater.maker(**{a: x, b: y}, rng_seed=seed, simdir=c.tmp), f"{a} together with {b}", ValueError)
            c.seen("two sizes", a, b)
    d = _size(c.rng)
    c.raises(lambda: cm.Crater.maker(diameter=d, radius=d, rng_seed=seed, simdir=c.tmp), "diameter with radius", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, semimajor_axis=d, semiminor_axis=d, rng_seed=seed, simdir=c.tmp), "diameter with axes", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, projectile_velocity=2e4, projectile_vertical_velocity=1e4, projectile_angle=45., rng_seed=seed, simdir=c.tmp), "three velocity inputs", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, projectile_velocity=2e4, projectile_mean_velocity=1e4, rng_seed=seed, simdir=c.tmp), "velocity with mean velocity", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, orientation=1., projectile_direction=2., rng_seed=seed, simdir=c.tmp), "orientation with projectile_direction", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, location=(1, 2), projectile_location=(1, 2), rng_seed=seed, simdir=c.tmp), "two locations", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, longitude=3., rng_seed=seed, simdir=c.tmp), "longitude without latitude", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, longitude=3., latitude=3., location=(3, 3), rng_seed=seed, simdir=c.tmp), "longitude with location", ValueError)
    c.raises(lambda: cm.Crater.maker(diameter=d, measured_diameter=d, measured_radius=d, rng_seed=seed, simdir=c.tmp), "measured diameter with measured radius", ValueError)
    for bad in (-d, 0.0):
        for k in ("diameter", "radius", "transient_diameter", "projectile_diameter"):
            c.raises(lambda: cm.Crater.maker(**{k: bad}, rng_seed=seed, simdir=c.tmp), f"{k}={bad}", (ValueError, ZeroDivisionError))
            c.seen("bad size", k, bad == 0)
    c.raises(lambda: cm.Crater.maker(diameter=d, projectile_velocity=-1e4, rng_seed=seed, simdir=c.tmp), "negative velocity", ValueError)
    c.note(d=d)


def immutable(c):
    """A history of measurements, refused assignments and copies leaves the fixed quantities and the id as they were."""
    import cratermaker as cm

    rng = c.rng
    cr = cm.Crater.maker(diameter=_size(rng), time=float(rng.uniform(0, 4000)), rng_seed=int(rng.integers(2**31)), simdir=c.tmp)
    fixed = [n for n in ("id", "semimajor_axis", "semiminor_axis", "orientation", "transient_diameter", "projectile_diameter", "projectile_velocity", "projectile_angle", "projectile_mass", "location",
                         "morphology_type", "time", "radius", "diameter", "transient_radius", "projectile_radius", "projectile_density", "projectile_vertical_velocity", "projectile_direction")]
    ref = crater_fields(cr, fixed)
    model = {}
    for _ in range(25):
        k = int(rng.integers(6))
        x = float(cr.radius * 10 ** rng.uniform(-1, 1))
        if k == 0:
            n = str(rng.choice(fixed))
            c.raises(lambda: setattr(cr, n, x), f"assignment to the fixed attribute {n}", AttributeError)
            c.seen("fixed", n)
        elif k == 1:
            cr.measured_diameter = x
            c.close([cr.measured_diameter, cr.measured_radius, cr.measured_semimajor_axis, cr.measured_semiminor_axis], [x, x / 2, x / 2, x / 2], "measured_diameter did not take the assigned value", 1e-12)
            c.seen("measured_diameter", x < cr.diameter)
        elif k == 2:
            cr.measured_radius = x
            c.close([cr.measured_diameter, cr.measured_radius, cr.measured_semimajor_axis, cr.measured_semiminor_axis], [2 * x, x, x, x], "measured_radius did not take the assigned value", 1e-12)
            c.seen("measured_radius", x < cr.radius)
        elif k == 3:
            y = float(cr.radius * 10 ** rng.uniform(-1, 1))
            cr.measured_radius = None
            cr.measured_semimajor_axis, cr.measured_semiminor_axis = x, y
            c.close([cr.measured_semimajor_axis, cr.measured_semiminor_axis], [max(x, y), min(x, y)], "measured axes are not the assigned ones in order", 0)
            c.close(cr.measured_radius, math.sqrt(x * y), "measured_radius is not the geometric mean of the measured axes", 1e-12)
            c.seen("axes", x > y)
        elif k == 4:
            ang = float(rng.uniform(-720, 720))
            cr.measured_orientation = ang
            c.check(0 <= cr.measured_orientation <= 360 and abs(math.remainder(cr.measured_orientation - ang, 360)) < 1e-9, "measured_orientation is not the assigned angle", got=cr.measured_orientation, given=ang)
            lo = (float(rng.uniform(-400, 400)), float(rng.uniform(-90, 90)))
            cr.measured_location = lo
            c.check(abs(math.remainder(cr.measured_location[0] - lo[0], 360)) < 1e-9 and cr.measured_location[1] == lo[1], "measured_location is not the assigned point", got=cr.measured_location, given=lo)
        else:
            n = str(rng.choice(["measured_rim_height", "measured_floor_depth", "degradation_state"]))
            setattr(cr, n, x)
            model[n] = x
            bad = str(rng.choice(["measured_diameter", "measured_radius", "measured_semimajor_axis", "measured_semiminor_axis"]))
            o = cm.Crater.maker(crater=cr)
            c.raises(lambda: setattr(o, bad, -x), f"negative {bad}", ValueError)
            c.seen(n, bad)
        for n, v in model.items():
            c.check(getattr(cr, n) == v, f"{n} lost its value", got=getattr(cr, n), want=v)
        now = crater_fields(cr, fixed)
        if not c.check(now == ref, "a fixed quantity changed", diff={k: (ref[k], now[k]) for k in ref if ref[k] != now[k]}):
            return
    c.note(diameter=cr.diameter, history=25)


def mean_velocity(c):
    """projectile_mean_velocity sets the distribution the velocity is drawn from."""
    import cratermaker as cm

    rng = c.rng
    vm = float(rng.choice([6e3, 12e3, 40e3]))
    g = np.random.default_rng(int(rng.integers(2**31)))
    n = 150
    v = np.array([cm.Crater.maker(diameter=1e3, projectile_mean_velocity=vm, rng=g, simdir=c.tmp).projectile_velocity for _ in range(n)])
    vesc = cm.Target.maker("Moon").escape_velocity
    enc = math.sqrt(vm**2 - vesc**2)
    # encounter speeds are Maxwellian of mean enc: E[v^2] = enc^2*3pi/8 ; var of v^2 = (3pi/8)^2*2/3*enc^4
    u2 = (v**2 - vesc**2) / enc**2
    m, sd = 3 * math.pi / 8, 3 * math.pi / 8 * math.sqrt(2 / 3)
    c.check(abs(u2.mean() - m) < 6 * sd / math.sqrt(n), "velocities are not drawn around the given mean velocity", mean=float(u2.mean()), want=m)
    c.check(v.min() >= vesc * (1 - 1e-9), "velocity below escape velocity", vmin=float(v.min()))
    c.seen(vm)
    c.note(vmean=vm, sample_mean=float(v.mean()))


SCENARIOS = [("construct", construct, 140, 6000), ("refused", refused, 8, 100), ("immutable", immutable, 40, 2000), ("mean_velocity", mean_velocity, 8, 64)]
