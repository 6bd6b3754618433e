"""P33: what objects say about themselves is what they are."""
import math
import re

import numpy as np

from lib.simkit import *  # noqa: F403

PROPERTY = "P33"
RULE = "Quantities over all units and magnitudes, and every kind of component, crater, region and simulation with drawn settings, described before and after changes; a state is (kind of object, which lines are shown, unit of each)."
TECHNIQUE = "runtime monitoring: the numbers in the text of objects compared with their values at that moment"

UNITS = {"length": ["m", "km"], "area": ["m²", "km²"], "volume": ["m³", "km³"], "velocity": ["m/s", "km/s"], "time": ["My", "Gy"], "pressure": ["Pa", "kPa", "MPa", "GPa"]}
STEP = {"length": 1e3, "area": 1e6, "volume": 1e9, "velocity": 1e3, "time": 1e3, "pressure": 1e3}
FACTOR = {u: STEP[q] ** i for q, us in UNITS.items() for i, u in enumerate(us)}
NUM = re.compile(r"([-+]?(?:\d[\d,]*\.?\d*(?:[eE][-+]?\d+)?|inf|nan))\s*([^\s,;()]*)")


def half(s):
    """Half of the last digit shown."""
    m = re.match(r"[-+]?(\d*)\.?(\d*)(?:[eE]([-+]?\d+))?$", s)
    return 0.5 * 10.0 ** (int(m[3] or 0) - len(m[2])) if m else 0.0


def shown(s, quantity=None):
    """The numbers of a line in basic units with the rounding they allow."""
    out = []
    for m in NUM.finditer(s):
        f = FACTOR.get(m[2].rstrip("."), 1.0) if quantity else 1.0
        out.append((float(m[1]) * f, half(m[1]) * f, m[2].rstrip(".")))
    return out


def agrees(v, got, quantity=None):
    val, tol, unit = got
    if v is None or not np.isfinite(v):
        return v is not None and (val == v or (math.isnan(val) and math.isnan(v)))
    # numbers below one of their unit are shown to four significant digits
    slack = 6e-4 * abs(v) if abs(val) < FACTOR.get(unit, 1.0) else 0.0
    return abs(val - v) <= tol * (1 + 1e-6) + slack + 1e-12 * abs(v)


def scale_ok(v, unit, quantity):
    """The unit shown is the largest that does not exceed the value."""
    us = UNITS[quantity]
    want = 0
    a = abs(v)
    while want + 1 < len(us) and a >= STEP[quantity] * (1 + 1e-12):
        a /= STEP[quantity]
        want += 1
    near = abs(a - STEP[quantity]) < 1e-6 * STEP[quantity]
    return unit == us[want] or (near and want + 1 < len(us) and unit == us[want + 1])


def units(c):
    from cratermaker.utils.general_utils import format_large_units

    rng = c.rng
    for q, us in UNITS.items():
        for i in range(6):
            v = float(10 ** rng.uniform(-3, 14)) if i else float(STEP[q] ** int(rng.integers(0, len(us))))
            if rng.random() < 0.2:
                v = -v
            if i == 5:
                v = int(abs(v)) + 1
            s = format_large_units(v, q)
            n = shown(s, q)
            if not c.check(len(n) == 1 and n[0][2] in us, "a quantity is not shown as one number and a unit", quantity=q, v=v, text=s):
                continue
            c.check(agrees(v, n[0]), "the quantity shown is not the value", quantity=q, v=v, text=s)
            c.check(scale_ok(v, n[0][2], q), "a quantity is shown in the wrong unit for its size", quantity=q, v=v, text=s)
            c.check(np.sign(n[0][0]) == np.sign(v), "the quantity shown has lost its sign", v=v, text=s)
            c.check(abs(n[0][0] - v) <= 5.1e-4 * abs(v), "a quantity is shown with fewer than four digits", v=v, text=s)
            c.seen("unit", q, n[0][2], int(np.floor(np.log10(abs(v)))))
        c.check(shown(format_large_units(0.0, q), q)[0][0] == 0.0, "zero is not shown as zero", quantity=q)
        c.check(not shown(format_large_units(None, q)), "a missing quantity is shown as a number", quantity=q, text=format_large_units(None, q))
    c.note(quantities=list(UNITS))


def part(text, label):
    for ln in text.splitlines():
        m = re.match(rf"\s*{re.escape(label)}\s*:?\s+(.*)$", ln) if not ln.strip() == label + ":" else None
        if m:
            return m[1].strip()
    return None


def verify(c, what, text, want, absent=()):
    """want: list of (label, values, quantity) - values is a number, a tuple of numbers or a string."""
    c.check("{" not in text.replace("{}", "") or "}" not in text, f"{what}: its description shows a format string", text=[x for x in text.splitlines() if "{" in x][:3])
    for label, v, q in want:
        s = part(text, label)
        if not c.check(s is not None, f"{what}: its description lacks {label!r}", text=text[:1500]):
            continue
        if isinstance(v, (str, bool)):
            c.check(s == str(v), f"{what}: its description shows another {label!r}", shown=s, value=str(v))
            continue
        vs = list(v) if isinstance(v, (tuple, list, np.ndarray)) else [v]
        n = shown(s, q)
        if c.check(len(n) >= len(vs), f"{what}: numbers are missing from {label!r}", shown=s, value=vs):
            for a, g in zip(vs, n):
                c.check(agrees(a, g), f"{what}: its description shows another {label!r}", shown=s, value=vs)
                if q in UNITS and np.isfinite(a):
                    c.check(scale_ok(a, g[2], q), f"{what}: {label!r} is shown in the wrong unit", shown=s, value=vs)
    for label in absent:
        c.check(part(text, label) is None, f"{what}: its description shows {label!r}, which it does not have", shown=part(text, label))
    c.seen(what, len(want), len(absent))


def _target(t):
    return [("Material", t.material, None), ("Diameter", t.diameter, "length"), ("Mass", t.mass, None), ("Surface density", t.density, None),
            ("Transition Type", t.transition_scale_type, None), ("Escape Velocity", t.escape_velocity, "velocity"), ("Gravity", t.gravity, None)]


def _production(p):
    w = [("Generator type", p.generator_type, None), ("Diameter range", tuple(p.diameter_range), "length")]
    if p.quasimc_craters is not None:
        w.append(("Number of quasi-Monte Carlo craters", len(p.quasimc_craters), None))
    if p.quasimc_file is not None:
        w.append(("Quasi-Monte Carlo file", str(p.quasimc_file), None))
    if p.component_name == "powerlaw":
        w += [("N1 Coefficient", p.N1_coef, None), ("Slope", p.slope, None)]
    else:
        w += [("Version", p.version, None), ("Valid Time Range", tuple(p.valid_time), "time"), ("Valid Diameter Range", tuple(p.sfd_range), "length")]
    return w


def _projectile(p):
    w = [("Density", p.density, None)]
    if p.sample:
        return w + [("Sample from distributions", True, None), ("Mean Velocity", p.mean_velocity, "velocity")]
    return w + [("Velocity", p.velocity, "velocity"), ("Angle", p.angle, None), ("Direction", p.direction, None)]


def _scaling(s):
    return [("Target", s.target.name, None), ("Projectile", f"<{s.projectile.component_name}>", None), ("Material", s.material, None), ("K1", s.K1, None), ("mu", s.mu, None), ("Ybar", s.Ybar, "pressure"),
            ("Target density", s.target.density, None), ("Projectile density", s.projectile.density, None), ("Nominal simple-complex transition diameter", s.transition_nominal, "length")]


def _surface(s):
    w = [("Target", s.target.name, None), ("Grid File", str(s.grid_file), None), ("Number of faces", s.n_face, None), ("Number of nodes", s.n_node, None)]
    if s.component_name == "icosphere":
        w += [("Grid Level", s.gridlevel, None), ("Effective pixel size", (s.pix_mean, s.pix_std), "length")]
    elif s.component_name == "arbitrary_resolution":
        w += [("Effective pixel size", (s.pix_mean, s.pix_std), "length")]
    elif s.component_name == "hireslocal":
        w += [("Local pixel size", s.pix, "length"), ("Local Radius", s.local_radius, "length"), ("Local Location", tuple(s.local_location), None),
              ("Minimum effective pixel size", s.pix_min, "length"), ("Maximum effective pixel size", s.pix_max, "length"),
              ("Number of local faces", s.local.n_face, None), ("Number of local nodes", s.local.n_node, None),
              ("Number of superdomain faces", s.n_face - s.local.n_face, None), ("Number of superdomain nodes", s.n_node - s.local.n_node, None)]
    return w


def _region(r):
    return [("Location", tuple(r.location), None), ("Region Radius", r.region_radius, "length"), ("Number of faces", r.n_face, None), ("Number of nodes", r.n_node, None)]


def _crater(x):
    w = [("ID", str(x.id), None), ("morphology_type", x.morphology_type, None), ("transient_diameter", x.transient_diameter, "length"), ("projectile_diameter", x.projectile_diameter, "length"),
         ("projectile_mass", x.projectile_mass, None), ("projectile_density", x.projectile_density, None), ("projectile_velocity", x.projectile_velocity, "velocity"),
         ("projectile_angle", x.projectile_angle, None), ("projectile_direction", x.projectile_direction, None), ("location (lon,lat)", tuple(x.location), None)]
    absent = []
    if x.semimajor_axis == x.semiminor_axis:
        w.append(("Diameter", x.diameter, "length"))
        absent += ["Elliptical size", "Mean Diameter"]
    else:
        w += [("Elliptical size", (x.semimajor_axis, x.semiminor_axis), "length"), ("Mean Diameter", x.diameter, "length")]
    if x.measured_semimajor_axis is not None and x.measured_semimajor_axis != x.semimajor_axis:
        if x.measured_semimajor_axis != x.measured_semiminor_axis:
            w += [("Measured elliptical size", (x.measured_semimajor_axis, x.measured_semiminor_axis), "length"), ("Measured Mean Diameter", x.measured_diameter, "length")]
        else:
            w.append(("Measured diameter", x.measured_diameter, "length"))
    if x.measured_location is not None and tuple(x.measured_location) != tuple(x.location):
        w.append(("Measured location (lon, lat)", tuple(x.measured_location), None))
    if x.measured_orientation is not None and x.measured_orientation != x.orientation:
        w.append(("Measured orientation", x.measured_orientation, None))
    for label, v, q in (("Name", x.name, None), ("Measured rim height", x.measured_rim_height, "length"), ("Measured floor depth", x.measured_floor_depth, "length"), ("Production sequence", x.production_sequence, None),
                        ("Production time", x.production_time, "time"), ("Emplacement time", x.time, "time"), ("Degradation state", x.degradation_state, "area")):
        if label.startswith("Measured") and v is not None and not abs(v) < 1e15:
            continue  # nothing measurable
        if v is not None and not (isinstance(v, float) and math.isnan(v)) and v != "":
            w.append((label, tuple(v) if isinstance(v, (tuple, list)) else v, q))
        else:
            absent.append(label)
    return w, absent


def components(c):
    import cratermaker as cm

    rng = c.rng
    d = c.dir("s")
    name = str(rng.choice(["Moon", "Mars", "Mercury", "Venus", "Earth", "Ceres", "Vesta"]))
    t = cm.Target.maker(name)
    verify(c, "target", str(t), _target(t))
    c.check(t.name in str(t), "a target's description does not name it", text=str(t)[:60])
    u = cm.Target.maker("Body" + str(c.index), diameter=float(10 ** rng.uniform(2.2, 7.5)), mass=float(10 ** rng.uniform(12, 25)), material=str(rng.choice(["Ice", "Sand", "Hard Rock"])), transition_scale_type=str(rng.choice(["silicate", "ice"])))
    verify(c, "target", str(u), _target(u))
    u.density = float(rng.uniform(500, 4000))
    verify(c, "changed target", str(u), _target(u))
    cat = t.catalogue
    for n, e in t._catalogue.items() if isinstance(getattr(t, "_catalogue", None), dict) else ():
        row = [x for x in cat.splitlines() if x.split("|")[0].strip() == n]
        c.check(len(row) == 1, "a body of the catalogue is listed not exactly once", name=n)
    for kind in ("asteroids", "comets"):
        p = cm.Projectile.maker(kind, target=t)
        verify(c, "projectile", str(p), _projectile(p))
        p.density = float(rng.uniform(300, 8000))
        p.mean_velocity = float(rng.uniform(3e2, 6e4))
        verify(c, "changed projectile", str(p), _projectile(p))
    g = cm.Projectile.maker("generic", sample=False, velocity=float(10 ** rng.uniform(2, 5)), angle=float(rng.uniform(1, 90)), direction=float(rng.uniform(0, 360)), density=float(rng.uniform(300, 8000)))
    verify(c, "fixed projectile", str(g), _projectile(g))
    pr = cm.Production.maker("powerlaw", N1_coef=float(10 ** rng.uniform(-6, 0)), slope=float(-rng.uniform(0.5, 6)))
    verify(c, "power-law production", str(pr), _production(pr))
    pr.diameter_range = (float(10 ** rng.uniform(0, 3)), float(10 ** rng.uniform(4, 6)))
    pr.slope = float(-rng.uniform(0.5, 6))
    verify(c, "changed production", str(pr), _production(pr))
    q = d / "q.csv"
    q.parent.mkdir(parents=True, exist_ok=True)
    q.write_text("name,diameter,longitude,latitude,production_time\nA,5e4,10,10,1000\nB,7e4,20,20,2000\n")
    for v in ("Moon", "Mars", "Projectile"):
        k = cm.Production.maker("neukum", version=v, diameter_range=(float(10 ** rng.uniform(1, 3)), float(10 ** rng.uniform(4, 6))))
        verify(c, "Neukum production", str(k), _production(k))
    try:
        k.quasimc_file = q
        c.seen("quasi-Monte Carlo file")
        verify(c, "production with a crater file", str(k), _production(k))
    except (ValueError, KeyError, TypeError):
        c.seen("quasi-Monte Carlo file refused")
    k.quasimc_craters = [cm.Crater.maker(diameter=2e4, location=(3, 3), production_time=(900.0, 10.0), rng_seed=1)]
    verify(c, "production with craters", str(k), _production(k))
    for model in ("montecarlo", "ctem"):
        s = cm.Scaling.maker(model, target=str(rng.choice(["Moon", "Mars", "Mercury"])), material=str(rng.choice(["Water", "Sand", "Dry Soil", "Wet Soil", "Soft Rock", "Hard Rock", "Ice"])))
        verify(c, "scaling", str(s), _scaling(s))
        s.Ybar = float(10 ** rng.uniform(0, 9.5))
        s.K1 = float(rng.uniform(0.02, 2))
        s.mu = float(rng.uniform(0.35, 0.6))
        verify(c, "changed scaling", str(s), _scaling(s))
        c.check(("Monte Carlo Scaling: True" in str(s)) == (model == "montecarlo"), "a scaling model says it varies when it does not, or the other way", model=model)
    c.note(target=name)


def craters(c):
    import cratermaker as cm
    from checks.p04 import rand_crater

    rng = c.rng
    for i in range(6):
        x, k = rand_crater(c, rng)
        before = crater_fields(x)
        w, absent = _crater(x)
        s = str(x)
        verify(c, "crater", s, w, absent)
        if x.production_ND is not None:
            m = re.search(r"N\((\d+)\)\s*:\s*([-+\d.eE]+)\s*±\s*([-+\d.eE]+)", s)
            c.check(m is not None and all(abs(float(m[j + 1]) - x.production_ND[j]) <= (0.5001, 5.01e-5, 5.01e-5)[j] for j in range(3)), "a crater's description shows another production number", shown=m and m[0], value=x.production_ND)
        c.check(crater_fields(x) == before and str(x) == s, "describing a crater changes it or its next description")
        x.measured_rim_height = float(rng.uniform(-20, 5000))
        x.measured_floor_depth = -float(rng.uniform(0, 8000))
        x.measured_diameter = float(10 ** rng.uniform(2, 6))
        x.measured_location = (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))
        x.degradation_state = float(10 ** rng.uniform(0, 9))
        w, absent = _crater(x)
        verify(c, "measured crater", str(x), w, absent)
        c.seen("crater", tuple(sorted(a for a in absent)))
    c.note(last=str(x)[:400])


def surfaces(c):
    import cratermaker as cm

    rng = c.rng
    kind = c.index % 3
    if kind == 0:
        s = cm.Surface.maker("icosphere", gridlevel=int(rng.integers(1, 5)), target=str(rng.choice(["Moon", "Mars", "Vesta"])), simdir=c.dir("s"), ask_overwrite=False)
    elif kind == 1:
        s = cm.Surface.maker("arbitrary_resolution", pix=float(rng.uniform(3e5, 9e5)), target="Moon", simdir=c.dir("s"), ask_overwrite=False)
    else:
        rad = float(10 ** rng.uniform(4.3, 5.2))
        s = cm.Surface.maker("hireslocal", local_location=(float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80))), local_radius=rad, pix=rad / 4, superdomain_scale_factor=40, target="Moon", simdir=c.dir("s"), ask_overwrite=False)
    verify(c, f"{s.component_name} surface", str(s), _surface(s))
    st = s.rng_state
    for _ in range(6):
        loc = (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))
        r = s.extract_region(loc, float(10 ** rng.uniform(5, 6.5)))
        if r is None:
            continue
        verify(c, "region", str(r), _region(r))
        n = r.n_face
        c.check(str(r) == str(r) and r.n_face == n, "describing a region changes it")
    if kind == 2:
        verify(c, "local region", str(s.local), _region(s.local))
    c.check(s.rng_state == st, "describing a surface draws random numbers")
    c.note(surface=s.component_name, faces=int(s.n_face))


def simulations(c):
    import cratermaker as cm

    rng = c.rng
    kw = [dict(), dict(target="Mars", morphology="basicmoon"), dict(production="powerlaw"), dict(scaling="ctem"), dict(N_conversion_factor=1e6, D_conversion_factor=1.0)][c.index % 5]
    sim = make_sim(c, "s", gridlevel=4, rng_seed=int(rng.integers(2**31)), **kw)

    def whole(when):
        t = str(sim)
        blocks = {}
        verify(c, f"simulation {when}", t, [("simdir", str(sim.simdir), None), ("Interval", sim.interval, None)] + ([("Current time", sim.time, "time"), ("Elapsed time", sim.elapsed_time, "time"), ("Elapsed N(1)", sim.elapsed_n1, None)] if sim.time is not None else []))
        for n in ("target", "surface", "morphology", "production", "projectile", "scaling", "counting"):
            blocks[n] = str(getattr(sim, n)).strip()
            c.check(all(ln.strip() in t for ln in blocks[n].splitlines()), f"simulation {when}: its description does not hold that of its {n}", missing=[ln for ln in blocks[n].splitlines() if ln.strip() not in t][:3])
        verify(c, f"target {when}", blocks["target"], _target(sim.target))
        verify(c, f"surface {when}", blocks["surface"], _surface(sim.surface))
        verify(c, f"production {when}", blocks["production"], _production(sim.production))
        verify(c, f"projectile {when}", blocks["projectile"], _projectile(sim.projectile))
        verify(c, f"scaling {when}", blocks["scaling"], _scaling(sim.scaling))
        m = sim.morphology
        verify(c, f"morphology {when}", blocks["morphology"], [("Do slope collapse", m.do_slope_collapse, None), ("Do subpixel degradation", m.do_subpixel_degradation, None), ("Ejecta Rays", m.dorays, None), ("Counting", f"<{sim.counting.component_name}>", None), ("Production", f"<{sim.production.component_name}>", None)])
        tr = [x for x in blocks["morphology"].splitlines() if x.startswith("Ejecta Trun")]
        c.check(len(tr) == 1 and ((m.ejecta_truncation is None and not shown(tr[0])) or (m.ejecta_truncation is not None and agrees(m.ejecta_truncation, shown(tr[0].split(":", 1)[1])[0]))), "a morphology's description shows another ejecta truncation", shown=tr, value=m.ejecta_truncation)
        verify(c, f"counting {when}", blocks["counting"], [("Number of observed craters", len(sim.counting.observed), None), ("Number of emplaced craters", len(sim.counting.emplaced), None), ("Surface", f"<{sim.surface.component_name}>", None)])

    def elapsed_unit():
        unit = {1.0: "per m²", 1e6: "per km²", 1e12: "per 10⁶ km²"}[sim.production.N_conversion_factor]
        for ln in str(sim).splitlines():
            if ln.startswith("Elapsed N(1)"):
                c.check(ln.split("#", 1)[1].strip() == unit, "the number density is not described in its unit", line=ln, unit=unit)
                c.seen("N(1)", unit)

    whole("new")
    x = sim.emplace(diameter=float(rng.uniform(9e5, 1.3e6)), location=(float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80))), time=float(10 ** rng.uniform(0, 3.6)))
    sim.emplace(semimajor_axis=6e5, semiminor_axis=5e5, location=(float(rng.uniform(-180, 180)), 0.0))
    whole("with craters")
    for y in list(sim.counting.observed.values()) + list(sim.counting.emplaced):
        s = str(y)
        w, absent = _crater(y)
        w += [("Rim height", y.rim_height, "length"), ("Rim width", y.rim_width, "length"), ("Floor depth", y.floor_depth, "length"), ("Floor diameter", y.floor_diameter, "length"), ("Ejecta rim thickness", y.ejrim, "length"),
              ("Ejecta region maximum radius", y.ejecta_rmax, "length"), ("Large enough to be emplaced on the grid", bool(y.emplaceable), None)]
        if y.peak_height:
            w.append(("Central peak height", y.peak_height, "length"))
        if y.emplaceable:
            w.append(("Face index of crater center", y.face_index, None))
        verify(c, "emplaced crater", s, w, absent)
        if y.emplaceable:
            cr, ej = s.split("Crater region:", 1)[1].split("Ejecta region:", 1)
            verify(c, "crater region", cr, _region(y.crater_region))
            verify(c, "ejecta region", ej, _region(y.ejecta_region))
    sim.morphology.ejecta_truncation = float(rng.uniform(2, 30))
    sim.morphology.do_slope_collapse = False
    sim.smallest_crater = float(rng.uniform(2.5e5, 4e5))
    whole("changed")
    if "production" not in kw:
        sim.run(age=float(rng.uniform(3000, 3900)), ninterval=2)
        whole("run")
        elapsed_unit()
        c.close(sim.elapsed_n1, float(np.asarray(sim.production.function(diameter=1e3, time_start=sim.elapsed_time, time_end=0.0)).item()) * sim.production.N_conversion_factor, "the number density that is described is not that of the run", rtol=1e-6)
        sim2 = cm.Simulation(simdir=sim.simdir, ask_overwrite=False, resume_old=True)
        t1, t2 = str(sim).splitlines(), str(sim2).splitlines()
        num = lambda ls: [ln for ln in ls if ln.startswith(("Interval", "Current time", "Elapsed", "Diameter", "Number of", "Mass", "K1", "mu", "Ybar"))]
        c.check(num(t1) == num(t2), "a reopened simulation describes itself differently", diff=[(a, b) for a, b in zip(num(t1), num(t2)) if a != b][:4])
        c.seen("reopened", c.index % 4)
    c.note(config=kw, observed=len(sim.counting.observed))


SCENARIOS = [("units", units, 20, 1500), ("components", components, 14, 500), ("craters", craters, 20, 900), ("surfaces", surfaces, 6, 150), ("simulations", simulations, 10, 120)]
