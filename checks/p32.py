"""P32: looking at a simulation changes nothing in it, craters do not depend on those made before, and size limits are kept."""
import dataclasses
import hashlib
import json

import numpy as np

from checks.p25 import snap
from lib.simkit import crater_fields, make_sim, plain

PROPERTY = "P32"
TECHNIQUE = "state digests (random generator, mesh data, counts, clock, configuration, files) before and after every inspection, differential runs with and without inspections, and a reference model of the size limits"
RULE = "simulations of crater- and projectile-based production functions, with craters, counts and saved intervals, inspected by every public property, string form, configuration, query, export and plot in random order; histories of craters with random overrides; random histories of the four size limits followed by populations; a state is (operation, object, kind of simulation)."


def h(a):
    a = np.ascontiguousarray(a)
    return hashlib.md5(a.tobytes()).hexdigest()


def digest(sim, files=True):
    """Everything that decides what the simulation does next, and what it holds."""
    d = {"random state": json.dumps(plain_state(sim.rng.bit_generator.state), sort_keys=True, default=str)}
    for k, v in sim.surface.uxds.data_vars.items():
        d[f"data {k}"] = h(v.values)
    ct = sim.counting
    if ct is not None:
        d["observed"] = {int(i): crater_fields(x) for i, x in ct.observed.items()}
        d["emplaced"] = [crater_fields(x) for x in ct.emplaced]
    d["clock"] = (sim.time, sim.interval, sim.elapsed_time, sim.elapsed_n1)
    P = sim.production
    d["production"] = (tuple(P.diameter_range), [crater_fields(x) for x in (P.quasimc_craters or [])])
    pr = sim.scaling.projectile
    d["projectile"] = (pr.mean_velocity, pr.density, pr.sample)
    t = sim.target
    d["target"] = (t.name, t.radius, t.mass, t.density, t.material)
    d["scaling"] = (sim.scaling.K1, sim.scaling.mu, sim.scaling.Ybar, sim.scaling.material, sim.scaling.monte_carlo_scaling)
    d["asks"] = (sim.ask_overwrite, sim.surface.ask_overwrite)
    if files:
        d["files"] = snap(sim.simdir)
    return d


def plain_state(s):
    return {k: (plain_state(v) if isinstance(v, dict) else v.tolist() if isinstance(v, np.ndarray) else v) for k, v in s.items()}


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


KINDS = [
    {"target": "Moon"},
    {"target": "Mars", "morphology": "basicmoon"},
    {"target": "Earth"},
    {"target": "Mercury", "morphology": "basicmoon"},
    {"target": "Moon", "production": "powerlaw"},
    {"target": "Venus", "scaling": "ctem"},
    {"target": "Moon", "counting": None},
]


def objects(sim):
    o = {"simulation": sim, "surface": sim.surface, "morphology": sim.morphology, "production": sim.production, "scaling": sim.scaling, "projectile": sim.scaling.projectile, "target": sim.target}
    if sim.counting is not None:
        o["counting"] = sim.counting
    return o


SKIP = {"plotter"}


def properties(obj):
    out = []
    for n in dir(type(obj)):
        if n.startswith("_") or n in SKIP:
            continue
        if not callable(getattr(type(obj), n, None)):
            out.append(n)
    return out


def looks(c, sim, kind):
    """Random inspections: (name, function). None of them may change anything."""
    rng = c.rng
    S, P, sc = sim.surface, sim.production, sim.scaling
    lo, la = float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))
    r = float(rng.uniform(0.2, 1.5)) * sim.target.radius
    D, a = float(10 ** rng.uniform(3, 5.5)), float(rng.uniform(100, 4000))

    def region():
        g = S.extract_region((lo, la), r)
        if g is not None:
            str(g), g.area, g.face_distance, g.compute_slope(), g.calculate_face_and_node_distances(), g.elevation_to_cartesian()
            g.compute_volume(g.face_elevation), g.get_reference_surface(reference_radius=r / 2), g.compute_radial_gradient("face_elevation")
            for n in ("face_size", "face_node_connectivity", "edge_length", "crs", "uxds", "node_elevation"):
                getattr(g, n)

    def config():
        for n, o in objects(sim).items():
            o.to_config(**({"save_to_file": False} if n == "simulation" else {}))

    def strings():
        for o in objects(sim).values():
            str(o), repr(o)

    def limits():
        sim.smallest_crater, sim.largest_crater, sim.smallest_projectile, sim.largest_projectile, sim.max_crater_diameter_range

    def craters():
        if sim.counting is not None:
            for x in [*sim.counting.observed.values(), *sim.counting.emplaced][:5]:
                str(x), repr(x), x.as_dict()
                for n in properties(x):
                    try:
                        getattr(x, n)
                    except (AttributeError, ValueError, TypeError):
                        pass

    def rates():
        P.function(diameter=D, age=a), P.function(diameter=[D, 2 * D], time_start=a + 100.0, time_end=a)
        if P.generator_type == "crater" and kind.get("production") is None:
            P.age_from_D_N(diameter=D, cumulative_number_density=float(np.asarray(P.function(diameter=D, age=a)).item()))

    def scaled():
        sc.projectile_to_transient(D)
        sc.transient_to_projectile(D)
        sc.projectile.new_projectile(velocity=2e4, angle=30.0, direction=10.0, location=(0.0, 0.0), density=1000.0) if not sc.projectile.sample else None

    def places():
        S.find_nearest_face((lo, la)), S.find_nearest_node((lo, la)), S.calculate_face_and_node_distances((lo, la)), S.calculate_face_and_node_bearings((lo, la))
        S.compute_slope(), S.elevation_to_cartesian("node"), S.get_location_extents((lo, la), r), S.compute_location_from_distance_bearing(r, 40.0, (lo, la))

    def saved():
        S.read_saved_output()
        sim.counting is not None and sim.counting.read_saved_output()

    def meshes():
        S.to_vtk_mesh()
        if sim.target.radius and S.n_face < 3000:
            S.get_raster_dims()

    def files():
        S.saved_output_files()
        sim.counting is not None and sim.counting.saved_output_files()
        S.output_dir, sim.simdir

    return {"strings": strings, "configuration": config, "limits": limits, "regions": region, "craters": craters, "rates": rates, "scaling": scaled, "places": places, "saved": saved, "meshes": meshes, "files": files}


def span(sim, start, most=25.0, longest=400.0):
    """An end of a run from start that is expected to form about `most` craters or fewer."""
    P = sim.production
    D = sim.smallest_crater if P.generator_type == "crater" else sim.smallest_projectile
    n = lambda end: float(np.asarray(P.function(diameter=D, time_start=start, time_end=end)).item()) * sim.surface.area
    dt = longest
    while n(start - dt) > most and dt > 1e-6:
        dt /= 2
    return start - dt


def build(c, name, kind, seed):
    kw = dict(kind)
    return make_sim(c, name, gridlevel=3, rng_seed=seed, **kw)


def inspect(c):
    """Every inspection leaves every digest as it was, and the twin that is never looked at ends the same."""
    rng = c.rng
    kind = KINDS[c.index % len(KINDS)]
    seed = int(rng.integers(2**31))
    a, b = build(c, "a", kind, seed), build(c, "b", kind, seed)
    plan = [str(rng.choice(["run", "emplace", "populate", "save"])) for _ in range(int(rng.integers(2, 5)))]
    t = 3800.0
    for step in ["start", *plan]:
        args = None
        if step == "run":
            t2 = span(a, t)
            args = ("run", {"time_start": t, "time_end": t2})
            t = t2
        elif step == "emplace":
            args = ("emplace", {"diameter": float(rng.uniform(0.25, 0.8)) * a.target.radius, "location": (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))})
            if rng.random() < 0.4:
                args[1]["projectile_density"] = float(rng.uniform(500, 8000))
        elif step == "populate":
            args = ("populate", {"time_start": 3500.0, "time_end": span(a, 3500.0)})
        elif step == "save":
            args = ("save", {})
        if args:
            for s in (a, b):
                getattr(s, args[0])(**args[1])
        if step == "start" and rng.random() < 0.5:
            continue
        L = looks(c, a, kind)
        names = list(L)
        rng.shuffle(names)
        before = digest(a)
        for n in names:
            L[n]()
            now = digest(a, files=False)
            c.check(all(before[k] == v for k, v in now.items()), f"looking at {n} changes the simulation", changed=[k for k in now if before[k] != now[k]][:4], kind=kind, after=step)
            c.seen("look", n, c.index % len(KINDS), step)
        for on, o in objects(a).items():
            for n in properties(o):
                try:
                    getattr(o, n)
                except (AttributeError, ValueError, TypeError, KeyError, NotImplementedError):
                    continue
            now = digest(a, files=False)
            c.check(all(before[k] == v for k, v in now.items()), f"reading the properties of the {on} changes the simulation", changed=[k for k in now if before[k] != now[k]][:4], kind=kind, after=step)
            c.seen("properties", on, c.index % len(KINDS))
        now = digest(a)
        c.check(now == before, "looking at the simulation changes its files", changed=changed(before, now)[:4], files=changed(before["files"], now["files"])[:4], kind=kind)
    da, db = digest(a, files=False), digest(b, files=False)
    c.check(da == db, "a simulation that was looked at ends differently from one that was not", differs=changed(da, db)[:5], kind=kind, plan=plan)
    c.note(kind=kind, plan=plan)


def outputs(c):
    """Exports, plots and saves leave what the simulation holds and does next as it was."""
    rng = c.rng
    kind = KINDS[c.index % len(KINDS)]
    seed = int(rng.integers(2**31))
    sim = build(c, "a", kind, seed)
    sim.run(time_start=3800.0, time_end=span(sim, 3800.0))
    if rng.random() < 0.5:
        sim.emplace(diameter=0.7 * sim.target.radius, location=(float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80))))
        sim.save()
    S = sim.surface
    ops = {
        "VTK": lambda: S.export(driver="VTK"),
        "GPKG": lambda: S.export(driver="GPKG"),
        "GeoTIFF": lambda: S.to_geotiff_file(),
        "region": lambda: S.extract_region((0.0, 0.0), 0.8 * S.radius).export(driver="GPKG", interval=sim.interval),
        "plot": lambda: S.plot(show=False, save=True),
        "save": lambda: sim.save(),
        "sim.export": lambda: sim.export(driver="VTK"),
    }
    if sim.counting is not None:
        ops |= {"counts CSV": lambda: sim.counting.export(driver="CSV"), "counts SCC": lambda: sim.counting.export(driver="SCC"), "counts GPKG": lambda: sim.counting.export(driver="GPKG")}
    names = [n for n in ops if not (n == "region" and kind.get("counting", 1) is None)]
    for n in rng.permutation(names)[:4]:
        n = str(n)
        before = digest(sim)
        ops[n]()
        now = digest(sim)
        diff = [k for k in changed(before, now) if k != "files"]
        c.check(not diff, f"the output of {n} changes the simulation", changed=diff[:4], kind=kind)
        if n != "save" and n != "sim.export":
            gone = [f for f in before["files"] if f not in now["files"]]
            c.check(not gone, f"the output of {n} removes files", gone=gone[:4])
        c.seen("output", n, c.index % len(KINDS))
    c.note(kind=kind)


OVER = ["projectile_density", "projectile_velocity", "projectile_angle", "projectile_direction", "projectile_mean_velocity", "location", "time", "target", "projectile"]


def override(c):
    rng = c.rng
    kw = {}
    for k in OVER:
        if rng.random() < 0.35:
            kw[k] = {
                "projectile_density": float(rng.uniform(300, 8000)), "projectile_velocity": float(rng.uniform(3e3, 6e4)), "projectile_angle": float(rng.uniform(5, 90)), "projectile_direction": float(rng.uniform(0, 360)),
                "projectile_mean_velocity": float(rng.uniform(1e4, 4e4)), "location": (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))), "time": float(rng.uniform(0, 4000)),
                "target": str(rng.choice(["Mars", "Moon", "Ceres"])), "projectile": str(rng.choice(["asteroids", "comets"])),
            }[k]
    if "projectile_mean_velocity" in kw:
        kw.pop("projectile_velocity", None)
    D = float(10 ** rng.uniform(2.5, 5.3))
    kw[str(rng.choice(["diameter", "transient_diameter", "projectile_diameter", "radius"]))] = D
    return kw


def history(c):
    """A crater is the same whatever was made before it from the same models."""
    import cratermaker as cm

    rng = c.rng
    seed = int(rng.integers(2**31))
    way = ["simulation", "scaling", "projectile"][c.index % 3]
    mc = bool(rng.random() < 0.7)
    if way == "simulation":
        kind = KINDS[int(rng.integers(len(KINDS) - 1))]
        sim = build(c, "a", kind, seed)
        gen, maker, shared = sim.rng, sim.Crater.maker, {"scaling": sim.scaling, "projectile": sim.scaling.projectile, "target": sim.target}
    else:
        gen = np.random.default_rng(seed)
        t = cm.Target.maker(str(rng.choice(["Moon", "Mars", "Ceres"])))
        p = cm.Projectile.maker("asteroids", target=t, rng=gen)
        if way == "scaling":
            s = cm.Scaling.maker("montecarlo", target=t, projectile=p, monte_carlo_scaling=mc, rng=gen)
            shared = {"scaling": s, "projectile": s.projectile, "target": s.target}
            maker = lambda **k: cm.Crater.maker(scaling=s, rng=gen, **k)
        else:
            shared = {"projectile": p, "target": t}
            maker = lambda **k: cm.Crater.maker(projectile=p, rng=gen, **{"target": t, **k})

    names = {"scaling": ("K1", "mu", "Ybar", "material", "monte_carlo_scaling", "transition_nominal"), "projectile": ("mean_velocity", "density", "sample", "population", "velocity", "angle", "direction"), "target": ("name", "radius", "mass", "density", "material", "gravity")}

    def models():
        return {(k, n): plain(getattr(o, n)) for k, o in shared.items() for n in names[k]}

    asks = []
    for _ in range(3):
        kw = override(c)
        if way == "projectile":
            kw.pop("projectile", None)
        asks.append(kw)
    asks.append({"diameter": float(10 ** rng.uniform(2.5, 5.3))})
    st = gen.bit_generator.state
    m0 = models()

    def once(kw):
        gen.bit_generator.state = st
        return crater_fields(maker(**kw))

    first = [once(kw) for kw in asks]
    c.check(models() == m0, "making a crater changes the models it is made from", changed=[k for k, v in models().items() if v != m0[k]][:4], way=way, asks=asks)
    for _ in range(6):
        i = int(rng.integers(len(asks)))
        got = once(asks[i])
        c.check(got == first[i], "a crater depends on those made before it", differs=[(k, got[k], first[i][k]) for k in got if got[k] != first[i].get(k)][:4], way=way, ask=asks[i])
    c.check(models() == m0, "making craters changes the models they are made from", changed=[k for k, v in models().items() if v != m0[k]][:4], way=way)
    c.seen("history", way, mc, sorted(asks[0]))
    c.note(way=way)


def limits(c):
    """Histories of the four size limits against a model; populations keep to them."""
    rng = c.rng
    kind = [{"target": "Moon"}, {"target": "Mars"}, {"target": "Moon", "production": "powerlaw"}, {"target": "Mercury"}, {"target": "Earth"}, {"target": "Venus"}][c.index % 6]
    if rng.random() < 0.3:
        kind = {**kind, "scaling": "ctem"}
    sim = make_sim(c, "a", gridlevel=int(rng.choice([3, 4])), rng_seed=int(rng.integers(2**31)), do_counting=False, **kind)
    P = sim.production
    mn, mx = map(float, sim.max_crater_diameter_range)
    crater = P.generator_type == "crater"
    c.close(mx, 2 * sim.target.radius, "the largest possible crater is not the body", 1e-9)
    get = lambda: {k: float(getattr(sim, k)) for k in ("smallest_crater", "largest_crater", "smallest_projectile", "largest_projectile")}
    first = get()
    if crater and kind.get("production") != "powerlaw":
        c.close([first["smallest_crater"], first["largest_crater"]], [mn, mx], "the limits do not start at those of the surface", 1e-9)
    c.check(get() == first, "reading the limits twice gives different values", a=first, b=get())
    lo, hi = first["smallest_crater"], first["largest_crater"]
    for _ in range(int(rng.integers(3, 8))):
        k = str(rng.choice(["smallest_crater", "largest_crater", "smallest_projectile", "largest_projectile"]))
        old = get()
        if k.endswith("crater"):
            v = float(rng.choice([rng.uniform(0.5, 2.5) * mn, 10 ** rng.uniform(np.log10(mn), np.log10(mx)), 2 * mx, 0.3 * mn]))
        else:
            v = old[k] * float(rng.choice([rng.uniform(0.3, 0.99), rng.uniform(1, 3)]))
        # an inverted request is not part of this model
        if k == "smallest_crater" and max(v, mn) > 0.9 * old["largest_crater"] or k == "largest_crater" and min(v, mx) < 1.1 * old["smallest_crater"]:
            continue
        setattr(sim, k, v)
        now = get()
        what = dict(set=k, to=v, before=old, now=now, body=(mn, mx), kind=kind)
        if k.startswith("smallest"):
            clamp = max(v, mn) if k == "smallest_crater" else v
            c.check(now["largest_crater"] == old["largest_crater"] or not crater or old["largest_crater"] > mx, "setting the smallest size changes the largest", **what)
            c.check(now["smallest_crater"] >= mn * (1 - 1e-9), "the smallest crater is below what the surface resolves", **what)
            ok = now[k] >= clamp * (1 - 1e-6)
            # a clamped projectile limit can only be larger than what was asked
            exact = now["smallest_crater"] > mn * (1 + 1e-9)
        else:
            clamp = min(v, mx) if k == "largest_crater" else v
            c.check(now["smallest_crater"] == old["smallest_crater"] or not crater or old["smallest_crater"] < mn, "setting the largest size changes the smallest", **what)
            c.check(now["largest_crater"] <= mx * (1 + 1e-9), "the largest crater is above the size of the body", **what)
            ok = now[k] <= clamp * (1 + 1e-6)
            exact = now["largest_crater"] < mx * (1 - 1e-9)
        big = min(now["smallest_crater"], old["smallest_crater"]) > 5 * float(sim.scaling.transition_nominal)
        if crater or big:
            c.check(ok, "the limit is not the one that was set", **what)
            if exact:
                c.close(now[k], clamp, "the limit that was set is read back differently", 1e-6, **what)
        c.seen("limit", k, crater, exact, v > old[k])
    now = get()
    if now["largest_crater"] <= now["smallest_crater"] or now["largest_projectile"] <= now["smallest_projectile"] and not crater:
        return
    # what is drawn keeps to them
    start = float(rng.uniform(3500, 4100))
    try:
        out = sim.populate(time_start=start, time_end=span(sim, start, longest=start))
    except ValueError as e:
        # a cell that is larger than the largest crater cannot be populated
        bins = float(np.max(sim.surface.face_bin_min_sizes))
        c.check(bins >= now["largest_crater"] or not crater, "a population between limits that leave room is refused", err=repr(e), **now)
        return
    if crater:
        bad = [x.diameter for x in out if not now["smallest_crater"] * (1 - 1e-9) <= x.diameter <= now["largest_crater"] * (1 + 1e-9)]
    else:
        bad = [x.projectile_diameter for x in out if not now["smallest_projectile"] * (1 - 1e-9) <= x.projectile_diameter <= now["largest_projectile"] * (1 + 1e-9)]
    c.check(not bad, "a population does not keep to the size limits", bad=bad[:4], limits=now, kind=kind)
    c.seen("population", crater, bool(out))
    c.note(kind=kind, n=len(out), limits=now)


SCENARIOS = [("inspect", inspect, 14, 140), ("outputs", outputs, 10, 80), ("history", history, 60, 900), ("limits", limits, 24, 300)]
