"""P16: a simulation directory restores the simulation: same settings, same state, and after any interruption the same final result."""
import math
import os
import signal
import time

import numpy as np

from lib.simkit import crater_fields, make_sim, wrap_method
from lib.vh import Skip, quiet

PROPERTY = "P16"
TECHNIQUE = "fault injection (exceptions and process death at random points of the run and around every file write) with an equality oracle between the resumed and the uninterrupted run; settings compared before and after reloading"
RULE = "random simulations (target, production, scaling, projectile, morphology and surface settings, also changed after creation) closed and reopened from their directory; random runs interrupted one to three times while populating, forming the k-th crater, before, inside and after saving, by an exception or by the death of the process before, during or after the n-th file write, then resumed with the same request; a state is (settings class) or (crash point, kind of run, settings class)."

OPTS = [
    {}, {"target": "Mars"}, {"scaling": "ctem"}, {"projectile": "comets"}, {"material": "Hard Rock"}, {"do_subpixel_degradation": False}, {"do_slope_collapse": False},
    {"production": "powerlaw", "slope": -2.7, "N1_coef": 3e-9}, {"scaling": "montecarlo", "monte_carlo_scaling": False}, {"target": "Vesta"}, {"projectile": "generic", "mean_velocity": 17000.0, "density": 3100.0},
    {"target": "Moon", "transition_scale_type": "ice"}, {"D_conversion_factor": 1.0}, {"do_counting": False}, {"version": "Mars"},
]


def flat(d, pre=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, f"{pre}{k}."))
        else:
            out[pre + k] = v
    return out


def same_value(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or math.isclose(a, b, rel_tol=1e-12)
    return a == b


def behaviour(sim):
    """What the settings do: numbers that every component computes from them."""
    from cratermaker import Crater

    P, T = sim.production, sim.target
    out = {"target": [T.radius, T.mass, T.escape_velocity, T.gravity, str(T.material), T.density, T.diameter], "gen": P.generator_type}
    out["production"] = [float(np.asarray(P.function(diameter=D, age=t)).item()) for D in (500.0, 3e4) for t in (100.0, 3500.0)]
    out["limits"] = [sim.smallest_crater, sim.largest_crater, *P.diameter_range]
    pr = sim.projectile
    out["projectile"] = [pr.density, pr.mean_velocity, pr.sample]
    sc = sim.scaling
    out["scaling"] = [type(sc).__name__, str(sc.material) if hasattr(sc, "material") else None, *[getattr(sc, n, None) for n in ("K1", "mu", "Ybar", "density", "monte_carlo_scaling")], *[float(x) for x in np.ravel(sc.transition_nominal if hasattr(sc, "transition_nominal") else [])]]
    m = sim.morphology
    out["morphology"] = [type(m).__name__, m.do_counting, m.do_slope_collapse, m.do_subpixel_degradation]
    s = sim.surface
    out["surface"] = [type(s).__name__, s.n_face, s.n_node, s.area]
    out["counting"] = [type(sim.counting).__name__]
    return out


def settings(c):
    import cratermaker as cm

    rng = c.rng
    opt = dict(OPTS[c.index % len(OPTS)])
    d = c.dir("s")
    kw = {"gridlevel": int(rng.integers(1, 3)), **opt}
    a = cm.Simulation(simdir=d, rng_seed=int(rng.integers(2**31)), save_actions=None, ask_overwrite=False, **kw)
    changed = []
    if rng.random() < 0.5:
        a.largest_crater = float(rng.uniform(1e6, 1.5e6))
        changed.append("largest_crater")
    if rng.random() < 0.4:
        a.smallest_crater = a.smallest_crater * float(rng.uniform(1.1, 1.6))
        changed.append("smallest_crater")
    if rng.random() < 0.4:
        a.morphology.do_slope_collapse = not a.morphology.do_slope_collapse
        changed.append("do_slope_collapse")
    if rng.random() < 0.3:
        a.production.N_conversion_factor = 1e6
        changed.append("N_conversion_factor")
    a.save()
    ca, ba = flat(a.to_config(save_to_file=False)), behaviour(a)
    el = np.array(a.surface.face_elevation)
    for rep in range(2):
        extra = {} if rep else {"save_actions": None}
        b = cm.Simulation(simdir=d, ask_overwrite=False, **extra)
        cb, bb = flat(b.to_config(save_to_file=False)), behaviour(b)
        skip = {"save_actions"}
        bad = {k: (ca.get(k), cb.get(k)) for k in sorted(set(ca) | set(cb)) if k not in skip and not k.startswith("rng_state") and not same_value(ca.get(k), cb.get(k))}
        c.check(not bad, "a reopened simulation does not have the settings it was saved with", changed=bad, options=opt, then=changed, again=rep)
        bad = {k: (ba[k], bb[k]) for k in ba if not same_value(ba[k], bb[k])}
        c.check(not bad, "a reopened simulation does not behave like the one that was saved", changed=bad, options=opt, then=changed, again=rep)
        c.check(np.array_equal(el, b.surface.face_elevation), "reopening changed the surface")
    c.seen("settings", sorted(opt), sorted(changed))
    c.note(options=opt, changed=changed)


class Boom(Exception):
    pass


RUN_OPTS = [{}, {}, {"target": "Mars"}, {"scaling": "ctem"}, {"projectile": "comets"}, {"material": "Hard Rock"}, {"do_subpixel_degradation": False}, {"production": "powerlaw", "slope": -2.0, "N1_coef": 2e-4}]


def final(sim):
    cat = sorted((tuple(sorted((k, repr(v)) for k, v in crater_fields(x, ("diameter", "location", "time", "semimajor_axis", "projectile_velocity", "morphology_type")).items())) for x in sim.counting.observed.values()))
    per = {}
    for i in range(sim.interval + 1):
        obs, em = sim.counting.read_saved_output(interval=i)
        per[i] = [sorted((round(float(x.diameter), 3), round(float(x.time), 6)) for x in (sim.counting.Crater.from_xarray(q, interval=i) if q else [])) for q in (obs, em)]
    # only what these runs themselves write: the interval named by the last state and those before it
    ds = sim.surface.read_saved_output(interval=sim.interval)
    saved = np.array(ds["face_elevation"]).ravel()
    return {
        "clock": (sim.time, sim.interval, round(sim.elapsed_time, 6), round(sim.elapsed_n1, 3)), "elevation": np.array(sim.surface.face_elevation), "node": np.array(sim.surface.node_elevation),
        "saved": saved, "ejecta": np.array(sim.surface.ejecta_thickness) if hasattr(sim.surface, "ejecta_thickness") else None, "observed": cat, "catalogues": per, "rng": repr(sim.rng.bit_generator.state),
    }


def differences(a, b):
    out = []
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or not np.array_equal(a[k], b[k], equal_nan=True):
                out.append((k, int(np.sum(a[k] != b[k])) if a[k].shape == b[k].shape else (a[k].shape, b[k].shape)))
        elif k == "catalogues":
            for i in a[k]:
                if i in b[k] and a[k][i] != b[k][i]:
                    out.append((k, i, a[k][i], b[k][i]))
        elif a[k] != b[k]:
            out.append((k, str(a[k])[:300], str(b[k])[:300]))
    return out


def request(rng, opt):
    if opt.get("production") == "powerlaw":
        n = int(rng.integers(2, 5))
        return {"time_start": 1000.0, "time_end": 0.0, **({"ninterval": n} if rng.random() < 0.5 else {"time_interval": 1000.0 / n})}, n
    t0 = round(float(rng.uniform(4100, 4250)), 1)
    t1 = round(float(rng.uniform(3700, 4000)), 1)
    n = int(rng.integers(2, 5))
    if rng.random() < 0.5:
        return {"time_start": t0, "time_end": t1, "time_interval": (t0 - t1) / n}, n
    return {"time_start": t0, "time_end": t1, "ninterval": n}, n


def open_sim(d, first, opt, seed):
    import cratermaker as cm

    if first:
        return cm.Simulation(simdir=d, surface="icosphere", gridlevel=3, rng_seed=seed, save_actions=None, ask_overwrite=False, **opt)
    return cm.Simulation(simdir=d, save_actions=None, ask_overwrite=False)


def plant(sim, point, at):
    """Makes the at-th occurrence of the crash point raise."""
    n = {"k": 0}

    def hook(obj, name, before):
        def f(orig, *a, **k):
            n["k"] += 1
            hit = n["k"] == at
            if before and hit:
                raise Boom(point)
            r = orig(*a, **k)
            if not before and hit:
                raise Boom(point)
            return r

        wrap_method(obj, name, f)

    {
        "populate": lambda: hook(sim, "populate", True), "populated": lambda: hook(sim, "populate", False), "form": lambda: hook(sim.morphology, "form_crater", True), "formed": lambda: hook(sim.morphology, "form_crater", False),
        "save": lambda: hook(sim, "save", True), "surface_saved": lambda: hook(sim.surface, "save", False), "counting_save": lambda: hook(sim.counting, "save", True), "counting_saved": lambda: hook(sim.counting, "save", False),
        "saved": lambda: hook(sim, "save", False), "tally": lambda: hook(sim.counting, "tally", True),
    }[point]()


POINTS = ["populate", "populated", "form", "formed", "save", "surface_saved", "counting_save", "counting_saved", "saved", "tally"]


def interrupted(c):
    rng = c.rng
    opt = dict(RUN_OPTS[int(rng.integers(len(RUN_OPTS)))])
    seed = int(rng.integers(2**31))
    kw, n = request(rng, opt)
    ref = open_sim(c.dir("ref"), True, opt, seed)
    nform = [0]
    wrap_method(ref.morphology, "form_crater", lambda o, *a, **k: (nform.__setitem__(0, nform[0] + 1), o(*a, **k))[1])
    ref.run(**kw)
    want = final(ref)
    d = c.dir("s")
    crashes = []
    sim = open_sim(d, True, opt, seed)
    for j in range(int(rng.integers(1, 4))):
        p = POINTS[(c.index + int(rng.integers(len(POINTS)))) % len(POINTS)] if j else POINTS[c.index % len(POINTS)]
        at = int(rng.integers(1, max(2, nform[0] + 1))) if p in ("form", "formed") else int(rng.integers(1, n + 2))
        plant(sim, p, at)
        try:
            sim.run(**kw)
            break
        except Boom:
            crashes.append((p, at, sim.interval))
        before = (sim.time, sim.interval)
        sim = open_sim(d, False, opt, seed)
        c.check(sim.interval <= before[1] and (sim.time is None or before[0] is None or sim.time >= before[0]), "the reopened simulation is ahead of the interrupted one", before=before, after=(sim.time, sim.interval))
    else:
        sim.run(**kw)
    if not crashes:
        sim = open_sim(d, False, opt, seed)
        sim.run(**kw)
    got = final(sim)
    diff = differences(want, got)
    c.check(not diff, "the resumed run does not end like the uninterrupted one", differences=diff, crashes=crashes, options=opt, request=kw)
    for p, _, i in crashes:
        c.seen("crash", p, sorted(opt), "ninterval" in kw, i > 0)
    c.seen("resume", len(crashes), sorted(opt), bool(nform[0]))
    c.note(options=opt, request=kw, crashes=crashes, craters=nform[0])


def _child(d, opt, seed, kw, kind, mode, at, first):
    """Runs in a forked process and dies there: before, during or after the at-th write."""
    import xarray as xr
    import yaml

    import dask
    import tqdm

    dask.config.set(scheduler="synchronous")  # a forked process has none of the parent's threads
    tqdm.tqdm.monitor_interval = 0
    n = {"k": 0}
    die = lambda: os.kill(os.getpid(), signal.SIGKILL)
    if kind == "netcdf":
        orig = xr.Dataset.to_netcdf

        def f(self, path=None, *a, **k):
            n["k"] += 1
            hit = n["k"] == at
            if hit and mode == "before":
                die()
            r = orig(self, path, *a, **k)
            if hit and mode == "torn":
                with open(path, "r+b") as fh:
                    fh.truncate(max(1, os.path.getsize(path) // 2))
            if hit:
                die()
            return r

        xr.Dataset.to_netcdf = f
    else:
        orig = yaml.safe_dump

        def g(data, stream=None, **k):
            n["k"] += 1
            hit = n["k"] == at
            if not hit:
                return orig(data, stream, **k)
            if mode == "before":
                die()
            text = orig(data, **k)
            stream.write(text if mode == "after" else text[: len(text) // 2])
            stream.flush()
            die()

        yaml.safe_dump = g
    with quiet():
        sim = open_sim(d, False, opt, seed)
        sim.run(**kw)


def killed(c):
    rng = c.rng
    opt = dict(RUN_OPTS[int(rng.integers(len(RUN_OPTS)))])
    seed = int(rng.integers(2**31))
    kw, n = request(rng, opt)
    ref = open_sim(c.dir("ref"), True, opt, seed)
    ref.run(**kw)
    want = final(ref)
    d = c.dir("s")
    open_sim(d, True, opt, seed)
    deaths = []
    for _ in range(int(rng.integers(1, 4))):
        kind = ["netcdf", "yaml"][int(rng.integers(2))]
        mode = ["before", "torn", "after"][int(rng.integers(3))]
        at = int(rng.integers(1, 3 * n + 2))
        pid = os.fork()
        if pid == 0:
            try:
                _child(d, opt, seed, kw, kind, mode, at, False)
            finally:
                os._exit(0)
        end = time.time() + 90
        while True:
            done, st = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise Skip
            time.sleep(0.02)
        if os.WIFSIGNALED(st):
            deaths.append((kind, mode, at))
        else:
            break
    sim = open_sim(d, False, opt, seed)
    sim.run(**kw)
    diff = differences(want, final(sim))
    c.check(not diff, "the run resumed after the process died does not end like the uninterrupted one", differences=diff, deaths=deaths, options=opt, request=kw)
    for k, m, at in deaths:
        c.seen("death", k, m, min(at, 6))
    c.note(options=opt, request=kw, deaths=deaths)


def replaced(c):
    """A component given when reopening replaces the saved one; everything else stays."""
    import cratermaker as cm

    rng = c.rng
    d = c.dir("s")
    a = cm.Simulation(simdir=d, gridlevel=2, rng_seed=3, save_actions=None, ask_overwrite=False, scaling="montecarlo", material="Sand", projectile="asteroids")
    a.save()
    ba = behaviour(a)
    which = ["projectile", "scaling", "production", "same"][c.index % 4]
    kw = {"projectile": {"projectile": "comets"}, "scaling": {"scaling": "ctem"}, "production": {"production": "powerlaw"}, "same": {"projectile": "asteroids", "scaling": "montecarlo"}}[which]
    b = cm.Simulation(simdir=d, save_actions=None, ask_overwrite=False, **kw)
    bb = behaviour(b)
    fresh = cm.Simulation(simdir=c.dir("f"), gridlevel=2, save_actions=None, ask_overwrite=False, **kw)
    bf = behaviour(fresh)
    affected = {"projectile": {"projectile"}, "scaling": {"scaling"}, "production": {"production"}, "same": set()}[which]
    for k in ba:
        if k in affected:
            c.check(same_value(bb[k], bf[k]) if k != "scaling" else bb[k][0] == bf[k][0], f"the {which} given when reopening is not the one in use", got=bb[k], fresh=bf[k])
        elif not (which == "projectile" and k == "scaling"):
            c.check(same_value(ba[k], bb[k]), f"replacing the {which} changed something else", what=k, before=ba[k], after=bb[k])
    c.seen("replaced", which)


def reopened(c):
    """A simulation opened again has the craters of its last saved state, whichever kinds there are."""
    import cratermaker as cm

    rng = c.rng
    kind = ["small", "large", "both", "none"][c.index % 4]
    level = 4 if kind in ("large", "both") or c.index % 3 == 0 else 3
    d = c.dir("s")
    a = cm.Simulation(simdir=d, surface="icosphere", gridlevel=level, rng_seed=int(rng.integers(2**31)), save_actions=None, ask_overwrite=False)
    a.run(time_start=1.0, time_end=0.0) if kind == "none" else None
    n = int(rng.integers(1, 4))
    sizes = {"small": [2.5e5] * n, "large": [1.4e6] * n, "both": [1.3e6, *([2.5e5] * n)], "none": []}[kind]
    for k, D in enumerate(sizes):
        a.emplace(diameter=D * float(rng.uniform(0.9, 1.1)), location=(float(rng.uniform(-180, 180)), float(rng.uniform(-70, 70))), time=float(10 + k))
    a.save()
    key = lambda x: (int(x.id), float(x.diameter), tuple(float(y) for y in x.location), None if x.time is None else float(x.time))
    obs, em = sorted(key(x) for x in a.counting.observed.values()), sorted(key(x) for x in a.counting.emplaced)
    face, tags = np.array(a.surface.face_elevation), np.array(a.surface.uxds["crater_id"].values)
    b = cm.Simulation(simdir=d, save_actions=None, ask_overwrite=False)
    o2, e2 = sorted(key(x) for x in b.counting.observed.values()), sorted(key(x) for x in b.counting.emplaced)
    near = lambda p, q: len(p) == len(q) and all(x[0] == y[0] and np.allclose([x[1], *x[2]], [y[1], *y[2]], rtol=1e-9, atol=1e-9) for x, y in zip(p, q))
    c.check(near(obs, o2), "the observed craters of a reopened simulation are not those saved", saved=obs, got=o2, kind=kind)
    c.check(near(em, e2), "the emplaced craters of a reopened simulation are not those saved", saved=em, got=e2, kind=kind)
    c.check(all(k == x.id for k, x in b.counting.observed.items()), "the observed craters of a reopened simulation are filed under other ids")
    c.check(b.n_observed == a.n_observed and b.n_emplaced == a.n_emplaced, "the counts of a reopened simulation are not those saved", saved=(a.n_observed, a.n_emplaced), got=(b.n_observed, b.n_emplaced))
    c.check(np.array_equal(face, b.surface.face_elevation) and np.array_equal(tags, b.surface.uxds["crater_id"].values), "the surface of a reopened simulation is not the one saved", kind=kind)
    c.seen("reopened", kind, level, len(obs) > 0, len(em) > 0)
    c.note(kind=kind, level=level, observed=len(obs), emplaced=len(em))


SCENARIOS = [("settings", settings, 24, 240), ("interrupted", interrupted, 26, 400), ("killed", killed, 12, 240), ("replaced", replaced, 8, 40), ("reopened", reopened, 12, 120)]
