"""P17: saved output is addressed by interval: what is read for an interval is what was last saved for it, nothing else."""
import contextlib

import numpy as np

from checks.p04 import FIXED, diff, rand_crater
from lib.simkit import make_sim

PROPERTY = "P17"
TECHNIQUE = "model-based monitoring: a reference store (interval -> what was last saved) compared with what every read returns, over random histories of saves"
RULE = "random histories of saves (sparse, repeated, out of order intervals; no, few or the same craters as in other intervals; observed, emplaced or both; surface changes in between) and reads (every interval, absent ones, all, from the end); a state is (component, kind of read, present or absent, number saved)."

NAMES = [n for n in FIXED if n != "time"] + ["name", "time", "production_time", "production_ND", "production_sequence", "measured_diameter", "measured_location"]


def craters(c, rng, sim, n):
    out, ids = [], set()
    for _ in range(n):
        cr, _ = rand_crater(c, rng, diameter=float(rng.uniform(1e4, 3e5)), semimajor_axis=None, semiminor_axis=None, transient_diameter=None, measured_semimajor_axis=None, measured_semiminor_axis=None)
        cr = sim.counting.Crater.maker(crater=cr)
        if int(cr.id) not in ids:
            ids.add(int(cr.id))
            out.append(cr)
    return out


def same(c, got, want, what, **info):
    by = {int(g.id): g for g in got}
    if c.check(len(by) == len(got) and set(by) == {int(w.id) for w in want}, f"{what}: not the craters saved for that interval", got=sorted(by), want=sorted(int(w.id) for w in want), **info):
        for w in want:
            d = diff(w, by[int(w.id)], NAMES)
            c.check(not d, f"{what}: a crater is not the one saved for that interval", diff=d, **info)


def catalogues(c):
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=1, rng_seed=int(rng.integers(2**31)))
    cnt, Crater = sim.counting, sim.counting.Crater
    model = {"observed": {}, "emplaced": {}}
    tv = {"observed": {}, "emplaced": {}}
    pool = craters(c, rng, sim, 6)
    c.check(cnt.get_saved_interval_numbers() == (None, None), "a component that saved nothing lists saved intervals", got=str(cnt.get_saved_interval_numbers()))
    choice = [0, 1, 2, 3, 4, 7, 9, 10, 11, 99, 100, 12345, 999999]
    for step in range(int(rng.integers(2, 7))):
        i = int(choice[int(rng.integers(len(choice)))])
        kind = str(rng.choice(["both", "both", "observed", "emplaced"]))
        sets = {}
        for t in ("observed", "emplaced"):
            mode = int(rng.integers(4))
            if mode == 0:
                s = []
            elif mode == 1:  # the same craters appear in several intervals
                s = [pool[j] for j in rng.permutation(len(pool))[: int(rng.integers(1, len(pool) + 1))]]
            else:
                s = craters(c, rng, sim, int(rng.integers(1, 5)))
            sets[t] = s
        cnt.observed.clear()
        cnt.observed.update({x.id: x for x in sets["observed"]})
        cnt.emplaced[:] = sets["emplaced"]
        t = {"elapsed_time": float(np.round(rng.uniform(0, 100), 3)), "elapsed_n1": float(step)} if rng.random() < 0.7 else None
        cnt.save(crater_type=kind, interval=i, time_variables=t)
        for k in ("observed", "emplaced") if kind == "both" else (kind,):
            if sets[k]:
                model[k][i], tv[k][i] = sets[k], t
            else:
                model[k].pop(i, None)
                tv[k].pop(i, None)
    nums = cnt.get_saved_interval_numbers()
    everything = cnt.read_saved_output()
    absent = [int(x) for x in rng.permutation(choice)[:3]]
    for j, k in enumerate(("observed", "emplaced")):
        want = sorted(model[k])
        c.check((nums[j] or []) == want, "the saved intervals are not those listed", type=k, got=str(nums[j]), want=want)
        for i in sorted({*absent, *want}):
            ds = cnt.read_saved_output(interval=i)[j]
            got = Crater.from_xarray(ds, interval=i) if ds else []
            same(c, got, model[k].get(i, []), "reading one interval", type=k, interval=i, saved=want)
            if i in model[k]:
                v = cnt.get_time_variables(interval=i)[j]
                for n, x in (tv[k][i] or {}).items():
                    c.check(n in v.coords and float(np.ravel(v[n].values)[0]) == x, "the time variables are not those of the interval", type=k, interval=i, name=n, got=str(v)[:300], want=x)
            c.seen("read", k, i in model[k], len(want))
        others = [len(v) for v in model.values() if v]
        for back in range(1, min([*others, len(want)], default=0) + 1):
            ds = cnt.read_saved_output(interval=-back)[j]
            got = Crater.from_xarray(ds) if ds else []
            same(c, got, model[k][want[-back]], "reading from the end", type=k, back=back, saved=want)
        ds = everything[j]
        for i in sorted({*absent, *want}):
            got = Crater.from_xarray(ds, interval=i) if ds else []
            same(c, got, model[k].get(i, []), "reading all intervals", type=k, interval=i, saved=want)
        if want:
            same(c, Crater.from_xarray(ds), model[k][want[-1]], "reading all intervals and taking the last", type=k, saved=want)
        c.seen("all", k, len(want), bool(set.intersection(*[{x.id for x in s} for s in model[k].values()])) if len(want) > 1 else None)
    c.note(observed={i: len(v) for i, v in model["observed"].items()}, emplaced={i: len(v) for i, v in model["emplaced"].items()})


def surfaces(c):
    rng = c.rng
    kind = "icosphere"
    sim = make_sim(c, "s", gridlevel=int(rng.integers(0, 3)), surface=kind, rng_seed=int(rng.integers(2**31)))
    s = sim.surface
    model = {0: {v: np.array(getattr(s, v)) for v in ("face_elevation", "node_elevation")}}
    tv = {0: {}}
    choice = [0, 1, 2, 3, 5, 10, 11, 200, 99999]
    n = int(rng.integers(1, 6))
    for step in range(n):
        i = int(choice[int(rng.integers(len(choice)))])
        s.update_elevation(rng.normal(0, 1000, s.n_face), overwrite=bool(rng.integers(2)))
        if rng.random() < 0.5:
            s.update_elevation(rng.normal(0, 1000, s.n_node))
        extra = {}
        if step > 1 and rng.random() < 0.4:
            s.add_data("roughness", rng.uniform(0, 1, s.n_face), long_name="r", units="m", overwrite=True)
        if "roughness" in s.uxds:
            extra["roughness"] = np.array(s.uxds["roughness"])
        t = {"time": float(np.round(rng.uniform(0, 4000), 3)), "elapsed_time": float(step)}
        s.save(interval=i, time_variables=t)
        model[i] = {"face_elevation": np.array(s.face_elevation), "node_elevation": np.array(s.node_elevation), **extra}
        tv[i] = t
    want = sorted(model)
    now = np.array(s.face_elevation)
    c.check(s.get_saved_interval_numbers()[0] == want, "the saved surface states are not those listed", got=str(s.get_saved_interval_numbers()), want=want)
    for i in choice:
        ds = s.read_saved_output(interval=i)
        if i not in model:
            c.check(len(ds) == 0, "reading an interval that was not saved returned data", interval=i)
            continue
        for v, x in model[i].items():
            c.check(v in ds and np.array_equal(np.ravel(ds[v].values), x), "the saved surface data are not those of the interval", interval=i, variable=v, saved=want)
        c.check(np.ravel(ds["interval"].values).tolist() == [i], "the interval number of the saved state is wrong", got=str(ds["interval"].values), want=i)
        if tv[i]:
            q = s.get_time_variables(interval=i)
            for k, x in tv[i].items():
                c.check(k in q.coords and float(np.ravel(q[k].values)[0]) == x, "the saved time is not that of the interval", interval=i, name=k)
        c.seen("surface", i in model, len(model))
    for back in range(1, len(want) + 1):
        ds = s.read_saved_output(interval=-back)
        c.check(np.array_equal(np.ravel(ds["face_elevation"].values), model[want[-back]]["face_elevation"]), "reading from the end gives another interval", back=back)
    ds = s.read_saved_output()
    if "interval" in ds.dims:
        c.check(np.ravel(ds["interval"].values).tolist() == want, "reading all intervals does not return them all, in order", got=str(ds["interval"].values), want=want)
        for i in want:
            c.check(np.array_equal(np.ravel(ds["face_elevation"].sel(interval=i).values), model[i]["face_elevation"]), "reading all intervals mixes them up", interval=i)
    c.check(np.array_equal(s.face_elevation, now), "reading changed the surface")
    c.note(saved=want)


def names(c):
    """File names carry the interval number; nothing else is taken for saved output."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=0, rng_seed=1)
    cnt, s = sim.counting, sim.surface
    crs = craters(c, rng, sim, 2)
    for i in (int(rng.integers(0, 999999)), int(rng.integers(0, 50))):
        cnt.emplaced[:] = crs
        cnt.observed.clear()
        before = {p.name for p in cnt.output_dir.iterdir()}
        cnt.save(interval=i)
        new = {p.name for p in cnt.output_dir.iterdir()} - before
        c.check(new == {f"emplaced_craters{i:06d}.nc"}, "the crater file does not carry its interval number", got=sorted(new), interval=i)
        before = {p.name for p in s.output_dir.iterdir()}
        s.save(interval=i)
        new = {p.name for p in s.output_dir.iterdir()} - before
        c.check(new == {f"surface{i:06d}.nc"} or i == 0, "the surface file does not carry its interval number", got=sorted(new), interval=i)
    c.seen("names", i)


def after_exports(c):
    """Exporting, plotting and reading any interval leave what is saved as it was; the current state is what a save of it holds."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=int(rng.integers(1, 3)), rng_seed=int(rng.integers(2**31)), save_actions=None)
    s, cnt = sim.surface, sim.counting
    model = {}
    n = int(rng.integers(2, 5))
    pool = craters(c, rng, sim, 6)
    for i in range(n):
        s.update_elevation(rng.normal(0, 1000, s.n_face + s.n_node), overwrite=True)
        cnt.emplaced[:] = [pool[j] for j in rng.permutation(len(pool))[: int(rng.integers(0, 4))]]
        sim.interval = i
        sim.save()
        model[i] = {"face": np.array(s.face_elevation), "node": np.array(s.node_elevation), "emplaced": list(cnt.emplaced)}
    later = bool(rng.random() < 0.5)
    if later:  # the state moved on after the last save
        s.update_elevation(rng.normal(0, 1000, s.n_face + s.n_node), overwrite=True)
    region = s.extract_region((float(rng.uniform(-180, 180)), float(rng.uniform(-60, 60))), 0.5 * s.radius)
    done = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(n)) if not later or rng.random() < 0.5 else int(rng.integers(n - 1))
        who, kind = str(rng.choice(["sim", "surface", "counting", "region"])), str(rng.choice(["GPKG", "VTK", "GeoTIFF", "plot", "read"]))
        obj = {"sim": sim, "surface": s, "counting": cnt, "region": region}[who]
        if kind == "read":
            s.read_saved_output(interval=k)
            s.get_time_variables(interval=k)
        elif kind == "plot":
            obj.plot(interval=k, show=False, save=bool(rng.random() < 0.5), close_when_done=True)
        elif who == "counting" and kind != "VTK":
            continue
        else:
            obj.export(driver="OpenCraterTool" if who == "sim" and kind == "GeoTIFF" else kind, interval=None if who == "region" and rng.random() < 0.3 else k)
        done.append((who, kind, k))
    now = np.array(s.face_elevation)
    with contextlib.suppress(ImportError):
        import matplotlib.pyplot as plt

        plt.close("all")
    c.check(s.get_saved_interval_numbers()[0] == list(range(n)), "exports or plots changed the saved intervals", got=str(s.get_saved_interval_numbers()), n=n, done=done)
    for i in range(n):
        ds = s.read_saved_output(interval=i)
        ok = np.array_equal(np.ravel(ds["face_elevation"].values), model[i]["face"]) and np.array_equal(np.ravel(ds["node_elevation"].values), model[i]["node"])
        if i == n - 1 and later:  # the latest interval may have been saved again with the current state
            ok = ok or np.array_equal(np.ravel(ds["face_elevation"].values), now)
        c.check(ok, "an export, plot or read changed what is saved", interval=i, n=n, done=done, later=later)
        em = cnt.read_saved_output(interval=i)[1]
        same(c, Crater_of(cnt, em, i), model[i]["emplaced"], "after exports", interval=i, done=done)
    c.seen("exports", tuple(sorted({x[:2] for x in done})), later)


def Crater_of(cnt, ds, i):
    return cnt.Crater.from_xarray(ds, interval=i) if ds else []


SCENARIOS = [("catalogues", catalogues, 14, 500), ("surfaces", surfaces, 24, 500), ("names", names, 6, 40), ("after_exports", after_exports, 14, 160)]
