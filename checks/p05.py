"""P05: crater records written to NetCDF or CSV and read back are the same craters."""
import math
import os
from pathlib import Path

import numpy as np

from checks.p04 import FIXED, VAR, diff, rand_crater
from lib.simkit import make_sim

PROPERTY = "P05"
RULE = "Heterogeneous crater lists (circular/elliptical, optional fields present or missing per crater, odd names, plain or morphology craters) through dataset, NetCDF, CSV and simulation output; a state is (route, set of optional fields mix, size class)."


def crater_list(c, rng, n):
    out, ids = [], set()
    for _ in range(n):
        cr, k = rand_crater(c, rng)
        for n in ("production_sequence", "degradation_state", "name"):  # values given later are kept as those given at creation
            if n in k and rng.random() < 0.5:
                setattr(cr, n, k[n])
        if rng.random() < 0.3:
            cr.measured_rim_height = float(rng.choice([0.0, rng.uniform(-5, 500)]))
        if rng.random() < 0.3:
            cr.measured_floor_depth = float(-rng.uniform(-5, 5000))
        if int(cr.id) not in ids:
            ids.add(int(cr.id))
            out.append(cr)
    return out


def same(c, got, want, what, names=tuple(FIXED + VAR + ["measured_rim_height", "measured_floor_depth"])):
    by = {int(g.id): g for g in got}
    c.check(len(got) == len(want) and set(by) == {int(w.id) for w in want}, f"{what}: not the same set of craters", got=sorted(by), want=sorted(int(w.id) for w in want))
    for w in want:
        g = by.get(int(w.id))
        if g is not None:
            d = diff(w, g, list(names))
            c.check(not d, f"{what}: a crater came back different", diff=d)


def _mixkey(crs):
    return [sorted({getattr(x, n) is None for x in crs}) for n in ("name", "time", "production_time", "production_ND", "degradation_state")]


def files(c):
    import cratermaker as cm
    from cratermaker.components.counting import Counting

    rng = c.rng
    n = int(rng.choice([1, 1, 2, 3, 5, 12]))
    crs = crater_list(c, rng, n)
    ds = Counting.to_xarray(crs)
    same(c, cm.Crater.from_xarray(ds), crs, "dataset")
    same(c, cm.Crater.from_xarray(Counting.to_xarray({int(x.id): x for x in crs})), crs, "dataset from a mapping")
    f = c.tmp / "x.nc"
    ds.to_netcdf(f)
    same(c, cm.Crater.from_file(f), crs, "NetCDF file")
    c.check(len(Counting.to_xarray([])) == 0 and cm.Crater.from_xarray(Counting.to_xarray([])) == [], "an empty crater list does not come back empty")
    c.seen("file", len(crs), _mixkey(crs))
    c.note(n=len(crs), names=[x.name for x in crs], ellipses=sum(x.semimajor_axis != x.semiminor_axis for x in crs))


_SIM = {}


def csvs(c):
    import cratermaker as cm

    rng = c.rng
    sim = make_sim(c, "s", gridlevel=1, rng_seed=1)
    cnt = sim.counting
    for j in range(3):
        crs = crater_list(c, rng, int(rng.choice([1, 2, 4, 9])))
        kind = str(rng.choice(["observed", "emplaced"]))
        cnt.to_csv_file(crater_type=kind, craters=crs, interval=j)
        out = [p for p in Path(cnt.export_dir).iterdir() if p.suffix == ".csv" and f"{j:06d}" in p.name]
        if not c.check(len(out) == 1 and out[0].name.startswith(kind), "no CSV file of that crater type and interval was written", files=[p.name for p in Path(cnt.export_dir).iterdir()]):
            return
        lines = out[0].read_text().splitlines()
        c.check(len(lines) == len(crs) + 1, "CSV does not have one line per crater plus a header", lines=len(lines), craters=len(crs))
        back = cm.Crater.from_file(out[0])
        same(c, back, crs, "CSV file")
        c.check([int(b.id) for b in back] == [int(x.id) for x in crs], "CSV changes the order of the craters")
        c.seen("csv", len(crs), _mixkey(crs))
    c.note(n=len(crs), file=out[0].name)


def outputs(c):
    """What counting.save writes for each interval is what reading it back returns, interval by interval."""
    import cratermaker as cm

    rng = c.rng
    sim = make_sim(c, "s", gridlevel=3, rng_seed=int(rng.integers(2**31)))
    hist = {}
    for interval in range(3):
        crs = []
        for _ in range(int(rng.integers(1, 4))):
            cr, _ = rand_crater(c, rng, diameter=float(rng.uniform(3e5, 8e5)), semimajor_axis=None, semiminor_axis=None, transient_diameter=None, time=float(rng.uniform(0, 4000)))
            crs.append(cr)
        sim.counting.emplaced.clear()
        sim.emplace(crs)
        hist[interval] = list(sim.counting.emplaced)
        sim.counting.save(interval=interval, time_variables={**sim.time_variables, "time": 1000.0 * interval + 17.5, "elapsed_time": float(interval)})
    for interval, want in hist.items():
        _, em = sim.counting.read_saved_output(interval=interval)
        got = cm.Crater.from_xarray(em, interval=interval) if em is not None else []
        same(c, got, want, f"saved emplaced craters of interval {interval}", FIXED + ["name", "time", "production_time", "production_ND", "production_sequence"])
        got = sim.counting.Crater.from_xarray(em, interval=interval) if em is not None else []
        same(c, got, want, f"saved emplaced craters of interval {interval} as morphology craters", FIXED + ["name", "time", "production_time", "production_ND", "production_sequence"])
        c.seen("output", interval, len(want))
    c.note(counts=[len(v) for v in hist.values()])


SCENARIOS = [("files", files, 60, 2500), ("csvs", csvs, 24, 800), ("outputs", outputs, 12, 150)]
