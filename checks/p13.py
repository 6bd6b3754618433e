"""P13: quasi-Monte Carlo craters form when and where their production metadata say, exactly once, in stratigraphic order."""
import csv
import math

import numpy as np
from scipy import stats

from checks.p08 import ks, kslim
from lib.simkit import EmplaceLog, crater_fields, make_sim

PROPERTY = "P13"
TECHNIQUE = "runtime monitor of the quasi-Monte Carlo list, its merges and complete runs against an independent two-pointer merge model and exactly-once / ordering trace checkers"
RULE = "random lists of craters with times, N(D) values, uncertainties, sequence numbers or nothing, given as a list, appended one by one or as a CSV file, for every production function; merges over random partitions of time with random populations; complete runs by age and by number with several intervals; a state is (metadata kinds, sequence structure, how it was given, model) or (merge regime) or (run mode, intervals)."


def by_name(lst):
    return {x.name: x for x in lst}


SAME = ("name", "diameter", "location", "production_time", "production_ND", "production_sequence", "orientation", "semimajor_axis", "semiminor_axis", "projectile_diameter", "projectile_velocity", "morphology_type")


def unchanged(c, before, after, what):
    a, b = crater_fields(before, SAME), crater_fields(after, SAME)
    bad = {k: (a[k], b[k]) for k in a if a[k] != b.get(k)}
    c.check(not bad, f"{what} differs from the crater that was given", changed=bad)


def prod_any(c, i=None):
    """A production model with the upper time it is used to."""
    import cratermaker as cm

    i = c.index if i is None else i
    k = i % 5
    seed = int(c.rng.integers(2**31))
    if k == 0:
        return cm.Production.maker("neukum", target="Moon", rng_seed=seed), 4300.0
    if k == 1:
        return cm.Production.maker("neukum", target="Mars", version="Mars", rng_seed=seed), 4300.0
    if k == 2:
        return cm.Production.maker("neukum", target="Moon", rng_seed=seed), 3500.0
    if k == 3:
        return cm.Production.maker("powerlaw", target="Moon", rng_seed=seed), 4000.0
    return cm.Production.maker("neukum", target="Moon", rng_seed=seed), 4400.0


def n1(prod, t):
    return float(np.asarray(prod.function(diameter=1000.0, age=t)).item())


def ND(prod, D_km, t):
    """N(D) per 10^6 km^2 at age t."""
    return float(np.asarray(prod.function(diameter=D_km * 1e3, age=t)).item()) * 1e12


def exact(c):
    """Without uncertainty the time is the one given; sequences that agree with the times change nothing."""
    rng = c.rng
    prod, tm = prod_any(c)
    n = int(rng.integers(1, 12))
    t = np.sort(rng.uniform(30, tm, n))[::-1]
    seq_mode = ["none", "all", "some", "ties"][int(rng.integers(4))]
    order = rng.permutation(n)
    seqnum = np.cumsum(rng.integers(1, 40, n)) - int(rng.integers(0, 40))
    if seq_mode == "ties":
        seqnum = np.sort(rng.integers(0, max(2, n // 2), n))
    lst, want, kinds = [], {}, set()
    for j in order:
        d = float(10 ** rng.uniform(4, 6))
        kw = {"name": f"c{j}", "diameter": d, "location": (float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90)))}
        kind = "ND" if rng.random() < 0.5 else "time"
        kinds.add(kind)
        if kind == "ND":
            D = float(rng.choice([1.0, 5.0, 20.0, 90.0]))
            kw["production_ND"] = (D, ND(prod, D, t[j]), 0.0) if rng.random() < 0.5 else (D, ND(prod, D, t[j]))
        else:
            kw["production_time"] = (float(t[j]), 0.0) if rng.random() < 0.5 else float(t[j])
        if seq_mode in ("all", "ties") or (seq_mode == "some" and (rng.random() < 0.5)):
            kw["production_sequence"] = int(seqnum[j])
        lst.append(prod.Crater.maker(**kw))
        want[f"c{j}"] = float(t[j])
    k = int(rng.integers(0, 4))
    junk = [prod.Crater.maker(name=f"junk{i}", diameter=1234.0 + i, location=(0.0, 0.0)) for i in range(k)]
    allc = lst + junk
    if junk:
        allc = [allc[i] for i in rng.permutation(len(allc))]
    how = ["assign", "append", "reassign"][int(rng.integers(3))]
    cap0 = math.inf if rng.random() < 0.5 else float(10 ** rng.uniform(4, 6))
    prod.diameter_range = (10.0, cap0)
    if how == "append":
        for x in allc:
            prod.quasimc_craters.append(x)
    elif how == "reassign":
        prod.quasimc_craters = lst[:1]
        prod.quasimc_craters = allc
    else:
        prod.quasimc_craters = allc
    got = prod.quasimc_craters
    c.check(sorted(x.name for x in got) == sorted(want), "the list does not hold exactly the craters with production metadata", got=[x.name for x in got], want=sorted(want), how=how)
    byn = by_name(got)
    for x in lst:
        if x.name in byn:
            unchanged(c, x, byn[x.name], "a quasi-Monte Carlo crater")
            if seq_mode != "ties" or x.production_sequence is None:
                c.close(byn[x.name].time, want[x.name], "a crater with a certain age does not form at that age", rtol=2e-3 if x.production_ND is not None or x.production_sequence is not None else 1e-12, atol=1e-3, kind=str(x.production_ND or x.production_time), seq=x.production_sequence, mode=seq_mode)
    ts = [x.time for x in got]
    c.check(all(a >= b for a, b in zip(ts, ts[1:])), "the list is not ordered from oldest to youngest", times=ts)
    tagged = sorted(((x.production_sequence, x.time) for x in got if x.production_sequence is not None))
    seqs = sorted({s for s, _ in tagged})
    for a, b in zip(seqs, seqs[1:]):
        c.check(min(t for s, t in tagged if s == a) >= max(t for s, t in tagged if s == b), "a crater is younger than one with a higher sequence number", a=a, b=b)
    c.close(prod.diameter_range[1], min([cap0] + [x.diameter for x in lst]), "random craters are not limited to the smallest quasi-Monte Carlo crater", rtol=1e-12)
    c.check(prod.diameter_range[0] == 10.0, "the lower size limit changed", got=prod.diameter_range)
    c.seen("exact", sorted(kinds), seq_mode, how, c.index % 5, min(n, 4), bool(junk))
    c.note(model=c.index % 5, n=n, seq_mode=seq_mode, how=how)


SCENARIOS = [("exact", exact, 80, 800)]


def uncertain(c):
    """Uncertain and relative ages: the stratigraphic order holds in every draw, draws stay in the range the neighbours leave."""
    rng = c.rng
    prod, tm = prod_any(c)
    n = int(rng.integers(2, 10))
    t = np.sort(rng.uniform(200, tm - 50, n))[::-1]
    overlap = rng.random() < 0.4
    gaps = np.concatenate([[np.inf], -np.diff(t), [np.inf]])
    seqnum = np.cumsum(rng.integers(1, 30, n))
    spec = []
    for j in range(n):
        kind = "time" if j == 0 else ["time", "ND", "bare"][int(rng.integers(3))]
        sig = float(rng.uniform(1, 150)) if overlap else float(rng.uniform(0.0, 0.3) * min(gaps[j], gaps[j + 1], 100.0))
        kw = {"name": f"c{j}", "diameter": float(10 ** rng.uniform(4, 6)), "location": (0.0, 0.0), "production_sequence": int(seqnum[j])}
        if kind == "time":
            kw["production_time"] = (float(t[j]), sig)
        elif kind == "ND":
            D = float(rng.choice([1.0, 20.0]))
            kw["production_ND"] = (D, ND(prod, D, t[j]), ND(prod, D, t[j] + sig) - ND(prod, D, t[j]))
        spec.append((kind, kw))
    lst = [prod.Crater.maker(**kw) for _, kw in spec]
    free = prod.Crater.maker(name="free", diameter=5e4, location=(0.0, 0.0), production_time=(float(t[0]), 30.0))
    err = 0
    for rep in range(6):
        try:
            prod.quasimc_craters = [lst[i] for i in rng.permutation(n)] + [free]
        except RuntimeError:
            err += 1
            c.check(overlap, "constraints that agree with each other are refused", spec=[kw for _, kw in spec])
            continue
        got = by_name(prod.quasimc_craters)
        c.check(set(got) == {f"c{j}" for j in range(n)} | {"free"}, "craters were lost or added", got=sorted(got))
        ts = [got[f"c{j}"].time for j in range(n) if f"c{j}" in got]
        c.check(all(np.isfinite(ts)) and all(a >= b for a, b in zip(ts, ts[1:])) and min(ts) >= 0, "the craters do not form in the order of their sequence numbers", times=ts, spec=[kw for _, kw in spec])
        if not overlap:
            anchored = [j for j in range(n) if spec[j][0] != "bare"]
            for j in range(n):
                if spec[j][0] == "bare":
                    lo = next((t[k] for k in anchored if k > j), 0.0)
                    hi = next(t[k] for k in reversed(anchored) if k < j)
                    c.check(lo - 101 <= ts[j] <= hi + 101, "a crater known only by its sequence number forms outside the time its neighbours leave", time=ts[j], older=hi, younger=lo)
        c.seen("uncertain", [k for k, _ in spec][:5], overlap, c.index % 5)
    c.note(n=n, overlap=overlap, kinds=[k for k, _ in spec], refused=err)
    # an unanchored lowest sequence cannot be placed
    bad = [prod.Crater.maker(name="a", diameter=1e5, location=(0.0, 0.0), production_sequence=0), prod.Crater.maker(name="b", diameter=1e5, location=(0.0, 0.0), production_sequence=3, production_time=500.0)]
    c.raises(lambda: setattr(prod, "quasimc_craters", bad), "a lowest sequence without any age", exc=ValueError)


SCENARIOS += [("uncertain", uncertain, 60, 600)]


def spread(c):
    """The drawn ages of untagged craters follow the normal distribution of the age, or of N(D), that was given."""
    rng = c.rng
    prod, tm = prod_any(c)
    t0, sig = float(rng.uniform(500, 3800)), float(rng.uniform(1, 60))
    m = 800 if c.tier == "quick" else 3000
    if rng.random() < 0.5:
        meta = {"production_time": (t0, sig)}
        z = lambda ts: (ts - t0) / sig
        kind = "time"
    else:
        D = float(rng.choice([1.0, 20.0]))
        N0 = ND(prod, D, t0)
        s = N0 * float(rng.uniform(0.01, 0.15))
        meta = {"production_ND": (D, N0, s)}
        z = lambda ts: (np.array([ND(prod, D, x) for x in ts]) - N0) / s
        kind = "ND"
    cr0 = prod.Crater.maker(name="x", diameter=1e5, location=(0.0, 0.0), **meta)
    prod.quasimc_craters = [cr0] * m
    got = prod.quasimc_craters
    c.check(len(got) == m, "craters were lost", got=len(got), want=m)
    ts = np.array([x.time for x in got])
    k = ks(z(ts), stats.norm.cdf)
    c.check(k <= kslim(m) + 1e-3, "drawn ages do not follow the given mean and standard deviation", ks=k, limit=kslim(m), kind=kind, meta=meta)
    c.seen("spread", kind, c.index % 5)


def merge_model(rand, qmc, t_start, t_end):
    """Walks both lists from the smallest crater up: a random crater at least as large as the next quasi-Monte Carlo crater gives way to it."""
    r = sorted([x for x in rand if t_end < x.time <= t_start], key=lambda x: x.diameter)
    q = sorted([x for x in qmc if t_end < x.time <= t_start], key=lambda x: x.diameter)
    out, n = [], 0
    for x in r:
        if n < len(q) and x.diameter > q[n].diameter:
            out.append(q[n].name)
            n += 1
        else:
            out.append(x.name)
    return out + [y.name for y in q[n:]]


def merges(c):
    rng = c.rng
    prod, tm = prod_any(c)
    k = int(rng.integers(0, 8))
    prod.diameter_range = (10.0, math.inf)
    regime = ["mixed", "qmc_small", "qmc_large"][int(rng.integers(3))]
    lo, hi = {"mixed": (3, 5), "qmc_small": (2, 3), "qmc_large": (5, 6)}[regime]
    prod.quasimc_craters = [prod.Crater.maker(name=f"q{i}", diameter=float(10 ** rng.uniform(lo, hi)), location=(float(i), 1.0), production_time=float(rng.uniform(0, tm))) for i in range(k)]
    q0 = list(prod.quasimc_craters)
    n = int(rng.choice([0, 1, 5, 60]))
    rand = [prod.Crater.maker(name=f"r{i}", diameter=float(10 ** rng.uniform(3, 5)), location=(1.0, float(i)), time=float(rng.uniform(0, tm))) for i in range(n)]
    untimed = rng.random() < 0.3 and n > 1
    nb = int(rng.integers(1, 6))
    edges = np.concatenate([[tm], np.sort(rng.uniform(0, tm, nb - 1))[::-1], [0.0]])
    if k and nb > 1 and rng.random() < 0.5:
        edges[1] = q0[int(rng.integers(k))].time  # a window that ends exactly when a crater forms
        edges = np.sort(edges)[::-1]
        if np.any(np.diff(edges) == 0):
            return
    byND = rng.random() < 0.3
    seen = []
    arg = [rand[i] for i in rng.permutation(n)]
    for a, b in zip(edges[:-1], edges[1:]):
        if byND:
            D, D2 = 1.0, 1.0
            kw = {"N_D": (D, ND(prod, D, a)), "N_D_end": (D2, ND(prod, D2, b) if b > 0 else 0.0)}
            if any(min(abs(x.time - a), abs(x.time - b)) < 1.0 for x in [*q0, *rand]):
                continue
        else:
            kw = {"time_start": float(a), "time_end": float(b)}
        out = prod.quasimc_merge(list(arg), **kw)
        want = merge_model(rand, q0, a, b)
        c.check(sorted(x.name for x in out) == sorted(want), "the merged list is not the one the two lists give", window=(a, b), got=sorted(x.name for x in out), want=sorted(want), byND=byND)
        ts = [x.time for x in out]
        c.check(all(x >= y for x, y in zip(ts, ts[1:])), "the merged list is not ordered by decreasing age", times=ts)
        byn = by_name(out)
        for x in [*q0, *rand]:
            if x.name in byn:
                unchanged(c, x, byn[x.name], "a merged crater")
                c.check(byn[x.name].time == x.time, "merging changed the time of a crater", before=x.time, after=byn[x.name].time)
        seen += [x.name for x in out if x.name[0] == "q"]
        c.seen("merge", regime, min(k, 3), min(n, 6), nb > 1, byND)
    if not byND:
        c.check(sorted(seen) == sorted(x.name for x in q0 if 0 < x.time <= tm), "contiguous windows do not hold every quasi-Monte Carlo crater exactly once", got=sorted(seen), want=sorted(x.name for x in q0))
    if untimed:
        bare = [prod.Crater.maker(name=f"u{i}", diameter=float(10 ** rng.uniform(3, 4)), location=(1.0, float(i))) for i in range(n)]
        a, b = float(rng.uniform(tm / 2, tm)), float(rng.uniform(0, tm / 2))
        out = prod.quasimc_merge(bare, time_start=a, time_end=b)
        us = [x for x in out if x.name[0] == "u"]
        c.check(all(x.time is not None and b <= x.time <= a for x in us), "a crater without a time was not given one in the window", window=(a, b), times=[x.time for x in us])
        nq = sum(b < x.time <= a for x in q0)
        c.check(len(out) >= max(n, nq) and len(out) <= n + nq, "the merge lost or invented craters", got=len(out), n=n, nq=nq)
        c.seen("untimed", regime)
    for bad in ("x", None, 3, [1], [object()]):
        c.raises(lambda: prod.quasimc_merge(bad, time_start=100.0), "something that is not a list of craters", exc=(ValueError, TypeError), arg=str(bad))
        c.raises(lambda: setattr(prod, "quasimc_craters", bad) if bad is not None else (_ for _ in ()).throw(TypeError()), "something that is not a list of craters as quasimc_craters", exc=(TypeError, ValueError), arg=str(bad))
    c.note(model=c.index % 5, regime=regime, k=k, n=n, windows=nb, byND=byND)


COLS = ("name", "latitude", "longitude", "diameter", "production_time", "production_time_stdev", "production_D", "production_N", "production_N_stdev", "production_sequence")


def files(c):
    """A CSV file gives the same craters as the equivalent list; a new file replaces the list."""
    rng = c.rng
    prod, tm = prod_any(c)

    def one(tag):
        n = int(rng.integers(1, 7))
        t = np.sort(rng.uniform(30, tm, n))[::-1]
        rows = []
        seq = rng.random() < 0.5
        for j in range(n):
            row = dict.fromkeys(COLS, "")
            row.update(name=f"{tag}{j}", latitude=float(rng.uniform(-90, 90)), longitude=float(rng.uniform(-180, 360)), diameter=float(10 ** rng.uniform(4, 6)))
            if rng.random() < 0.5:
                row.update(production_time=float(t[j]))
                if rng.random() < 0.5:
                    row.update(production_time_stdev=0.0)
            else:
                row.update(production_D=20.0, production_N=ND(prod, 20.0, t[j]))
                if rng.random() < 0.5:
                    row.update(production_N_stdev=0.0)
            if seq:
                row.update(production_sequence=3 * j)
            rows.append((row, float(t[j])))
        p = c.tmp / f"{tag}.csv"
        with p.open("w", newline="") as f:
            w = csv.DictWriter(f, COLS)
            w.writeheader()
            for i in rng.permutation(n):
                w.writerow(rows[i][0])
        return p, rows

    for tag in ("a", "b"):
        p, rows = one(tag)
        prod.quasimc_file = p if rng.random() < 0.5 else str(p)
        got = by_name(prod.quasimc_craters)
        c.check(sorted(got) == sorted(r["name"] for r, _ in rows), "the file's craters are not the list", got=sorted(got))
        for r, t in rows:
            x = got.get(r["name"])
            if x is None:
                continue
            c.close(x.time, t, "a crater from a file does not form at the age it gives", rtol=2e-3, atol=1e-3, row=r)
            if r["production_time"] != "":
                c.check(x.production_time is not None and math.isclose(x.production_time[0], t, rel_tol=1e-9) and x.production_time[1] == 0.0, "a crater from a file does not have the production time and (absent) uncertainty it gives", got=str(x.production_time), row=r)
            elif r["production_N"] != "":
                c.check(x.production_ND is not None and x.production_ND[2] == 0.0 and math.isclose(x.production_ND[1], r["production_N"], rel_tol=1e-9), "a crater from a file does not have the number density and (absent) uncertainty it gives", got=str(x.production_ND), row=r)
            c.close(x.diameter, r["diameter"], "a crater from a file does not have the size it gives", rtol=1e-9)
            dl = (x.location[0] - r["longitude"] + 180) % 360 - 180
            c.check(abs(dl) < 1e-6 and abs(x.location[1] - r["latitude"]) < 1e-6, "a crater from a file is not where it says", got=x.location, row=r)
            c.check((x.production_sequence is None) == (r["production_sequence"] == "") and (r["production_sequence"] == "" or int(x.production_sequence) == r["production_sequence"]), "the sequence number of the file is not kept", got=x.production_sequence, row=r)
        c.seen("file", tag, len(rows), c.index % 5)
    c.raises(lambda: setattr(prod, "quasimc_file", c.tmp / "nothing.csv"), "a file that does not exist", exc=FileNotFoundError)
    c.raises(lambda: setattr(prod, "quasimc_file", 5), "a file name that is not a path", exc=TypeError)


def runs(c):
    """Complete simulations: each quasi-Monte Carlo crater in the time of the run is formed once, in its interval."""
    rng = c.rng
    kind = ["moon_age", "moon_number", "moon_interval", "off", "appended"][c.index % 5]
    t0 = float(rng.uniform(3200, 3900))
    t1 = float(rng.choice([0.0, rng.uniform(100, 1500)]))
    sim = make_sim(c, "s", gridlevel=3, rng_seed=int(rng.integers(2**31)))
    k = int(rng.integers(2, 7))
    qs = [sim.Crater.maker(name=f"q{i}", diameter=float(10 ** rng.uniform(5.45, 6)), location=(float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))), production_time=float(rng.uniform(1.0, 4300))) for i in range(k)]
    qs.append(sim.Crater.maker(name="never", diameter=9e5, location=(0.0, 0.0), production_time=4305.0))
    if kind == "appended":
        for q in qs:
            sim.quasimc_craters.append(q)
    else:
        sim.quasimc_craters = qs
    if kind == "off":
        sim.do_quasimc = False
    cap = sim.largest_crater
    c.close(cap, min(q.diameter for q in qs), "the largest random crater is not the smallest quasi-Monte Carlo crater", rtol=1e-9)
    log = EmplaceLog(sim)
    nint = 1
    if kind == "moon_number":
        a, b = ND(sim.production, 20.0, t0) * 1e-12 * sim.surface.area, ND(sim.production, 20.0, t1) * 1e-12 * sim.surface.area if t1 else 0.0
        nint = int(rng.integers(1, 4))
        sim.run(diameter_number=(20e3, a), diameter_number_end=(20e3, b), ninterval=nint)
        edges = None
    elif kind == "moon_interval":
        nint = int(rng.integers(2, 5))
        sim.run(time_start=t0, time_end=t1, time_interval=(t0 - t1) / nint)
        edges = np.linspace(t0, t1, nint + 1)
    else:
        sim.run(time_start=t0, time_end=t1)
        edges = np.array([t0, t1])
    formed = [x for x in log.all if x.name and (x.name[0] == "q" or x.name == "never")]
    names = [x.name for x in formed]
    margin = 2.0 if kind == "moon_number" else 1e-6
    must = sorted(q.name for q in qs if t1 + margin < q.production_time[0] < t0 - margin)
    may = {q.name for q in qs if t1 - margin <= q.production_time[0] <= t0 + margin}
    if kind == "off":
        c.check(not names, "quasi-Monte Carlo craters were formed although the mode is off", got=names)
    else:
        c.check(set(must) <= set(names) <= may and len(set(names)) == len(names), "the run did not form exactly the quasi-Monte Carlo craters of its time", got=sorted(names), want=must, window=(t0, t1), kind=kind)
        for x in formed:
            q = next(y for y in qs if y.name == x.name)
            unchanged(c, q, x, "a formed quasi-Monte Carlo crater")
    for j, batch in enumerate(log.calls):
        ts = [x.time for x in batch]
        c.check(all(a >= b for a, b in zip(ts, ts[1:])), "the craters of an interval are not emplaced from oldest to youngest", interval=j)
    if edges is not None and kind != "off" and len(log.calls) == nint:
        for j, batch in enumerate(log.calls):
            for x in batch:
                if x.name in names:
                    c.check(edges[j + 1] - 1e-6 <= x.time <= edges[j] + 1e-6, "a quasi-Monte Carlo crater was formed in the wrong interval", time=x.time, interval=(edges[j], edges[j + 1]))
    rnd = [x for x in log.all if x not in formed]
    c.check(all(x.diameter <= cap * (1 + 1e-9) for x in rnd), "a random crater is larger than the limit", biggest=max([x.diameter for x in rnd], default=0), cap=cap)
    c.seen("run", kind, nint, len(must), bool(rnd))
    c.note(kind=kind, t0=t0, t1=t1, nint=nint, must=must, formed=names, random=len(rnd))


SCENARIOS += [("spread", spread, 15, 80), ("merges", merges, 60, 600), ("files", files, 20, 200), ("runs", runs, 20, 150)]
