"""P15: a run is a gapless, non-overlapping sequence of intervals; every crater is emplaced once, in its interval, and each state is saved once."""
import numpy as np

from lib.simkit import EmplaceLog, make_sim, wrap_method

PROPERTY = "P15"
TECHNIQUE = "trace specification checked offline over the recorded populate / emplace / form / save events of complete and continued runs"
RULE = "random runs of simulations of several targets and production functions by age, window, N(D) and diameter-number, in one interval, equal time intervals (dividing the run or not) and equal number intervals, followed by continuations, repeated requests and longer requests; a state is (how the run was asked for, intervals, continuation kind, whether craters formed)."


class Trace:
    def __init__(self, sim):
        self.sim = sim
        self.ev = []
        self.log = EmplaceLog(sim)

        def populate(orig, *a, **k):
            n0 = len(self.log.calls)
            f0 = len(self.log.formed)
            e = {"ev": "populate", "before": sim.time}
            self.ev.append(e)
            r = orig(*a, **k)
            e["craters"] = [x for b in self.log.calls[n0:] for x in b]
            e["formed"] = self.log.formed[f0:]
            e["returned"] = list(r)
            e["emplaced"] = list(sim.counting.emplaced or [])
            return r

        def save(orig, *a, **k):
            r = orig(*a, **k)
            self.ev.append({"ev": "save", "interval": sim.interval, "time": sim.time, "elapsed": sim.elapsed_time, "n1": sim.elapsed_n1})
            return r

        wrap_method(sim, "populate", populate)
        wrap_method(sim, "save", save)


def n1(P, a, b):
    return float(np.asarray(P.function(diameter=1000.0, time_start=a, time_end=b)).item()) * P.N_conversion_factor


def check_trace(c, sim, ev, edges, i0, first, tol, equal, n0=0.0, t0=None, base=0.0, want=None):
    """ev: events of one run call. edges: expected interval boundaries (or None), i0: interval number before the run."""
    P = sim.production
    if not first and ev and ev[0]["ev"] == "save" and ev[0]["interval"] == i0 and ev[0]["time"] == t0:
        ev = ev[1:]  # the present state may be written again before going on
    seq = [e["ev"] for e in ev]
    n = seq.count("populate")
    expect = (["save"] if first else []) + ["populate", "save"] * n
    c.check(seq == expect, "intervals and saved states do not alternate", got=seq)
    if want is not None:
        c.check(n == want, "the run does not have the number of intervals asked for", got=n, want=want)
    saves = [e for e in ev if e["ev"] == "save"]
    c.check([s["interval"] for s in saves] == list(range(i0 + (0 if first else 1), i0 + n + 1)), "the saved intervals are not numbered consecutively", got=[s["interval"] for s in saves], start=i0)
    times = [t0] + [s["time"] for s in saves[1 if first else 0 :]]
    c.check(all(a > b for a, b in zip(times, times[1:])), "time does not go forward", times=times)
    if first:
        c.check(saves[0]["time"] == t0 and saves[0]["elapsed"] == 0 and saves[0]["n1"] == 0, "the initial state is not saved as the beginning", got=saves[0])
    if edges is not None:
        c.close(times, edges, "the saved states are not at the boundaries of the requested intervals", rtol=1e-9 if tol < 1e-3 else 1e-3, atol=tol)
    acc, accn = base, n0
    for k, (a, b) in enumerate(zip(times, times[1:])):
        acc += a - b
        accn += n1(P, a, b)
        s = saves[k + (1 if first else 0)]
        c.close([s["elapsed"], s["n1"]], [acc, accn], "the elapsed time or N(1) of a saved state is not that of the time simulated", rtol=1e-3 if tol >= 1e-3 else 1e-6, atol=tol)
    if equal and n > 1:
        dn = [n1(P, a, b) for a, b in zip(times, times[1:])]
        c.check(max(dn) - min(dn) <= 2e-3 * max(dn) + 1e-9, "intervals of equal number do not hold equal numbers", dn=dn)
    # every crater in its interval, once
    seen = set()
    for e, a, b in zip([e for e in ev if e["ev"] == "populate"], times, times[1:]):
        cr = e["craters"]
        c.check([id(x) for x in cr] == [id(x) for x in e["returned"]], "populate does not return what it emplaced", n=(len(cr), len(e["returned"])))
        c.check(all(b - tol <= x.time <= a + tol for x in cr), "a crater was emplaced outside its interval", interval=(a, b), times=[x.time for x in cr if not b - tol <= x.time <= a + tol][:5])
        c.check(all(x.time >= y.time for x, y in zip(cr, cr[1:])), "craters are not emplaced from oldest to youngest")
        c.check(len(e["formed"]) == len(cr) and sorted(x.id for x in e["formed"]) == sorted(x.id for x in cr), "the craters formed on the surface are not the craters emplaced, once each", formed=len(e["formed"]), emplaced=len(cr))
        c.check(sorted(x.id for x in e["emplaced"]) == sorted(x.id for x in cr), "the record of emplaced craters is not the craters of the interval", recorded=len(e["emplaced"]), n=len(cr))
        key = [(x.time, x.diameter, tuple(x.location)) for x in cr]
        c.check(len(set(key)) == len(key) and not (seen & set(key)), "a crater was emplaced twice")
        seen |= set(key)
        lo, hi = sim.smallest_crater, sim.largest_crater
        if P.generator_type == "crater":
            c.check(all(lo * (1 - 1e-9) <= x.diameter <= hi * (1 + 1e-9) for x in cr), "a crater is outside the simulated sizes", limits=(lo, hi))
    return len(seen), n


def files(sim):
    return sorted(int(p.stem[-6:]) for p in sim.surface.output_dir.glob("*.nc") if p.stem[-6:].isdigit())


def moon(c):
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=3, rng_seed=int(rng.integers(2**31)), **[{}, {"target": "Mars"}, {"morphology": "basicmoon"}, {}][c.index % 4])
    P, A = sim.production, sim.surface.area
    if rng.random() < 0.5:
        P.N_conversion_factor, P.D_conversion_factor = float(rng.choice([1.0, 1e6])), float(rng.choice([1.0, 1000.0]))
    Nf, Df = P.N_conversion_factor, P.D_conversion_factor
    t0 = round(float(rng.uniform(3500, 4100)), int(rng.integers(0, 4)))
    t1 = round(float(rng.choice([0.0, rng.uniform(200, 3000)])), 1)
    mode = ["single", "time", "ragged", "number", "N_D", "diameter_number"][int(rng.integers(6))]
    tr = Trace(sim)
    want, edges, equal, tol = 1, np.array([t0, t1]), False, 1e-6
    kw = {"time_start": t0, "time_end": t1}
    if t1 == 0 and rng.random() < 0.5:
        kw = {"age": t0}
    if mode == "time":
        want = int(rng.integers(2, 7))
        dt = (t0 - t1) / want
        kw["time_interval"] = dt
        edges = t0 - dt * np.arange(want + 1)
        edges[-1] = t1
    elif mode == "ragged":
        dt = round((t0 - t1) / float(rng.uniform(1.2, 5.8)), 2)
        kw["time_interval"] = dt
        want = int(np.ceil((t0 - t1) / dt - 1e-9))
        edges = np.append(t0 - dt * np.arange(want), t1)
    elif mode != "single":
        want = int(rng.integers(1, 6))
        equal, tol = True, (1e-6 if mode == "number" and want == 1 else 0.05)
        edges = None
        f = lambda D, t: float(np.asarray(P.function(diameter=D, age=t)).item()) if t else 0.0
        if mode == "N_D":
            D, D2 = float(rng.choice([1.0, 20.0])), float(rng.choice([1.0, 5.0]))
            kw = {"N_D": (D * 1e3 / Df, f(D * 1e3, t0) * Nf), "N_D_end": (D2 * 1e3 / Df, f(D2 * 1e3, t1) * Nf)}
        elif mode == "diameter_number":
            D = float(rng.choice([1e3, 2e4]))
            kw = {"diameter_number": (D, f(D, t0) * A), "diameter_number_end": (D, f(D, t1) * A)}
        kw["ninterval"] = want
    sim.run(**kw)
    if not c.check(tr.ev and tr.ev[0]["ev"] == "save", "the initial state was not saved first"):
        return
    c.close(tr.ev[0]["time"], t0, "the run does not start at the time asked for", rtol=1e-4 if tol > 1e-3 else 1e-12, atol=tol)
    first_time = tr.ev[0]["time"]
    n, ni = check_trace(c, sim, tr.ev, edges, 0, True, tol, equal, t0=tr.ev[0]["time"], want=want)
    c.close(sim.time, t1, "the run does not end at the time asked for", rtol=1e-4 if tol > 1e-3 else 1e-12, atol=tol)
    c.check(files(sim) == list(range(want + 1)), "the saved files are not one for each state", got=files(sim), want=want + 1)
    c.seen("run", mode, want, n > 0, c.index % 4, Nf, Df)
    # what follows
    cont = ["repeat", "reset", "later_end", "time_end_only", "older_start", "extend_time", "extend_number"][int(rng.integers(7))]
    tr.ev.clear()
    state = (sim.time, sim.interval, sim.elapsed_time, sim.elapsed_n1)
    el = np.array(sim.surface.face_elevation).copy()
    if cont == "repeat":
        sim.run(**kw)
        c.check(not [e for e in tr.ev if e["ev"] == "populate"] and state == (sim.time, sim.interval, sim.elapsed_time, sim.elapsed_n1) and np.array_equal(el, sim.surface.face_elevation), "repeating a finished run does something", events=[e["ev"] for e in tr.ev], before=state, after=(sim.time, sim.interval, sim.elapsed_time, sim.elapsed_n1))
        c.seen("cont", cont, mode, want)
    elif cont == "reset":
        sim.reset()
        c.check(sim.interval == 0 and not sim.elapsed_time and not sim.elapsed_n1, "a reset does not take the clock back to the beginning", interval=sim.interval, elapsed=(sim.elapsed_time, sim.elapsed_n1))
        c.check(files(sim) in ([], [0]), "a reset leaves saved states of later intervals", got=files(sim))
        tr.ev.clear()
        sim.run(**kw)
        check_trace(c, sim, tr.ev, edges, 0, True, tol, equal, t0=tr.ev[0]["time"], want=want)
        c.close([tr.ev[0]["time"], sim.time], [first_time, t1], "a run after a reset is not over the same time", rtol=1e-4 if tol > 1e-3 else 1e-12, atol=tol)
        c.check(files(sim) == list(range(want + 1)), "the saved files are not one for each state", got=files(sim), want=want + 1)
        c.seen("cont", cont, mode)
    elif sim.time > 150:
        t2 = round(float(rng.uniform(0, sim.time - 100)), 1)
        m = int(rng.integers(1, 4))
        cur = sim.time
        edges2 = np.linspace(cur, t2, m + 1)
        if cont.startswith("extend"):
            # the same beginning, a later end and other intervals: what was run is not run again
            start = first_time
            if cont == "extend_time":
                dt = (start - t2) / float(rng.uniform(1.0, 6.0))
                sim.run(time_start=start, time_end=t2, time_interval=dt)
                grid = start - dt * np.arange(1, 20)
                edges2 = np.array([cur, *[g for g in grid if t2 + 1e-6 < g < cur - 1e-3], t2])
                near = np.min(np.abs(grid - cur)) < 0.1
            else:
                sim.run(time_start=start, time_end=t2, ninterval=int(rng.integers(2, 6)))
                edges2, near = None, True
            check_trace(c, sim, tr.ev, None if near else edges2, state[1], False, 0.05 if edges2 is None else 1e-6, False, t0=cur, base=state[2], n0=state[3])
            c.close(sim.time, t2, "the extended run does not end at the time asked for", rtol=1e-4, atol=0.05)
            c.check(files(sim) == list(range(sim.interval + 1)), "the saved files are not one for each state", got=files(sim), interval=sim.interval)
            c.seen("cont", cont, mode)
            return
        if cont == "time_end_only":
            sim.run(time_end=t2, time_interval=(cur - t2) / m)
        elif cont == "later_end":
            sim.run(time_start=cur, time_end=t2, time_interval=(cur - t2) / m)
        else:  # asked from an older start, with intervals that already happened
            dt = (cur - t2) / m
            k = int(rng.integers(1, 3))
            if cur + k * dt > 4300:
                return
            sim.run(time_start=cur + k * dt, time_end=t2, time_interval=dt)
        check_trace(c, sim, tr.ev, edges2, state[1], False, 1e-3 if cont == "older_start" else 1e-6, False, t0=cur, base=state[2], n0=state[3], want=m)
        c.close(sim.time, t2, "the continued run does not end at the time asked for", rtol=1e-9, atol=1e-6)
        c.check(files(sim) == list(range(want + m + 1)), "the saved files are not one for each state", got=files(sim), want=want + m + 1)
        c.seen("cont", cont, mode, m)
    c.note(mode=mode, kw=kw, want=want, craters=n, cont=cont)


def populate(c):
    """populate emplaces a population of the asked interval and leaves the clock alone."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=3, rng_seed=int(rng.integers(2**31)))
    log = EmplaceLog(sim)
    P, A = sim.production, sim.surface.area
    tot = []
    for _ in range(int(rng.integers(1, 4))):
        a = float(rng.uniform(3600, 4200))
        b = float(rng.uniform(0, a - 200))
        form = ["time", "N_D", "number", "age"][int(rng.integers(4))]
        f = lambda D, t: float(np.asarray(P.function(diameter=D, age=t)).item())
        if form == "age":
            b = 0.0
        kw = {"time": {"time_start": a, "time_end": b}, "age": {"age": a}, "N_D": {"N_D": (20.0, f(2e4, a) * 1e12), "N_D_end": (20.0, f(2e4, b) * 1e12 if b else 0.0)}, "number": {"diameter_number": (2e4, f(2e4, a) * A), "diameter_number_end": (2e4, f(2e4, b) * A if b else 0.0)}}[form]
        n0 = len(log.formed)
        st = (sim.time, sim.interval, sim.elapsed_time, sim.elapsed_n1)
        out = sim.populate(**kw)
        c.check(isinstance(out, list) and len(log.formed) - n0 == len(out) and sorted(x.id for x in out) == sorted(x.id for x in log.formed[n0:]), "populate does not return the craters it formed", formed=len(log.formed) - n0, returned=len(out))
        c.check(all(b - 0.05 <= x.time <= a + 0.05 for x in out), "a crater is outside the interval of populate", window=(a, b))
        c.check(st == (sim.time, sim.interval, sim.elapsed_time, sim.elapsed_n1), "populate moved the clock of the simulation", before=st)
        tot += out
        c.check(sorted(x.id for x in sim.counting.emplaced) == sorted(x.id for x in tot), "the record of emplaced craters is not what was emplaced", n=(len(sim.counting.emplaced), len(tot)))
        c.seen("populate", form, bool(out))
    c.check(files(sim) in ([], [0]), "populate saved a state", got=files(sim))


def counts(c):
    """Over many seeds the number of craters of a run is the expected number of the production function (Poisson)."""
    rng = c.rng
    tot, exp, exp_big, big = 0, 0.0, 0.0, 0
    area = None
    nrep = 6
    for k in range(nrep):
        sim = make_sim(c, f"s{k}", gridlevel=3, rng_seed=int(rng.integers(2**31)), **({"target": "Mars"} if c.index % 2 else {}))
        if c.index % 3 == 2:
            sim.smallest_crater = sim.smallest_crater * 1.3
        a = float(rng.uniform(3900, 4150))
        b = float(rng.choice([0.0, rng.uniform(1000, 3500)]))
        log = EmplaceLog(sim)
        sim.run(time_start=a, time_end=b, ninterval=int(rng.integers(1, 3)))
        lo, hi = sim.smallest_crater, sim.largest_crater
        fn = lambda D: float(np.asarray(sim.production.function(diameter=D, time_start=a, time_end=b)).item()) * sim.surface.area
        # cells can be coarser than the smallest crater: only sizes that every cell can hold are certain
        big0 = max(lo, float(np.max(sim.surface.face_bin_min_sizes)))
        exp += fn(big0) - fn(hi)
        tot += sum(x.diameter >= big0 for x in log.all)
        mid = big0 * 2
        exp_big += fn(mid) - fn(hi)
        big += sum(x.diameter >= mid for x in log.all)
    c.check(abs(tot - exp) <= 7 * np.sqrt(exp) + 8, "runs do not form the number of craters the production function gives", got=tot, expected=exp)
    c.check(abs(big - exp_big) <= 7 * np.sqrt(exp_big) + 8, "runs do not form the number of large craters the production function gives", got=big, expected=exp_big)
    c.seen("counts", c.index % 6)
    c.note(got=tot, expected=exp)


SCENARIOS = [("moon", moon, 48, 500), ("populate", populate, 12, 100), ("counts", counts, 12, 60)]
