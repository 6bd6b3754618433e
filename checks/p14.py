"""P14: contradictory or meaningless run, populate and sample requests are refused and change nothing; equivalent requests mean the same."""
import math

import numpy as np

from lib.simkit import EmplaceLog, make_sim

PROPERTY = "P14"
TECHNIQUE = "runtime monitor: every refused call is bracketed by snapshots of the simulation, its surface, its random state and its directory; equivalent requests are run side by side"
RULE = "for run, populate and production.sample, every documented contradiction or invalid value (about 45 forms, with random valid companions) on fresh and on partly run simulations; random equivalent forms of one interval; a state is (call, form, fresh or partly run) or (pair of equivalent forms)."


def tree(d):
    return {str(p.relative_to(d)): (p.stat().st_size, p.stat().st_mtime_ns) for p in sorted(d.rglob("*")) if p.is_file()}


def snap(sim):
    s = sim.surface
    return {
        "time": sim.time, "interval": sim.interval, "elapsed": (sim.elapsed_time, sim.elapsed_n1), "elev": np.array(s.face_elevation).copy().tobytes(),
        "observed": len(sim.counting.observed or []), "emplaced": len(sim.counting.emplaced or []), "rng": repr(sim.rng.bit_generator.state), "files": tree(sim.simdir),
        "size": (sim.smallest_crater, sim.largest_crater),
    }


def bad_forms(rng):
    t = float(rng.uniform(500, 3500))
    e = float(rng.uniform(1, t - 100))
    D, N = float(rng.uniform(1, 30)), float(rng.uniform(10, 400))
    out = {
        "nothing": {},
        "age+time_start": {"age": t, "time_start": t},
        "age+time_end": {"age": t, "time_end": e},
        "age+number": {"age": t, "diameter_number": (2e4, 100.0)},
        "age+N_D": {"age": t, "N_D": (D, N)},
        "start+number": {"time_start": t, "diameter_number": (2e4, 100.0)},
        "start+N_D": {"time_start": t, "time_end": e, "N_D": (D, N)},
        "N_D+number": {"N_D": (D, N), "diameter_number": (2e4, 100.0)},
        "N_D+number_end": {"N_D": (D, N), "diameter_number_end": (2e4, 10.0)},
        "only N_D_end": {"N_D_end": (D, N)},
        "array age": {"age": np.array([t, e])},
        "list age": {"age": [t, e]},
        "array start": {"time_start": np.array([t]), "time_end": e},
        "array end": {"time_start": t, "time_end": [e, e]},
        "text age": {"age": "old"},
        "end before start": {"time_start": e, "time_end": t},
        "negative number": {"diameter_number": (2e4, -5.0)},
        "negative diameter": {"diameter_number": (-2e4, 5.0)},
        "triple number": {"diameter_number": (2e4, 5.0, 1.0)},
        "triple number_end": {"diameter_number": (2e4, 500.0), "diameter_number_end": (2e4, 5.0, 1.0)},
        "negative number_end": {"diameter_number": (2e4, 500.0), "diameter_number_end": (2e4, -5.0)},
        "triple N_D": {"N_D": (D, N, 1.0)},
        "scalar N_D": {"N_D": N},
        "text N_D": {"N_D": "20"},
        "triple N_D_end": {"N_D": (D, N), "N_D_end": (D, N / 2, 1)},
        "scalar N_D_end": {"N_D": (D, N), "N_D_end": 3.0},
        "negative N_D": {"N_D": (D, -N)},
        "too old": {"age": 5000.0 + t},
    }
    run_only = {
        "both intervals": {"age": t, "time_interval": 50.0, "ninterval": 3},
        "float ninterval": {"age": t, "ninterval": 2.0},
        "text ninterval": {"age": t, "ninterval": "2"},
        "zero ninterval": {"age": t, "ninterval": 0},
        "negative ninterval": {"N_D": (D, N), "ninterval": -1 - int(rng.integers(5))},
        "zero interval": {"age": t, "time_interval": 0.0},
        "negative interval": {"age": t, "time_interval": -float(rng.uniform(1, 100))},
        "interval too long": {"time_start": t, "time_end": e, "time_interval": (t - e) * float(rng.uniform(1.001, 5))},
        "interval too long age": {"age": t, "time_interval": t + float(rng.uniform(1, 50))},
    }
    return out, run_only


def refused_run(c):
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=2, rng_seed=int(rng.integers(2**31)))
    partly = bool(c.index % 2)
    if partly:
        sim.run(time_start=4200.0, time_end=4000.0)
    both, ronly = bad_forms(rng)
    fresh_only = {} if partly else {"only time_end": {"time_end": 100.0}}
    s0 = snap(sim)
    for call, forms in (("run", {**both, **ronly, **fresh_only}), ("populate", {**both, **fresh_only})):
        for name, kw in forms.items():
            c.raises(lambda: getattr(sim, call)(**kw), f"{call}: {name}", exc=(ValueError, TypeError), args=kw, partly=partly)
            s1 = snap(sim)
            bad = [k for k in s0 if s0[k] != s1[k]]
            c.check(not bad, f"a refused {call} changed the simulation", form=name, changed=bad)
            if bad:
                s0 = s1
            c.seen(call, name, partly)
    if partly:
        # a run cannot start after the present state of the simulation
        for kw in ({"time_start": 3999.0, "time_end": 100.0}, {"age": float(rng.uniform(100, 3990))}, {"time_start": 3000.0, "time_end": 10.0, "time_interval": 50.0}):
            c.raises(lambda: sim.run(**kw), "a run that starts later than the current time", exc=(RuntimeError, ValueError), args=kw)
            s1 = snap(sim)
            c.check(s0 == s1, "a refused run changed the simulation", changed=[k for k in s0 if s0[k] != s1[k]])
            c.seen("late", sorted(kw))
    # the simulation still works
    t = 3900.0 if partly else 4100.0
    sim.run(time_end=t) if partly else sim.run(time_start=4200.0, time_end=t)
    c.check(sim.time == t and sim.interval == (2 if partly else 1), "the simulation does not run after refused requests", time=sim.time, interval=sim.interval)


def refused_sample(c):
    import cratermaker as cm

    rng = c.rng
    name = ["neukum", "powerlaw"][c.index % 2]
    p = cm.Production.maker(name, target="Moon", rng_seed=int(rng.integers(2**31)))
    t = float(rng.uniform(500, 3500))
    e = float(rng.uniform(1, t - 100))
    ok = {"diameter_range": (1e4, 1e5), "area": 1e12}
    forms = {
        "nothing": {},
        "both": {"time_start": t, "diameter_number": (1e4, 10.0)},
        "both ends": {"time_start": t, "time_end": e, "diameter_number_end": (1e4, 1.0)},
        "N_D+time": {"N_D": (1.0, 10.0), "time_start": t},
        "N_D_end+time_end": {"time_start": t, "N_D_end": (1.0, 10.0), "time_end": e},
        "N_D+age": {"N_D": (1.0, 10.0), "age": t},
        "array start": {"time_start": np.array([t, t])},
        "list end": {"time_start": t, "time_end": [e]},
        "reversed": {"time_start": e, "time_end": t},
        "text": {"time_start": "x"},
        "triple": {"diameter_number": (1.0, 2.0, 3.0)},
        "single": {"diameter_number": (1e4,)},
        "negative N": {"diameter_number": (1e4, -1.0)},
        "negative D": {"diameter_number": (-1e4, 1.0)},
        "negative N end": {"diameter_number": (1e4, 10.0), "diameter_number_end": (1e4, -1.0)},
        "triple end": {"diameter_number": (1e4, 10.0), "diameter_number_end": (1e4, 1.0, 0.0)},
        "range triple": {"age": t, "diameter_range": (1e3, 1e4, 1e5)},
        "range zero": {"age": t, "diameter_range": (0.0, 1e4)},
        "range negative": {"age": t, "diameter_range": (-5.0, 1e4)},
        "range reversed": {"age": t, "diameter_range": (1e5, 1e4)},
        "area array": {"age": t, "area": np.array([1.0, 2.0])},
        "area negative": {"age": t, "area": -1.0},
        "compute_time": {"age": t, "compute_time": "yes"},
    }
    for f, kw in forms.items():
        st = repr(p.rng.bit_generator.state)
        rg = p.diameter_range
        c.raises(lambda: p.sample(**{**ok, **kw}), f"sample: {f}", exc=(ValueError, TypeError), args=kw, model=name)
        c.check(repr(p.rng.bit_generator.state) == st and p.diameter_range == rg, "a refused sample changed the production function", form=f)
        c.seen("sample", f, name)
    for bad in ((1.0,), (1.0, 2.0, 3.0), 5.0, "ab" * 2):
        c.raises(lambda: setattr(p, "diameter_range", bad), "an invalid diameter_range", exc=(TypeError, ValueError), arg=str(bad))
    for bad in (2.0, 0.0, -1.0, 10.0):
        c.raises(lambda: setattr(p, "D_conversion_factor", bad), "an invalid D_conversion_factor", exc=ValueError, arg=bad)
    for bad in ("nothing", "craters", 5):
        c.raises(lambda: setattr(p, "generator_type", bad), "an invalid generator_type", exc=Exception, arg=bad)


def history(sim, log):
    return [(round(x.time, 6), round(x.diameter, 3), tuple(round(v, 6) for v in x.location)) for x in log.all]


def equivalent(c):
    """Forms that describe the same interval give the same history from the same seed."""
    rng = c.rng
    seed = int(rng.integers(2**31))
    t = round(float(rng.uniform(3700, 4200)), 1)
    e = float(rng.choice([0.0, round(rng.uniform(100, 3300), 1)]))
    a = make_sim(c, "a", gridlevel=3, rng_seed=seed)
    A = a.surface.area
    P = a.production

    def N(D, x):
        return float(np.asarray(P.function(diameter=D, age=x)).item()) if x > 0 else 0.0

    D = float(rng.choice([1.0, 5.0, 20.0]))
    forms = {
        "start": {"time_start": t, "time_end": e}, "start_int": {"time_start": t, "time_end": e, "ninterval": 1}, "whole_interval": {"time_start": t, "time_end": e, "time_interval": t - e},
        "N_D": {"N_D": (D, N(D * 1e3, t) * 1e12), "N_D_end": (D, N(D * 1e3, e) * 1e12)},
        "number": {"diameter_number": (D * 1e3, N(D * 1e3, t) * A), "diameter_number_end": (D * 1e3, N(D * 1e3, e) * A)},
        "number_array": {"diameter_number": np.array([D * 1e3, N(D * 1e3, t) * A]), "diameter_number_end": [D * 1e3, N(D * 1e3, e) * A]},
    }
    if e == 0:
        forms["age"] = {"age": t}
        forms["start_only"] = {"time_start": t}
        forms["N_D_only"] = {"N_D": [D, N(D * 1e3, t) * 1e12]}
    names = sorted(forms)
    f1, f2 = names[int(rng.integers(len(names)))], names[int(rng.integers(len(names)))]
    la = EmplaceLog(a)
    a.run(**forms[f1])
    b = make_sim(c, "b", gridlevel=3, rng_seed=seed)
    lb = EmplaceLog(b)
    b.run(**forms[f2])
    exact = {"start", "start_int", "whole_interval", "age", "start_only"}
    c.close([a.time, a.elapsed_time, a.elapsed_n1, a.interval], [b.time, b.elapsed_time, b.elapsed_n1, b.interval], "equivalent requests end in different states", rtol=2e-4, atol=2e-2, forms=(f1, f2))
    c.close([a.time, a.elapsed_time], [e, t - e], "the run does not cover the time asked for", rtol=2e-4, atol=2e-2, form=f1)
    if f1 in exact and f2 in exact:
        c.check(history(a, la) == history(b, lb), "equivalent requests give different craters from the same seed", forms=(f1, f2), n=(len(la.all), len(lb.all)))
    else:
        sd = math.sqrt(max(len(la.all), 1)) + 1
        c.check(abs(len(la.all) - len(lb.all)) <= 12 * sd, "equivalent requests give different numbers of craters", forms=(f1, f2), n=(len(la.all), len(lb.all)))
    c.seen("equivalent", *sorted((f1, f2)))
    c.note(forms=(f1, f2), t=t, e=e, n=len(la.all))


SCENARIOS = [("refused_run", refused_run, 8, 60), ("refused_sample", refused_sample, 20, 100), ("equivalent", equivalent, 40, 300)]
