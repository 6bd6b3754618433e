"""P07: the production function is a cumulative size-frequency distribution times a chronology, and its inverses invert it."""
import math

import numpy as np

PROPERTY = "P07"
RULE = "Every production model and version with random diameters (1 mm to 10^7 m) and windows of time; a state is (model, decade of D, decade of age, form of the arguments)."

# Published coefficients (Neukum, Ivanov & Hartmann 2001; Ivanov 2001), restated here as the reference.
MOON = [-3.0876, -3.557528, 0.781027, 1.021521, -0.156012, -0.444058, 0.019977, 0.086850, -0.005874, -0.006809, 8.25e-4, 5.54e-5]
MARS = [-3.384, -3.197, 1.257, 0.7915, -0.4861, -0.3630, 0.1016, 6.756e-2, -1.181e-2, -4.753e-3, 6.233e-4, 5.805e-5]
PROJ = [0, 1.375458, 1.272521e-1, -1.282166, -3.074558e-1, 4.149280e-1, 1.910668e-1, -4.260980e-2, -3.976305e-2, -3.180179e-3, 2.799369e-3, 6.892223e-4, 2.614385e-6, -1.416178e-5, -1.191124e-6]
TABLE = {"Moon": (MOON, 10.0, 1e6), "Mars": (MARS, 15.0, 362e3)}


def models(c):
    import cratermaker as cm

    rng = c.rng
    k = int(rng.integers(6))
    seed = int(rng.integers(2**31))
    if k == 0:
        return "Moon", cm.Production.maker("neukum", version="Moon", rng_seed=seed)
    if k == 1:
        return "Mars", cm.Production.maker("neukum", version="Mars", rng_seed=seed)
    if k == 2:
        return "Projectile", cm.Production.maker("neukum", version="projectile", rng_seed=seed)
    if k == 3:
        return "powerlaw", cm.Production.maker("powerlaw", rng_seed=seed)
    sl, n1 = float(rng.uniform(1.2, 4.5)), float(10 ** rng.uniform(-9, -4))
    s = sl if rng.random() < 0.5 else -sl
    p = cm.Production.maker("powerlaw", slope=s, N1_coef=n1, rng_seed=seed)
    c.check(p.slope == -sl and p.N1_coef == n1, "the power law does not have the slope and coefficient given", slope=p.slope, want=-sl)
    return "powerlaw*", p


def tmax(p):
    return p.valid_time[1] if p.valid_time[1] is not None else 1e4


def window(rng, p):
    hi = tmax(p)
    k = int(rng.integers(5))
    if k == 0:
        a = float(hi * rng.random())
    elif k == 1:
        a = float(10 ** rng.uniform(-3, math.log10(hi)))
    elif k == 2:
        a = float(hi)
    elif k == 3:
        a = float(rng.uniform(3500, 4500))
    else:
        a = 1000.0
    a = min(a, hi)
    b = float(a * rng.choice([0.0, rng.random(), 0.999, 1.0]))
    return a, b


def ref_csfd(name, p, D):
    """Shape N(>D)/N(>1 km) from the published polynomial, its range and the power laws beyond it."""
    if name.startswith("powerlaw"):
        return (D / 1000.0) ** p.slope
    if name in TABLE:
        co, lo, hi = TABLE[name]
        x = math.log10(min(max(D, lo), hi) / 1e3)
        base = 10 ** (sum(a * x**i for i, a in enumerate(co)) - co[0])
        return base if lo <= D <= hi else None
    return None


def shape(c):
    name, p = models(c)
    rng = c.rng
    D = np.sort(10 ** rng.uniform(-3, 6.99, size=int(rng.integers(2, 40))))
    a, b = window(rng, p)
    N = np.asarray(p.function(diameter=D, time_start=a, time_end=b), float)
    c.check(N.shape == D.shape and np.all(np.isfinite(N)) and np.all(N >= 0), "N(>D) is not a finite non-negative number for each diameter", N=N)
    c.check(np.all(np.diff(N) <= 1e-12 * N[:-1]), "N(>D) increases with diameter", model=name, D=D, N=N)
    if a == b:
        c.check(np.all(N == 0), "an empty window of time makes craters")
        return
    c.check(np.all(N > 0), "a window of time makes no craters", model=name, a=a, b=b)
    # independent of the other arguments' form
    for d in D[:: max(1, len(D) // 4)]:
        n1 = float(p.function(diameter=float(d), time_start=a, time_end=b))
        c.close(n1, N[list(D).index(d)], "scalar and array evaluation differ", 1e-9, model=name)
    c.close(np.asarray(p.function(diameter=[float(x) for x in D], time_start=a, time_end=b), float), N, "a list of diameters gives other numbers than an array", 1e-12)
    c.close(np.asarray(p.function(diameter=D, age=a, time_end=b), float), N, "age and time_start differ", 0)
    if b == 0:
        c.close(np.asarray(p.function(diameter=D, time_start=a), float), N, "the default end of the window is not the present", 1e-12)
    # additivity and monotonicity in time
    m = float(b + (a - b) * rng.random())
    c.close(np.asarray(p.function(diameter=D, time_start=a, time_end=m), float) + np.asarray(p.function(diameter=D, time_start=m, time_end=b), float), N, "production over two adjoining windows does not add up", 1e-7, model=name, a=a, b=b, m=m)
    older = np.asarray(p.function(diameter=D, time_start=a), float)
    c.check(np.all(older >= N * (1 - 1e-9)), "a longer window makes fewer craters", model=name)
    # arrays of times: rows are diameters, columns times
    ts = np.sort(rng.random(3)) * tmax(p)
    g = np.asarray(p.function(diameter=D, time_start=ts), float)
    c.check(g.shape == (D.size, 3), "diameters x times grid has the wrong shape", shape=g.shape)
    for j, t in enumerate(ts):
        c.close(g[:, j], np.asarray(p.function(diameter=D, time_start=float(t)), float), "grid column differs from its own evaluation", 1e-9, model=name)
    te = ts * rng.random(3)
    g2 = np.asarray(p.function(diameter=float(D[0]), time_start=[float(x) for x in ts], time_end=[float(x) for x in te]), float)
    for j in range(3):
        c.close(g2[j], p.function(diameter=float(D[0]), time_start=float(ts[j]), time_end=float(te[j])), "per-element end times are not applied element by element", 1e-9, model=name)
    # a list of diameters against as many times is still the whole grid
    Ds = [float(x) for x in D[:2]]
    g3 = np.asarray(p.function(diameter=Ds, time_start=[float(x) for x in ts[:2]]), float)
    c.check(g3.shape == (2, 2), "as many diameters as times do not give the whole grid", shape=g3.shape, model=name)
    if g3.shape == (2, 2):
        c.close(g3, g[:2, :2], "as many diameters as times give other numbers than the grid", 1e-9, model=name)
    # the two documented factors: the size-frequency distribution and the chronology
    c.close(np.asarray(p.csfd(D), float) * float(p.chronology(time_start=a, time_end=b)), N, "N(>D) is not the size distribution times the chronology", 1e-9, model=name)
    c.close(np.asarray(p.chronology(time_start=ts), float), [float(p.chronology(time_start=float(t))) for t in ts], "the chronology of a list of ages is not element by element", 1e-12, model=name)
    # separable: the size distribution has the same shape for any window
    f = np.asarray(p.function(diameter=D, time_start=1000.0), float)
    c.close(N / N[0], f / f[0], "the shape of the size distribution depends on the window", 1e-7, model=name)
    c.seen(name, int(math.log10(D[0])), int(math.log10(a)), b == 0)
    c.note(model=name, a=a, b=b, nD=len(D))


def published_projectile(D):
    """Cumulative numbers (arbitrary units) of the published R-plot of impactors (Ivanov et al. 2001) for ascending D in km."""
    co = PROJ
    x = np.linspace(math.log10(D[0]), math.log10(200.0), 6001)
    R = 10 ** sum(a * x**i for i, a in enumerate(co))
    y = R / 10 ** (3 * x) * 10**x * math.log(10)  # dN/dlogD
    tail = np.concatenate([np.cumsum(((y[1:] + y[:-1]) / 2 * np.diff(x))[::-1])[::-1], [0.0]])
    return np.interp(np.log10(D), x, tail)


def projectile(c, p):
    """The impactor model integrates the published relative distribution."""
    rng = c.rng
    D = np.sort(10 ** rng.uniform(-1, 1.7, size=8))  # km
    want = 2.94e-5 * published_projectile(D)
    got = np.asarray(p.csfd(D * 1e3), float) / 1e3
    r = got / want
    c.check(np.all((r > 0.8) & (r < 1.25)), "the impactor distribution is not the integral of the published relative distribution", D=D, ratio=r)
    c.check(p.generator_type == "projectile", "the impactor version does not produce projectiles")
    for t in (float(rng.uniform(1, 3000)), float(rng.uniform(3000, 4500))):
        ref = lambda t: 5.44e-14 / 10 ** MOON[0] * (math.exp(6.93 * t * 1e-3) - 1) + t * 1e-3
        c.close(p.chronology(age=t) / p.chronology(age=1000.0), ref(t) / ref(1000.0), "the chronology is not the published one", 1e-9, t=t, model="Projectile")
        c.seen("Projectile", int(t // 500))
    c.note(ratio=[float(x) for x in r])


def reference(c):
    name, p = models(c)
    rng = c.rng
    if name == "Projectile":
        projectile(c, p)
    D = [float(10 ** rng.uniform(1.2, 5.5)) for _ in range(12)]
    a, b = window(rng, p)
    if name in TABLE:
        n1 = float(p.function(diameter=1000.0, time_start=2000.0))
        co, lo, hi = TABLE[name]
        for d in D:
            r = ref_csfd(name, p, d)
            if r is not None:
                c.close(p.function(diameter=d, time_start=2000.0) / n1, r, "the size distribution is not the published polynomial", 1e-9, D=d, model=name)
                c.seen(name, "poly", int(3 * math.log10(d)))
        if name == "Moon":
            # documented anchor: a model age of 4310 My corresponds to N(20) = 999.8 per 10^6 km^2
            c.close(p.function(diameter=20e3, time_start=4310.0) * 1e12, 999.8, "N(20) at 4310 My is not the documented value", 2e-4)
        # below and above the valid range: power laws joined continuously
        for edge, side in ((lo, -1), (hi, 1)):
            e = float(p.function(diameter=edge, time_start=1.0))
            for k in (1e-7, 0.3, 1.0):
                d1, d2, d3 = (edge * 10 ** (side * k * j) for j in (1e-9, 0.5, 1.0))
                v = [float(p.function(diameter=x, time_start=1.0)) for x in (d1, d2, d3)]
                c.close(v[0], e, "the size distribution jumps at the end of its valid range", 1e-6, model=name, edge=edge)
                c.close(v[1] ** 2, v[0] * v[2], "the extrapolation is not a power law", 1e-6, model=name, edge=edge, k=k)
        # slope of the small-size extrapolation is that of the polynomial at the edge
        x = math.log10(lo / 1e3)
        slope = sum(i * q * x ** (i - 1) for i, q in enumerate(co) if i)
        sl = math.log10(p.function(diameter=lo, time_start=1.0) / p.function(diameter=lo / 10, time_start=1.0))
        c.check(sl < 0, "the extrapolation to small sizes does not rise", slope=sl)
        c.check(abs(sl - slope) < 0.6, "the extrapolation to small sizes is far from the slope of the polynomial there", slope=sl, edge=slope)
        # above the range the distribution falls much faster, so that no anomalously large craters form
        up = math.log10(p.function(diameter=hi * 10, time_start=1.0) / p.function(diameter=hi, time_start=1.0))
        inside = math.log10(p.function(diameter=hi, time_start=1.0) / p.function(diameter=hi * 10**-0.05, time_start=1.0)) / 0.05
        c.check(up < inside - 4.5, "the extrapolation to large sizes is not the steepened one", outside=up, inside=inside)
        c.close(p.csfd(1000.0), 10 ** co[0] * 1e3, "the size distribution at 1 km is not the published one", 1e-9, model=name)
        c.note(edge_slope=slope, used_slope=sl, upper=up, inside=inside)
        # chronology: linear plus exponential with time constant 1/6.93 Gy
        Clin = 10 ** co[0]
        Cexp = 5.44e-14 * Clin / 10 ** MOON[0]
        ref = lambda t: Cexp * (math.exp(6.93 * t * 1e-3) - 1) + Clin * t * 1e-3
        for t in (a, 1000.0, 4000.0, float(rng.uniform(0.01, 4500))):
            c.close(p.function(diameter=1000.0, time_start=t) / p.function(diameter=1000.0, time_start=1000.0), ref(t) / ref(1000.0), "the chronology is not the published one", 1e-9, t=t, model=name)
            c.close(p.chronology(age=t, time_end=t / 2), (ref(t) - ref(t / 2)) * 1e-6, "chronology() is not N(1 km) over the window", 1e-9, t=t, model=name)
            c.seen(name, "chron", int(t // 500))
    elif name.startswith("powerlaw"):
        for d in D:
            c.close(p.function(diameter=d, time_start=a, time_end=b), p.N1_coef * d**p.slope * (a - b), "the power law is not coefficient x D^slope x time", 1e-12, atol=1e-300, D=d)
            c.seen(name, int(math.log10(d)), int(a // 1000))
        c.close(p.chronology(age=a, time_end=b), a - b, "power law chronology is not proportional to the window", 1e-12, a=a, b=b)
        c.close(p.chronology(age=a), a, "power law chronology is not proportional to the age", 1e-12, a=a)
    c.note(model=name)


def inverse(c):
    name, p = models(c)
    rng = c.rng
    for _ in range(6):
        a, b = window(rng, p)
        d = float(10 ** rng.uniform(-1, 5.5))
        n = float(p.function(diameter=d, time_start=a))
        t = p.age_from_D_N(diameter=d, cumulative_number_density=n)
        # the age is recovered, and in any case reproduces the number
        c.close(p.function(diameter=d, time_start=float(t)), n, "age_from_D_N gives an age with another number of craters", 1e-6, atol=1e-300, model=name, D=d, age=a, got=t)
        c.check(abs(t - a) <= 1e-5 * max(a, 1e-2), "age_from_D_N does not give the age back", model=name, D=d, age=a, got=t)
        if a > b:
            n = float(p.function(diameter=d, time_start=a, time_end=b))
            dd = p.D_from_N_age(cumulative_number_density=n, time_start=a, time_end=b)
            c.check(abs(dd - d) <= 1e-4 * d, "D_from_N_age does not give the diameter back", model=name, D=d, window=(a, b), got=dd)
            c.check(isinstance(dd, float) and isinstance(t, float), "scalar arguments do not give a scalar", t=str(type(t)))
        c.seen(name, int(math.log10(d)), int(a // 500), a > b)
    ds = 10 ** rng.uniform(0, 5, size=4)
    ts = [float(x) for x in rng.uniform(1, tmax(p), size=4)]
    ns = np.array([float(p.function(diameter=float(x), time_start=y)) for x, y in zip(ds, ts)])
    c.close(p.age_from_D_N(diameter=ds, cumulative_number_density=ns), ts, "array ages are not element by element", 1e-5, model=name)
    c.close(p.D_from_N_age(cumulative_number_density=np.array([float(p.function(diameter=float(x), time_start=ts[0])) for x in ds]), time_start=ts[0]), ds, "array diameters are not element by element", 1e-4, model=name)
    c.note(model=name)


def refused(c):
    name, p = models(c)
    rng = c.rng
    a = float(rng.uniform(100, 4000))
    V = (ValueError, TypeError)
    c.raises(lambda: p.function(diameter=-float(rng.uniform(0.1, 1e5)), time_start=a), "a negative diameter is accepted", V)
    c.raises(lambda: p.function(diameter=[1e3, -1.0], time_start=a), "a negative diameter in a list is accepted", V)
    c.raises(lambda: p.function(diameter=1e3, time_start=a, time_end=a * (1 + float(rng.uniform(1e-3, 1)))), "a window that ends before it starts is accepted", V)
    c.raises(lambda: p.function(diameter=1e3, time_start=[a, a], time_end=[a / 2, a * 1.01]), "a window in a list that ends before it starts is accepted", V)
    c.raises(lambda: p.function(diameter=1e3, time_start=[a, a, a], time_end=[1.0, 2.0]), "start and end times of different lengths are accepted", V)
    c.raises(lambda: p.age_from_D_N(diameter=[1e3, 2e3], cumulative_number_density=[1e-9, 1e-10, 1e-11]), "diameters and numbers of different lengths are accepted", V)
    c.raises(lambda: p.age_from_D_N(diameter=1e3, cumulative_number_density=-1e-9), "a negative number is accepted", V)
    if p.valid_time[1] is not None:
        over = p.valid_time[1] + float(10 ** rng.uniform(-3, 3))
        c.raises(lambda: p.function(diameter=1e3, time_start=over), "an age beyond the valid range is accepted", V, over=over)
        c.raises(lambda: p.function(diameter=1e3, time_start=[1.0, over]), "an age in a list beyond the valid range is accepted", V, over=over)
        c.raises(lambda: p.function(diameter=1e3, time_start=-1.0, time_end=-2.0), "a future age is accepted", V)
    c.seen(name, "refused")
    c.note(model=name)


DEFAULTS = [
    ("Moon", None, "neukum", "Moon", "crater"),
    ("Mars", None, "neukum", "Mars", "crater"),
    ("Mercury", None, "neukum", "Projectile", "projectile"),
    ("Venus", None, "neukum", "Projectile", "projectile"),
    ("Earth", None, "neukum", "Projectile", "projectile"),
    ("Moon", "mars", "neukum", "Mars", "crater"),
    ("Mars", "Moon", "neukum", "Moon", "crater"),
    ("Vesta", "Moon", "neukum", "Moon", "crater"),
    ("Ceres", "projectile", "neukum", "Projectile", "projectile"),
    ("Earth", "MARS", "neukum", "Mars", "crater"),
]


def defaults(c):
    """Which model is used when only a target or a version is given."""
    import cratermaker as cm

    rng = c.rng
    t, v, family, version, gen = DEFAULTS[c.index % len(DEFAULTS)]
    target = t if rng.random() < 0.5 else cm.Target.maker(t)
    kw = {} if v is None else {"version": v}
    p = cm.Production.maker(target=target, **kw)
    c.check(p.component_name == family and p.version == version, "the default production of a target is not the documented one", target=t, version=v, got=(p.component_name, getattr(p, "version", None)), want=(family, version))
    c.check(p.generator_type == gen, "the default production makes the wrong kind of object", target=t, got=p.generator_type, want=gen)
    q = cm.Production.maker()
    c.check(q.component_name == "neukum" and q.version == "Moon", "the default production without a target is not the lunar one", got=q.component_name)
    # a model whose version is changed is that version
    D = 10 ** rng.uniform(1.3, 5.4, size=5)
    age = float(rng.uniform(10, 4400))
    names = ["Moon", "Mars", "Projectile"]
    order = [str(x) for x in rng.permutation(names)]
    m = cm.Production.maker("neukum", version=order[0])
    m.function(diameter=D, time_start=age)
    for n in order[1:] + order[:1]:
        m.version = n if rng.random() < 0.5 else n.lower()
        f = cm.Production.maker("neukum", version=n)
        c.check(m.version == f.version and m.generator_type == f.generator_type, "a changed version is not taken up", got=m.version, want=n)
        c.close(np.asarray(m.function(diameter=D, time_start=age)), np.asarray(f.function(diameter=D, time_start=age)), "a model whose version was changed is not that version's model", 1e-12, order=order, now=n, age=age)
        c.seen(n, order[0])
    c.raises(lambda: setattr(m, "version", "Pluto"), "an unknown version is accepted", ValueError)
    c.raises(lambda: cm.Production.maker("neukum", version="Pluto"), "an unknown version is accepted", ValueError)
    # shallow power laws: both signs mean the same
    sl = float(rng.uniform(0.05, 1.0))
    for s in (sl, -sl):
        w = cm.Production.maker("powerlaw", slope=s)
        c.check(w.slope == -sl, "the sign of a power law slope is not normalised", given=s, got=w.slope)
    for g, n1, ds in (("crater", 7.883e-3, -3.328), ("projectile", 7.989e-7, -2.634)):
        w = cm.Production.maker("powerlaw", generator_type=g)
        c.check(w.generator_type == g and w.N1_coef == n1 and w.slope == ds, "the power law's documented defaults are not used", generator=g, got=(w.N1_coef, w.slope))
    c.raises(lambda: cm.Production.maker("powerlaw", N1_coef=-1e-9), "a negative coefficient is accepted", ValueError)
    c.raises(lambda: cm.Production.maker("powerlaw", slope="steep"), "a slope that is no number is accepted", TypeError)
    c.seen(t, v)


SCENARIOS = [("shape", shape, 90, 6000), ("reference", reference, 50, 3000), ("inverse", inverse, 60, 3000), ("refused", refused, 16, 300), ("defaults", defaults, 20, 600)]
