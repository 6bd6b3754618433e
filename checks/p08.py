"""P08: production.sample draws Poisson counts, sizes and formation times from the production function over exactly the window asked for."""
import math

import numpy as np

from checks.p07 import models, tmax, window
from lib.simkit import make_sim, wrap_method

PROPERTY = "P08"
RULE = "Samples of 10^2 to 10^5 craters from every production model, with windows and sizes in every accepted form, compared with the production function itself (Poisson and Kolmogorov-Smirnov bounds at a false-alarm probability below 1e-9); a state is (model, form of the window, decades of size range, decade of count)."

ALPHA = 1e-10


def ks(sample, cdf):
    x = np.sort(np.asarray(sample, float))
    n = x.size
    F = cdf(x)
    return max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))


def kslim(n):
    return math.sqrt(math.log(2 / ALPHA) / (2 * n))


def setup(c, mu_lo=2.0, mu_hi=4.8):
    """A model, a window, a size range and the area that gives the wanted expected count."""
    name, p = models(c)
    rng = c.rng
    while True:
        a, b = window(rng, p)
        if a - b > 1e-3 * max(a, 1e-2):
            break
    d0 = float(10 ** rng.uniform(-2.0, 4.5))
    d1 = float(d0 * 10 ** rng.uniform(0.3, 2.0))
    mu = float(10 ** rng.uniform(mu_lo, mu_hi))
    area = mu / float(p.function(diameter=d0, time_start=a, time_end=b))
    return name, p, a, b, d0, d1, mu, area


def counts(c):
    name, p, a, b, d0, d1, mu, area = setup(c, 3.0, 5.0)
    kw = {"time_start": a, "time_end": b} if c.rng.random() < 0.6 else {"age": a, "time_end": b}
    D, t = p.sample(diameter_range=(d0, d1), area=area, compute_time=False, **kw)
    c.check(abs(D.size - mu) <= 7 * math.sqrt(mu) + 10, "the number of craters sampled is not the number expected", model=name, n=D.size, mu=mu, window=(a, b), range=(d0, d1))
    c.check(t is None or np.size(t) == 0, "times returned although compute_time is False")
    if not c.check(np.all(D >= d0 * (1 - 1e-9)) and np.all(D <= d1 * (1 + 1e-7)), "a sampled diameter is outside the range asked for", model=name, lo=D.min(), hi=D.max(), range=(d0, d1)):
        return
    g = np.logspace(math.log10(d0), math.log10(d1), 4000)
    N = np.asarray(p.function(diameter=g, time_start=a, time_end=b), float)
    F = lambda x: np.clip((N[0] - np.exp(np.interp(np.log(x), np.log(g), np.log(N)))) / (N[0] - N[-1]), 0, 1)
    d = ks(D, F)
    c.check(d <= kslim(D.size) + 2e-3, "sampled sizes do not follow the production function", model=name, ks=d, limit=kslim(D.size), n=D.size, range=(d0, d1))
    c.check(np.unique(D).size == D.size, "sampled diameters repeat")
    c.seen(name, int(math.log10(d0)), int(math.log10(mu)), "age" in kw)
    c.note(model=name, n=int(D.size), mu=mu, ks=d)


def times(c):
    name, p, a, b, d0, d1, mu, area = setup(c, 3.3, 3.9)
    if name in ("Moon", "Mars", "Projectile") and c.rng.random() < 0.7:
        a, b = float(c.rng.uniform(3900, 4500)), float(c.rng.choice([0.0, 3000.0, c.rng.uniform(0, 3800)]))
        area = mu / float(p.function(diameter=d0, time_start=a, time_end=b))
    D, t = p.sample(time_start=a, time_end=b, diameter_range=(d0, d1), area=area)
    c.check(D.shape == t.shape and D.size > 0, "not one time for each diameter", D=D.shape, t=np.shape(t))
    c.check(np.all(t >= b - 1e-9 * a) and np.all(t <= a * (1 + 1e-9)), "a formation time is outside the window", model=name, lo=np.min(t), hi=np.max(t), window=(a, b))
    c.check(np.all(np.diff(t) <= 0), "formation times are not sorted from oldest to youngest")
    ref = float(p.function(diameter=d0, time_start=a, time_end=b))
    gt = np.linspace(b, a, 4001)
    Fg = np.array(np.asarray(p.function(diameter=d0, time_start=gt), float) - float(p.function(diameter=d0, time_start=b))) / ref
    d = ks(t, lambda x: np.interp(x, gt, Fg))
    c.check(d <= kslim(t.size) + 4e-3, "formation times do not follow the production rate", model=name, ks=d, limit=kslim(t.size), n=t.size, window=(a, b))
    # sizes and times are independent
    r1, r2 = np.argsort(np.argsort(D)), np.argsort(np.argsort(t))
    rho = float(np.corrcoef(r1, r2)[0, 1])
    c.check(abs(rho) < 7 / math.sqrt(D.size), "sizes and formation times are correlated", model=name, rho=rho, n=D.size)
    ct = np.asarray(p.compute_time(diameters=D[:2000], time_start=a, time_end=b))
    c.check(ct.size == min(2000, D.size) and np.all(ct >= b - 1e-9 * a) and np.all(ct <= a * (1 + 1e-9)), "compute_time leaves the window", model=name)
    d = ks(ct, lambda x: np.interp(x, gt, Fg))
    c.check(d <= kslim(ct.size) + 4e-3, "compute_time does not follow the production rate", model=name, ks=d, n=ct.size, window=(a, b))
    one = [float(np.asarray(p.compute_time(diameters=d0, time_start=a, time_end=b)).item()) for _ in range(5)]
    c.check(all(b - 1e-9 * a <= x <= a * (1 + 1e-9) for x in one), "a single formation time is outside the window", t=one, window=(a, b))
    c.seen(name, int(a // 500), int(b // 500), int(math.log10(mu)))
    c.note(model=name, n=int(D.size), ks=d, rho=rho, window=(a, b))


def forms(c):
    """Every way of giving the same window draws the same sample from the same seed."""
    import cratermaker as cm

    name, p, a, b, d0, d1, mu, area = setup(c, 1.5, 2.6)
    rng = c.rng
    if b < 1e-3 * a:
        b = 0.0
    Nf, Df = float(rng.choice([1.0, 1e6, 1e12])), float(rng.choice([1.0, 1000.0]))
    p.N_conversion_factor, p.D_conversion_factor = Nf, Df
    ref, ref2 = float(10 ** rng.uniform(1, 4.5)), float(10 ** rng.uniform(1, 4.5))
    n0 = float(p.function(diameter=ref, time_start=a))
    n1, n1b = float(p.function(diameter=ref, time_start=b)), float(p.function(diameter=ref2, time_start=b))
    seed = int(rng.integers(2**31))

    def draw(**kw):
        p.rng.bit_generator.state = np.random.default_rng(seed).bit_generator.state
        return p.sample(diameter_range=(d0, d1), area=area, **kw)

    D, t = draw(time_start=a, time_end=b)
    alts = {
        "age": {"age": a, "time_end": b},
        "diameter_number": {"diameter_number": (ref, n0 * area), "time_end": b},
        "diameter_number pair": {"diameter_number": (ref, n0 * area), "diameter_number_end": (ref, n1 * area)},
        "diameter_number at another end diameter": {"diameter_number": (ref, n0 * area), "diameter_number_end": (ref2, n1b * area)},
        "time and diameter_number_end": {"time_start": a, "diameter_number_end": (ref2, n1b * area)},
        "N_D": {"N_D": (ref / Df, n0 * Nf), "time_end": b},
        "N_D pair": {"N_D": (ref / Df, n0 * Nf), "N_D_end": (ref2 / Df, n1b * Nf)},
    }
    if b == 0.0:
        alts["default end"] = {"time_start": a}
        alts["diameter_number default end"] = {"diameter_number": (ref, n0 * area)}
    for k, kw in alts.items():
        D2, t2 = draw(**kw)
        if c.check(D2.size == D.size, f"the window given as {k} draws another number of craters", model=name, n=D2.size, want=D.size, window=(a, b), kw=kw):
            c.close(np.sort(D2), np.sort(D), f"the window given as {k} draws other diameters", 1e-5, model=name)
            c.check(np.allclose(t2, t, rtol=1e-4, atol=1e-4 * a), f"the window given as {k} draws other times", model=name, window=(a, b))
        c.seen(name, k, Nf, Df)
    # the range set on the production is the default
    p.diameter_range = np.array([d0, d1]) if rng.random() < 0.5 else (d0, d1)
    c.check(tuple(p.diameter_range) == (d0, d1), "diameter_range is not what was set", got=p.diameter_range)
    p.rng.bit_generator.state = np.random.default_rng(seed).bit_generator.state
    D3, _ = p.sample(time_start=a, time_end=b, area=area)
    c.check(np.array_equal(np.sort(D3), np.sort(D)), "the production's own diameter_range is not the default of sample", n=D3.size, want=D.size)
    q = cm.Production.maker("powerlaw", diameter_range=(d0, d1), rng_seed=seed)
    c.check(tuple(q.diameter_range) == (d0, d1), "diameter_range given to the maker is lost", got=q.diameter_range)
    c.note(model=name, n=int(D.size))


def inside(s, unit, xyz):
    """The face whose polygon holds each point, or -1."""
    from scipy.spatial import cKDTree

    nodes = unit(np.asarray(s.node_lon), np.asarray(s.node_lat))
    cen = unit(np.asarray(s.face_lon), np.asarray(s.face_lat))
    k = min(30, s.n_face)
    cand = cKDTree(cen).query(xyz, k=k)[1]
    conn = np.asarray(s.face_node_connectivity)
    normals = {}
    out = np.full(len(xyz), -1)
    for i, p in enumerate(xyz):
        for f in cand[i]:
            if f not in normals:
                v = nodes[conn[f][conn[f] >= 0]]
                n = np.cross(v, np.roll(v, -1, axis=0))
                normals[f] = n * np.sign((n @ cen[f]).sum())
            if (normals[f] @ p).min() >= -1e-12:
                out[i] = f
                break
    return out


def spread(c):
    """The craters a simulation draws fall everywhere in proportion to area, on meshes with faces of many sizes too."""
    rng = c.rng
    if c.index % 3 == 2:
        kw = dict(surface="arbitrary_resolution", pix=float(rng.uniform(3e5, 6e5)))
    else:
        rad = float(rng.uniform(1.5e5, 5e5))
        kw = dict(surface="hireslocal", local_location=(float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80))), local_radius=rad, pix=rad / 6, superdomain_scale_factor=float(rng.uniform(8, 20)))
    sim = make_sim(c, "s", production="powerlaw", rng_seed=int(rng.integers(2**31)), **kw)
    s = sim.surface
    got = []

    def take(orig, craters=None, *a, **k):
        got.extend(craters if craters is not None else [])
        return list(craters or [])

    wrap_method(sim, "emplace", take)
    big = float(np.max(s.face_bin_min_sizes))
    sim.smallest_crater = big
    P = sim.production
    want = 2500 if c.tier == "quick" else 6000
    P.N1_coef = P.N1_coef * want / (float(np.asarray(P.function(diameter=big, age=100.0)).item()) * s.area)
    sim.populate(diameter_number=(big, want))
    x = [q for q in got if q.diameter >= big]
    c.check(abs(len(x) - want) < 7 * np.sqrt(want), "a population does not have the number asked for", got=len(x), want=want)
    if len(x) < 200:
        return
    lon, lat = np.array([q.location[0] for q in x]), np.array([q.location[1] for q in x])
    unit = lambda lo, la: np.column_stack([np.cos(np.radians(la)) * np.cos(np.radians(lo)), np.cos(np.radians(la)) * np.sin(np.radians(lo)), np.sin(np.radians(la))])
    xyz = unit(lon, lat)
    at = inside(s, unit, xyz)
    c.check(np.mean(at >= 0) > 0.999, "craters lie on no face", n=int((at < 0).sum()))
    A = np.asarray(s.face_area)
    # one half of the body (by area) of each size class holds the larger faces of that class
    upper, expect, var = np.zeros(s.n_face, bool), 0.0, 0.0
    share = {}
    for i, f in enumerate(s.face_bin_indices):
        f = np.asarray(f)
        o = f[np.argsort(A[f])[::-1]]
        cum = np.cumsum(A[o]) / A[o].sum()
        up = o[cum <= 0.5]
        upper[up] = True
        share[i] = (f, A[f].sum() / A.sum())
    p = A[upper].sum() / A.sum()
    at = at[at >= 0]
    k = int(upper[at].sum())
    z = (k - p * len(at)) / math.sqrt(len(at) * p * (1 - p))
    c.check(abs(z) < 6, "craters do not fall on faces in proportion to their area", z=z, share=k / len(x), want=p, surface=kw["surface"])
    for i, (f, q) in share.items():
        n = int(np.isin(at, f).sum())
        sd = math.sqrt(len(x) * q * (1 - q))
        c.check(abs(n - q * len(x)) < 6.5 * sd + 4, "craters do not fall on a size class of faces in proportion to its area", n=n, want=q * len(x), size_class=i)
    # caps around random places
    for _ in range(8):
        v = rng.normal(size=3)
        h = float(rng.uniform(-0.8, 0.8))
        n = int((xyz @ (v / np.linalg.norm(v)) > h).sum())
        q = (1 - h) / 2
        c.check(abs(n - q * len(x)) < 6.5 * math.sqrt(len(x) * q * (1 - q)) + 0.01 * len(x), "craters are not spread evenly over the body", n=n, want=q * len(x))
    c.seen("spread", kw["surface"], len(share))
    c.note(n=len(x), z=float(z), classes=len(share))


def refused(c):
    name, p, a, b, d0, d1, mu, area = setup(c, 1, 2)
    V = (ValueError, TypeError)
    R = {"diameter_range": (d0, d1), "area": area}
    c.raises(lambda: p.sample(**R), "no window at all is accepted", exc=V)
    c.raises(lambda: p.sample(time_start=a, diameter_number=(1e3, 5), **R), "two starts are accepted", exc=V)
    c.raises(lambda: p.sample(time_start=a, N_D=(1, 5), **R), "two starts are accepted", exc=V)
    c.raises(lambda: p.sample(time_start=a, time_end=0.0, diameter_number_end=(1e3, 5), **R), "two ends are accepted", exc=V)
    c.raises(lambda: p.sample(time_start=a, time_end=0.0, N_D_end=(1, 5), **R), "two ends are accepted", exc=V)
    c.raises(lambda: p.sample(time_start=b * 0.5 if b else 0.5 * a, time_end=a, **R), "a reversed window is accepted", exc=V)
    c.raises(lambda: p.sample(time_start=[a, a], **R), "several starts are accepted", exc=V)
    c.raises(lambda: p.sample(time_start=a, time_end=[b, b], **R), "several ends are accepted", exc=V)
    for bad in ((0.0, d1), (-d0, d1), (d1, d0), (d0,), (d0, d1, d1)):
        c.raises(lambda bad=bad: p.sample(time_start=a, diameter_range=bad, area=area), "an invalid diameter range is accepted", exc=V, bad=bad)
    for bad in (-1.0, [area, area]):
        c.raises(lambda bad=bad: p.sample(time_start=a, diameter_range=(d0, d1), area=bad), "an invalid area is accepted", exc=V, bad=bad)
    for bad in ((1e3,), (-1e3, 5), (1e3, -5), (1e3, 5, 6)):
        c.raises(lambda bad=bad: p.sample(diameter_number=bad, **R), "an invalid diameter_number is accepted", exc=V, bad=bad)
        c.raises(lambda bad=bad: p.sample(time_start=a, diameter_number_end=bad, **R), "an invalid diameter_number_end is accepted", exc=V, bad=bad)
    for bad in ((1e3,), 5.0, "x"):
        c.raises(lambda bad=bad: setattr(p, "diameter_range", bad), "an invalid diameter_range is accepted", exc=V, bad=bad)
    for bad in (2.0, 1e9, 0.0):
        c.raises(lambda bad=bad: setattr(p, "N_conversion_factor", bad), "an invalid N conversion is accepted", exc=V, bad=bad)
        c.raises(lambda bad=bad: setattr(p, "D_conversion_factor", bad), "an invalid D conversion is accepted", exc=V, bad=bad)
    # next to nothing expected: nothing sampled
    D, t = p.sample(time_start=a, time_end=b, diameter_range=(d0, d1), area=area / mu * 1e-14)
    c.check(D.size == 0 and np.size(t) == 0, "craters are sampled where none are expected", n=D.size)
    c.seen(name, "refused")
    c.note(model=name)


SCENARIOS = [("counts", counts, 64, 4000), ("times", times, 40, 1500), ("forms", forms, 40, 1500), ("spread", spread, 4, 60), ("refused", refused, 16, 200)]
