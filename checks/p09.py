"""P09: the Monte Carlo helpers draw from the distributions they document, on the face asked for, and from the generator given."""
import math

import numpy as np
from scipy import stats

from checks.p08 import ks, kslim
from lib.simkit import make_sim

PROPERTY = "P09"
RULE = "10^3-10^5 draws per distribution, with random parameters, shapes and seeds, compared with the analytic distribution (Kolmogorov-Smirnov and correlation bounds at a false-alarm probability below 1e-9); faces of every mesh type, each drawn point tested against the spherical polygon of its face; a state is (helper, parameter class, shape)."


def mu_():
    import cratermaker.utils.montecarlo_utils as m

    return m


def shape(rng, n):
    k = int(rng.integers(3))
    if k == 0:
        return n
    if k == 1:
        return (n // 10, 10)
    return (10, n // 50, 5)


def asn(s):
    return tuple(np.atleast_1d(s))


def indep(c, x, y, what):
    r = float(np.corrcoef(np.argsort(np.argsort(x)), np.argsort(np.argsort(y)))[0, 1])
    c.check(abs(r) < 7 / math.sqrt(x.size), f"{what} are correlated", r=r, n=x.size)
    r = float(np.corrcoef(x[:-1], x[1:])[0, 1])
    c.check(abs(r) < 7 / math.sqrt(x.size - 1), f"successive {what} are correlated", r=r, n=x.size)


def fits(c, x, cdf, what, **d):
    x = np.ravel(x)
    k = ks(x, cdf)
    c.check(np.all(np.isfinite(x)) and k <= kslim(x.size) + 1e-6, f"{what} do not follow the documented distribution", ks=k, limit=kslim(x.size), n=x.size, lo=np.min(x), hi=np.max(x), **d)


def directions(c):
    m, rng = mu_(), c.rng
    n = int(rng.choice([1000, 20000, 100000]))
    s = shape(rng, n)
    kw = {"rng_seed": int(rng.integers(2**31))} if rng.random() < 0.5 else {"rng": np.random.default_rng(int(rng.integers(2**31)))}
    loc = m.get_random_location(size=s, **kw)
    c.check(loc.shape == asn(s) and set(loc.dtype.names) == {"lon", "lat"}, "random locations do not have the shape and fields asked for", got=loc.shape, want=s)
    lon, lat = loc["lon"].ravel(), loc["lat"].ravel()
    c.check(np.all((lon >= -180) & (lon <= 180)) and np.all(np.abs(lat) <= 90), "a random location is not on the sphere", lon=(lon.min(), lon.max()), lat=(lat.min(), lat.max()))
    fits(c, lon, lambda x: (x + 180) / 360, "random longitudes")
    fits(c, lat, lambda x: (np.sin(np.radians(x)) + 1) / 2, "random latitudes")
    indep(c, lon, lat, "random longitudes and latitudes")
    a = m.get_random_impact_angle(size=s, **kw)
    c.check(np.shape(a) == asn(s), "impact angles do not have the shape asked for")
    c.check(np.all((a >= 0) & (a <= 90)), "an impact angle is outside 0..90", lo=np.min(a), hi=np.max(a))
    fits(c, a, lambda x: np.sin(np.radians(x)) ** 2, "impact angles")
    d = m.get_random_impact_direction(size=s, **kw)
    c.check(np.shape(d) == asn(s) and np.all((d >= 0) & (d < 360)), "impact directions are outside 0..360 or misshapen")
    fits(c, d, lambda x: x / 360, "impact directions")
    one = m.get_random_location(rng_seed=3)
    c.check(np.size(one) == 1 and np.size(m.get_random_impact_angle(rng_seed=3)) == 1 and np.size(m.get_random_impact_direction(rng_seed=3)) == 1, "the default is not a single draw")
    c.seen("directions", n, len(asn(s)), sorted(kw))
    c.note(n=n, shape=s)


def velocities(c):
    m, rng = mu_(), c.rng
    n = int(rng.choice([1000, 20000, 60000]))
    s = shape(rng, n)
    vm = float(10 ** rng.uniform(2, 4.8))
    case = int(rng.integers(3))
    ve = [None, vm * float(rng.uniform(0.02, 0.98)), vm * float(rng.uniform(1.05, 2.5))][case]
    v = m.get_random_velocity(vmean=vm, vescape=ve, size=s, rng_seed=int(rng.integers(2**31)))
    c.check(np.shape(v) == asn(s), "velocities do not have the shape asked for", got=np.shape(v), want=s)
    mx = lambda mean: stats.maxwell(scale=mean / math.sqrt(8 / math.pi))
    if case == 0:
        fits(c, v, mx(vm).cdf, "velocities", vmean=vm)
        c.check(abs(np.mean(v) / vm - 1) < 7 * 0.43 / math.sqrt(n), "the mean velocity is not the one asked for", mean=np.mean(v), vmean=vm)
    elif case == 1:
        c.check(np.min(v) >= ve * (1 - 1e-12), "a velocity is below the escape velocity", v=np.min(v), vescape=ve)
        enc = np.sqrt(np.maximum(np.ravel(v) ** 2 - ve**2, 0))
        fits(c, enc, mx(math.sqrt(vm**2 - ve**2)).cdf, "encounter velocities", vmean=vm, vescape=ve)
    else:
        c.check(np.max(v) <= ve, "a velocity of a bound population exceeds the escape velocity", v=np.max(v), vescape=ve)
        d = mx(vm)
        fits(c, v, lambda x: d.cdf(x) / d.cdf(ve), "truncated velocities", vmean=vm, vescape=ve)
    c.seen("velocity", case, n, len(asn(s)))
    # truncated normal
    loc, sc = float(rng.uniform(-1e3, 1e3)), float(10 ** rng.uniform(-2, 3))
    lo = None if rng.random() < 0.4 else loc - sc * float(rng.uniform(0.1, 4))
    hi = None if rng.random() < 0.4 else loc + sc * float(rng.uniform(0.1, 4))
    x = m.bounded_norm(loc, sc, size=s, lower_bound=lo, upper_bound=hi, rng_seed=int(rng.integers(2**31)))
    L, H = loc - sc if lo is None else lo, loc + sc if hi is None else hi
    c.check(np.all((x >= L - 1e-9 * abs(L)) & (x <= H + 1e-9 * abs(H))), "a bounded normal draw is outside its bounds", lo=np.min(x), hi=np.max(x), bounds=(L, H))
    F = stats.norm(loc, sc).cdf
    fits(c, x, lambda t: (F(t) - F(L)) / (F(H) - F(L)), "bounded normal draws", loc=loc, scale=sc, bounds=(L, H))
    c.seen("bounded", lo is None, hi is None)
    # both bounds on the same side of the mean
    a, b = sorted(float(x) for x in rng.uniform(0.2, 3, 2))
    sgn = float(rng.choice([-1, 1]))
    L, H = sorted((loc + sgn * sc * a, loc + sgn * sc * (b + 0.05)))
    x = m.bounded_norm(loc, sc, size=s, lower_bound=L, upper_bound=H, rng_seed=int(rng.integers(2**31)))
    c.check(np.all((x >= L - 1e-9 * abs(L)) & (x <= H + 1e-9 * abs(H))), "a bounded normal draw is outside its bounds", lo=np.min(x), hi=np.max(x), bounds=(L, H))
    fits(c, x, lambda t: stats.truncnorm((L - loc) / sc, (H - loc) / sc, loc=loc, scale=sc).cdf(t), "normal draws bounded on one side of the mean", loc=loc, scale=sc, bounds=(L, H))
    c.seen("one-sided", sgn)
    c.note(vmean=vm, vescape=ve, n=n)


def sizes(c):
    m, rng = mu_(), c.rng
    k = int(rng.choice([2, 3, 5, 20, 200]))
    D = np.sort(10 ** rng.uniform(0, 5, k))
    if np.min(np.diff(D)) <= 0:
        return
    slope = -np.abs(rng.uniform(0.2, 6, k - 1))
    logN = np.concatenate([[0.0], np.cumsum(slope * np.diff(np.log(D)))])
    N = np.exp(logN + rng.uniform(-8, 8))
    N = np.maximum(N, N[0] * 1e-200)
    if rng.random() < 0.3 and k > 3:
        j = int(rng.integers(1, k - 1))
        N[j] = N[j - 1]  # a stretch with no craters
    order = rng.permutation(k) if rng.random() < 0.5 else np.arange(k)
    n = int(rng.choice([1000, 20000]))
    s = shape(rng, n)
    D0, N0 = D[order].copy(), N[order].copy()
    x = m.get_random_size(D0, N0, size=s, rng_seed=int(rng.integers(2**31)))
    c.check(np.array_equal(D0, D[order]) and np.array_equal(N0, N[order]), "get_random_size changes its arguments")
    c.check(x.shape == asn(s), "sizes do not have the shape asked for", got=x.shape, want=s)
    c.check(x.min() >= D[0] * (1 - 1e-6) and x.max() <= D[-1] * (1 + 1e-6), "a size is outside the distribution", lo=x.min(), hi=x.max(), range=(D[0], D[-1]))
    cum = lambda t: np.exp(np.interp(np.log(t), np.log(D), np.log(N)))
    fits(c, x, lambda t: np.clip((N[0] - cum(t)) / (N[0] - N[-1]), 0, 1), "sizes", k=k)
    mu = float(10 ** rng.uniform(0, 4.5))
    y = m.get_random_size(D, N, mu=mu, rng_seed=int(rng.integers(2**31)))
    c.check(abs(y.size - mu) <= 7 * math.sqrt(mu) + 10, "the number of sizes drawn is not the expected one", n=y.size, mu=mu)
    c.check(np.size(m.get_random_size(D, N, rng_seed=1)) == 1, "the default is not a single size")
    V = (ValueError, TypeError)
    i = int(rng.integers(k))
    for what, f in {
        "size and mu together": lambda: m.get_random_size(D, N, size=3, mu=3),
        "arrays of different length": lambda: m.get_random_size(D, N[:-1] if k > 2 else np.append(N, 1e-9), size=3),
        "a single diameter": lambda: m.get_random_size(D[:1], N[:1], size=3),
        "a negative diameter": lambda: m.get_random_size(np.where(np.arange(k) == i, -1.0, D), N, size=3),
        "a zero in the distribution": lambda: m.get_random_size(D, np.where(np.arange(k) == i, 0.0, N), size=3),
        "an increasing distribution": lambda: m.get_random_size(D, N[::-1], size=3),
        "a scalar": lambda: m.get_random_size(1.0, 1.0, size=3),
        "a two-dimensional diameter array": lambda: m.get_random_size(np.array([D, D]), N, size=3),
    }.items():
        c.raises(f, f"{what} is accepted", exc=V)
    c.seen("size", k, n, len(asn(s)))
    c.note(k=k, n=n)


def seeds(c):
    """The same seed or generator state gives the same draws; a generator given is advanced, the global state is not."""
    m, rng = mu_(), c.rng
    D, N = np.array([1.0, 10.0, 1000.0]), np.array([1.0, 0.1, 1e-4])
    fns = {
        "location": lambda **k: np.array(m.get_random_location(size=7, **k).tolist()),
        "angle": lambda **k: m.get_random_impact_angle(size=7, **k),
        "direction": lambda **k: m.get_random_impact_direction(size=7, **k),
        "size": lambda **k: m.get_random_size(D, N, size=7, **k),
        "poisson size": lambda **k: m.get_random_size(D, N, mu=9, **k),
        "velocity": lambda **k: m.get_random_velocity(1e4, size=7, **k),
        "velocity above escape": lambda **k: m.get_random_velocity(1e4, vescape=3e3, size=7, **k),
        "velocity below escape": lambda **k: m.get_random_velocity(1e4, vescape=2e4, size=7, **k),
        "bounded": lambda **k: m.bounded_norm(3.0, 1.0, size=7, **k),
    }
    for name, f in fns.items():
        s = int(rng.integers(2**31))
        st = np.random.get_state()[1].copy()
        a = f(rng_seed=s)
        b = f(rng=np.random.default_rng(s))
        d = f(rng_state=np.random.default_rng(s).bit_generator.state)
        c.check(np.array_equal(a, f(rng_seed=s)), f"{name}: the same seed gives other draws")
        c.check(np.array_equal(a, b), f"{name}: a generator gives other draws than its seed")
        c.check(np.array_equal(a, d), f"{name}: a generator state gives other draws than its seed")
        g = np.random.default_rng(s)
        x, y = f(rng=g), f(rng=g)
        c.check(not np.array_equal(x, y), f"{name}: the generator given is not advanced")
        c.check(not np.array_equal(a, f(rng_seed=s + 1)), f"{name}: another seed gives the same draws")
        c.check(np.array_equal(st, np.random.get_state()[1]), f"{name}: the global random state is changed")
        c.seen("seed", name)


def face_xyz(grid, f):
    n = grid.face_node_connectivity.values[f]
    n = n[n >= 0]
    return np.stack([grid.node_x.values[n], grid.node_y.values[n], grid.node_z.values[n]], 1)


def onface(c):
    m, rng = mu_(), c.rng
    kind = str(rng.choice(["icosphere", "arbitrary_resolution"]))
    sim = make_sim(c, "s", surface=kind, rng_seed=1, **({"gridlevel": int(rng.integers(1, 4))} if kind == "icosphere" else {"pix": float(rng.uniform(3e5, 9e5))}))
    grid = sim.surface.uxgrid
    nf = int(grid.n_face)
    idx = np.concatenate([rng.integers(0, nf, 40), np.repeat(int(rng.integers(nf)), 3), [0, nf - 1]])
    seed = int(rng.integers(2**31))
    loc = m.get_random_location_on_face(grid, idx, rng_seed=seed)
    c.check(loc.shape == idx.shape and set(loc.dtype.names) == {"lon", "lat"}, "not one location per face", got=loc.shape)
    c.check(np.array_equal(loc, m.get_random_location_on_face(grid, idx, rng_seed=seed)), "the same seed gives another location on the face")
    c.check(len({tuple(x) for x in loc.tolist()}) == loc.size, "two draws are at the same point")
    lo, la = np.radians(loc["lon"]), np.radians(loc["lat"])
    P = np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], 1)
    for f, p in zip(idx, P):
        v = face_xyz(grid, f)
        s = [float(np.dot(np.cross(v[j], v[(j + 1) % len(v)]), p)) for j in range(len(v))]
        sc = float(np.max(np.linalg.norm(v - v[0], axis=1)))
        c.check(min(s) >= -1e-9 * sc or max(s) <= 1e-9 * sc, "a random location is not on its face", face=int(f), edges=s, mesh=kind)
    one = m.get_random_location_on_face(grid, int(idx[0]), rng_seed=1)
    c.check(np.size(one) == 1, "one face does not give one location")
    # uniform over the face, in each triangle of its fan
    f = int(rng.integers(nf))
    v = face_xyz(grid, f)
    n = 3000
    loc = m.get_random_location_on_face(grid, np.full(n, f), rng_seed=seed + 1)
    lo, la = np.radians(loc["lon"]), np.radians(loc["lat"])
    P = np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], 1)
    best = np.full(n, -1)
    bar = np.zeros((n, 3))
    area = []
    for j in range(len(v) - 2):
        T = np.stack([v[0], v[j + 1], v[j + 2]], 1)
        area.append(0.5 * np.linalg.norm(np.cross(v[j + 1] - v[0], v[j + 2] - v[0])))
        w = np.linalg.solve(T, P.T).T
        w /= w.sum(1, keepdims=True)
        ok = (w.min(1) >= -1e-7) & (best < 0)
        best[ok], bar[ok] = j, w[ok]
    if c.check(np.all(best >= 0), "a random location is not on its face", face=f, out=int(np.sum(best < 0))):
        frac = np.array(area) / sum(area)
        cnt = np.bincount(best, minlength=len(frac))
        c.check(np.all(np.abs(cnt - n * frac) <= 7 * np.sqrt(n * frac) + 10), "random locations favour a part of the face", counts=cnt, expected=n * frac)
        q = (1 - bar[:, 0]) ** 2
        fits(c, q, lambda x: x, "random locations on a face")
        fits(c, bar[:, 2] / np.maximum(1 - bar[:, 0], 1e-300), lambda x: np.clip(x, 0, 1), "random locations on a face")
    c.seen("face", kind, nf, len(v))
    c.note(mesh=kind, faces=nf, sides=len(v))


SCENARIOS = [("directions", directions, 16, 600), ("velocities", velocities, 32, 1500), ("sizes", sizes, 40, 1500), ("seeds", seeds, 8, 100), ("onface", onface, 10, 150)]
