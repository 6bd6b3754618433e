"""P01: random streams are reproducible, restorable and shared."""
import copy
import random

import numpy as np

from lib.simkit import *  # noqa: F403

PROPERTY = "P01"
RULE = (
    "Each case draws a seed, a stream position and an entry point (sampling function, component, crater maker, whole simulation) and replays it; "
    "a state is (entry point, way the generator was supplied, shape class); trivial cases (empty draws) are not counted."
)


def _calls(rng):
    from cratermaker.utils import montecarlo_utils as mc

    n = int(rng.integers(1, 40))
    d = np.sort(rng.uniform(1, 1e4, 6))[::-1]
    cdf = np.cumsum(rng.uniform(0.1, 5, 6))
    vm = float(rng.uniform(2e3, 3e4))
    ve = [None, float(rng.uniform(1e3, 4e4))][int(rng.integers(2))]
    return {
        "location": lambda **k: mc.get_random_location(size=n, **k),
        "angle": lambda **k: mc.get_random_impact_angle(size=n, **k),
        "direction": lambda **k: mc.get_random_impact_direction(size=n, **k),
        "size": lambda **k: mc.get_random_size(d, cdf, size=n, **k),
        "size_mu": lambda **k: mc.get_random_size(d, cdf, mu=n, **k),
        "velocity": lambda **k: mc.get_random_velocity(vm, vescape=ve, size=n, **k),
        "bounded": lambda **k: mc.bounded_norm(vm, 0.3 * vm, size=n, **k),
    }


def _eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def utilities(c):
    seed = int(c.rng.integers(2**63 - 1))
    calls = _calls(c.rng)
    for name, f in calls.items():
        g0 = np.random.get_state()[1].copy()
        p0 = random.getstate()
        a = f(rng_seed=seed)
        np.random.seed(int(c.rng.integers(2**31)))  # an unrelated legacy stream must not matter
        b = f(rng_seed=seed)
        c.check(_eq(a, b), f"{name}: same seed, different draws", seed=seed)
        c.seen(name, "seed")
        gen = np.random.default_rng(seed)
        gs = np.random.get_state()[1].copy()
        x1 = f(rng=gen)
        mid = copy.deepcopy(gen.bit_generator.state)
        x2 = f(rng=gen)
        c.check(_eq(a, x1), f"{name}: generator seeded alike gives different draws", seed=seed)
        c.check(mid != np.random.default_rng(seed).bit_generator.state, f"{name}: a supplied generator was not advanced", seed=seed)
        if np.asarray(x1).size > 2:
            c.check(not _eq(x1, x2), f"{name}: successive draws from one generator repeat", seed=seed)
        x3 = f(rng_state=copy.deepcopy(mid))
        c.check(_eq(x2, x3), f"{name}: a restored state does not continue the stream", seed=seed)
        x4 = f(rng_state=copy.deepcopy(mid), rng_seed=int(seed // 3))
        c.check(_eq(x2, x4), f"{name}: state given together with a seed does not continue the stream", seed=seed)
        x5 = f(rng=np.random.default_rng(seed), rng_seed=7, rng_state=copy.deepcopy(mid))
        c.check(_eq(a, x5), f"{name}: a supplied generator must win over seed and state", seed=seed)
        c.check((np.random.get_state()[1] == gs).all(), f"{name}: the global numpy stream was consumed")
        c.check(random.getstate() == p0, f"{name}: the global Python stream was consumed")
        for how in ("rng", "state", "state+seed", "rng+all"):
            c.seen(name, how)
    c.note(seed=seed, entry_points=list(calls))


def _makers():
    import cratermaker as cm

    return {
        "target": lambda **k: cm.Target.maker("Moon", **k),
        "projectile": lambda **k: cm.Projectile.maker("asteroids", target="Moon", **k),
        "scaling": lambda **k: cm.Scaling.maker("montecarlo", target="Moon", **k),
        "ctem": lambda **k: cm.Scaling.maker("ctem", target="Moon", **k),
        "production": lambda **k: cm.Production.maker("neukum", version="Moon", **k),
        "powerlaw": lambda **k: cm.Production.maker("powerlaw", **k),
    }


def components(c):
    seed = int(c.rng.integers(2**32))
    d = c.tmp
    skip = int(c.rng.integers(0, 50))
    for name, mk in _makers().items():
        ref = np.random.default_rng(seed)
        a = mk(rng_seed=seed, simdir=d)
        b = mk(rng_seed=seed, simdir=d)
        c.check(a.rng is not b.rng, f"{name}: separately seeded components share one generator")
        c.check(_eq(a.rng.random(5), b.rng.random(5)), f"{name}: same seed, different streams", seed=seed)
        c.check(a.rng_seed == seed, f"{name}: seed not reported", got=a.rng_seed)
        gen = np.random.default_rng(seed)
        gen.random(skip)
        st = copy.deepcopy(gen.bit_generator.state)
        want = np.random.default_rng()
        want.bit_generator.state = st
        s = mk(rng_state=copy.deepcopy(st), simdir=d)
        sd = mk(rng_state=copy.deepcopy(st), rng_seed=seed + 1, simdir=d)
        first = [copy.deepcopy(s.rng_state), copy.deepcopy(sd.rng_state)]
        c.check(first[0] == first[1], f"{name}: state with a seed differs from state alone", seed=seed)
        o = mk(rng=gen, simdir=d)
        c.check(o.rng is gen, f"{name}: the supplied generator was copied or replaced")
        c.check(o.rng_state == gen.bit_generator.state, f"{name}: reported state is not the current one")
        gen.random(3)
        c.check(o.rng_state == gen.bit_generator.state, f"{name}: reported state is stale")
        for sub in ("projectile",):
            if getattr(o, sub, None) is not None and hasattr(getattr(o, sub), "rng"):
                c.check(getattr(o, sub).rng is gen, f"{name}.{sub}: does not share the generator")
                c.seen(name, "shares", sub)
        if name in ("target", "production", "powerlaw"):  # building these draws nothing
            c.check(first[0] == st, f"{name}: state not restored", seed=seed)
        c.seen(name, "component", skip % 7)
    c.note(seed=seed, skip=skip)


def craters(c):
    """Interleaved crater makers: each stream depends on its own generator only."""
    import cratermaker as cm

    seed = int(c.rng.integers(2**32))
    n = int(c.rng.integers(3, 9))
    plan = []
    for _ in range(n):
        k = int(c.rng.integers(4))
        plan.append([{"diameter": float(10 ** c.rng.uniform(2, 5.5))}, {"projectile_diameter": float(10 ** c.rng.uniform(1, 4))},
                     {"transient_radius": float(10 ** c.rng.uniform(2, 5))}, {"projectile_mass": float(10 ** c.rng.uniform(6, 15))}][k])

    def go(interleave):
        gen = np.random.default_rng(seed)
        other = np.random.default_rng(99)
        out = []
        for p in plan:
            if interleave:
                cm.Crater.maker(diameter=5e3, target="Mars", rng=other, simdir=c.tmp)
                np.random.random(5)
            out.append(cm.Crater.maker(**p, target="Moon", rng=gen, simdir=c.tmp))
        return out

    A, B = go(False), go(True)
    for a, b, p in zip(A, B, plan):
        da, db = crater_fields(a), crater_fields(b)
        c.check(da == db, "same seed, different crater", plan=p, diff={k: (da[k], db[k]) for k in da if da[k] != db[k]})
        c.seen("crater", list(p)[0], round(np.log10(list(p.values())[0])))
    ids = {a.id for a in A}
    c.check(len({repr(crater_fields(a)) for a in A}) == len(A), "the stream repeats: identical craters from successive draws")
    c.note(seed=seed, plan=plan)


def surfaces(c):
    """Random topography and random places on a surface are a function of its seed."""
    import cratermaker as cm

    rng = c.rng
    seed = int(rng.integers(2**32))
    kw = [dict(gridlevel=int(rng.integers(1, 4))), dict(gridlevel=3), dict(pix=7e5)][c.index % 3]
    kind = "arbitrary_resolution" if "pix" in kw else "icosphere"
    steps = [("turbulence", float(10 ** rng.uniform(2, 4)), float(10 ** rng.uniform(5, 6.5)), int(rng.integers(1, 9))) for _ in range(3)]
    region = ((float(rng.uniform(-180, 180)), float(rng.uniform(-90, 90))), float(10 ** rng.uniform(5.8, 6.4)))

    def go(name, legacy, **how):
        s = cm.Surface.maker(kind, target="Moon", simdir=c.dir(name), ask_overwrite=False, **kw, **how)
        out = []
        for i, (model, h, w, n) in enumerate(steps):
            np.random.seed(legacy + i)
            random.seed(legacy - i)
            np.random.default_rng(seed).random(3)
            v = s if i != 1 else (s.extract_region(*region) or s)
            v.apply_noise(model=model, noise_height=h, noise_width=w, num_octaves=n)
            out += [np.array(s.face_elevation), np.array(s.node_elevation)]
            p = s.get_random_location_on_face(i)
            out.append(np.array(p.tolist() if hasattr(p, "tolist") else p, dtype=float).ravel())
        return s, out

    (a, A), (b, B) = go("a", 1, rng_seed=seed), go("b", 77, rng_seed=seed)
    for i, (x, y) in enumerate(zip(A, B)):
        if not c.check(_eq(x, y), "same seed, different random topography or places on a surface", at=i, steps=steps):
            break
    c.check(a.rng_state == b.rng_state, "same seed, a surface leaves its generator in different states", steps=steps)
    d, D = go("d", 5, rng=np.random.default_rng(seed))
    c.check(all(_eq(x, y) for x, y in zip(A, D)), "a supplied generator gives other topography than its seed", steps=steps)
    e, E = go("e", 5, rng_seed=seed ^ 1)
    tops = [x for x in A if isinstance(x, np.ndarray)]
    c.check(not all(_eq(x, y) for x, y in zip(tops, [x for x in E if isinstance(x, np.ndarray)])), "another seed gives the same random topography", steps=steps)
    c.seen("surface", kind, [x[0] for x in steps])
    c.note(seed=seed, steps=steps)


def simulations(c):
    seed = int(c.rng.integers(2**32))
    age = float(c.rng.uniform(3500, 4200))
    ni = int(c.rng.integers(1, 4))
    kw = [{}, {"production": "powerlaw"}, {"target": "Earth"}, {"scaling": "ctem"}][c.index % 4]
    args = {"age": age, "ninterval": ni}
    if kw.get("production") == "powerlaw":
        args = {"diameter_number": (400.0, float(c.rng.integers(5, 30))), "ninterval": ni}
    s1 = make_sim(c, "a", gridlevel=3 if "target" in kw else 2, rng_seed=seed, **kw)
    s2 = make_sim(c, "b", gridlevel=3 if "target" in kw else 2, rng_seed=seed, **kw)
    log1, log2 = EmplaceLog(s1), EmplaceLog(s2)
    s1.run(**args)
    np.random.random(int(c.rng.integers(100)))
    s3 = make_sim(c, "x", gridlevel=1, rng_seed=seed + 1)  # an unrelated simulation in between
    s2.run(**args)
    c.check(len(log1.all) == len(log2.all), "same seed, different number of craters", n=(len(log1.all), len(log2.all)))
    for a, b in zip(log1.all, log2.all):
        fa, fb = crater_fields(a), crater_fields(b)
        if not c.check(fa == fb, "same seed, different crater history", diff={k: (fa[k], fb[k]) for k in fa if fa[k] != fb[k]}):
            break
    c.check(_eq(s1.surface.face_elevation, s2.surface.face_elevation), "same seed, different surface elevation")
    c.check(_eq(s1.surface.node_elevation, s2.surface.node_elevation), "same seed, different node elevation")
    c.check(s1.rng_state == s2.rng_state, "same seed, different final generator state")
    for name in ("target", "surface", "production", "projectile", "scaling", "morphology", "counting"):
        c.check(getattr(s1, name).rng is s1.rng, f"{name} does not share the simulation's generator")
    c.seen("simulation", c.index % 4, ni, len(log1.all) // 10)
    c.note(seed=seed, config=kw, run=args, craters=len(log1.all))


SCENARIOS = [
    ("utilities", utilities, 40, 1500),
    ("components", components, 12, 300),
    ("craters", craters, 24, 900),
    ("surfaces", surfaces, 9, 200),
    ("simulations", simulations, 16, 240),
]
