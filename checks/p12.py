"""P12: projectile populations: documented velocities and densities per target, sampling, overrides, independence of copies."""
import copy
import math

import numpy as np
from scipy import stats

from checks.p08 import ks, kslim
from checks.p11 import BODIES

PROPERTY = "P12"
RULE = "Every population on every catalogue body and on made-up bodies, sampled or fixed, with random overrides; 10^3 successive new projectiles per case compared with the documented distributions and copies compared with their originals; a state is (population, body class, sampled, set of overrides)."

AST = {"Mercury": 41100.0, "Venus": 29100.0, "Earth": 24600.0, "Moon": 22100.0, "Mars": 10700.0, "Ceres": 5300.0, "Vesta": 5300.0}
COM = {"Mercury": 18400.0, "Venus": 26300.0, "Earth": 17670.0, "Moon": 17670.0, "Mars": 14210.0, "Io": 32000.0, "Europa": 26000.0, "Ganymede": 20000.0, "Callisto": 15000.0, "Mimas": 27000.0,
       "Enceladus": 24000.0, "Tethys": 21000.0, "Dione": 19000.0, "Rhea": 16000.0, "Titan": 10500.0, "Miranda": 12500.0, "Ariel": 10300.0, "Umbriel": 8700.0, "Titania": 6800.0, "Oberon": 5900.0,
       "Triton": 8200.0, "Pluto": 1900.0, "Charon": 1800.0}
DENS = {"asteroids": 2250.0, "comets": 500.0, "generic": 1000.0}


def pick(c, pop=None):
    from cratermaker.components.target import Target

    rng = c.rng
    pop = pop or str(rng.choice(["asteroids", "comets", "generic"]))
    if pop == "asteroids":
        name = str(rng.choice(list(AST)))
        vm = AST[name]
    elif pop == "comets":
        name = str(rng.choice(list(COM)))
        vm = COM[name]
    else:
        name, vm = str(rng.choice(list(BODIES))), float(10 ** rng.uniform(3, 4.7))
    if rng.random() < 0.15:
        name = "Nowhere"
        vm = {"asteroids": 22100.0, "comets": 1800.0}.get(pop, vm)
        t = Target.maker(name, radius=2e5, mass=1e20, transition_scale_type="ice")
    else:
        t = Target.maker(name)
    return pop, name, t, vm


def edge(rng, v, *ends):
    """v, or now and then a value at the end of its range (zero is a value like any other)."""
    return float(rng.choice(ends)) if rng.random() < 0.3 else v


def sampled(c):
    from cratermaker.components.projectile import Projectile

    rng = c.rng
    pop, name, t, vm = pick(c)
    kw = {"rng_seed": int(rng.integers(2**31))}
    if pop == "generic":
        kw["mean_velocity"] = vm
    rho = DENS[pop]
    if rng.random() < 0.4:
        rho = kw["density"] = float(rng.uniform(300, 8000))
    p = Projectile.maker(pop, target=t if rng.random() < 0.5 or name == "Nowhere" else name, **kw)
    c.check(p.population == pop and p.target.name == name and p.sample is True, "not the population or target asked for", got=(p.population, p.target.name))
    c.close(p.mean_velocity, vm, "the mean impact velocity is not the documented one", 1e-12, population=pop, target=name)
    c.close(p.density, rho, "the projectile density is not the documented or given one", 1e-12, population=pop)
    if rng.random() < 0.3:
        vm = float(vm * rng.uniform(0.5, 1.5))
        p.mean_velocity = vm
    ve = t.escape_velocity
    n = 1200
    V, A, D, L = np.empty(n), np.empty(n), np.empty(n), np.empty((n, 2))
    q = p
    chain = rng.random() < 0.5
    for i in range(n):
        q = (q if chain else p).new_projectile()
        V[i], A[i], D[i] = q.velocity, q.angle, q.direction
        L[i] = q.location[0], q.location[1]
        if i % 200 == 0:
            c.close(q.density, rho, "a new projectile has another density", 1e-12)
            c.close(q.mean_velocity, vm, "a new projectile has another mean velocity", 1e-12, population=pop)
            c.close(q.vertical_velocity, q.velocity * math.sin(math.radians(q.angle)), "vertical velocity is not the velocity times the sine of the angle", 1e-12)
            c.check(q.population == pop and q.target.name == name and q.sample, "a new projectile is of another population")
    lim = kslim(n)
    mx = lambda m: stats.maxwell(scale=m / math.sqrt(8 / math.pi)).cdf
    if vm > ve:
        c.check(V.min() >= ve * (1 - 1e-9), "an impact is slower than the escape velocity", v=V.min(), vesc=ve, target=name)
        d = ks(np.sqrt(np.maximum(V**2 - ve**2, 0)), mx(math.sqrt(vm**2 - ve**2)))
    else:
        d = ks(V, lambda x: mx(vm)(x) / mx(vm)(ve))
    c.check(d < lim, "impact velocities do not follow the documented distribution", ks=d, limit=lim, population=pop, target=name, vmean=vm, vesc=ve)
    c.check(ks(A, lambda x: np.sin(np.radians(x)) ** 2) < lim, "impact angles do not follow the sine-squared law", population=pop)
    c.check(ks(D, lambda x: x / 360) < lim, "impact directions are not uniform", population=pop)
    c.check(ks(L[:, 0], lambda x: (x + 180) / 360) < lim and ks(L[:, 1], lambda x: (np.sin(np.radians(x)) + 1) / 2) < lim, "impact locations are not uniform on the sphere", population=pop)
    # given values win over sampling
    ang, dr, vel, loc, de = edge(rng, float(rng.uniform(1, 90)), 0.0, 90.0), edge(rng, float(rng.uniform(0, 360)), 0.0), float(rng.uniform(1e3, 7e4)), (edge(rng, float(rng.uniform(-179, 179)), 0.0), edge(rng, float(rng.uniform(-89, 89)), 0.0)), float(rng.uniform(200, 8000))
    given = {k: v for k, v in {"angle": ang, "direction": dr, "velocity": vel, "location": loc, "density": de}.items() if rng.random() < 0.5}
    for how, z in (("new_projectile", p.new_projectile(**given)), ("maker on an existing projectile", Projectile.maker(p, **given)), ("maker", Projectile.maker(pop, target=t, **{**kw, **given}))):
        for k, v in given.items():
            c.close(tuple(getattr(z, k)) if k == "location" else getattr(z, k), v, f"{how}: the {k} given is not used", 1e-12, given=given)
    # ... and what is not given is still sampled
    z = [p.new_projectile(**given) for _ in range(300)]
    lim3 = kslim(300)
    if "angle" not in given:
        c.check(ks(np.array([q.angle for q in z]), lambda x: np.sin(np.radians(x)) ** 2) < lim3, "impact angles are not sampled when other values are given", given=given)
    if "direction" not in given:
        c.check(ks(np.array([q.direction for q in z]), lambda x: x / 360) < lim3, "impact directions are not sampled when other values are given", given=given)
    if "location" not in given:
        c.check(ks(np.array([q.location[0] for q in z]), lambda x: (x + 180) / 360) < lim3, "impact locations are not sampled when other values are given", given=given)
    if "velocity" not in given:
        zv = np.array([q.velocity for q in z])
        e = ks(np.sqrt(np.maximum(zv**2 - ve**2, 0)), mx(math.sqrt(vm**2 - ve**2))) if vm > ve else ks(zv, lambda x: mx(vm)(x) / mx(vm)(ve))
        c.check(e < lim3, "impact velocities are not sampled when other values are given", given=given)
    before = (p.velocity, p.angle, p.direction, p.density, p.mean_velocity)
    p.new_projectile(velocity=1.0, angle=1.0, direction=1.0, density=1.0)
    c.check(before == (p.velocity, p.angle, p.direction, p.density, p.mean_velocity), "new_projectile changes the original")
    c.seen("sampled", pop, "catalogue" if name != "Nowhere" else name, vm > ve, sorted(given))
    c.note(population=pop, target=name, vmean=vm, n=n)


def fixed(c):
    from cratermaker.components.projectile import Projectile

    rng = c.rng
    pop, name, t, vm = pick(c)
    given = {}
    if pop == "generic" or rng.random() < 0.4:
        given["velocity"] = float(rng.uniform(1e3, 7e4))
    if rng.random() < 0.4:
        given["angle"] = edge(rng, float(rng.uniform(1, 90)), 0.0, 90.0)
    if rng.random() < 0.4:
        given["direction"] = edge(rng, float(rng.uniform(0, 360)), 0.0)
    if rng.random() < 0.4:
        given["location"] = (float(rng.uniform(-179, 179)), float(rng.uniform(-89, 89)))
    if rng.random() < 0.4:
        given["density"] = float(rng.uniform(300, 8000))
    p = Projectile.maker(pop, target=t, sample=False, rng_seed=1, **given)
    want = {"velocity": vm, "angle": 90.0, "direction": 0.0, "location": (0.0, 0.0), "density": DENS[pop], **given}

    def same(q, what):
        for k, v in want.items():
            c.close(tuple(getattr(q, k)) if k == "location" else getattr(q, k), v, f"{what}: the {k} of a projectile that is not sampled is neither the one given nor the default", 1e-12, population=pop, target=name, given=given)
        c.close(q.vertical_velocity, want["velocity"] * math.sin(math.radians(want["angle"])), f"{what}: vertical velocity", 1e-12)
        c.check(q.target.name == name and q.population == pop and q.sample is False, f"{what}: another population or target")

    same(p, "maker")
    q = p
    for _ in range(4):
        q = q.new_projectile()
        same(q, "new_projectile")
    same(copy.copy(p), "copy")
    same(copy.deepcopy(p), "deep copy")
    if "location" not in given:
        z = Projectile.maker(pop, target=t, sample=False, location=(370.0, 95.0), **{k: v for k, v in given.items()})
        c.close(tuple(z.location), (-170.0, 85.0), "the location given is not normalized", 1e-9)
    V = (ValueError, TypeError)
    for k, bad in (("angle", -1.0), ("angle", "x"), ("direction", -1.0), ("velocity", -1.0), ("velocity", "x"), ("density", -1.0), ("density", "x"), ("mean_velocity", -1.0), ("mean_velocity", "x"), ("sample", 1)):
        c.raises(lambda: setattr(p, k, bad), f"{k}={bad!r} is accepted", exc=V)
    same(p, "after refused changes")
    if pop == "generic":
        c.raises(lambda: Projectile.maker("generic", sample=False), "a fixed projectile without a velocity is accepted", exc=V)
        c.raises(lambda: Projectile.maker("generic", sample=True), "a sampled projectile without a mean velocity is accepted", exc=V)
    c.raises(lambda: Projectile.maker("nope"), "an unknown population is accepted", exc=(KeyError, *V))
    # defaults by target
    for b in (str(x) for x in rng.choice(list(BODIES), 5)):
        d = Projectile.maker(target=b, rng_seed=1)
        w = "asteroids" if b in AST else "comets" if b in COM else "generic"
        c.check(d.population == w, "the default population of a target is not the documented one", target=b, got=d.population, want=w)
        c.close(d.mean_velocity, AST.get(b, COM.get(b, 20e3)), "the default population has another mean velocity", 1e-12, target=b)
        c.seen("default", b)
    c.seen("fixed", pop, "catalogue" if name != "Nowhere" else name, sorted(given))
    c.note(population=pop, target=name, given=given)


SCENARIOS = [("sampled", sampled, 40, 1500), ("fixed", fixed, 60, 3000)]
