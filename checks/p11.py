"""P11: target bodies: catalogue values, overrides, derived quantities, independence of instances."""
import math

import numpy as np

from checks.p10 import MATERIALS, G

PROPERTY = "P11"
RULE = "Every catalogue body and random made-up bodies with random overrides, changes and failed attempts in between; each body's values and derived quantities recomputed independently, and the catalogue re-read after every mutation; a state is (body, set of overridden fields)."

# name: radius km, mass kg, material, transition type (the documented catalogue)
BODIES = {
    "Mercury": (2439.40, 3.301001e23, "Soft Rock", "silicate"), "Venus": (6051.84, 4.867306e24, "Hard Rock", "silicate"), "Earth": (6371.01, 5.972168e24, "Wet Soil", "silicate"),
    "Moon": (1737.53, 7.345789e22, "Soft Rock", "silicate"), "Mars": (3389.92, 6.416909e23, "Soft Rock", "silicate"), "Phobos": (11.17, 1.08e16, "Soft Rock", "silicate"),
    "Deimos": (6.30, 1.8e15, "Soft Rock", "silicate"), "Ceres": (469.70, 9.383516e20, "Soft Rock", "ice"), "Vesta": (262.70, 2.590270e20, "Soft Rock", "silicate"),
    "Io": (1821.49, 8.929649e22, "Hard Rock", "silicate"), "Europa": (1560.80, 4.798574e22, "Ice", "ice"), "Ganymede": (2631.20, 1.481479e23, "Ice", "ice"),
    "Callisto": (2410.30, 1.075661e23, "Ice", "ice"), "Titan": (2575.50, 1.345181e23, "Ice", "ice"), "Rhea": (764.50, 2.306459e21, "Ice", "ice"), "Dione": (562.50, 1.095486e21, "Ice", "ice"),
    "Tethys": (536.30, 6.174430e20, "Ice", "ice"), "Enceladus": (252.30, 1.080318e20, "Ice", "ice"), "Mimas": (198.80, 3.750939e19, "Ice", "ice"), "Ariel": (578.90, 1.250019e21, "Ice", "ice"),
    "Umbriel": (584.70, 1.279535e21, "Ice", "ice"), "Titania": (788.90, 3.338178e21, "Ice", "ice"), "Oberon": (761.40, 3.076577e21, "Ice", "ice"), "Miranda": (235.70, 6.442623e19, "Ice", "ice"),
    "Triton": (1352.60, 2.140292e22, "Ice", "ice"), "Charon": (606.00, 1.589680e21, "Ice", "ice"), "Pluto": (1188.30, 1.302498e22, "Ice", "ice"), "Arrokoth": (9.13, 7.485e14, "Ice", "ice"),
}


def agree(c, t, name, r, m, mat, tr, rho, what):
    c.check(t.name == name, f"{what}: name", got=t.name, want=name)
    c.close(t.radius, r, f"{what}: radius", 1e-12)
    c.close(t.mass, m, f"{what}: mass", 1e-12)
    c.check(t.material == mat, f"{what}: material", got=t.material, want=mat)
    c.check(t.transition_scale_type == tr, f"{what}: transition type", got=t.transition_scale_type, want=tr)
    if rho is not None:
        c.close(t.density, rho, f"{what}: surface density", 1e-12)
    c.close(t.diameter, 2 * r, f"{what}: diameter is not twice the radius", 1e-12)
    c.close(t.surface_area, 4 * math.pi * r**2, f"{what}: surface area", 1e-12)
    c.close(t.volume, 4 / 3 * math.pi * r**3, f"{what}: volume", 1e-12)
    c.close(t.circumference, 2 * math.pi * r, f"{what}: circumference", 1e-12)
    c.close(t.gravity, G * m / r**2, f"{what}: gravity", 1e-4)
    c.close(t.escape_velocity, math.sqrt(2 * G * m / r), f"{what}: escape velocity", 1e-4)


def base(name):
    r, m, mat, tr = BODIES[name]
    return {"radius": r * 1e3, "mass": m, "material": mat, "transition_scale_type": tr, "density": MATERIALS[mat][3]}


def check_all(c, what, names=None):
    from cratermaker.components.target import Target

    for n in names or BODIES:
        b = base(n)
        agree(c, Target.maker(n), n, b["radius"], b["mass"], b["material"], b["transition_scale_type"], b["density"], f"{what}: {n}")
        c.seen("body", n)


def overrides(c):
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target

    rng = c.rng
    if c.index == 0:
        check_all(c, "catalogue")
    alive = []
    for step in range(8):
        custom = rng.random() < 0.3
        name = "Nowhere" if custom else str(rng.choice(list(BODIES)))
        want = {"material": None, "density": None} if custom else base(name)
        kw = {}
        if custom or rng.random() < 0.4:
            r = float(10 ** rng.uniform(3, 7.5))
            kw[str(rng.choice(["radius", "diameter"]))] = r
            want["radius"] = kw.get("radius", r / 2)
        if custom or rng.random() < 0.4:
            want["mass"] = kw["mass"] = float(10 ** rng.uniform(14, 25))
        if custom or rng.random() < 0.4:
            want["transition_scale_type"] = kw["transition_scale_type"] = str(rng.choice(["ice", "silicate"]))
        if rng.random() < 0.4:
            want["material"] = kw["material"] = str(rng.choice(list(MATERIALS)))
            want["density"] = MATERIALS[kw["material"]][3]
        if rng.random() < 0.4:
            want["density"] = kw["density"] = float(rng.uniform(100, 9000))
        t = Target.maker(name, **kw)
        agree(c, t, name, want["radius"], want["mass"], want["material"], want["transition_scale_type"], want["density"], f"{name} with {sorted(kw)}")
        c.check(Target.maker(t) is t, "a target passed to the maker is replaced")
        alive.append((t, name, want))
        c.seen("override", name if custom else "catalogue", sorted(kw))
        # the body is used and changed: nobody else sees it
        act = int(rng.integers(5))
        if act == 0:
            v = float(10 ** rng.uniform(3, 7))
            t.radius = want["radius"] = v
        elif act == 1:
            t.mass = want["mass"] = float(10 ** rng.uniform(14, 25))
        elif act == 2 and want["material"] is not None:
            s = Scaling.maker("ctem", target=t)
            c.check(s.target is t, "the scaling model works on another target than the one given")
            c.close(t.density, want["density"], "making a scaling model changes the density of its target", 1e-12, given=kw)
            c.close((s.K1, s.mu, s.Ybar), MATERIALS[want["material"]][:3], "the scaling model does not use the material of its target", 1e-12, material=want["material"])
        elif act == 3:
            t.density = want["density"] = float(rng.uniform(100, 9000))
        else:
            V = (ValueError, TypeError, RuntimeError)
            for k, bad in (("radius", -1.0), ("radius", 0.0), ("mass", -1.0), ("transition_scale_type", "cheese"), ("density", -5.0), ("material", 3)):
                c.raises(lambda: Target.maker(name, **{**kw, **({} if k != "radius" else {"diameter": None}), k: bad}), f"{k}={bad} is accepted", exc=V)
                c.raises(lambda: setattr(t, k, bad), f"{k}={bad} is accepted", exc=V)
            c.raises(lambda: Target.maker(name, radius=1e5, diameter=2e5), "radius and diameter together are accepted", exc=V)
        for u, n, w in alive:
            agree(c, u, n, w["radius"], w["mass"], w["material"], w["transition_scale_type"], w["density"], "an older target after others were made and changed")
    check_all(c, "catalogue after use", [str(x) for x in rng.choice(list(BODIES), 4)])
    V = (ValueError, TypeError, RuntimeError)
    c.raises(lambda: Target.maker("Nowhere"), "an unknown body is accepted", exc=V)
    c.raises(lambda: Target.maker("Nowhere", radius=1e6, mass=1e22), "an unknown body without a transition type is accepted", exc=V)
    c.raises(lambda: Target.maker("Nowhere", mass=1e22, transition_scale_type="ice"), "an unknown body without a size is accepted", exc=V)
    c.raises(lambda: Target.maker("Nowhere", radius=1e6, transition_scale_type="ice"), "an unknown body without a mass is accepted", exc=V)
    c.raises(lambda: Target.maker(3), "a number is accepted as a target", exc=V)
    c.check(Target.maker(None).name == "Moon" == Target.maker().name, "the default target is not the Moon")
    c.note(bodies=[(n, sorted(w)) for _, n, w in alive][:3])


def materials(c):
    """Scaling materials: catalogue, overrides and later changes."""
    from cratermaker.components.scaling import Scaling
    from cratermaker.components.target import Target

    rng = c.rng
    for _ in range(6):
        name = str(rng.choice(list(BODIES)))
        kind = str(rng.choice(["ctem", "montecarlo"]))
        mat = str(rng.choice(list(MATERIALS)))
        given = {}
        for k, lo, hi in (("K1", 0.05, 3), ("mu", 0.3, 0.7), ("Ybar", 0, 1e8), ("density", 300, 5000)):
            if rng.random() < 0.35:
                given[k] = float(rng.uniform(lo, hi))
        style = [mat, mat.lower(), mat.upper()][int(rng.integers(3))]
        s = Scaling.maker(kind, target=name, material=style, rng_seed=1, **given)
        want = dict(zip(("K1", "mu", "Ybar", "density"), MATERIALS[mat]), **given)
        c.check(s.material == mat, "material name", got=s.material, want=mat)
        c.close((s.K1, s.mu, s.Ybar, s.target.density), tuple(want[k] for k in ("K1", "mu", "Ybar", "density")), "explicit values do not take precedence over the material's, or the material over the target's", 1e-12, material=mat, given=given, body=name)
        m2 = str(rng.choice(list(MATERIALS)))
        s.material = m2
        c.close((s.K1, s.mu, s.Ybar, s.target.density), MATERIALS[m2], "changing the material does not change the scaling constants", 1e-12, material=m2)
        c.close(Target.maker(name).density, base(name)["density"], "changing the material of one target changes the catalogue", 1e-12)
        s2 = Scaling.maker(kind, target=name, rng_seed=1)
        c.close((s2.K1, s2.mu, s2.Ybar, s2.target.density), MATERIALS[base(name)["material"]], "changing the material of one scaling model changes the catalogue", 1e-12, body=name)
        c.seen("material", kind, mat, sorted(given))


SCENARIOS = [("overrides", overrides, 60, 3000), ("materials", materials, 40, 2000)]
