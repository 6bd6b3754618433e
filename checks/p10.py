"""P10: size conversions of the scaling models: documented relations, inverses, ordering, crater types."""
import math

import numpy as np

from checks.p08 import ks, kslim

PROPERTY = "P10"
RULE = "Both scaling models on every catalogue body and on random bodies, materials and projectiles; each conversion compared with the published relation computed independently, inverted, and swept for monotonicity; crater types sampled around the transition; a state is (model, transition type, material, decade of size, crater type)."

MATERIALS = {"Water": (2.30, 0.55, 0.0, 1000.0), "Sand": (0.24, 0.41, 0.0, 1750.0), "Dry Soil": (0.24, 0.41, 0.18e6, 1500.0), "Wet Soil": (0.20, 0.55, 1.14e6, 2000.0),
             "Soft Rock": (0.20, 0.55, 7.60e6, 2250.0), "Hard Rock": (0.20, 0.55, 18.0e6, 2500.0), "Ice": (15.625, 0.48, 0.0, 900.0)}
G = 6.6743e-11
BODY_NAMES = "Mercury Venus Earth Moon Mars Phobos Deimos Ceres Vesta Io Europa Ganymede Callisto Titan Rhea Dione Tethys Enceladus Mimas Ariel Umbriel Titania Oberon Miranda Triton Charon Pluto Arrokoth".split()


def body(c, name=None):
    """A catalogue body or a made-up one."""
    from cratermaker.components.target import Target

    rng = c.rng
    if name is None and rng.random() < 0.5:
        r, rho = float(10 ** rng.uniform(4, 7)), float(rng.uniform(900, 6000))
        return Target.maker("Body", radius=r, mass=4 / 3 * math.pi * r**3 * rho, material=str(rng.choice(list(MATERIALS))), transition_scale_type=str(rng.choice(["silicate", "ice"])))
    return Target.maker(name or str(rng.choice(BODY_NAMES)))


def model(c, kind=None, **kw):
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.scaling import Scaling

    rng = c.rng
    t = body(c)
    kind = kind or str(rng.choice(["montecarlo", "ctem", "deterministic"]))
    p = Projectile.maker("generic", sample=False, velocity=float(10 ** rng.uniform(2.5, 4.8)), angle=float(rng.uniform(3, 90)), density=float(rng.uniform(300, 8000)), target=t)
    if kind == "deterministic":
        s = Scaling.maker("montecarlo", target=t, projectile=p, monte_carlo_scaling=False, rng_seed=int(rng.integers(2**31)), **kw)
    else:
        s = Scaling.maker(kind, target=t, projectile=p, rng_seed=int(rng.integers(2**31)), **kw)
    return kind, t, p, s


def pi_scaling(d, K1, mu, Y, rho_t, rho_p, g, v):
    """Holsapple (1993) / Richardson (2009): transient diameter of a crater whose depth is a third of its diameter."""
    a = d / 2
    m = 4 / 3 * math.pi * a**3 * rho_p
    pi2, pi3, pi4 = g * a / v**2, Y / (rho_t * v**2), rho_t / rho_p
    V = K1 * (pi2 * pi4 ** (-1 / 3) + pi3 ** (1 + mu / 2)) ** (-3 * mu / (2 + mu)) * m / rho_t
    return 2 * (3 * V / math.pi) ** (1 / 3)


def transient(c):
    rng = c.rng
    kw = {}
    if rng.random() < 0.3:
        kw["material"] = str(rng.choice(list(MATERIALS)))
    if rng.random() < 0.3:
        kw["K1"] = float(rng.uniform(0.05, 3))
    if rng.random() < 0.3:
        kw["mu"] = float(rng.uniform(0.35, 0.65))
    if rng.random() < 0.3:
        kw["Ybar"] = float(10 ** rng.uniform(3, 8))
    if rng.random() < 0.3:
        kw["density"] = float(rng.uniform(500, 4000))
    kind, t, p, s = model(c, **kw)
    mat = kw.get("material", t.material)
    ref = dict(zip(("K1", "mu", "Ybar"), MATERIALS[mat][:3]))
    ref.update({k: kw[k] for k in ref if k in kw})
    rho = kw.get("density", MATERIALS[mat][3])
    for k, v in ref.items():
        c.close(getattr(s, k), v, f"{k} is neither the value given nor that of the material", 1e-12, material=mat, given=kw)
    c.close(s.target.density, rho, "the target density is neither the value given nor that of the material", 1e-12, material=mat, given=kw)
    g, vv = G * t.mass / t.radius**2, p.velocity * math.sin(math.radians(p.angle))
    last = 0.0
    for d in np.sort(10 ** rng.uniform(-1, 5.5, 8)):
        d = float(d)
        D = s.projectile_to_transient(d)
        want = max(d, pi_scaling(d, ref["K1"], ref["mu"], ref["Ybar"], rho, p.density, g, vv))
        c.close(D, want, "the transient crater does not follow the pi-group scaling", 2e-4, d=d, body=t.name, kw=kw, v=vv)
        c.check(D >= d * (1 - 1e-12), "the transient crater is smaller than its projectile", d=d, D=D)
        c.check(D > last, "a larger projectile makes a smaller crater", d=d, D=D, last=last)
        last = D
        back = s.transient_to_projectile(D)
        if want > d * 1.0001 and 1e-4 * D < d:
            c.close(back, d, "transient_to_projectile does not invert projectile_to_transient", 1e-7, D=D, body=t.name, kw=kw)
        c.seen(kind, mat, int(math.log10(d)), want > d)
    # a faster, steeper, denser impact makes a larger crater; more gravity or strength a smaller one
    d = float(10 ** rng.uniform(0, 4))
    D0 = s.projectile_to_transient(d)

    def with_(**q):
        for k, v in q.items():
            setattr(p, k, v)
        r = s.projectile_to_transient(d)
        return r

    v0, a0, r0 = p.velocity, p.angle, p.density
    c.check(s.projectile is p, "the scaling model does not use the projectile it was given")
    c.check(with_(velocity=v0 * 1.5) >= D0, "a faster impact makes a smaller crater")
    with_(velocity=v0)
    c.check(with_(angle=min(90.0, a0 * 1.2)) >= D0 * (1 - 1e-12), "a steeper impact makes a smaller crater")
    with_(angle=a0)
    c.check(with_(density=r0 * 1.5) >= D0, "a denser projectile makes a smaller crater")
    with_(density=r0)
    c.close(s.projectile_to_transient(d), D0, "the same impact makes another crater", 1e-14)
    Y0 = s.Ybar
    s.Ybar = Y0 * 3 + 1e5
    c.check(s.projectile_to_transient(d) <= D0, "a stronger target has a larger crater")
    s.Ybar = Y0
    t.mass *= 1.7
    c.check(s.projectile_to_transient(d) <= D0, "more gravity gives a larger crater")
    c.note(model=kind, body=t.name, given=kw)


def nominal(kind, t):
    g = G * t.mass / t.radius**2
    if kind == "ctem":
        return 16533.8 * g**-1.0303 if t.transition_scale_type == "silicate" else 3081.39 * g**-1.22486
    A, B = (-0.5484575694575697, 4.201369948094472) if t.transition_scale_type == "silicate" else (-0.7066985617230864, 3.52268633631802)
    return 10 ** (A * math.log10(g) + B)


def final(c):
    rng = c.rng
    kind, t, p, s = model(c)
    T = nominal(kind, t)
    c.close(s.transition_nominal, T, "the simple-to-complex transition does not follow the published fit", 1e-3, body=t.name, model=kind)
    T = s.transition_nominal
    e, tr, fe, ce = s.simple_enlargement_factor, s.transition_diameter, s.final_exp, s.complex_enlargement_factor
    if kind != "montecarlo":
        c.close(e, 1 / 0.84, "simple enlargement factor", 1e-9)
        c.close(tr, T, "the transition diameter of a deterministic model is not the nominal one", 1e-9)
        c.close(fe, {"ctem": (1 / 0.885 - 1) if t.transition_scale_type == "silicate" else 0.155}.get(kind, 0.079), "complex crater exponent", 1e-9)
    c.close(ce, 1.02, "complex enlargement factor", 1e-9)
    simple = lambda D: D / e
    cplx = lambda D: D / (e * ce) * (D / tr) ** -fe
    prev = {}
    for D in np.sort(T * 10 ** rng.uniform(-3, 2, 14)):
        D = float(D)
        Dt, mt = s.final_to_transient(D)
        c.check(mt in ("simple", "complex", "transitional"), "unknown crater type", type=mt)
        c.check((mt == "simple") if D < 0.4999 * T else (mt == "complex") if D > 2.0001 * T else (mt != ("complex" if D < T else "simple")), "the crater type does not follow from its size", D=D, T=T, type=mt, model=kind)
        c.close(Dt, simple(D) if mt == "simple" else cplx(D), "final_to_transient does not follow the relation for its crater type", 1e-9, D=D, type=mt)
        c.check(Dt < D or D < 0.3 * T and mt != "simple", "the transient crater is not smaller than the final one", D=D, Dt=Dt, type=mt)
        for want in ("simple", "complex", "transitional"):
            a, m = s.final_to_transient(D, morphology_type=want)
            c.check(m == want, "the crater type asked for is not used")
            c.close(a, simple(D) if want == "simple" else cplx(D), "final_to_transient ignores the crater type asked for", 1e-9, D=D, type=want)
            c.check(a > prev.get(want, 0.0), "transient size does not grow with final size", D=D, type=want)
            prev[want] = a
        Df, m2 = s.transient_to_final(Dt)
        c.close(s.final_to_transient(Df, morphology_type=str(m2))[0], Dt, "transient_to_final is not inverted by final_to_transient", 1e-8, D=D, Dt=Dt, Df=Df, type=m2, model=kind)
        if D < 0.25 * T or D > 4 * T:
            c.close(Df, D, "final to transient and back gives another crater", 1e-8, D=D, T=T, model=kind)
            c.check(m2 == mt, "final to transient and back gives another crater type", a=mt, b=m2)
        if kind != "montecarlo":
            c.check((Df, m2) == s.transient_to_final(Dt) and (Dt, mt) == s.final_to_transient(D), "a deterministic model gives two answers", D=D)
        c.seen(kind, t.transition_scale_type, int(math.log10(D)), mt)
    if kind != "montecarlo":
        for D in np.concatenate([T * rng.uniform(0.6, 1.6, 6), T / e * rng.uniform(0.97, 1.01, 8)]):
            D = float(D)
            ask = [(s.transient_to_final(D), s.final_to_transient(D)) for _ in range(6)]
            c.check(all(a == ask[0] for a in ask), "a deterministic model gives different answers to the same question near its transition", D=D, T=T, answers=sorted({str(a) for a in ask}))
    c.note(model=kind, body=t.name, transition=T)


def types(c):
    """Frequencies of the crater types across the transition, and the spread of the redrawn parameters."""
    rng = c.rng
    kind, t, p, s = model(c, "montecarlo")
    T = s.transition_nominal
    x = float(rng.choice([0.55, 0.75, 0.95, 1.0, 1.1, 1.5, 1.9]))
    n = 1500
    got = [s.final_to_transient(T * x)[1] for _ in range(n)]
    pr = 1 - (1 - x) / 0.5 if x < 1 else 1 - (x - 1)
    k = got.count("transitional")
    c.check(abs(k - n * pr) <= 7 * math.sqrt(n * pr * (1 - pr)) + 8, "the share of transitional craters does not fall linearly away from the transition", x=x, share=k / n, want=pr)
    c.check(set(got) <= ({"simple", "transitional"} if x < 1 else {"complex", "transitional"}), "crater type on the wrong side of the transition", x=x, types=sorted(set(got)))
    E, F, R = [], [], []
    for _ in range(n):
        s.recompute()
        E.append(1 / s.simple_enlargement_factor)
        F.append(s.final_exp)
        R.append(math.log10(s.transition_diameter / T))
    from scipy import stats

    sg = 0.0699898822890725 if t.transition_scale_type == "silicate" else 0.10337890091526512
    tn = lambda m, sd: (lambda v: stats.truncnorm(-1, 1, loc=m, scale=sd).cdf(v))
    for arr, cdf, what in ((E, tn(0.84, 0.04), "simple enlargement"), (F, tn(0.079, 1e-4), "complex exponent"), (R, stats.norm(0, sg).cdf, "transition diameter")):
        d = ks(arr, cdf)
        c.check(d < kslim(n), f"the redrawn {what} does not follow its distribution", ks=d, limit=kslim(n))
    c.check(s.transition_nominal == T, "recompute changes the nominal transition")
    c.seen("types", t.transition_scale_type, x)
    c.note(body=t.name, x=x)


def refused(c):
    from cratermaker.components.scaling import Scaling

    kind, t, p, s = model(c)
    V = (ValueError, TypeError)
    for bad in (0.0, -1.0, math.nan, math.inf, "x", None, [1.0]):
        c.raises(lambda: s.final_to_transient(bad), "an invalid final diameter is accepted", exc=V, bad=bad)
        c.raises(lambda: s.transient_to_final(bad), "an invalid transient diameter is accepted", exc=V, bad=bad)
        c.raises(lambda: s.projectile_to_transient(bad), "an invalid projectile diameter is accepted", exc=V, bad=bad)
        c.raises(lambda: s.transient_to_projectile(bad), "an invalid transient diameter is accepted", exc=V, bad=bad)
    for k in ("K1", "mu", "Ybar"):
        c.raises(lambda: setattr(s, k, -1.0), f"a negative {k} is accepted", exc=V)
        c.raises(lambda: setattr(s, k, "x"), f"a {k} that is not a number is accepted", exc=V)
    c.raises(lambda: Scaling.maker("nope"), "an unknown scaling model is accepted", exc=(KeyError, *V))
    # strings and objects for target and projectile are the same thing
    from cratermaker.components.projectile import Projectile
    from cratermaker.components.target import Target

    tn, pn = str(c.rng.choice(["Moon", "Mars", "Mercury", "Vesta", "Ceres"])), str(c.rng.choice(["asteroids", "comets"]))
    a = Scaling.maker("ctem", target=tn, projectile=pn, rng_seed=1)
    tt = Target.maker(tn)
    b = Scaling.maker("ctem", target=tt, projectile=Projectile.maker(pn, target=tt, rng_seed=1), rng_seed=1)
    c.check(a.projectile.target.name == tn == a.target.name, "the projectile of a scaling model is for another target", got=a.projectile.target.name, want=tn)
    c.close(a.projectile.mean_velocity, b.projectile.mean_velocity, "naming target and projectile gives another mean velocity than passing them", 1e-12, target=tn, projectile=pn)
    c.close(a.transition_diameter, b.transition_diameter, "naming the target gives another transition", 1e-12)
    other = str(c.rng.choice(["Europa", "Earth", "Mimas"]))
    a.target = other
    c.close(a.transition_nominal, Scaling.maker("ctem", target=other).transition_nominal, "changing the target of a scaling model keeps the old transition", 1e-12, target=other)
    c.seen("refused", kind)


SCENARIOS = [("transient", transient, 60, 4000), ("final", final, 60, 4000), ("types", types, 16, 600), ("refused", refused, 12, 200)]
