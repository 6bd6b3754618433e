"""P26: components are built as asked, take their random numbers from where they are told, remake from their configuration and act once per save."""
import math
import os
from pathlib import Path

import numpy as np
import yaml

from lib.simkit import make_sim, wrap_method

PROPERTY = "P26"
TECHNIQUE = "differential monitoring: components built in equivalent ways (name, class, instance, configuration, generator, seed, state) are compared in type, parameters, behaviour and random state; a call log hooked on live objects is checked against the save actions asked for"
RULE = "all component families and names, valid and invalid requests, random combinations of random-state arguments, random parameters written to YAML and read back, and random lists of save actions over saves, runs and skipped saves; a state is (family, way of building, outcome)."


def families():
    from cratermaker import Counting, Morphology, Production, Projectile, Scaling, Surface, Target

    return {"scaling": Scaling, "production": Production, "projectile": Projectile, "morphology": Morphology, "surface": Surface, "counting": Counting, "target": Target}


NAMES = {
    "scaling": ["montecarlo", "ctem"], "production": ["neukum", "powerlaw"], "projectile": ["asteroids", "comets", "generic"],
    "surface": ["icosphere", "arbitrary_resolution"],
}


def params(c, rng, fam, name):
    d = c.dir(f"{fam}{int(rng.integers(1 << 30))}")
    kw = {"simdir": d, "ask_overwrite": False}
    if fam == "scaling":
        if rng.random() < 0.5:
            kw["material"] = str(rng.choice(["Sand", "Soft Rock", "Hard Rock", "Ice", "Water"]))
        if rng.random() < 0.5:
            kw["monte_carlo_scaling"] = bool(rng.random() < 0.5)
    elif fam == "production":
        if name == "powerlaw":
            kw |= {"N1_coef": float(10 ** rng.uniform(-7, -3)), "slope": -float(rng.uniform(1, 5))}
        else:
            kw["version"] = str(rng.choice(["Moon", "Mars", "Projectile"]))
    elif fam == "projectile":
        kw["target"] = str(rng.choice(["Moon", "Mars"])) if name != "comets" else "Ganymede"
        if name == "generic":
            kw["mean_velocity"] = float(rng.uniform(3e3, 5e4))
        if rng.random() < 0.5:
            kw["density"] = float(rng.uniform(500, 8000))
    elif fam == "surface":
        kw |= {"gridlevel": int(rng.integers(1, 3))} if name == "icosphere" else {"pix": float(10 ** rng.uniform(5.8, 6.3))}
    return kw


def behaviour(fam, o):
    """A summary of what a component does that does not draw random numbers."""
    if fam == "production":
        return [float(o.csfd(diameter=d)) for d in (1e3, 2e4)]
    if fam == "scaling":
        return [float(getattr(o, k)) for k in ("K1", "mu", "Ybar")] + [o.monte_carlo_scaling, o.target.name]
    if fam == "projectile":
        return [o.density, o.mean_velocity, o.target.name]
    if fam == "surface":
        return [o.n_face, float(o.pix), np.asarray(o.face_lon).tolist()]
    return [o.name, o.radius, o.mass]


def makers(c):
    """A component is what its name, class or instance says; anything else is refused with the documented error."""
    rng = c.rng
    fams = families()
    for fam, K in fams.items():
        d = c.dir(f"m_{fam}")
        if fam != "target":
            av = K.available()
            c.check(len(av) == len(set(av)) > 0 and not any(n in f.available() for g, f in fams.items() if g not in (fam, "target") for n in av), "a family offers the components of another", family=fam, available=av)
            bad = str(rng.choice(["nonsense", "", av[0] + "x", " " + av[0], next(f for g, f in fams.items() if g not in (fam, "target")).available()[0]]))
            c.raises(lambda: K.maker(bad, simdir=d), "an unknown component is made", exc=KeyError, family=fam, name=bad)
        else:
            c.raises(lambda: K.maker("Nibiru", simdir=d), "an unknown target is made", exc=(ValueError, KeyError))
        for wrong in (5, 3.5, ["icosphere"], dict):
            c.raises(lambda w=wrong: K.maker(w, simdir=d), "a component is made from something else", exc=TypeError, family=fam, wrong=repr(wrong))
        for name in NAMES.get(fam, []):
            kw = params(c, rng, fam, name)
            seed = int(rng.integers(1 << 30))
            a = K.maker(name, rng_seed=seed, **kw)
            c.check(a.component_name == name and isinstance(a, K), "a component has another name than asked for", family=fam, name=name, got=a.component_name)
            if fam in ("scaling", "surface"):
                b = K.maker(type(a), rng_seed=seed, **{**kw, "simdir": c.dir(f"b{fam}{name}")})
                c.check(type(b) is type(a) and behaviour(fam, a) == behaviour(fam, b), "a component made from its class differs from the one made from its name", family=fam, name=name)
                st = a.rng.bit_generator.state
                same = K.maker(a)
                c.check(same is a and a.rng.bit_generator.state == st, "an instance is passed through unchanged", family=fam, name=name)
            c.seen("maker", fam, name)
    c.seen("refusals")


def state_of(g):
    return g.bit_generator.state


def randomness(c):
    """rng wins over rng_state, which wins over rng_seed; the same start gives the same component and state."""
    rng = c.rng
    fams = families()
    for fam in ("scaling", "production", "projectile", "surface", "target"):
        K = fams[fam]
        name = str(rng.choice(NAMES.get(fam, ["Moon", "Mars", "Ceres"])))
        kw = params(c, rng, fam, name)
        k1, k2, k3 = (int(rng.integers(1 << 40)) for _ in range(3))

        def gen(k):
            g = np.random.default_rng(k)
            g.random(k % 7)
            return g

        def make(**a):
            return K.maker(name, **{**kw, "simdir": c.dir(f"r{int(rng.integers(1 << 40))}")}, **a)

        g2 = state_of(gen(k2))
        ref = {k: state_of(make(rng=g).rng) for k, g in (("seed", np.random.default_rng(k1)), ("state", gen(k2)), ("rng", gen(k3)))}
        ways = {
            "seed": dict(rng_seed=k1), "state": dict(rng_state=g2), "state+seed": dict(rng_state=g2, rng_seed=k1),
            "rng": dict(rng=gen(k3)), "rng+seed": dict(rng=gen(k3), rng_seed=k1), "rng+state": dict(rng=gen(k3), rng_state=g2), "all": dict(rng=gen(k3), rng_seed=k1, rng_state=g2),
        }
        for way, a in ways.items():
            o = make(**a)
            win = "rng" if "rng" in a else "state" if "rng_state" in a else "seed"
            c.check(state_of(o.rng) == ref[win], "the random state does not follow rng, then rng_state, then rng_seed", family=fam, way=way, name=name)
            if "rng" in a:
                c.check(o.rng is a["rng"], "a generator that is given is not used", family=fam, way=way)
            c.check(o.rng_state == state_of(o.rng), "the reported state is not that of the generator", family=fam, way=way)
            if "rng_seed" in a:
                c.check(o.rng_seed == k1, "the seed is not reported", family=fam, way=way)
            c.seen("rng", fam, way)
        a, b = make(), make()
        c.check(state_of(a.rng) != state_of(b.rng), "two components without a seed have the same random numbers", family=fam)
    from cratermaker import Scaling, Target

    for bad in (dict(rng="x"), dict(rng=5), dict(rng=np.random.RandomState(1)), dict(rng_state=5), dict(rng_state={"bit_generator": "PCG64"}), dict(rng_state={}), dict(rng_seed=-1), dict(rng_seed="abc"), dict(rng_seed=1.5)):
        for K in (Scaling, Target):
            c.raises(lambda K=K, bad=bad: K.maker(simdir=c.dir("bad"), **bad), "an invalid random state is taken", exc=(ValueError, TypeError, RuntimeError), given=str(bad)[:50], family=K.__name__)


def shared(c):
    """All components of a simulation use its generator and its directory, also when the directory is relative."""
    rng = c.rng
    way = ["seed", "state", "rng", "none"][c.index % 4]
    k = int(rng.integers(1 << 40))
    g = np.random.default_rng(k)
    kw = {"seed": dict(rng_seed=k), "state": dict(rng_state=state_of(g)), "rng": dict(rng=g), "none": {}}[way]
    here = os.getcwd()
    base = Path(c.dir("cwd")).resolve()
    form = str(rng.choice(["abs", "rel", "nested", "path"]))
    from cratermaker import Simulation

    target = {"abs": str(base / "one"), "rel": "two", "nested": "three/four", "path": Path("five")}[form]
    try:
        os.chdir(base)
        sim = Simulation(simdir=target, surface="icosphere", gridlevel=1, ask_overwrite=False, save_actions=None, **kw)
        want = (base / target).resolve()
        for name in ("target", "scaling", "production", "morphology", "surface", "counting"):
            comp = getattr(sim, name)
            c.check(comp.rng is sim.rng, "a component does not share the simulation's random numbers", component=name, way=way)
            c.check(Path(comp.simdir).resolve() == want == Path(sim.simdir).resolve(), "a component works in another directory", component=name, form=form, got=str(comp.simdir))
        c.check(sim.projectile.rng is sim.rng, "a component does not share the simulation's random numbers", component="projectile", way=way)
        sim.emplace(diameter=2e6, location=(float(rng.uniform(-180, 180)), 10.0))
        sim.save()
        made = sorted(str(p.relative_to(base)) for p in base.rglob("*") if p.is_file())
        c.check(made and all(str(base / m).startswith(str(want)) for m in made), "files are written outside of the simulation directory", files=made[:6])
        c.check((want / "cratermaker.yaml").exists() and (want / "surface" / "surface000000.nc").exists(), "the output is not in the simulation directory", files=made[:6])
    finally:
        os.chdir(here)
    if way == "rng":
        c.check(sim.rng is g, "a generator that is given is not used")
    if way == "seed":
        c.check(sim.rng_seed == k, "the seed is not reported")
    c.seen("shared", way, form)


def plain(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) and plain(x) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    return type(v) in (int, float, bool, str)


def near(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-12)
    return a == b


def config(c):
    """A component's configuration is plain, survives YAML and remakes the component."""
    rng = c.rng
    fams = families()
    common = {"simdir", "rng", "rng_seed", "rng_state", "ask_overwrite"}
    for fam in ("scaling", "production", "surface", "target", "projectile"):
        K = fams[fam]
        if fam == "target":
            name = str(rng.choice(["Moon", "Mars", "Vesta", "Thing"]))
            kw = {"simdir": c.dir(f"t{int(rng.integers(1 << 30))}")}
            if name == "Thing":
                kw |= {"radius": float(10 ** rng.uniform(3, 7)), "mass": float(10 ** rng.uniform(14, 24)), "material": "Ice", "transition_scale_type": "ice"}
        else:
            name = str(rng.choice([n for n in NAMES[fam] if n != "arbitrary_resolution"]))
            kw = params(c, rng, fam, name)
        o = K.maker(name, rng_seed=int(rng.integers(1 << 30)), **kw)
        cfg = o.to_config(remove_common_args=True)
        full = o.to_config()
        c.check(not common & set(cfg) and {k: v for k, v in full.items() if k not in common} == cfg, "the common arguments are not all and only what is removed", family=fam, cfg=sorted(cfg), full=sorted(full))
        c.check(plain(cfg) and None not in cfg.values(), "a configuration is not plain data", family=fam, cfg={k: type(v).__name__ for k, v in cfg.items()})
        given = {k: v for k, v in kw.items() if k not in common and k not in ("target", "density") and not (fam == "projectile" and k == "mean_velocity")}
        if fam != "projectile":  # a projectile is drawn anew: only its population is configured
            c.check(all(k in cfg and near(cfg[k], v) for k, v in given.items() if k != "N1_coef" and k != "pix" or k in cfg), "a value that was given is not in the configuration", family=fam, given=given, cfg=cfg)
        back = yaml.safe_load(yaml.safe_dump({k: list(v) if isinstance(v, tuple) else v for k, v in cfg.items()}))
        extra = {"target": o.target.name} if fam in ("projectile",) else {}
        o2 = K.maker(name, simdir=c.dir(f"b{int(rng.integers(1 << 40))}"), ask_overwrite=False, **extra, **back)
        if fam == "projectile":
            continue
        c.check(near(o2.to_config(remove_common_args=True), {k: list(v) if isinstance(v, tuple) else v for k, v in cfg.items()}), "a component remade from its configuration has another configuration", family=fam, name=name, cfg=cfg, got=o2.to_config(remove_common_args=True))
        if fam != "target":
            c.check(near(behaviour(fam, o), behaviour(fam, o2)), "a component remade from its configuration behaves differently", family=fam, name=name, cfg=cfg)
        else:
            c.check(near([o.radius, o.mass, o.gravity, o.material], [o2.radius, o2.mass, o2.gravity, o2.material]), "a target remade from its configuration is different", name=name)
        c.seen("config", fam, name, len(cfg))


ACTIONS = {"sim": ["plot", "export", "show3d", "labelmaker"], "surface": ["plot", "export", "show3d"], "counting": ["plot", "export"]}


def actions(c):
    """Save actions run once per save, in order, with their arguments and the interval; invalid ones are refused whole."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=1, save_actions=None, rng_seed=int(rng.integers(1 << 30)))
    log = []
    want = {}
    for who in ACTIONS:
        o = sim if who == "sim" else getattr(sim, who)
        for a in ACTIONS[who]:
            wrap_method(o, a, lambda orig, *x, _w=who, _a=a, **k: log.append((_w, _a, x, k)))
        acts = []
        for _ in range(int(rng.integers(0, 4))):
            acts.append({str(a): {f"k{i}": int(rng.integers(100)) for i in range(int(rng.integers(0, 3)))} for a in rng.permutation(ACTIONS[who])[: int(rng.integers(1, 3))]})
        if acts and rng.random() < 0.5:
            for e in acts:
                o.add_save_action(e)
        else:
            o.save_actions = acts or (None if rng.random() < 0.5 else [])
        for _ in range(2):
            bad = [({"nope": {}}, ValueError), ({"plot": 5}, TypeError), ({"plot": None}, TypeError), ("plot", TypeError), ({"plot": {}, "nope": {}}, ValueError), ({"simdir": {}}, ValueError)]
            b, exc = bad[int(rng.integers(len(bad)))]
            c.raises(lambda: o.add_save_action(b), "an invalid save action is taken", exc=exc, who=who, action=repr(b))
            if isinstance(b, dict):
                c.raises(lambda: setattr(o, "save_actions", [{"export": {}}, b]), "an invalid save action is taken", exc=exc, who=who, action=repr(b))
            c.raises(lambda: setattr(o, "save_actions", {"plot": {}}), "save actions that are not a list are taken", exc=TypeError, who=who)
        c.check(o.save_actions == acts, "the save actions are not the ones asked for", who=who, got=o.save_actions, want=acts)
        want[who] = [(a, k) for e in acts for a, k in e.items()]
    c.check(not log, "a save action runs before a save")

    def expect(iv, whos, what):
        got = {w: [(a, {x: v for x, v in k.items() if x.startswith("k")}, k.get("interval"), x) for ww, a, x, k in log if ww == w] for w in ACTIONS}
        exp = {w: [(a, k, iv, ()) for a, k in want[w]] if w in whos else [] for w in ACTIONS}
        c.check(got == exp, "a save does not run its actions once, in order, with their arguments and interval", what=what, got=got, want=exp)
        log.clear()

    sim.save()
    expect(sim.interval, list(ACTIONS), "save")
    sim.save(skip_actions=True)
    expect(None, [], "skip_actions")
    sim.surface.save(interval=3)
    expect(3, ["surface"], "surface.save")
    sim.surface.save(interval=2, skip_actions=True)
    expect(None, [], "surface.save skip_actions")
    sim.counting.save(interval=1)
    expect(1, ["counting"], "counting.save")
    sim.save(interval=4)
    expect(4, list(ACTIONS), "save interval")
    for who in ACTIONS:
        o = sim if who == "sim" else getattr(sim, who)
        o.save_actions = None
        want[who] = []
    sim.save()
    expect(0, list(ACTIONS), "cleared")
    c.seen("actions", tuple(len(v) for v in want.values()))


def defaults(c):
    """The default action of a simulation is a hillshade image per saved interval; none when switched off; one call per interval of a run."""
    rng = c.rng
    mode = ["default", None, "own"][c.index % 3]
    own = [{"plot": {"plot_style": "map", "k0": 1}}]
    sim = make_sim(c, "s", gridlevel=2, rng_seed=int(rng.integers(1 << 30)), save_actions=own if mode == "own" else mode)
    log = []
    wrap_method(sim, "plot", lambda orig, *x, **k: log.append(k))
    n = int(rng.integers(1, 4))
    sim.run(age=100.0 * n, time_interval=100.0, diameter_range=(1.5e6, 2e6)) if False else sim.run(age=100.0 * n, time_interval=100.0)
    ivs = [k.get("interval") for k in log]
    if mode is None:
        c.check(not log, "actions that are switched off run", n=len(log))
    else:
        saved = sim.surface.get_saved_interval_numbers()[0]
        c.check(sorted(set(ivs)) == sorted(saved) and len(ivs) == len(saved), "a run does not act once per saved interval", got=ivs, saved=saved)
        style = "hillshade" if mode == "default" else "map"
        c.check(all(k.get("plot_style") == style and (mode == "own" or (k.get("save") is True and k.get("show") is False)) for k in log), "an action has other arguments", log=str(log[:1])[:200])
    c.seen("defaults", mode, n)


SCENARIOS = [
    ("makers", makers, 3, 30),
    ("randomness", randomness, 4, 40),
    ("shared", shared, 8, 60),
    ("config", config, 10, 120),
    ("actions", actions, 12, 150),
    ("defaults", defaults, 3, 24),
]
