"""P22: emplacement forms each crater once, in order, whatever the form of the request, the batching or an earlier failure."""
import math

import numpy as np

from lib.simkit import crater_fields, make_sim, wrap_method

PROPERTY = "P22"
TECHNIQUE = "event-log monitoring: every crater physically formed is recorded by a hook on the live object; offline checkers compare the log with the request (exactly once, in order), batched against one-by-one emplacement, and re-check it after injected failures and interruptions"
RULE = "random requests (keywords, one crater, lists, tuples, mixtures of plain and surface-bound craters, too small ones, invalid ones) on global and local meshes; the same craters one by one, in one batch and in random groups; failures and interrupts injected at every stage of an emplacement followed by further requests; a state is (form of the request, sizes, outcome)."


def loc(rng, lo=-85, hi=85):
    return float(rng.uniform(-180, 180)), float(np.clip(np.degrees(np.arcsin(rng.uniform(-1, 1))), lo, hi))


class Log:
    """What was formed on the surface of sim: form_crater calls that went through, and the emplaced list."""

    def __init__(self, sim):
        self.formed = []
        self.shaped = []

        def shape(orig, crater, *a, **k):
            r = orig(crater, *a, **k)
            self.shaped.append(crater.id)
            return r

        def form(orig, crater, *a, **k):
            n = sim.counting.n_emplaced
            r = orig(crater, *a, **k)
            if sim.counting.n_emplaced > n:
                self.formed.append(crater.id)
            return r

        wrap_method(sim.morphology, "form_crater", form)
        wrap_method(sim.morphology, "crater_shape", shape)


def state(s):
    out = [np.array(s.face_elevation), np.array(s.node_elevation)]
    if "ejecta_thickness" in s.uxds:
        out.append(np.array(s.uxds["ejecta_thickness"].values))
    return out


def face(s):
    return math.sqrt(float(np.mean(s.face_area)))


def sizes(rng, s, n, lo=-0.2, hi=0.75):
    return [float(face(s) * 10 ** rng.uniform(lo, hi)) for _ in range(n)]


def formable(s, cr):
    reg = s.extract_region(cr.location, 1.5 * cr.radius)
    if getattr(cr, "ejecta_rmax", None) is not None and s.extract_region(cr.location, cr.ejecta_rmax) is None:
        return False  # documented: not even one face within its ejecta
    return reg is not None and math.pi * (1.5 * cr.radius) ** 2 > float(s.face_area[int(s.find_nearest_face(cr.location))])


def sim_of(c, rng, name, **kw):
    kw.setdefault("do_subpixel_degradation", False)
    return make_sim(c, name, gridlevel=int(kw.pop("level", rng.choice([2, 3]))), rng_seed=int(rng.integers(1 << 30)), **kw)


def requests(c):
    """Every form of request forms its craters once, in order, and returns them."""
    from cratermaker import Crater

    rng = c.rng
    sim = sim_of(c, rng, "s", ejecta_truncation=[None, None, 4.0, 1.25, 1.0][int(rng.integers(5))])
    s, log = sim.surface, Log(sim)
    want = []
    for _ in range(5):
        m = sim.morphology if rng.random() < 0.5 else sim
        form = str(rng.choice(["kw", "kw_transient", "one", "plain", "list", "tuple", "mixed", "pos"]))
        n = 1 if form in ("kw", "kw_transient", "one", "plain") else int(rng.integers(1, 7))
        ds = sizes(rng, s, n, -1.0, 0.75)
        ls = [loc(rng) for _ in ds]
        if form == "kw":
            r = m.emplace(diameter=ds[0], location=ls[0])
            c.check(len(r) == 1 and np.isclose(r[0].diameter, ds[0]) and np.allclose(r[0].location, ls[0], atol=1e-9), "a crater asked for by keywords is another one", got=[(x.diameter, x.location) for x in r], want=(ds[0], ls[0]))
        elif form == "kw_transient":
            r = m.emplace(transient_diameter=ds[0], location=ls[0])
            c.check(len(r) == 1 and np.isclose(r[0].transient_diameter, ds[0]), "a crater asked for by transient diameter has another one")
        else:
            plain = {"one": 0, "plain": 1}.get(form, None)
            crs = [(Crater if (plain if plain is not None else (form == "mixed" and rng.random() < 0.5)) else sim.Crater).maker(diameter=d, location=x) for d, x in zip(ds, ls)]
            before = [crater_fields(x, ("id", "diameter", "location", "semiminor_axis", "orientation", "transient_diameter", "morphology_type", "projectile_diameter", "time")) for x in crs]
            arg = crs[0] if n == 1 and form in ("one", "plain") else (tuple(crs) if form == "tuple" else crs)
            r = m.emplace(arg) if form == "pos" or rng.random() < 0.5 else m.emplace(craters=arg)
            after = [crater_fields(x, tuple(before[0])) for x in r]
            c.check(after == before, "emplace does not return the craters it was given, in order", form=form, got=after[:2], want=before[:2])
        ok = [x.id for x in r if formable(s, x)]
        want += ok
        c.check(log.formed == want, "the craters formed on the surface are not those requested, once and in order", form=form, got=log.formed[-5:], want=want[-5:])
        c.check([x.id for x in sim.counting.emplaced] == want, "the emplaced list is not the craters formed", form=form)
        for x in r:
            if x.id not in ok:
                c.seen("small", form)
        c.check(all(np.isfinite(a).all() for a in state(s)), "emplacement leaves elevations that are not finite", form=form, diameters=ds)
        c.seen(form, n, len(ok), m is sim)
    st = state(s)
    for bad in ("crater", 5, {"diameter": 1e5}, 2.5):
        c.raises(lambda: sim.emplace(bad), "an invalid request is accepted", value=str(bad))
    c.raises(lambda: sim.emplace(diameter=-1e5), "a negative diameter is emplaced")
    c.raises(lambda: sim.emplace(diameter=1e5, radius=1e5), "contradictory sizes are emplaced")
    c.raises(lambda: sim.emplace([sim.Crater.maker(diameter=face(s) * 3), "x"]), "a list with something that is no crater is accepted")
    c.check(log.formed == want and all(np.array_equal(a, b) for a, b in zip(st, state(s))), "a refused request changes the surface")
    sim.emplace(diameter=face(s) * 3, location=loc(rng))
    c.check(len(log.formed) == len(want) + 1, "a refused request leaves craters behind that are formed later", got=len(log.formed), want=len(want) + 1)


def batching(c):
    """One call, several calls or one call per crater: the same surface."""
    rng = c.rng
    level = int(rng.choice([2, 3]))
    kw = dict(level=level, do_slope_collapse=bool(rng.random() < 0.7), ejecta_truncation=[None, 2.0, 3.0, 5.0][int(rng.integers(4))], dorays=bool(rng.random() < 0.25))
    n = int(rng.integers(3, 15))
    seed = int(rng.integers(1 << 30))
    grouping = []
    while sum(grouping) < n:
        grouping.append(min(int(rng.integers(1, 5)), n - sum(grouping)))
    results = []
    crs = None
    batches = []
    for groups in ([n], [1] * n, grouping):
        sim = sim_of(c, np.random.default_rng(seed), f"s{len(results)}", **kw)
        s = sim.surface
        if crs is None:
            hi = 0.45 if rng.random() < 0.6 else 0.75
            crs = [(d, loc(rng)) for d in sizes(rng, s, n, -0.1, hi)]
            if rng.random() < 0.5:
                crs[-1] = (crs[-1][0], crs[0][1])  # on top of the first
            base = np.random.default_rng(seed).normal(0, 50, s.n_face + s.n_node) if rng.random() < 0.5 else None
        if base is not None:
            s.update_elevation(base)
        log = Log(sim)
        made = [sim.Crater.maker(diameter=d, location=x) for d, x in crs]
        place = {x.id: i for i, x in enumerate(made)}
        i = 0
        sim.morphology.rng.bit_generator.state = np.random.default_rng(5).bit_generator.state
        for g in groups:
            sim.emplace(made[i : i + g])
            i += g
        results.append((state(s), [place[x.id] for x in sim.counting.emplaced], [place[x] for x in log.formed]))
        batches.append(len(groups))
    a = results[0]
    for b, groups in zip(results[1:], ([1] * n, grouping)):
        c.check(a[1] == b[1] == b[2], "craters emplaced in one call and in several are not the same, in the same order", got=b[1], want=a[1])
        for x, y in zip(a[0], b[0]):
            scale = max(1.0, float(np.max(np.abs(y))))
            c.check(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-9 * scale), "the surface depends on how the craters were grouped into calls", groups=groups, diff=float(np.max(np.abs(x - y))) if x.shape == y.shape else None, n=n)
    c.seen("batching", level, n > 8, len(a[1]) == n, kw["do_slope_collapse"], kw["ejecta_truncation"], kw["dorays"])


def order(c):
    """The order of overlapping craters is that of the request: a later crater is laid over an earlier one."""
    rng = c.rng
    sim = sim_of(c, rng, "s", level=3, do_slope_collapse=False)
    s = sim.surface
    f = face(s)
    x = loc(rng, -60, 60)
    small, big = (f * 2.0, x), (f * 6.0, x)
    fresh = []
    for seq in ([big, small], [small, big]):
        t = sim_of(c, rng, f"o{len(fresh)}", level=3, do_slope_collapse=False)
        others = [(f * float(rng.uniform(0.8, 1.2)), loc(rng)) for _ in range(int(rng.integers(0, 5)))]
        far = [o for o in others if math.cos(math.radians(o[1][1])) > 0]
        log = Log(t)
        made = [t.Crater.maker(diameter=d, location=y) for d, y in seq + far]
        t.emplace(made)
        ids = [m.id for m in made if formable(t.surface, m)]
        c.check(log.formed == ids, "craters are not formed in the order requested", got=log.formed, want=ids)
        k = int(t.surface.find_nearest_face(x))
        fresh.append(float(np.asarray(t.surface.face_elevation)[k]))
        c.seen("order", len(far))
    c.check(fresh[0] < fresh[1], "a small crater inside an older large one is as if it were older", first_big=fresh[0], first_small=fresh[1])


class Boom(Exception):
    pass


def interrupted(c):
    """A failure or an interrupt during an emplacement never makes a crater form twice later on."""
    rng = c.rng
    sim = sim_of(c, rng, "s")
    s, log = sim.surface, Log(sim)
    n = int(rng.integers(2, 9))
    made = [sim.Crater.maker(diameter=d, location=loc(rng)) for d in sizes(rng, s, n, 0.2, 0.7)]
    exc = KeyboardInterrupt if rng.random() < 0.5 else Boom
    at = int(rng.integers(0, n))
    where = str(rng.choice(["form_ejecta", "crater_shape", "ejecta_shape", "tally", "after"]))
    target = sim.counting if where == "tally" else sim.morphology
    name = {"after": "form_crater"}.get(where, where)
    count = [0]
    armed = [True]

    def inject(orig, *a, **k):
        i = count[0]
        count[0] += 1
        if armed[0] and (i == at or where == "tally"):
            if where == "after":
                orig(*a, **k)
            armed[0] = False
            raise exc("injected")
        return orig(*a, **k)

    wrap_method(target, name, inject)
    failed = False
    try:
        sim.emplace(made)
    except (Boom, KeyboardInterrupt):
        failed = True
    c.seen("interrupted", where, exc.__name__, failed, min(at, 3))
    armed[0] = False
    done = list(log.shaped)
    c.check(len(done) == len(set(done)), "a crater was shaped twice before the failure", got=done)
    if not failed:
        return
    extra = [sim.Crater.maker(diameter=d, location=loc(rng)) for d in sizes(rng, s, 3, 0.2, 0.7)]
    for e in extra:
        sim.emplace(e)
    rest = [x for x in log.shaped[len(done) :]]
    twice = sorted(set(rest) & set(done))
    c.check(not twice, "after a failed emplacement, craters already formed are formed again by the next request", twice=twice, where=where, at=at, exc=exc.__name__)
    ids = [e.id for e in extra if formable(s, e)]
    c.check([x for x in rest if x in ids] == ids, "after a failed emplacement, new requests are not formed once and in order", got=rest, want=ids)
    em = [x.id for x in sim.counting.emplaced]
    c.check(len(em) == len(set(em)), "a crater is listed as emplaced twice after a failed emplacement", got=em)


def queue(c):
    """The queue manager: first in, first out; a batch is a leading run of craters that touch no common face or node."""
    from cratermaker import Crater, Morphology

    rng = c.rng
    nf = int(rng.integers(4, 40))
    touch = {}
    q = Morphology.CraterQueueManager(lambda cr: touch[cr.id])
    model = []
    out = []
    for _ in range(60):
        if rng.random() < 0.55 or not model:
            cr = Crater.maker(diameter=float(rng.uniform(1e3, 2e3)))
            k = int(rng.integers(0, 5))
            both = rng.random()
            nodes = set(map(int, rng.integers(0, nf, k))) if both < 0.8 else set()
            faces = set(map(int, rng.integers(0, nf, k))) if both > 0.2 else set()
            touch[cr.id] = (nodes, faces)
            q.push(cr)
            model.append(cr)
        else:
            b = list(q.peek_next_batch())
            c.check(len(b) > 0 and all(x is y for x, y in zip(b, model)), "a batch is not the head of the queue", got=[x.id for x in b], want=[x.id for x in model[: len(b)]])
            c.check(len(q.peek_next_batch()) == len(b), "looking at the next batch changes it")
            for i in range(len(b)):
                for j in range(i):
                    c.check(touch[b[i].id][0].isdisjoint(touch[b[j].id][0]) and touch[b[i].id][1].isdisjoint(touch[b[j].id][1]), "two craters of a batch touch the same part of the mesh")
            q.pop_batch(b)
            out += b
            del model[: len(b)]
            c.seen("batch", min(len(b), 6))
        c.check(q.is_empty == (not model), "the queue misreports being empty")
    for bad in (None, 3, "c"):
        c.raises(lambda: q.push(bad), "something that is not a crater is queued", exc=TypeError)
    c.raises(lambda: q.pop_batch([Crater.maker(diameter=5e3)]), "a crater that is not queued can be taken off the queue", exc=ValueError)


SCENARIOS = [("requests", requests, 20, 400), ("batching", batching, 20, 400), ("order", order, 8, 96), ("interrupted", interrupted, 32, 480), ("queue", queue, 24, 600)]
