"""P20: surface data change exactly where and how they are told to; tags are sets of ids per face."""
import warnings

import numpy as np

from lib.simkit import make_sim

PROPERTY = "P20"
TECHNIQUE = "model-based monitoring: a reference copy of every variable, updated by the documented rule, compared in full with the surface after every operation of random histories"
RULE = "random histories of add_data / update_elevation / add_tag / remove_tag / sort on the whole surface, regions and subregions, with scalars, lists, integers, wrong sizes and repeated names, and the elevation processes built on them; a state is (operation, scope, kind of data, new or existing, outcome)."

LAYERS = 8


def idx(v, n):
    return np.arange(n)[v] if isinstance(v, slice) else np.asarray(v)


def scope(c, rng, s):
    m = rng.random()
    if m < 0.35:
        return s, np.arange(s.n_face), np.arange(s.n_node), "surface"
    loc = (float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1)))))
    r = float(rng.uniform(0.3, 2.5) * 1e6) if rng.random() < 0.8 else 1e7
    reg = s.extract_region(loc, r, at_least_one_face=True)
    if m > 0.85:
        sub = reg.extract_subregion(r * float(rng.uniform(0.3, 1)))
        reg = sub if sub is not None else reg
    return reg, idx(reg.face_indices, s.n_face), idx(reg.node_indices, s.n_node), "region"


def new_surface(c, rng):
    from cratermaker import Surface

    k = int(rng.integers(5))
    if k == 4:
        return Surface.maker("arbitrary_resolution", pix=4e5, target="Moon", simdir=c.dir("s"))
    return Surface.maker("icosphere", gridlevel=int([0, 1, 2, 2][k]), target="Moon", simdir=c.dir("s"))


class Model:
    def __init__(self, s):
        self.s = s
        self.v = {"face_elevation": np.zeros(s.n_face), "node_elevation": np.zeros(s.n_node)}

    def compare(self, c, what, /, skip=(), **info):
        for n, a in self.v.items():
            g = np.asarray(self.s.uxds[n].values)
            if not c.check(g.shape == a.shape, f"{what}: variable has another shape", name=n, got=g.shape, want=a.shape, **info):
                continue
            m = np.isclose(g, a, rtol=1e-9, atol=1e-9, equal_nan=True)
            if n in skip:
                m[skip[n]] = True
                self.v[n][skip[n]] = g[skip[n]]
            c.check(m.all(), f"{what}: the surface data are not what they were set to", name=n, bad=int((~m).sum()), at=int(np.argmin(m)), got=float(g[np.argmin(m)]), want=float(a[np.argmin(m)]), **info)
            self.v[n] = np.array(g, float)
        c.check(set(self.s.uxds.data_vars) == set(self.v), f"{what}: other variables appeared or vanished", got=sorted(map(str, self.s.uxds.data_vars)), want=sorted(self.v), **info)


def data(c):
    rng = c.rng
    s = new_surface(c, rng)
    m = Model(s)
    kinds = {"face_elevation": "face", "node_elevation": "node"}
    m.compare(c, "a new surface")
    nfc = np.asarray(s.node_face_connectivity)
    for step in range(14):
        v, f, n, sc = scope(c, rng, s)
        op = str(rng.choice(["add", "add", "add", "elev", "elev", "bad", "interp"]))
        ow = bool(rng.random() < 0.4)
        if op == "add":
            name = str(rng.choice(["alpha", "beta", "gamma", "face_elevation", "node_elevation", "delta"]))
            known = name in m.v
            kind = kinds.get(name) or str(rng.choice(["face", "node"]))
            ind = f if kind == "face" else n
            form = int(rng.integers(4))
            val = rng.normal(0, 50, len(ind))
            if form == 0:
                x = float(rng.normal(0, 50)) if rng.random() < 0.7 else int(rng.integers(-9, 9))
                val = np.full(len(ind), float(x))
            elif form == 1:
                x = val.tolist()
            elif form == 2:
                val = np.round(val)
                x = val.astype(np.int64)
            else:
                x = val.copy()
            pos = bool(rng.random() < 0.3)
            fill = float(rng.choice([0.0, 7.5])) if rng.random() < 0.3 else 0.0
            keep = np.array(x) if form >= 2 else None
            if not known:
                m.v[name], kinds[name] = np.full(s.n_face if kind == "face" else s.n_node, fill), kind
            m.v[name][ind] = val if (ow or not known) else m.v[name][ind] + val
            if pos:
                m.v[name][ind] = np.maximum(0.0, m.v[name][ind])
            kw = {"isfacedata": kind == "face"} if form == 0 else {}
            if fill:
                kw["fill_value"] = fill
            if not known and rng.random() < 0.5:
                kw.update(long_name=f"long {name}", units="m")
            v.add_data(name=name, data=x, overwrite=ow, positive_only=pos, **kw)
            m.compare(c, "add_data", scope=sc, form=form, known=known, overwrite=ow, positive=pos)
            if "units" in kw:
                a = s.uxds[name].attrs
                c.check(a.get("long_name") == f"long {name}" and a.get("units") == "m", "a new variable does not carry its name and units", got=str(a))
            if keep is not None:
                c.check(np.array_equal(keep, x), "add_data changed the caller's array")
            g = getattr(v, name)
            c.check(np.allclose(g, m.v[name][ind]), "a variable read through its region is not that part of the surface", name=name, scope=sc)
            c.seen(op, sc, kind, form, known, ow, pos)
        elif op == "elev":
            form = int(rng.integers(4))
            fe, ne = rng.normal(0, 99, len(f)), rng.normal(0, 99, len(n))
            skip = {}

            def put(name, ind, x):
                m.v[name][ind] = x if ow else m.v[name][ind] + x

            if form == 0:
                x = float(rng.normal(0, 99))
                put("face_elevation", f, x)
                put("node_elevation", n, x)
            elif form == 1:
                x = fe
                put("face_elevation", f, fe)
                interpolate(s, m, nfc, f, n, skip)
            elif form == 2:
                x = ne
                put("node_elevation", n, ne)
            else:
                x = np.concatenate([fe, ne])
                put("face_elevation", f, fe)
                put("node_elevation", n, ne)
            if rng.random() < 0.3 and form:
                x = x.tolist()
            v.update_elevation(x, overwrite=ow)
            m.compare(c, "update_elevation", skip=skip, scope=sc, form=form, overwrite=ow)
            c.seen(op, sc, form, ow)
        elif op == "interp":
            skip = {}
            interpolate(s, m, nfc, f, n, skip)
            v.interpolate_node_elevation_from_faces()
            m.compare(c, "interpolate_node_elevation_from_faces", skip=skip, scope=sc)
            c.seen(op, sc)
        else:
            bad = rng.normal(size=int(rng.choice([len(f) + 1, len(n) + 1, len(f) + len(n) + 1, 2, 3])))
            if bad.size in (len(f), len(n), len(f) + len(n), 1):
                continue
            which = int(rng.integers(3))
            if which == 0:
                c.raises(lambda: v.update_elevation(bad), "an elevation of the wrong size is accepted", exc=ValueError, size=bad.size, faces=len(f), nodes=len(n))
            elif bad.size != 1:
                nm = str(rng.choice(["alpha", "face_elevation", "fresh"]))
                c.raises(lambda: v.add_data(name=nm, data=bad), "data of the wrong size are accepted", exc=ValueError, size=bad.size, faces=len(f), nodes=len(n))
            m.compare(c, "after a refused update", scope=sc, which=which)
            c.seen(op, sc, which)


def interpolate(s, m, nfc, f, n, skip):
    """Area-weighted mean of the adjacent faces; nodes at the border of a region see only some of theirs."""
    fs = np.zeros(s.n_face, bool)
    fs[f] = True
    border = []
    for k in n:
        a = nfc[k][nfc[k] >= 0]
        if fs[a].all():
            m.v["node_elevation"][k] = np.sum(m.v["face_elevation"][a] * s.face_area[a]) / np.sum(s.face_area[a])
        else:
            border.append(int(k))
    if border:
        skip["node_elevation"] = np.array(border)


def kinds_mixed(c):
    """A scalar or an array never lands on elements of the other kind."""
    rng = c.rng
    s = new_surface(c, rng)
    m = Model(s)
    el = rng.normal(0, 10, s.n_face + s.n_node)
    s.update_elevation(el, overwrite=True)
    m.v["face_elevation"], m.v["node_elevation"] = el[: s.n_face].copy(), el[s.n_face :].copy()
    for _ in range(6):
        v, f, n, sc = scope(c, rng, s)
        if len(f) == len(n):
            continue
        what = int(rng.integers(4))
        if what == 0:  # scalars go to the elements the variable is defined on
            x = float(rng.normal())
            v.add_data(name="node_elevation", data=x)
            m.v["node_elevation"][n] += x
        elif what == 1:
            x = float(rng.normal())
            v.add_data(name="face_elevation", data=x, isfacedata=False)
            m.v["face_elevation"][f] += x
        elif what == 2:
            c.raises(lambda: v.add_data(name="face_elevation", data=rng.normal(size=len(n))), "node data are accepted for a face variable", exc=ValueError, scope=sc)
        else:
            c.raises(lambda: v.add_data(name="node_elevation", data=rng.normal(size=len(f))), "face data are accepted for a node variable", exc=ValueError, scope=sc)
        m.compare(c, "mixed kinds", scope=sc, what=what)
        c.seen(what, sc)


def tags(c):
    rng = c.rng
    s = new_surface(c, rng)
    sets = {"tag_a": [set() for _ in range(s.n_face)], "tag_b": [set() for _ in range(s.n_face)]}
    exist = set()
    before = {k: np.array(s.uxds[k].values) for k in s.uxds.data_vars}
    pool = [int(x) for x in rng.integers(1, 2**32, 40, dtype=np.uint64)] + [1, 2**32 - 1]
    full = 0
    for step in range(30):
        name = str(rng.choice(["tag_a", "tag_a", "tag_b"]))
        v, f, n, sc = scope(c, rng, s)
        cur = sets[name]
        op = str(rng.choice(["add", "add", "add", "add", "remove", "sort", "reset"], p=[0.2, 0.2, 0.2, 0.15, 0.17, 0.05, 0.03]))
        if op != "add" and name not in exist and op != "reset":
            if op == "remove":
                c.raises(lambda: v.remove_tag(name=name, tag=5), "removing a tag that does not exist is accepted", exc=ValueError)
            continue
        over = {}
        if op == "add":
            t = pool[int(rng.integers(len(pool)))]
            if any(t in cur[i] for i in f):
                continue
            over = {i: set(cur[i]) for i in f if len(cur[i]) >= LAYERS}
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                v.add_tag(name=name, tag=t, long_name="ids" if rng.random() < 0.5 else None)
            exist.add(name)
            for i in f:
                cur[i].add(t)
        elif op == "remove":
            present = sorted(set().union(*[cur[i] for i in f]))
            t = present[int(rng.integers(len(present)))] if present and rng.random() < 0.85 else 77777
            v.remove_tag(name=name, tag=t)
            for i in f:
                cur[i].discard(t)
        elif op == "sort":
            w = v if sc == "region" else s.extract_region((0, 0), 1e8)
            w.sort_tags(name=name)
        else:
            v.add_tag(name=name, tag=None)
            exist.add(name)
            for i in range(s.n_face):
                cur[i].clear()
        got = np.asarray(s.uxds[name].values)
        c.check(got.shape == (s.n_face, LAYERS) and got.dtype == np.uint32, "tags are not stored as eight layers of 32-bit ids", shape=got.shape, dtype=str(got.dtype))
        bad = None
        for i in range(s.n_face):
            g = [int(x) for x in got[i] if x]
            if i in over:  # one of the old tags of a full face had to go; the new one is there
                full += 1
                ok = len(g) == len(set(g)) and t in g and set(g) <= cur[i] and len(g) >= 1
                cur[i] = set(g)
            else:
                ok = len(g) == len(set(g)) and set(g) == cur[i]
            if not ok and bad is None:
                bad = (i, sorted(g), sorted(cur[i]))
                cur[i] = set(g)
        c.check(bad is None, f"{op}: the tags of a face are not those put there", at=bad, scope=sc, tag=t if op in ("add", "remove") else None)
        other = "tag_b" if name == "tag_a" else "tag_a"
        if other in exist:
            o = np.asarray(s.uxds[other].values)
            c.check(all({int(x) for x in o[i] if x} == sets[other][i] for i in range(s.n_face)), f"{op}: another tag variable changed", scope=sc)
        c.seen(op, sc, max(map(len, cur)))
    for k, a in before.items():
        c.check(np.array_equal(a, s.uxds[k].values), "tagging changed another variable", name=k)
    c.note(full_faces=full)


def processes(c):
    """Noise, diffusion and slope collapse change elevations without adding or removing volume, and only in their region."""
    rng = c.rng
    s = new_surface(c, rng)
    A = s.face_area
    el = rng.normal(0, 2000, s.n_face + s.n_node)
    s.update_elevation(el[: s.n_face], overwrite=True)
    for _ in range(4):
        v, f, n, sc = scope(c, rng, s)
        fe, ne = np.array(s.face_elevation), np.array(s.node_elevation)
        ej = np.array(s.ejecta_thickness) if "ejecta_thickness" in s.uxds else np.zeros(s.n_face)
        op = str(rng.choice(["noise", "diffuse", "slope", "angle"]))
        if op == "noise":
            v.apply_noise(noise_width=float(10 ** rng.uniform(5, 6.5)), noise_height=float(10 ** rng.uniform(0, 4)))
        elif op == "diffuse":
            k = float(10 ** rng.uniform(6, 9))
            v.apply_diffusion(k if rng.random() < 0.5 else k * rng.uniform(0, 1, len(f)))
        elif op == "slope":
            v.slope_collapse(float(rng.uniform(1, 40)))
        else:
            a = v.compute_slope()
            c.check(np.shape(a) == (len(f),) and np.all(a >= 0) and np.all(a < 90), "slopes are not angles of the faces", shape=np.shape(a), scope=sc)
        fe2, ne2 = np.array(s.face_elevation), np.array(s.node_elevation)
        out_f, out_n = np.setdiff1d(np.arange(s.n_face), f), np.setdiff1d(np.arange(s.n_node), n)
        c.check(np.array_equal(fe[out_f], fe2[out_f]) and np.array_equal(ne[out_n], ne2[out_n]), f"{op}: the surface changed outside the region", scope=sc)
        d = float(np.sum((fe2 - fe) * A))
        scale = float(np.sum(np.abs(fe2 - fe) * A)) + 1e-9 * float(np.sum(np.abs(fe) * A))
        c.check(abs(d) <= 1e-6 * scale, f"{op}: volume is not conserved", change=d, scale=scale, scope=sc)
        c.check(np.all(np.isfinite(fe2)) and np.all(np.isfinite(ne2)), f"{op}: elevations are not finite", scope=sc)
        if op in ("diffuse", "slope"):
            ej2 = np.array(s.ejecta_thickness)
            c.check(np.allclose(ej2[f], np.maximum(0, ej[f] + (fe2 - fe)[f]), atol=1e-6, rtol=1e-9) and np.array_equal(ej2[out_f], ej[out_f]), f"{op}: moved material is not accounted for in the regolith thickness", scope=sc)
        if op == "diffuse":
            c.check(fe2[f].max() <= fe[f].max() + 1e-6 and fe2[f].min() >= fe[f].min() - 1e-6, "diffusion made new extremes", scope=sc)
        if op == "angle":
            c.check(np.array_equal(fe, fe2) and np.array_equal(ne, ne2), "computing the slope changed the surface")
        c.seen(op, sc)


SCENARIOS = [("data", data, 24, 800), ("kinds_mixed", kinds_mixed, 12, 200), ("tags", tags, 20, 500), ("processes", processes, 16, 300)]
