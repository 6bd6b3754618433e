"""P27: plots, rasters and labels show the requested interval, variable and craters, in place."""
import contextlib
import math
import re
from pathlib import Path

import numpy as np

from lib import geo
from lib.simkit import make_sim

PROPERTY = "P27"
TECHNIQUE = "observation of the produced artifacts: the arrays, extents, outlines and texts of the figures, the pixels of rasters and GeoTIFF files and the written image files are compared with an independent lookup of the saved mesh data"
RULE = "random terrains with several saved intervals, global and local views, variables, styles, intervals (current, saved, latest), labels, crater kinds and image options; a state is (artifact, view, style, interval, options)."


def loc(rng, top=70):
    return float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1) * math.sin(math.radians(top)))))


def world(c, rng, n=3, level=None, **kw):
    """A simulation with n saved intervals of different terrain."""
    level = int(rng.integers(2, 4)) if level is None else level
    sim = make_sim(c, "s", gridlevel=level, rng_seed=int(rng.integers(1 << 30)), save_actions=None, do_subpixel_degradation=False, **kw)
    s = sim.surface
    data = []
    for i in range(n):
        f = rng.normal(0, 100, s.n_face)
        s.update_elevation(np.concatenate([f, rng.normal(0, 100, s.n_node)]), overwrite=True)
        s.add_data(name="albedo", data=rng.uniform(0, 1, s.n_face), long_name="albedo of faces", units="none", isfacedata=True, overwrite=True)
        sim.interval = i
        tv = {"time": 1000.0 - 100 * i, "elapsed_time": 100.0 * i, "elapsed_n1": 7.5 * i}
        s.save(interval=i, time_variables=tv)
        data.append({"face_elevation": np.array(s.face_elevation), "albedo": np.array(s.uxds["albedo"].values), **tv})
    return sim, s, data


def lonlat_xyz(lon, lat):
    return geo.unit(lon, lat) if hasattr(geo, "unit") else None


def nearest(s, lon, lat, k=4):
    """The k nearest face centres of every point and their distances in radians."""
    from scipy.spatial import cKDTree

    t = cKDTree(geo.unit(np.asarray(s.face_lon), np.asarray(s.face_lat)))
    d, i = t.query(geo.unit(np.ravel(lon), np.ravel(lat)), k=k)
    return d, i


def check_raster(c, s, arr, extent, values, what, local=None, **info):
    """Every pixel (away from the poles and the antimeridian) has the value of a face that reaches it."""
    H, W = arr.shape
    x0, x1, y0, y1 = extent
    x = x0 + (np.arange(W) + 0.5) * (x1 - x0) / W
    y = y1 - (np.arange(H) + 0.5) * (y1 - y0) / H
    X, Y = np.meshgrid(x, y)
    half = 0.5 * math.hypot((x1 - x0) / W, (y1 - y0) / H)  # a pixel has the value of one of the faces that touch it
    if local is None:
        lon, lat = X, Y
        use = (np.abs(lat) < 55) & (np.abs(lon) < 170)
        half = math.radians(half)
    else:
        (lon0, lat0), R = local["location"], s.target.radius
        r = np.hypot(X, Y)
        use = r < local["radius"] * 0.85
        d, b = 2 * np.arcsin(np.minimum(r / (2 * R), 1.0)), np.arctan2(X, Y)  # a local view is in the equal-area projection about its centre
        la = math.radians(lat0)
        lat = np.arcsin(np.clip(math.sin(la) * np.cos(d) + math.cos(la) * np.sin(d) * np.cos(b), -1, 1))
        lon = np.degrees(math.radians(lon0) + np.arctan2(np.sin(b) * np.sin(d) * math.cos(la), np.cos(d) - math.sin(la) * np.sin(lat)))
        lat = np.degrees(lat)
        half /= R
    if use.sum() < 4:
        return
    reach = half + 0.85 * math.sqrt(float(np.max(s.face_area))) / s.target.radius
    d, i = nearest(s, lon[use], lat[use], k=min(40, s.n_face))
    got = arr[use]
    ok = np.isfinite(got)
    c.check(ok.mean() > 0.97, f"{what}: pixels are missing", missing=float(1 - ok.mean()), **info)
    hit = (np.isclose(values[i], got[:, None], rtol=1e-5, atol=1e-6) & (d <= reach)).any(axis=1)[ok]
    c.check(hit.mean() > 0.995, f"{what}: a pixel does not have the value of a face that reaches it", fraction=float(hit.mean()), n=int(ok.sum()), **info)


def view_of(rng, s, kind):
    if kind == "global":
        return s, None
    for _ in range(20):
        p = loc(rng)
        rad = float(rng.uniform(6, 12)) * math.sqrt(float(np.mean(s.face_area)))
        reg = s.extract_region(p, min(rad, 0.4 * math.pi * s.target.radius))
        if reg is not None:
            return reg, {"location": p, "radius": reg.region_radius, "area": np.asarray(reg.face_area)}
    raise AssertionError("no region")


def rasters(c):
    """A raster holds the values of the faces where they are, whatever the view and the variable; a GeoTIFF holds that raster."""
    rng = c.rng
    sim, s, data = world(c, rng, n=2)
    kind = ["global", "local"][c.index % 2]
    v, local = view_of(rng, s, kind)
    var = str(rng.choice(["face_elevation", "albedo"]))
    from_file = bool(rng.random() < 0.5)
    uxda = None
    want = data[1][var]
    if from_file:
        k = int(rng.integers(2))
        uxda, want = v.read_saved_output(interval=k).sel(interval=k)[var].load(), data[k][var]
    elif var != "face_elevation":
        uxda = v.uxds[var].load()
    how = uxda if uxda is not None and (from_file or rng.random() < 0.5) else var if var != "face_elevation" or rng.random() < 0.5 else None
    arr, extent, transform, crs = v.to_raster(how) if how is not None else v.to_raster()
    W, H = v.get_raster_dims()
    c.check(arr.shape == (H, W), "a raster has other dimensions than announced", got=arr.shape, want=(H, W))
    c.check(extent[0] < extent[1] and extent[2] < extent[3], "the extent of a raster is inverted", extent=extent)
    if local is None:
        c.check(extent == (-180.0, 180.0, -90.0, 90.0), "a raster of the whole body has another extent", extent=extent)
    else:
        c.check(math.isclose(-extent[0], extent[1]) and math.isclose(-extent[2], extent[3]) and extent[1] >= local["radius"], "a local raster is not centred on its region", extent=extent)
    for row, col in ((0, 0), (H, W), (0, W), (H / 2, W / 2)):
        c.close(transform * (col, row), (extent[0] + col * (extent[1] - extent[0]) / W, extent[3] - row * (extent[3] - extent[2]) / H), "the transform of a raster does not map its pixels onto its extent", rtol=1e-9, atol=1e-6 * extent[1])
    check_raster(c, s, arr, extent, want, "raster", local, kind=kind, var=var, from_file=from_file)
    if kind == "global":
        import rasterio

        k = int(rng.integers(2))
        with contextlib.redirect_stdout(None):
            s.to_geotiff_file(interval=k, variable_name=var)
        with rasterio.open(Path(s.export_dir) / f"surface{k:06d}.tif") as ds:
            t = ds.read(1)
            c.check(ds.count == 1 and ds.crs is not None, "a GeoTIFF has one band and a reference system")
            e = (ds.bounds.left, ds.bounds.right, ds.bounds.bottom, ds.bounds.top)
        check_raster(c, s, t, e, data[k][var], "GeoTIFF", None, var=var, k=k)
    c.seen("raster", kind, var, from_file)


def texts(ax):
    return [t.get_text() for t in ax.texts]


def surface_plots(c):
    """A plot of the surface shows the variable of the interval over the whole extent, with the label, and is saved under the interval."""
    import matplotlib.pyplot as plt

    rng = c.rng
    sim, s, data = world(c, rng, n=3)
    kind = "global" if rng.random() < 0.6 else "local"
    v, local = view_of(rng, s, kind)
    style = str(rng.choice(["map", "map", "hillshade"]))
    var = [None, "face_elevation", "albedo"][int(rng.integers(3))]
    interval = [None, 0, 1, 2][int(rng.integers(4))]
    label = [None, "some label 12"][int(rng.integers(2))]
    save = bool(rng.random() < 0.5)
    width = [800, None, 300.0][int(rng.integers(3))]
    colorbar = bool(rng.random() < 0.5)
    close = bool(rng.random() < 0.5)
    info = dict(kind=kind, style=style, var=var, interval=interval, save=save, width=width, close=close)
    given = c.dir("pics") / "my picture.png" if save and rng.random() < 0.4 else None
    before = set(Path(v.plot_dir).glob("*"))
    own_ax = None
    if rng.random() < 0.3:
        _, own_ax = plt.subplots()
    more = {} if given is None else {"filename": given}
    if given is not None:
        given.parent.mkdir(parents=True, exist_ok=True)
        save = bool(rng.random() < 0.5)  # a name alone asks for the file
    ax = v.plot(**more, plot_style=style, variable_name=var, interval=interval, label=label, show=False, save=save, colorbar=colorbar, ax=own_ax, close_when_done=close, minimum_plot_width=width)
    c.check(own_ax is None or ax is own_ax, "a plot is not drawn on the axes given", **info)
    c.check(plt.fignum_exists(ax.figure.number) == (not close) or (close and not save and given is None), "a figure is left open, or closed, against close_when_done", **info)
    c.check(len(ax.images) == 1, "a plot does not hold one image", n=len(ax.images), **info)
    im = ax.images[0]
    shown = np.ma.filled(np.ma.masked_invalid(im.get_array()).astype(float), np.nan)
    k = 2 if interval is None else interval
    if style == "map":
        check_raster(c, s, shown, im.get_extent(), data[k][var or "face_elevation"], "map", local, **info)
        lo, hi = im.get_clim()
        c.close((lo, hi), (np.nanmin(shown), np.nanmax(shown)), "the colours do not span the values shown", rtol=1e-6, **info)
    else:
        c.check(shown.shape[:2] == v.get_raster_dims()[::-1], "a hillshade has other dimensions than the raster", got=shown.shape, **info)
        c.check(np.isfinite(shown).any() or min(shown.shape[:2]) < 20, "a hillshade shows nothing", **info)
    c.check((label in texts(ax)) if label else not any("label" in t for t in texts(ax)), "the label is not the one asked for", got=texts(ax), **info)
    new = {p.name for p in set(Path(v.plot_dir).glob("*")) - before}
    prefix = "surface" if kind == "global" else "local_surface"
    name = f"{prefix}_{style}" + (f"_{var}" if var else "_face_elevation" if style == "map" else "") + (f"{interval:06d}" if interval is not None else "") + ".png"
    if given is not None:
        c.check(given.exists() and given.read_bytes()[:4] == b"\x89PNG", "the image is not saved to the file given", save_given=save, **info)
    c.check(new == ({name} if save and given is None else set()), "the image file is not the one of the interval and variable", got=sorted(new), want=name if save else None, **info)
    for bad in (dict(variable_name="nope"), dict(plot_style="nope")):
        c.raises(lambda: v.plot(show=False, save=False, **bad), "an unknown variable or style is plotted", exc=ValueError, bad=bad)
    plt.close("all")
    c.seen("plot", kind, style, var, interval is None, save, width)


def crater_sim(c, rng, n=3):
    quiet = int(rng.integers(1, n + 1))  # nothing is emplaced during one interval, perhaps the last
    sim = make_sim(c, "s", gridlevel=4, rng_seed=int(rng.integers(1 << 30)), save_actions=None, do_subpixel_degradation=False)
    per = []
    for i in range(n):
        sim.interval = i
        sim.counting.emplaced.clear()
        for _ in range(int(rng.integers(1, 4)) if i != quiet else 0):
            lon, lat = float(rng.uniform(-120, 120)), float(rng.uniform(-40, 40))
            sim.emplace(diameter=float(rng.uniform(9e5, 1.6e6)), location=(lon, lat))
        per.append({"emplaced": [(x.id, x.location, x.diameter) for x in sim.emplaced], "observed": {k: x for k, x in sim.observed.items()}})
        sim.save()
    return sim, per


def centres(coll):
    return [p.vertices for p in coll.get_paths()]


def crater_plots(c):
    """A plot of the counts outlines the craters of the kind and interval asked for, at their places, in the colour asked for."""
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    rng = c.rng
    sim, per = crater_sim(c, rng)
    cnt = sim.counting
    colors = {"observed_color": "red", "observed_original_color": "blue", "emplaced_color": "lime"}
    on = {k: bool(rng.random() < 0.6) for k in colors}
    interval = [None, 0, 1, 2][c.index % 4]
    via = "sim" if rng.random() < 0.4 and interval is not None else "counting"
    kw = {k: (v if on[k] else None) for k, v in colors.items()}
    k = 2 if interval is None else interval
    if via == "sim":
        ax = sim.plot(interval=interval, include_counting=True, show=False, save=False, close_when_done=False, label=None, plot_style="hillshade", **kw)
    else:
        ax = cnt.plot(interval=interval, show=False, save=False, close_when_done=False, plot_style="map", **kw)
    info = dict(interval=interval, on=on, via=via)
    got = {}
    for coll in ax.collections:
        ec = coll.get_edgecolor()
        for name, col in colors.items():
            if len(ec) and np.allclose(ec[0], to_rgba(col)):
                got.setdefault(name, []).extend(p.vertices for p in coll.get_paths())
    for name in colors:
        want = per[k]["emplaced"] if name == "emplaced_color" else list(per[k]["observed"])
        c.check((len(got.get(name, [])) >= len(want) if on[name] else not got.get(name)), "the outlines drawn are not those of the craters asked for", name=name, got=len(got.get(name, [])), want=len(want), **info)
        if on[name] and name == "emplaced_color":
            for _id, l, d in want:
                r = math.degrees(0.5 * d / sim.target.radius)
                best = min((abs((v[:, 1].max() + v[:, 1].min()) / 2 - l[1]) for v in got[name]), default=9e9)
                c.check(best < 0.15 * r + 3.0 if abs(l[1]) + r < 80 else True, "no outline is drawn where a crater is", crater=l, best=best, **info)
                top = min((abs(v[:, 1].max() - (l[1] + r)) for v in got[name]), default=9e9)
                c.check(top < 0.05 * r if abs(l[1]) + r < 80 else True, "an outline does not have the size of its crater", crater=l, r=r, best=top, **info)
            c.check(abs(len(got.get(name, [])) - len(want)) <= len(want), "more outlines are drawn than there are craters", got=len(got.get(name, [])), want=len(want), **info)
    plt.close("all")
    c.seen("craters", interval, tuple(on.values()), via)


def labels(c):
    """A label gives the age, time and crater number of its interval."""
    rng = c.rng
    sim, s, data = world(c, rng, n=3, level=2)
    n = int(rng.integers(2, 5))
    step = float(rng.uniform(20, 300))
    start = float(rng.uniform(n * step + 1, 4000)) if n * step < 3900 else n * step
    sim = make_sim(c, "r", gridlevel=2, rng_seed=int(rng.integers(1 << 30)), save_actions=None)
    sim.run(time_start=start, time_end=start - n * step, time_interval=step)
    for k in [None, *range(n + 1)]:
        kk = n if k is None else k
        age, time = kk * step, start - kk * step
        n1 = float(sim.production.function(diameter=1e3, time_start=start, time_end=start - kk * step)) if kk else 0.0
        kw = {x: bool(rng.random() < 0.6) for x in ("interval_label", "time_label", "age_label", "N_label", "compact")}
        dv = [None, 1.0, 20.0, 64.0, 300.0][int(rng.integers(5))]
        lab = sim.labelmaker(interval=k, N_diam_val=dv, **kw)
        parts = [p for p in re.split(r"\n|   ", lab) if p]
        got = {p.split(":")[0].strip(): p.split(":", 1)[1].strip() for p in parts}
        keys = {"Interval": kw["interval_label"], "Time": kw["time_label"], "Age": kw["age_label"]}
        info = dict(label=lab, k=k, age=age, time=time, **kw)
        c.check({x for x in got if x in keys} == {x for x, on in keys.items() if on}, "a label holds other items than asked for", **info)
        c.check((len(parts) <= 1) or (("\n" in lab) == kw["compact"]), "the items of a label are not separated as asked", **info)
        if kw["interval_label"]:
            c.check(got["Interval"] == str(kk), "a label gives another interval", **info)
        if kw["time_label"]:
            m = re.fullmatch(r"(-?\d+) My bp", got["Time"])
            c.check(bool(m) and abs(float(m.group(1)) - time) <= 0.5001 + 1e-6 * start, "a label gives another time", **info)
        if kw["age_label"]:
            m = re.fullmatch(r"(-?\d+) My", got["Age"])
            c.check(bool(m) and abs(float(m.group(1)) - age) <= 0.5001 + 1e-6 * start, "a label gives another age", **info)
        nk = [x for x in got if x.startswith("Elapsed N(")]
        c.check(len(nk) == (1 if kw["N_label"] else 0), "a label holds other items than asked for", **info)
        if kw["N_label"]:
            D = float(re.search(r"\((\d+)\)", nk[0]).group(1))
            c.check(dv is None or D == dv, "a label gives N for another diameter", **info)
            val = float(got[nk[0]].split()[0])
            want = n1 * float(sim.production.csfd(diameter=D * 1e3)) / float(sim.production.csfd(diameter=1e3)) * 1e12
            c.close(val, want, "a label gives another crater number", rtol=2e-3, **info)
        c.seen("label", k is None, kk == 0, tuple(kw.values()), dv)


SCENARIOS = [
    ("rasters", rasters, 10, 100),
    ("surface_plots", surface_plots, 20, 240),
    ("crater_plots", crater_plots, 12, 120),
    ("labels", labels, 6, 60),
]
