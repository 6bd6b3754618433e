"""P29: elevation rasters end up at their places, in meters, and nowhere else."""
import math
import os
import re
import shutil
from pathlib import Path

import numpy as np

from checks.p28 import body, idx
from lib.geo import central_angle

PROPERTY = "P29"
TECHNIQUE = "reference lookup of every face and node in generated GeoTIFFs (coded pixels, so that the pixel used is identified), comparison with analytic terrains, scripted histories of reopening"
RULE = "GeoTIFFs over extent, resolution, projection (geographic, equidistant with any meridian), data type, block layout, units, missing data and overlap, on whole and local surfaces; a state is (surface kind, rasters, projections, types, units, missing data)."


def write(path, arr, crs, x0, y1, res, nodata=None, units=None, dtype="float64", block=None):
    import rasterio
    from rasterio.transform import from_origin

    more = {"tiled": True, "blockxsize": block, "blockysize": block} if block else {}
    with rasterio.open(path, "w", driver="GTiff", width=arr.shape[1], height=arr.shape[0], count=1, dtype=dtype, crs=crs, transform=from_origin(x0, y1, res, res), nodata=nodata, **more) as ds:
        ds.write(arr.astype(dtype), 1)
        if units:
            ds.units = (units,)
    return str(path)


class Raster:
    """A generated raster and the lookup of a place in it, written from the definition of its projection."""

    def __init__(self, rng, s, path, base, local=None):
        R = s.radius
        m = R * math.pi / 180
        self.proj = str(rng.choice(["geo", "eqc", "eqc"]))
        self.lonc = 0.0 if self.proj == "geo" else float(rng.choice([0.0, 180.0, 90.0, rng.uniform(-180, 180)]))
        if local is not None and rng.random() < 0.7:
            loc, ang = local
            deg = math.degrees(ang)
            half = min(deg / max(math.cos(math.radians(loc[1])), 0.05), 175) * float(rng.uniform(0.5, 1.5))
            lon = math.remainder(loc[0] - self.lonc, 360)
            self.x0, self.x1 = max(-180, lon - half), min(180, lon + half)
            self.y0, self.y1 = max(-90, loc[1] - deg * float(rng.uniform(0.3, 1.3))), min(90, loc[1] + deg * float(rng.uniform(0.3, 1.3)))
            want = max(0.2, deg / float(rng.uniform(4, 30)))
        elif rng.random() < 0.4:
            self.x0, self.x1, self.y0, self.y1 = -180.0, 180.0, -90.0, 90.0
            want = float(rng.uniform(1.5, 12))
        else:
            self.x0 = float(rng.uniform(-180, 100))
            self.x1 = float(rng.uniform(self.x0 + 20, 180))
            self.y0 = float(rng.uniform(-90, 40))
            self.y1 = float(rng.uniform(self.y0 + 20, 90))
            want = float(rng.uniform(0.8, 10))
        self.w = max(1, int((self.x1 - self.x0) / want))
        self.res = (self.x1 - self.x0) / self.w
        self.h = max(1, int((self.y1 - self.y0) / self.res))
        self.dtype = str(rng.choice(["float32", "float64", "int16", "int32"]))
        self.units = [None, "METER", "KILOMETER"][int(rng.integers(3))]
        self.k = 1000.0 if self.units == "KILOMETER" else 1.0
        isint = self.dtype.startswith("int")
        self.nodata = [None, -9999, -32768, 0][int(rng.integers(4))] if isint else [None, -9999.0, math.nan, 0.0][int(rng.integers(4))]
        code = base + rng.permutation(self.w * self.h).reshape(self.h, self.w) % (25000 if isint else 10**6)
        self.val = code.astype(float) if isint or rng.random() < 0.5 else code / 8.0
        if self.dtype == "int16":
            self.val = np.mod(self.val, 30000) + 1
        if self.dtype == "float32":
            self.val = np.mod(self.val, 10**5)
        hole = np.zeros(self.val.shape, bool)
        if self.nodata is not None and rng.random() < 0.7:
            hole = rng.random(self.val.shape) < 0.2
            self.val[hole] = self.nodata
        if self.nodata is not None:
            hole |= self.val == self.nodata
        if not isint and rng.random() < 0.3:
            nan = rng.random(self.val.shape) < 0.1
            self.val[nan] = math.nan
        hole |= ~np.isfinite(self.val)
        self.hole = hole
        k = 1.0 if self.proj == "geo" else m
        crs = s.crs.to_wkt() if self.proj == "geo" else f"+proj=eqc +lat_ts=0 +lat_0=0 +lon_0={self.lonc!r} +x_0=0 +y_0=0 +R={R!r} +units=m +no_defs"
        self.path = write(path, self.val, crs, self.x0 * k, self.y1 * k, self.res * k, self.nodata, self.units, self.dtype, [None, 16, 32][int(rng.integers(3))])
        self.key = (self.proj, self.dtype, self.units, str(self.nodata), bool(hole.any()))

    def lookup(self, p):
        """Distance of each place to the pixel that holds it (inf: none), its value in meters, and places too close to a pixel border to tell."""
        x = np.vectorize(lambda v: math.remainder(v - self.lonc, 360))(p[:, 0])
        col, row = (x - self.x0) / self.res, (self.y1 - p[:, 1]) / self.res
        eps = 1e-7
        vague = (np.abs(col - np.round(col)) < eps) | (np.abs(row - np.round(row)) < eps) | (np.abs(np.abs(x) - 180) < eps)
        vague &= (col > -1) & (col < self.w + 1) & (row > -1) & (row < self.h + 1) | (np.abs(np.abs(x) - 180) < eps)
        i, j = np.floor(row).astype(int), np.floor(col).astype(int)
        ok = (i >= 0) & (i < self.h) & (j >= 0) & (j < self.w)
        ii, jj = np.clip(i, 0, self.h - 1), np.clip(j, 0, self.w - 1)
        ok &= ~self.hole[ii, jj]
        c = np.stack([self.x0 + (jj + 0.5) * self.res + self.lonc, self.y1 - (ii + 0.5) * self.res], 1)
        return np.where(ok, central_angle(p, c), np.inf), np.where(ok, np.nan_to_num(self.val[ii, jj]) * self.k, 0), vague


def expected(rasters, p):
    d = np.full((len(rasters) + 1, len(p)), np.inf)
    v = np.zeros_like(d)
    vague = np.zeros(len(p), bool)
    for n, r in enumerate(rasters):
        d[n], v[n], g = r.lookup(p)
        vague |= g
    o = np.sort(d, axis=0)
    if len(rasters) > 1:
        with np.errstate(invalid="ignore"):
            vague |= (o[1] - o[0] < 1e-9) & np.isfinite(o[1])
    best = np.argmin(d, axis=0)
    q = np.arange(len(p))
    return np.where(np.isfinite(d[best, q]), v[best, q], 0.0), vague


def surface(c, rng):
    import cratermaker as cm

    R = float(rng.uniform(2e5, 7e6))
    s = cm.Surface.maker("icosphere", gridlevel=int(rng.integers(2, 4)), target=body(R), simdir=c.dir("s"), ask_overwrite=False)
    return s, R


def composer(c):
    """Faces and nodes get the value of the nearest valid pixel, added to what they had; others keep theirs."""
    import rasterio

    rng = c.rng
    s, R = surface(c, rng)
    for step in range(3):
        e0 = rng.normal(0, 50, s.n_face + s.n_node) if rng.random() < 0.6 else np.zeros(s.n_face + s.n_node)
        s.update_elevation(e0, overwrite=True)
        e0 = np.concatenate([s.face_elevation, s.node_elevation])
        local = None
        v = s
        if rng.random() < 0.5:
            ang = float(rng.uniform(0.3, 1.2))
            local = ((float(rng.choice([180.0, 0.0, rng.uniform(-180, 180)])), float(rng.choice([90.0, -85.0, rng.uniform(-70, 70)]))), ang)
            v = s.extract_region(local[0], ang * R)
        rs = [Raster(rng, s, c.tmp / f"r{step}_{n}.tif", 1 + 7 * n, local) for n in range(int(rng.integers(1, 4)))]
        given = [rasterio.open(r.path) if rng.random() < 0.3 else r.path if rng.random() < 0.7 else Path(r.path) for r in rs]
        as_list = list(given)
        how = int(rng.integers(3))
        if how == 0:
            with v.data_composer() as dc:
                dc.add_data(given)
        elif how == 1:
            with v.data_composer() as dc:
                for x in given:
                    dc.add_data(x)
                if rng.random() < 0.5:
                    dc.finish()
        else:
            dc = v.data_composer()
            dc.add_data(given)
            dc.finish()
        c.check(given == as_list, "adding a list of rasters changes the list")
        c.check(dc.finished is True, "a composer that applied its data is not finished")
        c.raises(lambda: dc.add_data(rs[0].path), "data added to a finished composer", ValueError)
        c.raises(lambda: dc.finish(), "a composer finished twice", ValueError)
        c.check(all(x.closed for x in given if not isinstance(x, (str, Path))), "a raster is left open")
        p = np.concatenate([np.stack([s.face_lon, s.face_lat], 1), np.stack([s.node_lon, s.node_lat], 1)])
        want, vague = expected(rs, p)
        inv = np.ones(len(p), bool)
        if local is not None:
            inv[:] = False
            inv[idx(v.face_indices, s.n_face)] = True
            inv[s.n_face + idx(v.node_indices, s.n_node)] = True
        want = np.where(inv, want, 0)
        got = np.concatenate([s.face_elevation, s.node_elevation]) - e0
        bad = (np.abs(got - want) > 1e-3 + 2e-6 * np.abs(want)) & ~(vague & inv)
        w = int(np.argmax(np.abs(got - want) * bad))
        c.check(not bad.any(), "an elevation is not that of the nearest pixel", n=int(bad.sum()), place=p[w], got=float(got[w]), want=float(want[w]), inside=bool(inv[w]), rasters=[r.key for r in rs], local=local)
        full = any(r.x0 == -180 and r.x1 == 180 and r.y0 == -90 and r.y1 == 90 and r.h * r.res > 180 - 1e-9 and not r.hole.any() for r in rs)
        lost = inv & (np.abs(got) < 1e-3) & full  # no pixel holds zero
        w = int(np.argmax(lost))
        c.check(not lost.any(), "a place gets no elevation from rasters that cover the whole body", n=int(lost.sum()), place=p[w], rasters=[r.key for r in rs], local=local)
        c.seen("composer", local is None, how, len(rs), [r.key for r in rs][:2])
    c.note(R=R, rasters=[r.key for r in rs], covered=int((want != 0).sum()))


def cancelled(c):
    """A composer that is cancelled, by hand or by an exception, changes nothing and releases its rasters."""
    import rasterio

    rng = c.rng
    s, R = surface(c, rng)
    s.update_elevation(rng.normal(0, 50, s.n_face + s.n_node), overwrite=True)
    e0 = np.concatenate([s.face_elevation, s.node_elevation])
    for step in range(4):
        v = s if rng.random() < 0.5 else s.extract_region((float(rng.uniform(-180, 180)), 20.0), 0.8 * R)
        r = Raster(rng, s, c.tmp / f"r{step}.tif", 1)
        ds = rasterio.open(r.path)
        kind = ["cancel", "raise", "badfile", "cancel in with"][step]
        dc = None
        try:
            if kind == "cancel":
                dc = v.data_composer()
                dc.add_data([ds, r.path])
                dc.cancel()
            else:
                with v.data_composer() as dc:
                    dc.add_data(ds)
                    if kind == "raise":
                        raise KeyError("stop")
                    if kind == "badfile":
                        dc.add_data([r.path, str(c.tmp / "none.tif")])
                    dc.cancel()
        except KeyError:
            c.check(kind == "raise", "an exception appears that was not raised")
        except rasterio.errors.RasterioIOError:
            c.check(kind == "badfile", "a file is missing that was not asked for")
        else:
            c.check(kind.startswith("cancel"), "an exception is swallowed", kind=kind)
        c.check(np.array_equal(np.concatenate([s.face_elevation, s.node_elevation]), e0), "a cancelled composer changes the surface", kind=kind)
        c.check(dc.finished is True and ds.closed, "a cancelled composer is not finished or leaves rasters open", kind=kind, finished=dc.finished, closed=ds.closed)
        c.raises(lambda: dc.add_data(r.path), "data added to a cancelled composer", ValueError)
        c.seen("cancelled", kind, v is s)
    c.note(R=R)


# ------------------------------------------------------------------ surfaces made from DEMs
def terrain(rng):
    a, b, d = (float(x) for x in rng.uniform(300, 1500, 3))

    def f(lo, la):
        lo, la = np.radians(lo), np.radians(la)
        return a * np.cos(lo) * np.cos(la) + b * np.sin(2 * lo) * np.cos(la) ** 2 + d * np.sin(la)

    return f, a + 2 * b + d


def eqc(path, R, res, fn, lonc=180.0, units=None, nodata=None, dtype="float32", hole=None):
    m = R * math.pi / 180
    w, h = int(round(360 / res)), int(round(180 / res))
    LO, LA = np.meshgrid(lonc - 180 + (np.arange(w) + 0.5) * res, 90 - (np.arange(h) + 0.5) * res)
    a = fn(LO, LA) / (1000.0 if units == "KILOMETER" else 1.0)
    if hole is not None:
        lo, la, r = hole
        a[central_angle(np.stack([LO, LA], -1), np.array([lo, la])) < r] = nodata
    crs = f"+proj=eqc +lat_ts=0 +lat_0=0 +lon_0={lonc!r} +x_0=0 +y_0=0 +R={R!r} +units=m +no_defs"
    return write(path, a, crs, -180 * m, 90 * m, res * m, nodata, units, dtype)


def dem_world(c, rng):
    R = 1737.4e3
    f, top = terrain(rng)
    loc = [(30.0, 20.0), (180.0, 10.0), (-179.0, -35.0), (0.0, 89.0), (40.0, -90.0), (float(rng.uniform(-180, 180)), float(rng.uniform(-75, 75)))][c.index % 6]
    lr = float(rng.uniform(2.2e5, 2.8e5))
    units = [None, "METER", "KILOMETER"][int(rng.integers(3))]
    dtype = "float32" if units == "KILOMETER" else str(rng.choice(["float32", "float64", "int16"]))
    # missing value of the file: bilinear interpolation spreads over one pixel around the hole
    nodata = [None, -32768 if dtype == "int16" else -9999.0][int(rng.integers(2))]
    lonc = float(rng.choice([180.0, 0.0]))
    lp = eqc(c.tmp / "local.tif", R, 1.0, f, lonc, units, nodata, dtype, hole=(loc[0], loc[1], 0.05) if nodata is not None and rng.random() < 0.5 else None)
    gh = (math.remainder(loc[0] + 150, 360), 20.0, 0.3) if nodata is not None and rng.random() < 0.5 else None
    gp = eqc(c.tmp / "global.tif", R, 2.0, f, float(rng.choice([180.0, 0.0])), units, nodata, dtype, hole=gh)
    kw = dict(local_radius=lr, local_location=loc, superdomain_scale_factor=20, dem_file_list=[lp], superdomain_dem_file=gp, target="Moon", simdir=c.dir("d"))
    return R, f, top, kw, dict(units=units, dtype=dtype, nodata=nodata, lonc=lonc, hole=gh), lp, gp


def errors(s, f):
    L = s.local
    fi, ni = idx(L.face_indices, s.n_face), idx(L.node_indices, s.n_node)
    ef, en = np.abs(s.face_elevation - f(s.face_lon, s.face_lat)), np.abs(s.node_elevation - f(s.node_lon, s.node_lat))
    of, on = np.ones(s.n_face, bool), np.ones(s.n_node, bool)
    of[fi] = False
    on[ni] = False
    return np.concatenate([ef[fi], en[ni]]), np.concatenate([ef[of], en[on]])


def dem(c):
    """A surface made from DEMs has their elevations, in meters, inside and outside of its region."""
    import cratermaker as cm

    rng = c.rng
    R, f, top, kw, how, lp, gp = dem_world(c, rng)
    s = cm.Surface.maker("datasurface", ask_overwrite=False, **kw)
    info = dict(loc=kw["local_location"], **how)
    c.check(np.isfinite(s.face_elevation).all() and np.isfinite(s.node_elevation).all(), "an elevation is not a number", **info)
    c.check(np.abs(s.face_elevation).max() < 1.5 * top and np.abs(s.node_elevation).max() < 1.5 * top, "an elevation is far out of the range of the DEM", got=float(np.abs(s.face_elevation).max()), top=top, **info)
    el, eg = errors(s, f)
    m = math.pi / 180
    tol_l, tol_g = 0.35 * top * m * 1.0, 1.6 * top * m * 2.0  # slopes times pixels: interpolated inside, the pixel's value outside
    L = s.local
    inner = np.concatenate([L.face_distance, L.node_distance]) < kw["local_radius"]
    hl = np.concatenate([L.face_distance, L.node_distance]) > (0.05 * R + 0.06 * R)  # away from a hole in the middle
    good = inner & (hl | (how["nodata"] is None))
    c.check((el[good] < tol_l + 1.0).all(), "a local elevation is not that of the DEM", n=int((el[good] >= tol_l + 1).sum()), worst=float(el[good].max()), tol=tol_l, **info)
    if how["hole"] is None:
        c.check((eg < tol_g + 1.0).all(), "an elevation of the superdomain is not that of its DEM", n=int((eg >= tol_g + 1).sum()), worst=float(eg.max()), tol=tol_g, **info)
    else:
        lo, la, r = how["hole"]
        of = np.ones(s.n_face, bool)
        of[idx(L.face_indices, s.n_face)] = False
        a = central_angle(np.stack([s.face_lon, s.face_lat], 1), np.array([lo, la]))
        e = np.abs(s.face_elevation - f(s.face_lon, s.face_lat))
        c.check((e[of & (a > r + 0.05)] < tol_g + 1).all(), "an elevation away from missing data is not that of its DEM", worst=float(e[of & (a > r + 0.05)].max()), tol=tol_g, **info)
        inh = s.face_elevation[of & (a < r - 0.05)]
        c.check(len(inh) == 0 or np.ptp(inh) < 1e-3 * top, "missing data are not replaced by one value", spread=float(np.ptp(inh)) if len(inh) else 0, **info)
    want = R * math.pi / 180 * 1.0
    c.close(s.pix, want, "the pixel size is not that of the finest DEM", rtol=1e-6, **info)
    c.check(s.ask_overwrite is False, "ask_overwrite changed")
    c.seen("dem", c.index % 6, how["units"], how["dtype"], how["nodata"] is None, how["hole"] is None)
    c.note(n_face=s.n_face, n_local=L.n_face, worst_local=float(el[good].max()), worst_global=float(eg.max()), tol=(tol_l, tol_g), **info)


def dem_reopen(c):
    """Reopening keeps what was saved; a reset brings back the DEM, even if the files have gone."""
    import cratermaker as cm

    rng = c.rng
    R, f, top, kw, how, lp, gp = dem_world(c, rng)
    s = cm.Surface.maker("datasurface", ask_overwrite=False, **kw)
    dem0 = np.concatenate([s.face_elevation, s.node_elevation])
    li = idx(s.local.face_indices, s.n_face)
    cur = dem0.copy()
    for step in range(4):
        op = ["reopen", "change", "reset", "remake"][int(rng.integers(4))] if step else "reopen"
        if op == "change":
            cur = cur + rng.normal(0, 20, len(cur))
            s.update_elevation(cur, overwrite=True)
            cur = np.concatenate([s.face_elevation, s.node_elevation])
            s.save(interval=step + 3)
            continue
        ask = bool(rng.random() < 0.4)
        if op == "reset":
            s.ask_overwrite = False
            s.reset()
            cur = dem0
        else:
            s = cm.Surface.maker("datasurface", ask_overwrite=ask and op == "reopen", reset=op == "remake", **kw)
            cur = dem0 if op == "remake" else cur
            c.check(s.ask_overwrite is (ask and op == "reopen"), "ask_overwrite is not as given", op=op)
        got = np.concatenate([s.face_elevation, s.node_elevation])
        if c.check(got.shape == cur.shape, "the mesh is another one when made again from the same DEMs", op=op, got=got.shape, want=cur.shape):
            c.check(np.allclose(got, cur, atol=1e-2), "elevations are not those saved" if op == "reopen" else "a reset does not bring back the elevations of the DEM", op=op, step=step, worst=float(np.abs(got - cur).max()))
            cur = got
        c.check(np.array_equal(idx(s.local.face_indices, s.n_face), li), "the local region is another one", op=op)
        c.seen("dem_reopen", op, ask, how["units"])
    c.note(n=s.n_face, **how)


# ------------------------------------------------------------------ choice of lunar files
def covers(url, lon, lat, res):
    """Whether the file of a name covers a place, from the naming rules of the archive."""
    n = url.rsplit("/", 1)[1]
    m = re.fullmatch(r"sldem2015_(256|512)_(\d+)([ns])_(\d+)([ns])_(\d{3})_(\d{3})_float\.xml", n)
    if m:
        a, b = int(m[2]) * (1 if m[3] == "n" else -1), int(m[4]) * (1 if m[5] == "n" else -1)
        lo, hi = int(m[6]), int(m[7])
        dlat, dlon = (30, 45) if m[1] == "512" else (60, 120)
        real = b - a == dlat and hi - lo == dlon and a % dlat == 0 and lo % dlon == 0 and 0 <= lo < 360 and -60 <= a < b <= 60
        pad = len(m[2]) == 2 if m[1] == "512" else m[2] == str(int(m[2]))
        x = lon % 360
        return real and pad and a <= lat <= b and (lo <= x <= hi or (x == 0 and hi == 360))
    m = re.fullmatch(r"sldem2015_128_60s_60n_000_360_float\.xml", n)
    if m:
        return -60 <= lat <= 60
    m = re.fullmatch(r"ldem_(4|16|64)_float\.xml", n)
    if m:
        return True
    m = re.fullmatch(r"ldem_(45|60|75|80|85|875)([ns])_(\d+)m_float\.xml", n)
    if m:
        lo = 87.5 if m[1] == "875" else float(m[1])
        real = (int(m[3]), lo) in zip([400, 240, 200, 120, 100, 80, 60, 40, 30, 20, 10, 5], [45, 60, 45, 60, 45, 80, 60, 80, 75, 80, 85, 87.5])
        return real and (lat >= lo if m[2] == "n" else lat <= -lo)
    return False


def lola(c):
    """The files chosen for a region exist in the archive, cover every place of it, and have the resolution nearest to the one asked."""
    import cratermaker as cm
    from cratermaker.components.surface import DataComposer

    rng = c.rng
    s = cm.Surface.maker("icosphere", gridlevel=1, target="Moon", simdir=c.dir("s"), ask_overwrite=False)
    R = s.radius
    for _ in range(60):
        zone = int(rng.integers(3))
        pix = float(10 ** rng.uniform(0.5, 4.0))
        rad = float(rng.uniform(3, 200)) * pix
        rad = min(rad, 5e5)
        deg = math.degrees(rad / R)
        if zone == 0:
            loc = (float(rng.choice([0.0, 45.0, -179.99, 180.0, rng.uniform(-180, 180)])), float(rng.uniform(-59.9, 59.9)))
            if abs(loc[1]) + deg >= 59.99:
                continue
        else:
            loc = (float(rng.uniform(-180, 180)), float(rng.uniform(60.01, 90)) * (1 if zone == 1 else -1))
            if abs(loc[1]) - deg <= 60.01:
                continue
        lon0, lon1, lat0, lat1 = s.get_location_extents(loc, rad)
        th = rng.uniform(0, 2 * math.pi, 40)
        rr = np.radians(deg) * np.sqrt(rng.uniform(0, 1, 40))
        rr[:20] = np.radians(deg) * 0.999999
        la1, lo1 = math.radians(loc[1]), math.radians(loc[0])
        la = np.arcsin(np.clip(math.sin(la1) * np.cos(rr) + math.cos(la1) * np.sin(rr) * np.cos(th), -1, 1))
        lo = lo1 + np.arctan2(np.sin(th) * np.sin(rr) * math.cos(la1), np.cos(rr) - math.sin(la1) * np.sin(la))
        lo, la = np.degrees(lo), np.degrees(la)
        mid, half = (lon0 + lon1) / 2, (lon1 - lon0) / 2
        off = np.array([math.remainder(x - mid, 360) for x in lo])
        c.check((np.abs(off) <= half + 1e-6).all() and (la >= lat0 - 1e-6).all() and (la <= lat1 + 1e-6).all(), "the extents of a region do not contain it", loc=loc, rad=rad, ext=(lon0, lon1, lat0, lat1))
        c.close([lat0, lat1], [max(-90, loc[1] - deg), min(90, loc[1] + deg)], "the extents of a region are wider than it", atol=1e-9, rtol=1e-9, loc=loc, rad=rad)
        files, res = DataComposer.get_lola_dem_file_list(pix, lat_range=(lat0, lat1), lon_range=(lon0, lon1))
        c.check(len(files) == len(set(files)) >= 1, "a file is chosen twice", files=files)
        want = 1737.53e3 * math.pi / 180 / pix
        info = dict(loc=loc, rad=rad, pix=pix, files=[x.rsplit("/", 1)[1] for x in files])
        if "polar" in files[0]:
            c.check(abs(loc[1]) > 60 and want > 10, "a polar file is chosen for another region", **info)
            ok = [r for r, l in zip([400, 240, 200, 120, 100, 80, 60, 40, 30, 20, 10, 5], [45, 60, 45, 60, 45, 80, 60, 80, 75, 80, 85, 87.5]) if (lat0 if loc[1] > 0 else -lat1) >= l]
            c.check(res in ok and abs(res - pix) <= min(abs(r - pix) for r in ok) + 1e-9 and f"_{res}m_" in files[0], "the resolution is not the nearest that covers the region", res=res, **info)
        else:
            av = [4, 16, 64, 128, 256, 512]
            c.check(abs(res - want) <= min(abs(r - want) for r in av) + 1e-9 and all(f"_{res}_" in x.rsplit("/", 1)[1] for x in files), "the resolution is not the nearest one", res=res, want=want, **info)
            c.check(want <= 10 or abs(loc[1]) < 60, "a fine cylindrical file is chosen in a polar region", **info)
        c.check((len(files) == 1) or res in (256, 512), "several files are chosen where one covers the body", **info)
        c.check(all(any(covers(u, x, y, res) for u in files) for x, y in zip(lo, la)), "a place of the region is in none of the files chosen", **info)
        c.check(all(re.match(r"https://pds-geosciences\.wustl\.edu/.*_float\.xml$", u) for u in files), "a file is not in the archive", **info)
        c.seen("lola", zone, res, len(files))
    c.note(last=info)


SCENARIOS = [("composer", composer, 32, 400), ("cancelled", cancelled, 6, 40), ("dem", dem, 12, 96), ("dem_reopen", dem_reopen, 6, 60), ("lola", lola, 8, 100)]
