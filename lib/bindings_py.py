"""Stand-ins for cratermaker's compiled extension (cratermaker.bindings).

The extension cannot be built offline (pyo3, numpy and ndarray crates are missing), so the Python layer is run here on top of
these independent numpy implementations. They follow the documented contract of each native function; property P28/P29
compare the real Rust sources, compiled against small shim crates, with them.
"""
import math
import sys
import types

import numpy as np

TAU = 2 * math.pi
CALLS = {}  # name -> number of calls (read by monitors)


def _count(name):
    CALLS[name] = CALLS.get(name, 0) + 1


def _wrap(dlon):
    return np.mod(dlon + math.pi, TAU) - math.pi


def haversine(lon1, lat1, lon2, lat2, radius):
    dlon = _wrap(np.asarray(lon2) - lon1)
    dlat = np.asarray(lat2) - lat1
    a = np.sin(dlat / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2
    return radius * 2 * np.arcsin(np.sqrt(np.clip(a, 0, 1)))


def bearing(lon1, lat1, lon2, lat2):
    dlon = _wrap(np.asarray(lon2) - lon1)
    x = np.sin(dlon) * np.cos(lat2)
    y = np.cos(lat1) * np.sin(lat2) - np.sin(lat1) * np.cos(lat2) * np.cos(dlon)
    return np.arctan2(x, y)


# ---------------------------------------------------------------- surface
def compute_distances(lon1, lat1, lon2, lat2, radius):
    _count("compute_distances")
    return haversine(float(lon1), float(lat1), np.asarray(lon2, float), np.asarray(lat2, float), float(radius))


def compute_bearings(lon1, lat1, lon2, lat2):
    _count("compute_bearings")
    return np.mod(bearing(float(lon1), float(lat1), np.asarray(lon2, float), np.asarray(lat2, float)), TAU)


def compute_location_from_distance_bearing(lon1, lat1, distances, bearings, radius):
    _count("compute_location_from_distance_bearing")
    d = np.asarray(distances, float) / radius
    b = np.asarray(bearings, float)
    lat2 = np.arcsin(np.clip(np.sin(lat1) * np.cos(d) + np.cos(lat1) * np.sin(d) * np.cos(b), -1, 1))
    lon2 = lon1 + np.arctan2(np.sin(b) * np.sin(d) * np.cos(lat1), np.cos(d) - np.sin(lat1) * np.sin(lat2))
    return np.stack([_wrap(lon2), lat2], axis=1)


def compute_edge_distances(edge_connectivity, lon, lat, radius):
    _count("compute_edge_distances")
    ec = np.asarray(edge_connectivity)
    lon = np.asarray(lon, float)
    lat = np.asarray(lat, float)
    out = np.zeros(ec.shape[0])
    ok = (ec >= 0).all(axis=1)
    a, b = ec[ok, 0], ec[ok, 1]
    out[ok] = haversine(lon[a], lat[a], lon[b], lat[b], radius)
    return out


def _edges(region):
    ef = np.asarray(region.edge_face_connectivity)
    n = int(region.n_face)
    ok = ((ef >= 0) & (ef < n)).all(axis=1)
    return ef, ok


def _dt_max(kappa, region):
    ef, ok = _edges(region)
    d = np.asarray(region.edge_face_distance, float)
    ln = np.asarray(region.edge_length, float)
    area = np.asarray(region.face_area, float)
    ok = ok & (d > 0)
    f1, f2 = ef[ok, 0], ef[ok, 1]
    kavg = 0.5 * (kappa[f1] + kappa[f2])
    kavg = np.where(kavg > 0, kavg, 0.0)
    inv = np.zeros(int(region.n_face))
    np.add.at(inv, f1, 2 * kavg * ln[ok] / (d[ok] * area[f1]))
    np.add.at(inv, f2, 2 * kavg * ln[ok] / (d[ok] * area[f2]))
    pos = inv[inv > 0]
    return math.inf if pos.size == 0 else float((1 / pos).min())


def apply_diffusion(face_kappa, face_variable, region):
    _count("apply_diffusion")
    kappa = np.asarray(face_kappa, float)
    var = np.asarray(face_variable, float)
    n = int(region.n_face)
    delta = np.zeros(n)
    dtm = _dt_max(kappa, region)
    if not math.isfinite(dtm) or dtm <= 0:
        return delta
    nl = math.ceil(1.0 / dtm)
    fac = 0.5 / nl
    ef, ok = _edges(region)
    f1, f2 = ef[ok, 0], ef[ok, 1]
    d = np.asarray(region.edge_face_distance, float)[ok]
    ln = np.asarray(region.edge_length, float)[ok]
    area = np.asarray(region.face_area, float)
    g = (kappa[f1] + kappa[f2]) / d * ln
    for _ in range(nl):
        h = var + delta
        flux = g * (h[f2] - h[f1])
        dh = np.bincount(f1, flux, n) - np.bincount(f2, flux, n)
        delta += fac * dh / area
    return delta


class _Grad:
    def __init__(self, region):
        ef, ok = _edges(region)
        d = np.asarray(region.edge_face_distance, float)
        ln = np.asarray(region.edge_length, float)
        ok = ok & (d > 0) & (ln > 0)
        fe = np.asarray(region.face_edge_connectivity)
        n = int(region.n_face)
        lon = np.radians(np.asarray(region.face_lon, float))
        lat = np.radians(np.asarray(region.face_lat, float))
        f = np.repeat(np.arange(n), fe.shape[1])
        e = fe.reshape(-1)
        m = (e >= 0) & (e < ef.shape[0])
        f, e = f[m], e[m]
        m = ok[e]
        f, e = f[m], e[m]
        o = np.where(ef[e, 0] == f, ef[e, 1], np.where(ef[e, 1] == f, ef[e, 0], -1))
        m = o >= 0
        self.f, self.e, self.o = f[m], e[m], o[m]
        th = bearing(lon[self.f], lat[self.f], lon[self.o], lat[self.o])
        self.s, self.c = np.sin(th), np.cos(th)
        self.l = ln[self.e]
        self.w = self.l / d[self.e]
        self.n = n
        cnt = np.bincount(self.f, minlength=n)
        ws = np.bincount(self.f, self.l, n)
        self.ws = np.where((cnt >= 2) & (ws > 0), ws, np.inf)

    def __call__(self, v):
        fl = (v[self.o] - v[self.f]) * self.w
        return np.bincount(self.f, fl * self.s, self.n) / self.ws, np.bincount(self.f, fl * self.c, self.n) / self.ws


def compute_radial_gradient(variable, region):
    _count("compute_radial_gradient")
    gz, gm = _Grad(region)(np.asarray(variable, float))
    b = np.radians(np.asarray(region.face_bearing, float))
    return gm * np.cos(b) + gz * np.sin(b)


def compute_slope(region):
    _count("compute_slope")
    gz, gm = _Grad(region)(np.asarray(region.face_elevation, float))
    return np.hypot(gz, gm)


def slope_collapse(critical_slope, region):
    _count("slope_collapse")
    n = int(region.n_face)
    diffmax = _dt_max(np.ones(n), region)
    elev = np.asarray(region.face_elevation, float)
    delta = np.zeros(n)
    grad = _Grad(region)
    cs2 = critical_slope**2
    for _ in range(1000):
        h = elev + delta
        gz, gm = grad(h)
        s2 = gz * gz + gm * gm
        k = np.where(s2 > cs2, diffmax * (1 + s2 / cs2) * 10, 0.0)
        if not (k > 0).any():
            break
        delta += apply_diffusion(k, h, region)
    return delta


def interpolate_node_elevation_from_faces(region):
    _count("interpolate_node_elevation_from_faces")
    nf = np.asarray(region.node_face_connectivity)
    area = np.asarray(region.face_area, float)
    elev = np.asarray(region.face_elevation, float)
    m = nf >= 0
    idx = np.where(m, nf, 0)
    a = np.where(m, area[idx], 0.0)
    asum = a.sum(axis=1)
    return np.where(asum > 0, (a * elev[idx]).sum(axis=1) / np.where(asum > 0, asum, 1), 0.0)


def turbulence_noise(x, y, z, noise_height, noise_width, freq, pers, anchor, seed):
    """A smooth deterministic pseudo-noise (the real one is a super-simplex noise)."""
    _count("turbulence_noise")
    x, y, z = (np.asarray(v, float) for v in (x, y, z))
    anchor = np.asarray(anchor, float)
    r = np.random.default_rng(int(seed))
    ph = r.uniform(0, TAU, 3)
    out = np.zeros(x.shape)
    norm = 0.5
    for i in range(anchor.shape[0]):
        s = freq**i / noise_width
        m = pers**i
        norm += 0.5 * m
        a = np.radians(anchor[i])
        out += m * np.sin(s * x + a[0] + ph[0]) * np.sin(s * y + a[1] + ph[1]) * np.sin(s * z + a[2] + ph[2])
    return out * noise_height / norm


# ---------------------------------------------------------------- morphology
def crater_profile(radial_distances, reference_elevations, diameter, floor_depth, floor_diameter, rim_height, ejrim):
    _count("crater_profile")
    rd = np.asarray(radial_distances, float)
    ref = np.asarray(reference_elevations, float)
    assert rd.shape == ref.shape
    A, B = 4 / 11, -32 / 187
    fl = floor_diameter / diameter
    R = diameter / 2
    c1 = (floor_depth - rim_height) / (fl - 1 + A * (fl**2 - 1) + B * (fl**3 - 1))
    c0 = rim_height - c1 * (1 + A + B)
    inside = rd <= R
    meanref = ref[inside].mean() if inside.any() else ref[np.argmin(rd)]
    r = rd / R
    with np.errstate(divide="ignore"):
        out = np.where(r >= 1, ref + (rim_height - ejrim) * np.where(r >= 1, r, 1.0) ** -4.2, ref + c0 + c1 * (r + A * r**2 + B * r**3))
    return np.where(inside, np.maximum(out, meanref + floor_depth), out)


def ejecta_profile(radial_distance, crater_diameter, ejrim):
    _count("ejecta_profile")
    rd = np.asarray(radial_distance, float)
    R = crater_diameter / 2
    r = np.where(rd >= R, rd / R, 1.0)
    return np.where(rd >= R, ejrim * r**-3.0, 0.0)


def ray_intensity(radial_distance, initial_bearing, crater_diameter, seed):
    """A deterministic five-ray pattern, normalised to a maximum of 1 outside the rim (stand-in)."""
    _count("ray_intensity")
    rd = np.asarray(radial_distance, float)
    th = np.asarray(initial_bearing, float)
    R = crater_diameter / 2
    ph = np.random.default_rng(int(seed)).uniform(0, TAU)
    v = (0.05 + 0.95 * np.exp(-8 * (np.sin(2.5 * (th - ph))) ** 2)) * np.where(rd < 100 * R, 1.0, 0.0)
    v = np.where(rd >= R, v, 0.0)
    out = rd >= R
    if out.any() and v[out].max() > 0:
        v = v / v[out].max()
    return v


# ---------------------------------------------------------------- counting
FMAX = sys.float_info.max


def _measure(region, crater, lo, hi, fail):
    el = region.desloped_face_elevation
    d = np.asarray(region.face_distance, float)
    R = crater.measured_radius if crater.measured_radius else crater.radius
    tags = getattr(region, "crater_id", None)
    m = (d >= lo * R) & (d <= hi * R)
    if tags is not None:
        m &= (np.asarray(tags) == crater.id).any(axis=1)
    if not m.any():
        return fail
    return float(np.asarray(el)[m].mean())


def measure_rim_height(region, crater):
    _count("measure_rim_height")
    return _measure(region, crater, 0.95, 1.2, -FMAX)


def measure_floor_depth(region, crater):
    _count("measure_floor_depth")
    return _measure(region, crater, 0.0, 0.2, FMAX)


def _unavailable(name):
    def f(*a, **k):
        raise NotImplementedError(f"native function {name} has no stand-in")

    f.__name__ = name
    return f


def install():
    pkg = types.ModuleType("cratermaker.bindings")
    mods = {
        "surface_bindings": [
            compute_distances, compute_bearings, compute_location_from_distance_bearing, compute_edge_distances,
            apply_diffusion, compute_radial_gradient, compute_slope, slope_collapse,
            interpolate_node_elevation_from_faces, turbulence_noise,
        ],
        "morphology_bindings": [crater_profile, ejecta_profile, ray_intensity],
        "counting_bindings": [measure_rim_height, measure_floor_depth]
        + [_unavailable(n) for n in ("fit_rim", "score_rim", "fit_one_ellipse", "fit_one_ellipse_fixed_center", "radial_distance_to_ellipse")],
    }
    sys.modules["cratermaker.bindings"] = pkg
    for n, fs in mods.items():
        m = types.ModuleType("cratermaker.bindings." + n)
        for f in fs:
            setattr(m, f.__name__, f)
        setattr(pkg, n, m)
        sys.modules[m.__name__] = m
    return pkg
