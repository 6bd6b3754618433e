"""P02: every accepted form of a location denotes the same point and comes out in the canonical ranges."""
import math

import numpy as np

PROPERTY = "P02"
RULE = "Longitude/latitude pairs over many turns, poles, dateline neighbours (nextafter) and all input forms; a state is (form, turn class, boundary class)."


def _vec(lon, lat):
    lo, la = math.radians(math.fmod(lon, 360)), math.radians(math.fmod(lat, 360))
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])


def _val(rng, special):
    k = int(rng.integers(6))
    if k == 0:
        return float(rng.choice(special))
    if k == 1:
        v = float(rng.choice(special))
        for _ in range(int(rng.integers(1, 3))):
            v = float(np.nextafter(v, rng.choice([-np.inf, np.inf])))
        return v
    if k == 2:
        return float(rng.uniform(-2000, 2000))
    if k == 3:
        return float(rng.integers(-720, 721))
    if k == 4:
        return float(rng.choice([-1, 1]) * 10 ** rng.uniform(-18, -3))
    return float(rng.uniform(-180, 180))


LON = [0, -0.0, 90, -90, 180, -180, 270, 360, -360, 540, -540, 720, 179.9999999999, -179.9999999999]
LAT = [0, -0.0, 45, 90, -90, 89.999999999, 91, -91, 135, 180, -180, 225, 269, 270, -270, 271, 300, 360, 450, -450, 95, -95]


def _canon(c, out, lon, lat, what):
    ok = isinstance(out, tuple) and len(out) == 2 and all(type(v) is float for v in out)
    if not c.check(ok, f"{what}: result is not a pair of floats", out=str(out), given=(lon, lat)):
        return
    c.check(-180 <= out[0] < 180, f"{what}: longitude outside [-180, 180)", out=out, given=(lon, lat))
    c.check(-90 <= out[1] <= 90, f"{what}: latitude outside [-90, 90]", out=out, given=(lon, lat))
    err = float(np.abs(_vec(*out) - _vec(lon, lat)).max())
    c.check(err < 1e-9, f"{what}: denotes a different point of the sphere", out=out, given=(lon, lat), err=err)


def normalize(c):
    from cratermaker.utils.general_utils import normalize_coords

    for _ in range(60):
        lon, lat = _val(c.rng, LON), _val(c.rng, LAT)
        out = normalize_coords((lon, lat))
        _canon(c, out, lon, lat, "normalize")
        again = normalize_coords(out)
        c.check(again == out, "normalizing twice moves the point", once=out, twice=again)
        if -90 <= lat <= 90:
            c.check(out[1] == lat, "an in-range latitude was changed", out=out, given=(lon, lat))
        if -180 <= lon < 180 and -90 <= lat <= 90:
            c.check(out[0] == lon, "an in-range longitude was changed", out=out, given=(lon, lat))
        c.seen(int(lon // 90), int(lat // 45), lon in LON, lat in LAT)
    c.note(last=(lon, lat), out=out)


def forms(c):
    from cratermaker.utils.general_utils import normalize_coords
    from cratermaker.utils.general_utils import validate_and_normalize_location as v

    for _ in range(12):
        lon, lat = _val(c.rng, LON), _val(c.rng, LAT)
        ref = normalize_coords((lon, lat))
        dt = [("lon", "f8"), ("lat", "f8")]
        dtr = [("lat", "f8"), ("lon", "f8")]
        one = {
            "tuple": (lon, lat), "list": [lon, lat], "array": np.array([lon, lat]), "dict": {"lon": lon, "lat": lat}, "dict_reversed": {"lat": lat, "lon": lon},
            "row": np.array([[lon, lat]]), "list_of_one": [(lon, lat)], "structured": np.array([(lon, lat)], dtype=dt), "structured_scalar": np.array([(lon, lat)], dtype=dt)[0],
            "structured_reversed": np.array([(lat, lon)], dtype=dtr), "np_scalars": (np.float64(lon), np.float64(lat)),
        }
        for name, x in one.items():
            out = v(x)
            _canon(c, out, lon, lat, name)
            c.check(out == ref, f"{name}: differs from the plain pair", out=str(out), ref=ref)
            c.seen(name, int(lat // 90))
        n = int(c.rng.integers(2, 6))
        pts = [(_val(c.rng, LON), _val(c.rng, LAT)) for _ in range(n)]
        many = {"rows": np.array(pts), "structured_many": np.array(pts, dtype=dt), "list_of_pairs": pts, "tuple_of_pairs": tuple(pts), "list_of_lists": [list(p) for p in pts], "list_of_rows": list(np.array(pts))}
        for name, x in many.items():
            out = v(x)
            if c.check(isinstance(out, list) and len(out) == n, f"{name}: wrong number of locations", out=str(out)[:200]):
                for o, p in zip(out, pts):
                    _canon(c, tuple(o), *p, name)
            c.seen(name, n)
        x = np.array(pts)
        y = x.copy()
        v(x)
        c.check((x == y).all(), "the caller's array was modified")
    c.note(last=(lon, lat), forms=len(one) + len(many))


def crater_locations(c):
    """Locations that reach a crater are canonical whichever way they were given."""
    import cratermaker as cm

    for _ in range(4):
        lon, lat = _val(c.rng, LON), _val(c.rng, LAT)
        form = [(lon, lat), [lon, lat], {"lon": lon, "lat": lat}, np.array([lon, lat])][int(c.rng.integers(4))]
        key = ["location", "projectile_location"][int(c.rng.integers(2))]
        cr = cm.Crater.maker(diameter=1000.0, **{key: form}, rng_seed=1, simdir=c.tmp)
        _canon(c, tuple(cr.location), lon, lat, f"crater from {key} given as {type(form).__name__}")
        c.seen(key, type(form).__name__, int(lat // 90))
        r = cm.Crater.maker(diameter=1000.0, rng_seed=int(c.rng.integers(2**32)), simdir=c.tmp)
        c.check(-180 <= r.location[0] <= 180 and -90 <= r.location[1] <= 90, "random crater location out of range", loc=r.location)


SCENARIOS = [("normalize", normalize, 80, 4000), ("forms", forms, 40, 1500), ("crater_locations", crater_locations, 40, 800)]
