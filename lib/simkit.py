"""Workload helpers shared by the checks: simulations, crater snapshots, emplacement logs."""
import dataclasses
import functools
import math

import numpy as np

CRATER_FIELDS = (
    "id", "name", "diameter", "radius", "semimajor_axis", "semiminor_axis", "orientation", "location", "transient_diameter", "transient_radius",
    "morphology_type", "time", "production_time", "production_N", "production_ND", "production_sequence",
    "projectile_diameter", "projectile_radius", "projectile_mass", "projectile_density", "projectile_velocity", "projectile_angle",
    "projectile_direction", "projectile_location", "projectile_vertical_velocity", "measured_diameter", "measured_semimajor_axis", "measured_semiminor_axis",
    "measured_orientation", "measured_location",
)


def plain(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and math.isnan(v):
        return "nan"
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    if isinstance(v, np.ndarray):
        return tuple(plain(x) for x in v.tolist())
    return v


def crater_fields(cr, names=CRATER_FIELDS):
    out = {}
    for n in names:
        if hasattr(cr, n):
            out[n] = plain(getattr(cr, n))
    return out


def make_sim(c, name, gridlevel=2, surface="icosphere", rng_seed=1, **kw):
    import cratermaker as cm

    kw.setdefault("save_actions", None)
    kw.setdefault("ask_overwrite", False)
    d = c.dir(name)
    if surface == "icosphere":
        kw["gridlevel"] = gridlevel
    return cm.Simulation(simdir=d, surface=surface, rng_seed=rng_seed, **kw)


def wrap_method(obj, name, fn):
    """Replaces obj.name by fn(original, *args, **kwargs); the class stays untouched."""
    orig = getattr(obj, name)

    @functools.wraps(orig)
    def w(*a, **k):
        return fn(orig, *a, **k)

    object.__setattr__(obj, name, w)
    return orig


class EmplaceLog:
    """Records every batch handed to Simulation.emplace and every crater physically formed on the surface."""

    def __init__(self, sim):
        self.sim = sim
        self.calls = []  # list of lists
        self.formed = []

        def emplace(orig, craters=None, *a, **k):
            r = orig(craters, *a, **k) if craters is not None else orig(*a, **k)
            self.calls.append(list(r) if r is not None else [])
            return r

        def form(orig, crater, *a, **k):
            self.formed.append(crater)
            return orig(crater, *a, **k)

        wrap_method(sim, "emplace", emplace)
        wrap_method(sim.morphology, "form_crater", form)

    @property
    def all(self):
        return [x for b in self.calls for x in b]
