"""P25: only the files a reset, an overwrite or a clean-up is about are removed, and nothing is removed after a refusal."""
import builtins
import contextlib
import hashlib
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np

from lib.simkit import make_sim

PROPERTY = "P25"
TECHNIQUE = "runtime monitoring of every deletion, rename and prompt made by the real code in scratch simulation directories pre-populated with user files; a guard blocks and reports any deletion outside the scratch directory; an oracle compares content hashes of the tree before and after"
RULE = "simulations, surfaces and countings with random saved intervals, images and exports next to user files with similar names, symbolic links and sub-directories; resets, constructions over old runs, exports over existing files and clean-ups under random answers (yes, no, all, at any prompt), suppressed prompts and injected failures; a state is (operation, answers, outcome)."


class Guard:
    """Answers prompts from a script and records (and blocks outside of root) what is deleted."""

    def __init__(self, c, root, answers="y", fallback="n"):
        self.c, self.root = c, Path(root).resolve()
        self.answers, self.fallback = list(answers), fallback
        self.prompts, self.deleted, self.blocked = [], [], []

    def inside(self, p):
        p = Path(os.path.abspath(os.fspath(p)))
        p = p.parent.resolve() / p.name
        return self.root == p or self.root in p.parents

    def __enter__(self):
        self._saved = (builtins.input, os.unlink, os.remove, os.rmdir, shutil.rmtree, tempfile.tempdir)
        binput, unlink, remove, rmdir, rmtree, _ = self._saved
        scratch = self.root / "_scratch"
        scratch.mkdir(exist_ok=True)
        tempfile.tempdir = str(scratch)

        def inp(prompt=""):
            self.prompts.append(str(prompt))
            return self.answers.pop(0) if self.answers else self.fallback

        def guard(fn):
            def g(p, *a, **k):
                if k.get("dir_fd") is not None:
                    return fn(p, *a, **k)
                if not self.inside(p):
                    self.blocked.append(str(p))
                    return None
                self.deleted.append(str(p))
                return fn(p, *a, **k)

            return g

        builtins.input = inp
        os.unlink, os.remove, os.rmdir, shutil.rmtree = guard(unlink), guard(remove), guard(rmdir), guard(rmtree)
        return self

    def __exit__(self, *exc):
        builtins.input, os.unlink, os.remove, os.rmdir, shutil.rmtree, tempfile.tempdir = self._saved
        self.c.check(not self.blocked, "nothing outside of the simulation directory is deleted", blocked=self.blocked[:5])
        return False


def snap(root):
    """Content of every file and link below root (the scratch directory of temporary files apart)."""
    out = {}
    root = Path(root)
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != "_scratch"]
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = Path(d) / f
            rel = str(p.relative_to(root))
            if p.is_symlink():
                out[rel] = ("link", os.readlink(p))
            else:
                out[rel] = hashlib.sha1(p.read_bytes()).hexdigest()
    return out


DECOYS = [
    "notes.txt", "cratermaker.yaml.bak", "my_surface000000.nc", "data/surface000000.nc", "surface_old/surface000000.nc",
    "surface/README.md", "surface/my_surface.nc", "surface/old_grid.nc", "surface/dem.tif", "surface/sub/surface000001.nc",
    "counting/catalog.csv", "counting/my_observed_craters000001.nc", "counting/sub/observed_craters000000.nc",
    "surface_images/caption.txt", "surface_images/sub/plot.png", "counting_images/paper.svg", "export/paper.txt", "plots/figure.png",
    "target/keep.txt", "production/keep.txt",
]


def plant(c, rng, d):
    """User files with names close to those of the output."""
    d = Path(d)
    mine = {}
    for name in DECOYS:
        if rng.random() < 0.6:
            p = d / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(rng.bytes(20))
            mine[name] = hashlib.sha1(p.read_bytes()).hexdigest()
    outside = Path(c.dir("outside"))
    (outside / "precious.nc").write_bytes(rng.bytes(30))
    (outside / "precious.png").write_bytes(rng.bytes(30))
    return mine, outside


def kept(c, d, mine, outside, outside_before, what, **info):
    now = snap(d)
    lost = [n for n, h in mine.items() if now.get(n) != h]
    c.check(not lost, f"{what}: the user's own files are untouched", lost=lost, **info)
    c.check(snap(outside) == outside_before, f"{what}: files outside of the simulation directory are untouched", **info)


def new_sim(c, rng, name="s", n=None, **kw):
    kw.setdefault("save_actions", None)
    sim = make_sim(c, name, gridlevel=2, rng_seed=int(rng.integers(1 << 30)), do_subpixel_degradation=False, **kw)
    d = Path(sim.simdir).resolve()
    n = int(rng.integers(1, 4)) if n is None else n
    for i in range(n):
        sim.emplace(diameter=float(rng.uniform(8e5, 2e6)), location=(float(rng.uniform(-180, 180)), float(rng.uniform(-60, 60))))
        sim.save() if i == 0 else (sim.surface.save(interval=i), sim.counting.save(interval=i))
    return sim, d


OWN = ("surface/surface[0-9]*.nc", "counting/observed_craters*.nc", "counting/emplaced_craters*.nc", "surface_images/*.png", "counting_images/*.png")


def own_files(d):
    return {str(p.relative_to(d)) for pat in OWN for p in Path(d).glob(pat)}


def images(rng, d):
    for k in range(int(rng.integers(0, 3))):
        for comp in ("surface", "counting"):
            p = d / f"{comp}_images" / f"{comp}_hillshade{k:06d}.png"
            p.parent.mkdir(exist_ok=True)
            p.write_bytes(rng.bytes(10))


def reset_sim(c):
    """Resetting a simulation removes its saved output (not the grid, not the user's files), or nothing when it is refused."""
    rng = c.rng
    sim, d = new_sim(c, rng)
    images(rng, d)
    mine, outside = plant(c, rng, d)
    if rng.random() < 0.5:  # an output file that is a link to somewhere else
        (d / "surface" / "surface000077.nc").symlink_to(outside / "precious.nc")
        (d / "surface_images").mkdir(exist_ok=True)
        (d / "surface_images" / "linked.png").symlink_to(outside / "precious.png")
    mode = ["silent", "all", "yes", "no"][c.index % 4]
    if mode == "silent":
        sim.ask_overwrite = False
        answers = []
    else:
        sim.ask_overwrite = True
        answers = {"all": ["a"], "yes": ["y"] * 100, "no": [["n", "", "no", "N", "q", "yes please", "x"][(c.index // 4) % 7]]}[mode]
    ob, before, own = snap(outside), snap(d), own_files(d)
    for k in ("surface", "counting"):
        getattr(sim, k).ask_overwrite = bool(rng.random() < 0.7)
    flags = {k: getattr(sim, k).ask_overwrite for k in ("surface", "counting")}
    ask = sim.ask_overwrite
    err = None
    with Guard(c, d, answers) as g:
        try:
            sim.reset()
        except RuntimeError as e:
            err = e
    after = snap(d)
    info = {"mode": mode, "n_prompts": len(g.prompts)}
    kept(c, d, mine, outside, ob, "reset", **info)
    c.check(sim.ask_overwrite == ask and flags == {k: getattr(sim, k).ask_overwrite for k in flags}, "a reset leaves the settings for prompts as they were", **info)
    if mode == "no":
        c.check(err is not None, "a refused reset is reported", **info)
        c.check(after == before, "a refused reset leaves every file as it was", changed=sorted(k for k in before if after.get(k) != before[k])[:5], **info)
        c.check(sim.counting.n_emplaced > 0, "a refused reset keeps the craters", **info)
    else:
        c.check(err is None, "an accepted reset goes through", err=repr(err), **info)
        left = own_files(d) - {"surface/surface000000.nc"}
        c.check(not left, "a reset removes all of the saved output", left=sorted(left)[:5], **info)
        c.check("surface/grid.nc" in after and after["surface/grid.nc"] == before["surface/grid.nc"], "a reset keeps the grid", **info)
        gone = set(before) - set(after) - own
        c.check(not gone, "a reset removes nothing but saved output", gone=sorted(gone)[:5], **info)
        c.check(sim.counting.n_emplaced == 0 and sim.counting.n_observed == 0 and not np.any(sim.surface.face_elevation) and sim.interval == 0 and not sim.elapsed_time and not sim.elapsed_n1, "a reset starts from a blank surface without craters", **info)
        if mode in ("silent",):
            c.check(not g.prompts, "no prompt when prompts are suppressed", prompts=g.prompts[:2], **info)
        elif own:
            c.check(g.prompts != [], "a reset asks before it removes files", **info)
        if mode == "all":
            c.check(len(g.prompts) == 1, "answering 'a' suppresses the other prompts of the operation", prompts=[p[:60] for p in g.prompts[:3]], **info)
    c.seen(("reset", mode, err is None, len(own), len(g.prompts) > 1))


def component_reset(c):
    """A component's reset asks about its files before it removes any of them."""
    rng = c.rng
    sim, d = new_sim(c, rng, n=int(rng.integers(2, 4)))
    images(rng, d)
    mine, outside = plant(c, rng, d)
    name = ["surface", "counting"][c.index % 2]
    comp = getattr(sim, name)
    comp.ask_overwrite = bool(rng.random() < 0.85)
    files = comp.saved_output_files()
    nf = len(files)
    c.check(all(f.exists() for f in files) and {str(Path(f).resolve().relative_to(d)) for f in files} == {f for f in own_files(d) if f.startswith(name)}, "saved_output_files lists the saved output of the component", files=[str(f) for f in files])
    mode = ["y", "n", "a", "late n", "late a"][(c.index // 2) % 5]
    k = int(rng.integers(1, nf)) if nf > 1 else 0
    answers = {"y": ["y"] * 100, "a": ["a"], "n": ["n"], "late n": ["y"] * k + ["n"], "late a": ["y"] * k + ["a"]}[mode]
    before, ob = snap(d), snap(outside)
    other = {f: h for f, h in before.items() if not f.startswith(name)}
    ask = comp.ask_overwrite
    nem, face, tags = sim.counting.n_emplaced, np.array(sim.surface.face_elevation), np.array(sim.surface.uxds["crater_id"].values)
    obs = sorted(sim.counting.observed)
    with Guard(c, d, answers) as g:
        comp.reset()
    after = snap(d)
    info = {"component": name, "mode": mode, "ask": ask, "n": nf, "k": k, "n_prompts": len(g.prompts)}
    kept(c, d, mine, outside, ob, "component reset", **info)
    c.check({f: h for f, h in after.items() if not f.startswith(name)} == other, "a component's reset leaves the files of the others", **info)
    c.check(comp.ask_overwrite is ask, "a reset leaves the setting for prompts as it was", **info)
    own = {f for f in own_files(d) if f.startswith(name)}
    if ask and mode in ("n", "late n"):
        c.check(after == before, "a cancelled reset leaves every file as it was", changed=sorted(f for f in before if after.get(f) != before[f])[:5], **info)
        same = sim.counting.n_emplaced == nem and sorted(sim.counting.observed) == obs and np.array_equal(face, sim.surface.face_elevation) and np.array_equal(tags, sim.surface.uxds["crater_id"].values)
        c.check(same, "a cancelled reset keeps the data", **info)
    else:
        c.check(not np.any(sim.surface.face_elevation) if name == "surface" else sim.counting.n_emplaced == 0, "a reset clears the data", **info)
        c.check(not own - {"surface/surface000000.nc"}, "a component's reset removes all of its saved output", left=sorted(own), **info)
        c.check(len(g.prompts) == (0 if not ask else {"y": nf, "a": 1, "n": 0, "late n": 0, "late a": k + 1}[mode]), "one prompt per file until one answer covers the rest", **info)
    gone = set(before) - set(after) - {str(Path(os.path.abspath(f)).relative_to(d)) if Path(os.path.abspath(f)).is_relative_to(d) else str(f) for f in files}
    c.check(not gone, "nothing but the listed files is removed", gone=sorted(gone)[:5], **info)
    c.seen(("component", name, mode, ask, nf))


def rerun(c):
    """Making a simulation over an old run: resumed unless a reset is confirmed, and only saved output is ever removed."""
    from cratermaker import Simulation

    rng = c.rng
    sim, d = new_sim(c, rng)
    old_n, old_face = sim.counting.n_emplaced, np.array(sim.surface.face_elevation)
    last = old_n > 0
    mine, outside = plant(c, rng, d)
    before, ob = snap(d), snap(outside)
    mode = ["n", "y", "a", "silent", "reset", "keep", "other grid", "silent other grid"][c.index % 8]
    kw = dict(simdir=d, rng_seed=int(rng.integers(1 << 30)))
    if mode in ("n", "y", "a"):
        answers, kw["ask_overwrite"] = [mode] + ["y"] * 100 * (mode == "y"), True
    else:
        answers, kw["ask_overwrite"] = [], False
        kw["reset"] = {"silent": None, "reset": True, "keep": False, "other grid": True, "silent other grid": None}[mode]
        if "grid" in mode:
            kw |= dict(surface="icosphere", gridlevel=3)
    if mode in ("y", "a", "reset"):
        kw |= dict(surface="icosphere", gridlevel=2)
    with Guard(c, d, answers) as g:
        new = Simulation(**kw)
    after = snap(d)
    info = {"mode": mode, "n_prompts": len(g.prompts)}
    kept(c, d, mine, outside, ob, "a new simulation over an old run", **info)
    own = {f for f in before if Path(f).match("surface/surface[0-9]*.nc") or Path(f).match("counting/*_craters*.nc")} - set(mine)
    if mode in ("n", "silent", "keep"):
        c.check(all(after.get(f) == before[f] for f in own), "resuming keeps the saved output", lost=sorted(f for f in own if after.get(f) != before[f]), **info)
        c.check(after.get("surface/grid.nc") == before["surface/grid.nc"], "resuming keeps the grid", **info)
        c.check(new.surface.n_face == sim.surface.n_face and (new.counting.n_emplaced > 0) == last, "resuming restores the run", **info)
    elif mode in ("y", "a", "reset", "other grid"):
        left = own & set(after) - {"surface/surface000000.nc"}
        c.check(not left, "a reset removes the saved output of the old run", left=sorted(left), **info)
        c.check(new.counting.n_emplaced == 0 and not np.any(new.surface.face_elevation), "a reset starts from a blank surface", **info)
    if kw["ask_overwrite"] is False:
        c.check(not g.prompts, "no prompt when prompts are suppressed", prompts=[p[:60] for p in g.prompts[:2]], **info)
    if mode == "a":
        c.check(len(g.prompts) == 1 and new.ask_overwrite is False, "answering 'a' suppresses the prompts of the run", prompts=[p[:60] for p in g.prompts[:3]], **info)
    gone = set(before) - set(after) - own
    c.check(not gone, "a new simulation removes nothing but saved output", gone=sorted(gone)[:5], **info)
    c.seen(("rerun", mode, old_n))


def remake(c):
    """A surface made with reset=True over its own output removes it only after consent, the first interval included."""
    import cratermaker as cm

    rng = c.rng
    d = c.dir("w")
    kw = dict(simdir=d, gridlevel=2)
    s = cm.Surface.maker("icosphere", ask_overwrite=False, **kw)
    saved = sorted({int(x) for x in rng.integers(0, 9, int(rng.integers(1, 4)))} | ({0} if rng.random() < 0.6 else set()))
    for k in saved:
        e = rng.normal(0, 10, s.n_face + s.n_node)
        s.update_elevation(e, overwrite=True)
        s.save(interval=k)
    face = s.face_elevation.copy()
    mine, outside = plant(c, rng, d)
    before, ob = snap(d), snap(outside)
    mode = ["y", "n", "late n", "a", "silent"][c.index % 5]
    nf = len({0, *saved})
    answers = {"y": ["y"] * 99, "n": ["n"], "late n": ["y"] * (nf - 1) + ["n"], "a": ["a"], "silent": []}[mode]
    with Guard(c, d, answers) as g:
        new = cm.Surface.maker("icosphere", ask_overwrite=mode != "silent", reset=True, **kw)
    after = snap(d)
    info = dict(mode=mode, saved=saved, n_prompts=len(g.prompts))
    kept(c, d, mine, outside, ob, "a surface made over old output", **info)
    own = {f for f in before if Path(f).match("surface/surface[0-9]*.nc")} - set(mine)
    if mode in ("n", "late n"):
        c.check({f: before[f] for f in own} == {f: after.get(f) for f in own}, "a declined reset changes saved output", changed=sorted(f for f in own if after.get(f) != before[f]), **info)
        c.check(np.array_equal(new.face_elevation, face), "a declined reset does not keep the saved surface", **info)
    else:
        c.check(not (own & set(after)) - {"surface/surface000000.nc"}, "a confirmed reset leaves saved output", left=sorted(own & set(after)), **info)
        c.check(not np.any(new.face_elevation), "a reset starts from a blank surface", **info)
    c.check(len(g.prompts) == {"y": nf, "n": 1, "late n": nf, "a": 1, "silent": 0}[mode], "one prompt per file until one answer covers the rest", **info)
    c.check(new.ask_overwrite is (mode != "silent"), "a reset changes the setting for prompts", **info)
    c.seen(("remake", mode, tuple(saved)))


EXPORTS = [
    ("counting", "SCC", "scc"), ("counting", "CSV", "csv"), ("counting", "VTP", "vtp"), ("surface", "VTK", "vtp"), ("surface", "GPKG", "gpkg"), ("surface", "GeoTIFF", "tif"),
    ("sim", "OpenCraterTool", "scc"), ("sim", "VTK", "vtp"),
]


def export(c):
    """Exports replace an existing file only when that is confirmed or prompts are off, and the setting survives."""
    rng = c.rng
    sim, d = new_sim(c, rng, n=int(rng.integers(1, 3)))
    mine, outside = plant(c, rng, d)
    who, driver, _ = EXPORTS[c.index % len(EXPORTS)]
    comp = sim if who == "sim" else getattr(sim, who)
    iv = -1 if who == "sim" else 0
    with contextlib.suppress(Exception):
        sim.ask_overwrite = False
    for k in (sim.surface, sim.counting):
        k.ask_overwrite = False
    with Guard(c, d, []) as g:
        comp.export(driver=driver, interval=iv)
    first = snap(d)
    c.check(not g.prompts, "no prompt when prompts are suppressed", prompts=g.prompts[:2])
    products = {f for f in first if f.startswith("export/") and f not in mine and not f.endswith("grid.vtp")}  # the grid is written once
    c.check(bool(products), "an export writes its files", who=who, driver=driver)
    # stale files at the places of the export
    for f in products:
        (d / f).write_bytes(b"stale " + rng.bytes(8))
    before, ob = snap(d), snap(outside)
    attr = bool(rng.random() < 0.5)
    arg = [None, True, False][int(rng.integers(3))]
    for k in {id(x): x for x in (comp, sim.surface, sim.counting)}.values():
        k.ask_overwrite = attr
    eff = attr if arg is None else arg
    yes = bool(rng.random() < 0.5)
    fail = bool(rng.random() < 0.35)
    target = comp if who != "sim" else sim.counting
    undo = None
    if fail:
        name = str(rng.choice(["read_saved_output", "save"])) if who == "sim" else "read_saved_output"
        victim = target if name == "read_saved_output" else sim.surface

        def boom(*a, **k):
            raise OSError("no space left on device (injected)")

        object.__setattr__(victim, name, boom)
        undo = (victim, name)
    err = None
    with Guard(c, d, ["y" if yes else "n"] * 50) as g:
        try:
            comp.export(driver=driver, interval=iv, ask_overwrite=arg)
        except OSError as e:
            err = e
    if undo:
        with contextlib.suppress(AttributeError):
            object.__delattr__(*undo)
    after = snap(d)
    info = {"who": who, "driver": driver, "attr": attr, "arg": arg, "yes": yes, "fail": fail, "n_prompts": len(g.prompts)}
    kept(c, d, mine, outside, ob, "export", **info)
    c.check(all(k.ask_overwrite is attr for k in (comp, sim.surface, sim.counting)), "an export leaves the setting for prompts as it was", err=repr(err), **info)
    if not eff:
        c.check(not g.prompts, "no prompt when prompts are suppressed", prompts=[p[:60] for p in g.prompts[:2]], **info)
    changed = {f for f in products if after.get(f) != before[f]}
    if eff and not yes:
        c.check(not changed, "a declined export leaves the existing files", changed=sorted(changed), **info)
    elif not fail:
        c.check(changed == products, "an export replaces the existing files", stale=sorted(products - changed), **info)
        if eff:
            c.check(len(g.prompts) >= 1, "existing files are asked about", **info)
    c.check(not (set(before) - set(after) - changed), "an export removes nothing else", gone=sorted(set(before) - set(after) - changed)[:5], **info)
    c.seen(("export", who, driver, attr, arg, yes, fail, len(products)))


def cleanup(c):
    """The clean-up utility removes the output of a simulation below the given directory and nothing else."""
    from cratermaker.utils.general_utils import cleanup as clean

    rng = c.rng
    sim, d = new_sim(c, rng, n=1)
    images(rng, d)
    mine, outside = plant(c, rng, d)
    top = {n for n in mine if Path(n).parts[0] in ("notes.txt", "cratermaker.yaml.bak", "my_surface000000.nc", "data", "surface_old", "export", "plots")}
    ob = snap(outside)
    cwd = Path(c.dir("cwd"))
    (cwd / "surface").mkdir()
    (cwd / "surface" / "surface000000.nc").write_bytes(b"x")
    (cwd / "cratermaker.yaml").write_bytes(b"x: 1\n")
    cb = snap(cwd)
    here = os.getcwd()
    way = ["str", "path", "cwd"][c.index % 3]
    try:
        os.chdir(d if way == "cwd" else cwd)
        with Guard(c, d, []) as g:
            clean(None if way == "cwd" else str(d) if way == "str" else d)
    finally:
        os.chdir(here)
    after = snap(d)
    c.check(snap(cwd) == cb and snap(outside) == ob, "clean-up works on the given directory only", way=way)
    c.check(all(n in after and after[n] == mine[n] for n in top), "clean-up keeps the user's files", way=way)
    left = {f for f in after if Path(f).parts[0] in ("surface", "counting", "surface_images", "counting_images", "cratermaker.yaml")}
    c.check(not left and not g.prompts, "clean-up removes the output of the simulation", left=sorted(left)[:5], way=way)
    c.seen(("cleanup", way, len(mine)))


SCENARIOS = [
    ("reset_sim", reset_sim, 12, 120),
    ("component_reset", component_reset, 16, 160),
    ("rerun", rerun, 16, 160),
    ("remake", remake, 10, 100),
    ("export", export, 21, 280),
    ("cleanup", cleanup, 3, 30),
]
