"""P06: exported crater files (CSV, SCC, VTK) contain exactly the craters of their interval and type, at their sizes and places."""
import math
from pathlib import Path

import numpy as np

from checks.p04 import FIXED, diff
from lib.geo import central_angle, cap_points, unit
from lib.simkit import make_sim

PROPERTY = "P06"
TECHNIQUE = "independent readers of the exported files compared with the craters the exporter was given; spherical geometry oracle for outlines and overlap fractions"
RULE = "random catalogues per interval and type, global surfaces and local regions anywhere on the body (antimeridian, poles), craters of all sizes inside, across and outside the region, measured values different from the true ones; exports of one, several or all intervals; a state is (format, crater type, count class, surface kind)."


def rand_craters(rng, Crater, n, locs=None, dmax=4e5, measured=True):
    out, ids = [], set()
    for j in range(n):
        loc = locs[j] if locs is not None else (float(rng.uniform(-180, 180)), float(np.degrees(np.arcsin(rng.uniform(-1, 1)))))
        k = {"location": loc, "time": float(rng.uniform(0, 4000))}
        D = float(10 ** rng.uniform(3.5, math.log10(dmax)))
        if rng.random() < 0.3:
            k.update(semimajor_axis=D / 2 * 1.4, semiminor_axis=D / 2, orientation=float(rng.uniform(0, 360)))
        else:
            k["diameter"] = D
        if measured and rng.random() < 0.5:
            k["measured_diameter"] = D * float(rng.uniform(0.8, 1.3))
        cr = Crater.maker(**k)
        if int(cr.id) not in ids:
            ids.add(int(cr.id))
            out.append(cr)
    return out


def read_scc(path):
    txt = Path(path).read_text()
    head = {}
    rows, bound, mode = [], [], None
    for line in txt.splitlines():
        if line.startswith("#") or not line.strip():
            continue
        if line.startswith("unit_boundary"):
            mode = bound
        elif line.startswith("crater = {"):
            mode = rows
        elif line.strip() == "}":
            mode = None
        elif mode is not None:
            mode.append(line.split())
        elif "=" in line:
            k, v = line.split("=", 1)
            head[k.strip()] = v.strip()
    return head, bound, [[float(x) for x in r[:4]] for r in rows]


def match(c, rows, crs, what):
    want = sorted([x.measured_diameter / 1e3, *x.measured_location] for x in crs)
    got = sorted([r[0], r[2], r[3]] for r in rows)
    c.check(len(want) == len(got) and np.allclose(want, got, rtol=1e-9, atol=1e-9) if want else not got, f"{what}: the craters in the file are not those exported", got=got[:5], want=want[:5], n=(len(got), len(want)))


def scc_global(c):
    rng = c.rng
    target = str(rng.choice(["Moon", "Mars", "Mercury"]))
    kw = {"production": "powerlaw"} if target == "Mercury" else {}
    sim = make_sim(c, "s", gridlevel=1, rng_seed=1, target=target, **kw)
    cnt = sim.counting
    for i in range(2):
        crs = rand_craters(rng, cnt.Crater, int(rng.choice([0, 1, 2, 7])))
        kind = str(rng.choice(["observed", "emplaced"]))
        cnt.to_scc_file(craters=crs, crater_type=kind, interval=i)
        f = cnt.export_dir / f"{kind}{i:06d}.scc"
        if not c.check(f.exists(), "the SCC file of the interval was not written", want=f.name, files=[p.name for p in cnt.export_dir.iterdir()]):
            return
        head, bound, rows = read_scc(f)
        R = sim.target.radius
        for ax in "abc":
            c.close(float(head[f"{ax}-axis radius"].split()[0]), R / 1e3, "the radius of the body in the SCC file is wrong", rtol=1e-6)
        c.close(float(head["Total_area"].split()[0]), 4 * math.pi * R * R / 1e6, "the area of the body in the SCC file is wrong", rtol=2e-3)
        match(c, rows, crs, "SCC")
        c.check(all(r[1] == 1.0 for r in rows), "a crater on a global surface is counted as a fraction", rows=rows[:3])
        b = {(float(x[3]), float(x[4])) for x in bound}
        c.check(b == {(-180.0, -90.0), (180.0, -90.0), (180.0, 90.0), (-180.0, 90.0)}, "the counting area is not the whole body", got=sorted(b))
        import cratermaker as cm

        try:
            back = cm.Crater.from_file(f)
        except ValueError as e:
            c.fail(f"the SCC file of a whole body cannot be read back: {e}", finding="scc-global-readback" if "polygon is not valid" in str(e) else None)
        else:
            w = sorted((round(x.measured_diameter, 3), round(x.measured_location[1], 6)) for x in crs)
            g = sorted((round(x.diameter, 3), round(x.location[1], 6)) for x in back)
            c.check(w == g, "reading the SCC file back gives other craters", got=g[:4], want=w[:4])
        c.seen("scc", kind, min(len(crs), 3), target)
    c.note(target=target, craters=len(crs))


def scc_local(c):
    rng = c.rng
    loc = [(20.0, 10.0), (175.0, 30.0), (-179.0, -5.0), (40.0, 88.0), (0.0, -90.0), (float(rng.uniform(-180, 180)), float(rng.uniform(-80, 80)))][c.index % 6]
    rad = float(rng.uniform(2e5, 6e5))
    sim = make_sim(c, "s", surface="hireslocal", rng_seed=1, local_location=loc, pix=rad / 8, local_radius=rad, superdomain_scale_factor=20)
    s, cnt = sim.surface, sim.counting
    R = s.radius
    n = 8
    locs = []
    for _ in range(n):
        ang, b = rad * rng.uniform(0, 1.4) / R, rng.uniform(0, 2 * math.pi)
        lon0, lat0 = map(math.radians, s.local_location)
        lat = math.asin(math.sin(lat0) * math.cos(ang) + math.cos(lat0) * math.sin(ang) * math.cos(b))
        lon = lon0 + math.atan2(math.sin(b) * math.sin(ang) * math.cos(lat0), math.cos(ang) - math.sin(lat0) * math.sin(lat))
        locs.append((math.degrees(lon), math.degrees(lat)))
    crs = []
    for q in locs:
        D = float(rad * rng.uniform(0.05, 0.9))
        shape = rng.random()
        if shape < 0.4:
            crs.append(cnt.Crater.maker(diameter=D, location=q, time=1.0))
        elif shape < 0.7:
            e = float(rng.uniform(1.2, 2.5))
            crs.append(cnt.Crater.maker(semimajor_axis=D / 2 * math.sqrt(e), semiminor_axis=D / 2 / math.sqrt(e), orientation=float(rng.uniform(0, 180)), location=q, time=1.0))
        else:  # measured elsewhere and with other axes than formed
            cr = cnt.Crater.maker(diameter=D, location=locs[int(rng.integers(n))], time=1.0)
            cr.measured_radius = None
            e = float(rng.uniform(1.0, 1.8))
            cr.measured_semimajor_axis, cr.measured_semiminor_axis, cr.measured_orientation, cr.measured_location = D / 2 * math.sqrt(e), D / 2 / math.sqrt(e), float(rng.uniform(0, 180)), q
            crs.append(cr)
    cnt.to_scc_file(craters=crs, crater_type="emplaced", interval=0)
    head, bound, rows = read_scc(cnt.export_dir / "emplaced000000.scc")
    match(c, rows, crs, "SCC of a region")
    c.close(float(head["Total_area"].split()[0]), s.local.area / 1e6, "the area in the SCC file is not that of the region", rtol=1e-9)
    by = {(round(r[2], 6), round(r[3], 6)): r[1] for r in rows}
    u0 = unit(*s.local_location)
    for cr in crs:
        mloc, a, b = cr.measured_location, cr.measured_semimajor_axis, cr.measured_semiminor_axis
        f = by.get((round(mloc[0], 6), round(mloc[1], 6)))
        if f is None:
            continue
        # points of the ellipse: moved from the centre by their distance along their bearing
        i = np.arange(4000) + 0.5
        x, y = a * np.sqrt(i / 4000) * np.cos(i * math.pi * (3 - math.sqrt(5))), b * np.sqrt(i / 4000) * np.sin(i * math.pi * (3 - math.sqrt(5)))
        ang, be = np.hypot(x, y) / R, np.arctan2(y, x) + math.radians(cr.measured_orientation)
        lo, la = map(math.radians, mloc)
        e1, n1 = np.array([-math.sin(lo), math.cos(lo), 0.0]), np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
        p = np.cos(ang)[:, None] * unit(*mloc) + np.sin(ang)[:, None] * (np.cos(be)[:, None] * n1 + np.sin(be)[:, None] * e1)
        want = float(np.mean(np.arccos(np.clip(p @ u0, -1, 1)) <= rad / R))
        c.check(abs(f - want) < 0.02, "the fraction of the crater inside the region is wrong", got=f, want=want, crater=(mloc, a, b, cr.measured_orientation), formed=cr.location, region=(loc, rad))
        c.seen("fraction", round(want, 1), c.index % 6)
    if abs(loc[1]) + math.degrees(rad / R) < 89:
        import cratermaker as cm

        back = cm.Crater.from_file(cnt.export_dir / "emplaced000000.scc")
        w = sorted((round(x.measured_diameter, 3), round(x.measured_location[1], 6)) for x in crs)
        g = sorted((round(x.diameter, 3), round(x.location[1], 6)) for x in back)
        c.check(w == g, "reading the SCC file of a region back gives other craters", got=g[:4], want=w[:4])
    pts = np.array([[float(x[3]), float(x[4])] for x in bound])
    a = central_angle(np.array(s.local_location), pts) * R
    c.check(len(pts) > 10 and np.allclose(a, rad, rtol=1e-6), "the outline of the region is not a circle of its radius", got=[float(a.min()), float(a.max())], want=rad)
    c.note(region=loc, radius=rad)


def read_vtp(path):
    from vtk import vtkXMLPolyDataReader
    from vtkmodules.util.numpy_support import vtk_to_numpy

    r = vtkXMLPolyDataReader()
    r.SetFileName(str(path))
    r.Update()
    m = r.GetOutput()
    pts = vtk_to_numpy(m.GetPoints().GetData()).astype(float) if m.GetPoints() is not None and m.GetNumberOfPoints() else np.zeros((0, 3))
    lines = []
    for i in range(m.GetNumberOfLines() if m.GetNumberOfLines() else 0):
        ids = m.GetCell(i).GetPointIds()
        lines.append([ids.GetId(j) for j in range(ids.GetNumberOfIds())])
    return pts, lines


def rings(c):
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=2, rng_seed=1)
    cnt, R = sim.counting, sim.surface.radius
    sim.surface.update_elevation(rng.uniform(-3000, 3000, sim.surface.n_face))
    crs = rand_craters(rng, cnt.Crater, int(rng.integers(1, 7)), dmax=1.2e6)
    meas = bool(rng.integers(2))
    cnt.to_vtk_file(craters=crs, crater_type="observed", interval=3, use_measured_properties=meas)
    f = cnt.export_dir / "observed_craters000003.vtp"
    if not c.check(f.exists(), "the VTK file of the interval was not written", files=[p.name for p in cnt.export_dir.iterdir()]):
        return
    pts, lines = read_vtp(f)
    c.check(len(lines) == len(crs), "the VTK file does not have one ring per crater", rings=len(lines), craters=len(crs))
    for cr, ids in zip(crs, lines):
        p = pts[ids]
        r = np.linalg.norm(p, axis=1)
        a, b, lo = (cr.measured_semimajor_axis, cr.measured_semiminor_axis, cr.measured_location) if meas else (cr.semimajor_axis, cr.semiminor_axis, cr.location)
        ang = np.arccos(np.clip((p / r[:, None]) @ unit(*lo), -1, 1)) * R
        c.check(abs(ang.max() - a) < 2e-3 * a + 10 and abs(ang.min() - b) < 2e-3 * b + 10, "the ring is not the rim of its crater", got=(ang.min(), ang.max()), want=(b, a), location=lo)
        c.check(np.all(np.abs(r - R) < 3100 + 0.001 * R), "the ring is not at the surface", got=(r.min(), r.max()), R=R)
        c.check(np.allclose(p[0], p[-1], atol=10), "the ring is not closed")
    style = str(rng.choice(["points", "impacts", "spheres"]))
    cnt.to_vtk_file(craters=crs, crater_type="observed", interval=4, crater_style=style)
    pts, _ = read_vtp(cnt.export_dir / "observed_craters000004.vtp")
    if c.check(len(pts) == len(crs), "the VTK file does not have one point per crater", points=len(pts), craters=len(crs), style=style):
        for cr, p in zip(crs, pts):
            rr = float(np.linalg.norm(p))
            c.check(math.acos(max(-1, min(1, float(p @ unit(*cr.location)) / rr))) * R < 1e-3 * R, "the point is not at the crater", style=style)
            c.check(rr > R - 3100, "the point lies below the surface", style=style)
    c.seen("vtk", len(crs), meas, style)
    c.note(craters=len(crs), style=style)


def outline(c):
    """Crater.to_geoseries: ellipse of the crater's axes, orientation clockwise from north; split pieces stay in range and keep the area."""
    rng = c.rng
    sim = make_sim(c, "s", gridlevel=1, rng_seed=1)
    s, R = sim.surface, sim.surface.radius
    for _ in range(5):
        k = int(rng.integers(3))
        lat = float(rng.uniform(-70, 70))
        lon = float([rng.uniform(-180, 180), 180 - rng.uniform(0, 3), -180 + rng.uniform(0, 3)][k])
        a = float(10 ** rng.uniform(4, 5.2))
        b = a * float(rng.uniform(0.4, 1.0)) if rng.random() < 0.7 else a
        phi = float(rng.uniform(0, 360))
        cr = sim.counting.Crater.maker(semimajor_axis=a, semiminor_axis=b, orientation=phi, location=(lon, lat))
        meas = bool(rng.integers(2))
        if meas:
            cr.measured_location = (lon + 0.5 if lon < 179 else lon - 0.5, lat - 0.5)
        g = cr.to_geoseries(surface=s, split_antimeridian=False, use_measured_properties=meas).item()
        c.check(g.is_valid or np.ptp([q[0] for q in g.exterior.coords]) > 180, "the outline of a crater crosses itself", where=str(cr.location), a=cr.semimajor_axis, b=cr.semiminor_axis)
        pts = np.array([q[:2] for q in g.exterior.coords])
        lo = cr.measured_location if meas else cr.location
        d = central_angle(np.array(lo), pts) * R
        c.check(abs(d.max() - a) < 1e-3 * a and abs(d.min() - b) < 1e-3 * b, "the outline does not have the crater's axes", got=(d.min(), d.max()), want=(b, a))
        if b < 0.9 * a:
            # bearing of the farthest vertex = orientation (mod 180)
            i = int(np.argmax(d))
            lo1, la1, lo2, la2 = *np.radians(lo), *np.radians(pts[i])
            brg = math.degrees(math.atan2(math.sin(lo2 - lo1) * math.cos(la2), math.cos(la1) * math.sin(la2) - math.sin(la1) * math.cos(la2) * math.cos(lo2 - lo1)))
            off = (brg - phi + 90) % 180 - 90
            c.check(abs(off) < 4, "the long axis of the outline does not point along the orientation", got=brg, want=phi)
        sp = cr.to_geoseries(surface=s, split_antimeridian=True, use_measured_properties=meas).item()
        parts = list(sp.geoms) if hasattr(sp, "geoms") else [sp]
        xs = np.concatenate([np.array([q[0] for q in p.exterior.coords]) for p in parts])
        c.check(np.all(np.abs(xs) <= 180 + 1e-9), "a split outline leaves the longitude range", got=(xs.min(), xs.max()))
        c.check(all(np.ptp([q[0] for q in p.exterior.coords]) < 180 for p in parts), "a piece of the split outline still crosses the antimeridian")
        un = np.array(pts)
        un[:, 0] = lo[0] + (un[:, 0] - lo[0] + 180) % 360 - 180
        from shapely.geometry import Polygon

        want = Polygon(un).area
        c.close(sum(p.area for p in parts), want, "splitting changes the area of the outline", rtol=1e-6)
        crosses = bool(un[:, 0].max() > 180 or un[:, 0].min() < -180)
        c.check((len(parts) > 1) == crosses, "the outline is split although it does not cross the antimeridian, or not split although it does", parts=len(parts), range=(un[:, 0].min(), un[:, 0].max()))
        c.seen("outline", k, crosses, b == a, meas)
    for _ in range(30):  # outlines are polygons whose areas and intersections can be taken
        a, e, q, o = float(10 ** rng.uniform(4, 5.4)), float(rng.uniform(0.3, 1.0)), (float(rng.uniform(-150, 150)), float(rng.uniform(-70, 70))), float(rng.uniform(0, 360))
        g = sim.counting.Crater.maker(semimajor_axis=a, semiminor_axis=a * e, orientation=o, location=q).to_geoseries(surface=s, split_antimeridian=False).item()
        c.check(g.is_valid, "the outline of a crater crosses itself", where=q, a=a, ratio=e, orientation=o)
    c.note(last=(lon, lat, a, b, phi))


def intervals(c):
    """Counting.export: one file per saved interval and type, each with that interval's craters."""
    import cratermaker as cm

    rng = c.rng
    sim = make_sim(c, "s", gridlevel=1, rng_seed=1)
    cnt = sim.counting
    model = {"observed": {}, "emplaced": {}}
    for i in sorted(int(x) for x in rng.permutation([0, 1, 2, 3, 8, 12])[: int(rng.integers(1, 5))]):
        for k in model:
            crs = rand_craters(rng, cnt.Crater, int(rng.integers(0, 5)))
            if k == "observed":
                cnt.observed.clear()
                cnt.observed.update({x.id: x for x in crs})
            else:
                cnt.emplaced[:] = crs
            if crs:
                model[k][i] = crs
        cnt.save(interval=i)
    drv = ["CSV", "SCC", "VTK", "VTP"][c.index % 4]
    ctype = str(rng.choice(["observed", "emplaced", "both"]))
    saved = sorted(set(model["observed"]) | set(model["emplaced"]))
    which = None if rng.random() < 0.4 or not saved else int(rng.choice(saved))
    kw = {"crater_type": ctype}
    cnt.export(driver=drv.lower() if rng.random() < 0.3 else drv, interval=which, **kw)
    files = {p.name: p for p in cnt.export_dir.iterdir()}
    used = set()
    for k in model:
        for i, crs in model[k].items():
            name = f"{k}{i:06d}.scc" if drv == "SCC" else f"{k}_craters{i:06d}.{'csv' if drv == 'CSV' else 'vtp'}"
            asked = ctype in ("both", k) and which in (None, i)
            if not c.check((name in files) == asked or (not asked and name not in files), "the exported files are not those of the requested intervals and type", file=name, asked=asked, files=sorted(files), driver=drv, interval=which, type=ctype):
                continue
            if not asked:
                continue
            used.add(name)
            if drv == "SCC":
                match(c, read_scc(files[name])[2], crs, f"{k} of interval {i}")
            elif drv == "CSV":
                got = {int(x.id): x for x in cm.Crater.from_file(files[name])}
                c.check(set(got) == {int(x.id) for x in crs}, "the CSV file does not hold the craters of its interval", file=name, got=sorted(got), want=sorted(int(x.id) for x in crs))
                for x in crs:
                    if int(x.id) in got:
                        d = diff(x, got[int(x.id)], FIXED + ["measured_diameter"])
                        c.check(not d, "a crater in the CSV file is not the one of its interval", diff=d)
            else:
                pts, lines = read_vtp(files[name])
                cen = sorted(round(float(np.degrees(np.arcsin(np.clip((pts[l[:-1]].mean(0) / np.linalg.norm(pts[l[:-1]].mean(0)))[2], -1, 1)))), 1) for l in lines)
                want = sorted(round(x.measured_location[1], 1) for x in crs)
                c.check(len(cen) == len(want) and np.allclose(cen, want, atol=0.6), "the VTK file does not hold the craters of its interval", file=name, got=cen, want=want)
            c.seen("export", drv, k, which is None, min(len(crs), 3))
    for name in set(files) - used:  # files without craters are allowed
        if name.endswith(".scc"):
            c.check(not read_scc(files[name])[2], "an exported file has craters that were not saved for its interval", file=name)
        elif name.endswith(".csv"):
            c.check(len(files[name].read_text().strip()) == 0, "an exported file has craters that were not saved for its interval", file=name)
    # the current craters, without saving
    cur = rand_craters(rng, cnt.Crater, 3)
    cnt.observed.clear()
    cnt.observed.update({x.id: x for x in cur})
    cnt.to_scc_file(crater_type="observed", interval=77)
    match(c, read_scc(cnt.export_dir / "observed000077.scc")[2], cur, "the current observed craters")
    c.check(cnt.ask_overwrite is False, "export changed ask_overwrite")
    c.note(saved=saved, driver=drv, interval=which, type=ctype)


SCENARIOS = [("scc_global", scc_global, 12, 200), ("scc_local", scc_local, 12, 200), ("rings", rings, 16, 300), ("outline", outline, 20, 400), ("intervals", intervals, 24, 400)]
