"""Hand-written parts of DESIGN.md (assembled by gen_design.py)."""

HEAD = """# Design

MintonGroup/cratermaker simulates cratered planetary surfaces.  A user relies on it to draw crater populations that
follow published production functions, to form each crater once on a mesh that tiles the body, to keep the observed
count consistent with the surface, to save, resume and export that history faithfully, and to do the same again from
the same seed.  `properties.jsonl` states those guarantees; this file says how each one is decided.

## Technique

Everything is decided by **runtime monitoring**: the real Python code of `/repo` is run under generated, hostile and
fault-injected workloads, and an oracle written independently of the code watches the executions.  Four kinds of
monitors are used.

* **Differential oracles**: what the code returns is compared with an independent closed form, quadrature, brute-force
  search, statistical distribution or published table.
* **Model-based monitors**: a reference model (a dict of saved intervals, a copy of every mesh variable, a set of tags, a
  two-pointer merge) is updated by the documented rule alongside the real object and compared after every operation.
* **Trace checkers**: hooks on live objects (`lib/simkit.wrap_method`) record emplacements, formations, saves, file
  operations and prompts; offline checkers decide exactly-once, order, contiguity, conservation and "nothing else
  changed" over the log.
* **Fault injection**: exceptions, interrupts and process death (in a forked child) at random points and around every
  file write, with an equality oracle between the resumed and the uninterrupted run.

Each check is `checks/pXX.py`: a list of scenarios, each a function of a context (`lib/vh.Ctx`) with its own random
stream derived from the seed, the scenario and the case index, so that a case is replayed alone with
`./run.sh pXX replay <file>`.  Cases run in eight forked workers.  The oracle counts as events the observations it
decided on, and records the distinct abstract states it saw; both go to `evidence/PXX.json`.  An exception in the code
under test that the scenario does not expect is a violation.  A check fails (exit 1, `VIOLATION` line) on any
violation that `known_findings.json` does not list; statistical bounds have a false-alarm probability below 1e-7 per run
(most below 1e-9) and the seed is fixed by `VERIF_SEED`, so a quiet tree stays quiet.

Checks only use public API and observable results: a refactoring that keeps behaviour does not change what they see.
Hooks are placed on public methods of live instances (`emplace`, `populate`, `save`, `form_crater`, `apply_diffusion`,
...); fault injection replaces library calls (`shutil.move`, `to_netcdf`, `Path.unlink`) or public methods.

### The Rust extension

cratermaker calls a Rust extension for some numerical kernels (distances, bearings, diffusion, slope, crater profiles,
counting kernels).  The crates it needs (pyo3, numpy, ndarray, noise) are not in the offline cache, so the extension
cannot be compiled here, and `/opt/vp/build.sh` only parses it.  `lib/bindings_py.py` supplies stand-ins for
every kernel, written from the kernels' documentation and Rust source, so that the Python code above them can run.
Consequence: a change inside `crates/` is **not** seen by these checks (nor by the repository's own runnable tests);
everything in Python is.  Where a property depends on a kernel it is stated about the Python layer that calls it.
Sanitizers (ASan, UBSan, TSan, Miri) therefore have nothing to run on here: the only native code of the project does not
build offline.  The kernels are safe Rust with rayon data parallelism over disjoint outputs.

### Hooks

None are needed in `/repo`; all hooks are placed on live objects by the harness. `MANIFEST.json` lists no guard variable.

### Running

`setup.sh` only makes sure that the interpreter with the project's dependencies works; nothing is installed.
`./run.sh pXX quick|thorough` runs a check against `/repo`'s working tree (the package is imported from there with
bytecode caching off).  Quick tiers take 4-45 s; thorough tiers repeat the same scenarios 5-60 times as often.
"""

P = {
"P01": ("Two or more runs of the same program from the same seed, generator or saved state, in one process and in fresh forked processes, interleaved with other users of randomness; results, the noise on surfaces and places drawn on them are compared bit by bit.",
        "Programs from single utilities to whole simulations with QMC craters, subpixel degradation, rays and counting.",
        "Equality is over everything a user can read (craters, surface variables, tallies, generator state).  Speed, memory and file timestamps are not compared."),
"P02": ("The unit vector of the location given against that of the location stored; canonical range; idempotence; the same answer for every input form.",
        "Hundreds of turns, poles and nextafter neighbours of +-180 and +-90, all array and sequence forms, and every route by which a location reaches a crater.", ""),
"P03": ("The geometric identities between radius, diameter, axes, transient and projectile sizes, velocity, angle, mass and density, recomputed with independent formulae.",
        "Every size input over 12 decades with random velocity inputs, and histories of measurements, refused assignments and copies.",
        "The Monte Carlo scatter of the scaling is checked in P10; here only the relation that was drawn."),
"P04": ("The fields that a copy overrides against those it must keep; the id as a function of the fixed quantities.", "Chains of copies with random overrides; promotion through a simulation; 32-bit collisions counted over large sets.", "Ids are 32-bit hashes: a single chance collision is accepted, not two."),
"P05": ("Field-by-field equality after NetCDF, CSV and simulation output.", "Lists that mix circular and elliptical craters and present and missing optional fields, where the file format has one column for all.", ""),
"P06": ("Independent readers of SCC, CSV, vector and VTK files; spherical geometry for outlines and for the part of a crater inside a region.", "Regions at poles and antimeridian; measured values different from true ones; one, several or all intervals.", "`Counting.to_vector_file` is a stub upstream and not claimed.  SCC files of a whole body cannot be read back by craterstats (known finding, below); files of regions touching a pole likewise."),
"P07": ("Published polynomials and power laws evaluated independently; round trips through the inversions.", "1 mm to 10^7 m, every model and version, ages from 1 My to the model's limit.", ""),
"P08": ("Poisson counts, Kolmogorov-Smirnov tests of sizes and times against the production function itself; whole populations are put on a surface and the faces (and areas) hit compared with the areas they stand for, by class of size.", "Every way of describing a window; 10^2 to 10^5 craters a case.", ""),
"P09": ("Analytic distribution functions; point-in-spherical-polygon tests for random locations on a face.", "Random parameters, shapes and seeds.", ""),
"P10": ("Holsapple/Richardson relations, the simple-complex transition and its inverse written out independently; monotonicity sweeps; frequencies of types across the transition.", "Random bodies, materials and projectiles, not only those of the catalogue.", ""),
"P11": ("Each body's derived quantities recomputed; the catalogue is read again after every mutation of any instance.", "Random overrides, failed assignments and shared state between instances.", ""),
"P12": ("Documented means and distributions (encounter velocity plus escape velocity, sin 2θ angles, isotropic locations).", "Every population on catalogue and made-up bodies.", ""),
"P13": ("An independent merge model; normal quantiles of drawn ages; exactly-once and order checkers over complete runs.", "Random metadata mixtures, overlapping uncertainties, CSV files, several intervals and continuations.", ""),
"P14": ("Snapshots of the simulation, surface, generator and directory before and after each refused call.", "About 45 forms of contradiction with random valid companions, on fresh and partly run simulations.", "Equal start and end of `sample` raise, which is not claimed either way."),
"P15": ("A trace specification over populate / emplace / save events: contiguous windows, one save per boundary, clocks that agree, counts that are Poisson.", "Runs by age, window and number, equal intervals that do or do not divide the run, continuations, repeats and extensions.", "Simulations whose default projectile generator draws contradictory size limits on coarse meshes raise ValueError upstream; they are not generated."),
"P16": ("The resumed simulation against the uninterrupted one: clock, craters, surface, generator.", "Exceptions and process death at random points and before, during and after every file write.", "Death in the middle of `shutil.move` across file systems (a torn surface file) is not claimed."),
"P17": ("A dict from interval to what was last saved for it.", "Sparse, repeated and out-of-order saves, then every read; exports, plots and reads must not change what is saved.", "Reading further back than was saved (`-k`) raises IndexError upstream; not claimed."),
"P18": ("Spherical polygon areas sum to the sphere; Euler characteristic; adjacency symmetric; Voronoi property; face sizes against the request.", "All mesh kinds at random resolutions, radii and places; also made over the files of another mesh.", "Resolutions changed after creation do not regenerate the mesh; not claimed."),
"P19": ("Brute-force great-circle search over the whole mesh.", "Poles, antimeridian, unnormalised longitudes, tiny to whole-body radii, subregions.", ""),
"P20": ("A reference copy of every variable, compared in full after every operation.", "Histories over surface, regions and subregions; elevation processes conserve volume and stay in their region.", "When all eight tag slots of a face are full, which one gives way is not claimed."),
"P21": ("A reference model of tags and tally.", "Overlapping, nested and equal craters; surfaces later flattened, filled or untouched; resumed countings.", "The visibility threshold itself is a kernel; craters near it are accepted either way."),
"P22": ("A log of every crater physically formed, against the request; the surface of one batch against one by one.", "Failures and interrupts at every stage of an emplacement followed by further requests.", "`emplace([])` raises ValueError upstream; not claimed."),
"P23": ("Volume before = volume after plus what truncation removes; regolith and elevations out of reach unchanged; ejecta laid beforehand must be gone from inside the rim (median over its faces).", "Isolated, nested, overlapping, polar craters with all combinations of options on three mesh kinds.", "Craters of one face may have positive excavated volume; only conservation is claimed there."),
"P24": ("Closed forms and quadratures written from the cited papers.", "Ten decades of size; scalars, lists, n-d arrays; truncations and thickness limits; time spans split at random.", ""),
"P25": ("Content hashes of the whole directory before and after; a guard that blocks and reports any deletion outside the scratch directory; a scripted user.", "User files with names close to the output's, links, answers at any prompt, injected failures.", "VTK exports of a surface write `grid.vtp` only when it is missing; exempted."),
"P26": ("Equivalent ways of building a component compared; a call log against the save actions asked for.", "All families and names, random random-state arguments, YAML round trips.", "`Projectile.simdir` is `.` upstream; not claimed."),
"P27": ("The arrays, extents, outlines and texts inside the figure objects, and the pixels of the files, against a nearest-face lookup in the saved data.", "Several saved intervals with different terrain; global and local views; craters of earlier intervals, also when nothing formed later.", "A pixel may take the value of any face that touches it (the rasteriser's rule).  Poles (|lat|>55) and the two columns at the antimeridian of global maps are not compared.  The plot of the latest saved interval shows the data in memory, as documented."),
"P28": ("Whole-mesh scans (area sum, face sizes against distance, neighbours), set arithmetic of region and local faces against every operation's changes, before/after pictures of saved files and prompts.", "Places at poles and the antimeridian, bodies from 50 km up, regions inside, across, outside and around; reopening with changed settings; all exports.", "Faces of a giant superdomain have quadrature areas off by up to 4 % (uxarray): tiling is not compared there.  The factor seen after deriving it is in metres.  A region that touches the local one only with its border need not overlap it.  Vector exports leave out faces across the antimeridian, by design."),
"P29": ("A lookup, written from the definition of the projection, of every face and node in generated rasters whose pixels all differ; analytic terrains for surfaces made from DEMs; the archive's naming rules for lunar files.", "Rasters with odd centres, types, units, marks of missing data, holes and overlaps; places at the poles, the antimeridian and the seam of the file; cancelling, exceptions, reopening, resets, missing files.", "Downloads cannot run here: only the choice of files is checked.  Geographic DEM files for `DataSurface`, 0-360 geographic rasters, and lunar regions across 60 degrees latitude or wider than two tiles are not claimed."),
"P30": ("A recording stand-in for the native rim fit that returns prescribed rims: its call log is compared with the options asked for and the craters concerned, the stored measurements with the rims it returned; heights and depths are recomputed from the mesh after it was changed.", "Fits by hand, tallies over all craters or a region, and craters being formed past the size at which tallies are taken automatically; rims anywhere; saved and reread.", "The fit itself is native code that cannot be built here.  The documentation's claim that `fit_rim` returns a new crater is not claimed: it changes the one it is given."),
"P31": ("Every exported polygon and cell is matched with a face by its corners alone; the data of that face in every variable and layer are compared with copies the check took when it saved the interval.", "Icosphere and arbitrary-resolution surfaces and regions of them (poles and antimeridian too), float, integer and tag data, gaps in the numbering of intervals, changes after saving, all spellings of the drivers.", "Vector formats that cannot hold polygons with attributes (CSV, GPX, DXF) and local GeoJSON coordinates are not claimed; unknown drivers are ignored by `export`, by design.  Empty columns for variables that other intervals have are accepted."),
"P32": ("Digests of everything a simulation holds and of what decides its next step (random generator, mesh data, counted and emplaced craters, clock, production limits, models, prompts, all files) are compared before and after every inspection, and a twin with the same seed that is never looked at must end identically; craters are rebuilt from one random state in shuffled order; the limits are compared with a small model of clamping.", "Crater- and projectile-based production functions, both scaling models, with and without counting; every public property of every component found by introspection, strings, configurations, regions, rates, VTK meshes, saved output, exports and plots in random order, between runs, populations and single craters.", "How large the estimate of the projectile of a crater is, is not claimed (it is drawn with a random impact angle although its documentation speaks of 1 and 90 degrees); inverted limits are refused only when a population is drawn."),
"P33": ("The text of every object is parsed into label/value/unit lines; each is compared with the object's present value in that unit, to half a unit of the last digit shown, and the unit with the rule of the largest that does not exceed the value.", "Magnitudes from 1e-12 to 1e15 of every quantity including negative, zero, missing and one ulp about each threshold; every component kind with random settings, before and after changes; craters with and without peaks, ellipses, measurements and names; regions; whole simulations new, with craters, changed, run and reopened.", "Wording and order of the lines are taken from the present code: a label that is renamed on purpose has to be renamed in the check."),
}

TAIL = """
## Observed but not claimed

* `Crater.maker` does not accept `id` or `morphology_type`, although crater files hold them.
* Saved crater files lose the interval's `time` when craters carry their own `time`.
* Border nodes of a region are interpolated from the region's own faces only.
* `uxarray` face centres are centroids, and its latitudes lose precision next to the poles.
* PROJ's equal-area inverse is wrong for points exactly 90 degrees from the origin.
* `_compute_face_bins` fails on an exact power-of-two ratio of face areas.
* Outlines of craters that enclose a pole cannot be split at the antimeridian.
* Simulations of Mercury, Venus and Earth use a projectile generator whose random size limits can be inverted on coarse meshes (ValueError).

## False alarms met while building, and what was done

* P27 first compared a pixel with the face under its centre.  The rasteriser marks every pixel a face touches, so a pixel
  may hold any touching face: the oracle now accepts the faces that reach the pixel.  Local maps are in the equal-area
  projection, not the equidistant one the first oracle assumed.
* P27 first required hillshades inside 0..1: the blend of matplotlib is not clipped; only presence is required now.
* P25 first reported `export/grid.vtp` as stale: it is written only when missing, by design.
* P18/P19: face centres are centroids, and latitudes next to the poles are imprecise in `uxarray`; the tolerances there follow from that, traced upstream.
* P24: standalone `form_ejecta` before any crater raises TypeError; the scenario now forms the crater first.
* P23: one-face craters with positive excavated volume are physical on a coarse mesh; only conservation is checked.
* P28 first compared the area of every face with its cell: cells of a giant superdomain have wrong quadrature areas; and it
  expected overlaps of regions that only touch with their borders, and records of border craters that are found worn out at once.
* P27: `close_when_done` only applies to figures that were saved or shown.
* P29: two alarms at the seam of a file and one at its closing edge were genuine and were repaired.
"""
