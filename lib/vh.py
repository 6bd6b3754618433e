"""Harness shared by every check: bootstraps the real code from /repo, runs seeded scenarios in worker processes, collects
what the monitors observed, prints VIOLATION / KNOWN-FINDING lines and writes /verif/evidence/<id>.json."""
import atexit
import contextlib
import hashlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    """A property violation observed by a monitor."""


class Skip(Exception):
    """The scenario does not apply here (counted, never an alarm)."""


_booted = False


def bootstrap():
    """Imports cratermaker from /repo on top of the stand-ins for its native extension."""
    global _booted
    if _booted:
        return sys.modules["cratermaker"]
    _booted = True
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    from lib import bindings_py

    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    bindings_py.install()
    if not (REPO / "cratermaker" / "_version.py").exists():
        m = types.ModuleType("cratermaker._version")
        m.__version__ = m.version = "0.0.0"
        sys.modules[m.__name__] = m
    import cratermaker

    try:  # checks use one process per core already
        import dask

        dask.config.set(scheduler="synchronous")
    except ImportError:
        pass
    assert Path(cratermaker.__file__).resolve() == (REPO / "cratermaker" / "__init__.py").resolve(), cratermaker.__file__
    return cratermaker


def rng_for(*key):
    import numpy as np

    h = hashlib.sha256(json.dumps([SEED, *map(str, key)]).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def jsonable(x, depth=0):
    import numpy as np

    if depth > 6:
        return str(x)[:200]
    if isinstance(x, (str, bool, int, type(None))):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist() if x.size <= 32 else ["array", list(x.shape), *x.reshape(-1)[:16].tolist()], depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:64]]
    return str(x)[:300]


class Ctx:
    """What one case of a scenario sees: its generator, a scratch directory and the monitor's recording functions."""

    def __init__(self, prop, scenario, index, tier):
        self.prop, self.scenario, self.index, self.tier = prop, scenario, index, tier
        self.rng = rng_for(prop, scenario, index)
        self.events = 0
        self.states = set()
        self.fails = []
        self.params = {}
        self._tmp = None

    # -- scratch
    @property
    def tmp(self):
        if self._tmp is None:
            base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None
            self._tmp = Path(tempfile.mkdtemp(prefix=f"verif_{self.prop}_", dir=base))
        return self._tmp

    def dir(self, name):
        p = self.tmp / name
        p.mkdir(parents=True, exist_ok=True)
        return p

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)

    # -- recording
    def note(self, **kw):
        self.params.update(kw)

    def seen(self, *key):
        """One monitored event, in the abstract state `key` (for distinct-state counting)."""
        self.events += 1
        self.states.add(json.dumps(jsonable([self.scenario, *key]), sort_keys=True))

    def check(self, cond, msg, /, finding=None, **detail):
        """Oracle: records a violation when cond is false; the case goes on."""
        self.events += 1
        if not bool(cond):
            self.fail(msg, finding=finding, **detail)
        return bool(cond)

    def fail(self, msg, /, finding=None, **detail):
        if len(self.fails) < 20:
            self.fails.append({"msg": msg, "finding": finding, "detail": jsonable(detail)})

    def close(self, a, b, msg, /, rtol=1e-9, atol=0.0, finding=None, **detail):
        import numpy as np

        a_, b_ = np.asarray(a, float), np.asarray(b, float)
        ok = a_.shape == b_.shape and bool(np.all(np.isclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True)))
        return self.check(ok, msg, finding=finding, **{**detail, "observed": a, "expected": b})

    def raises(self, fn, msg, /, exc=Exception, finding=None, **detail):
        """The call must be refused with an exception of type exc."""
        self.events += 1
        try:
            with quiet():
                v = fn()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(f"{msg}: wrong exception {type(e).__name__}: {e}", finding=finding, **detail)
            return False
        self.fail(f"{msg}: accepted", finding=finding, returned=str(v)[:200], **detail)
        return False


@contextlib.contextmanager
def quiet():
    """Silences progress bars and prints of the code under test."""
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        sys.stdout, sys.stderr = so, se


def call(fn, *a, **k):
    with quiet():
        return fn(*a, **k)


# --------------------------------------------------------------------------------------------- running
class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout()


CASE_LIMIT_S = {"quick": 240, "thorough": 900}


def run_case(prop, name, fn, index, tier):
    ctx = Ctx(prop, name, index, tier)
    skipped = False
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S[tier])
    try:
        with quiet():
            fn(ctx)
    except Skip:
        skipped = True
    except Violation as e:
        ctx.fail(str(e))
    except CaseTimeout:
        ctx.fail(f"case still running after {CASE_LIMIT_S[tier]} s (normal cases take seconds)", finding="hang")
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:  # noqa: BLE001 - an error on a valid input is a violation too
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{Path(f.filename).name}:{f.lineno}:{f.name}" for f in tb[-5:][::-1])
        ctx.fail(f"unexpected {type(e).__name__}: {str(e)[:300]}", finding=f"exc:{type(e).__name__}", where=where)
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        ctx.cleanup()
    return {
        "scenario": name, "index": index, "events": ctx.events, "states": sorted(ctx.states), "fails": ctx.fails,
        "params": jsonable(ctx.params), "skipped": skipped,
    }


def _worker(prop, modname, jobs, tier, deadline, conn):
    mod = sys.modules[modname]
    table = dict((n, f) for n, f, _, _ in mod.SCENARIOS)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    for name, index in jobs:
        if time.time() > deadline:
            conn.send({"scenario": name, "index": index, "timeout": True})
            continue
        try:
            r = run_case(prop, name, table[name], index, tier)
        except BaseException as e:  # noqa: BLE001
            r = {"scenario": name, "index": index, "harness_error": f"{type(e).__name__}: {e}"}
        conn.send(r)
    conn.send(None)
    conn.close()


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text())["findings"]


def main(modname, argv):
    mode = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    sys.path.insert(0, str(VERIF))
    tier = "thorough" if mode == "thorough" else "quick"
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    t0 = time.time()
    if mode == "replay":
        return replay(mod, argv[1])
    if not getattr(mod, "JIT", False):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    if getattr(mod, "NEEDS_CRATERMAKER", True):
        bootstrap()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    jobs = []
    for name, _fn, nq, nt in mod.SCENARIOS:
        n = nq if tier == "quick" else nt
        jobs += [(name, i) for i in range(n)]
    rng_for("order").shuffle(jobs)
    nw = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4, getattr(mod, "MAX_WORKERS", 8))
    budget = getattr(mod, "BUDGET_S", {}).get(tier, 600 if tier == "quick" else 5400)
    deadline = t0 + budget
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if j[0] == only]
    ctx = mp.get_context("fork")
    procs = []
    for w in range(nw):
        shard = jobs[w::nw]
        if not shard:
            continue
        r, s = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(prop, modname, shard, tier, deadline, s), daemon=False)
        p.start()
        s.close()
        procs.append((p, r, {tuple(j) for j in shard}))
    results = []
    from multiprocessing.connection import wait

    live = {r: (p, left) for p, r, left in procs}
    hard = deadline + 150
    died = []
    while live:
        ready = wait(list(live), timeout=5)
        for r in ready:
            p, left = live[r]
            try:
                m = r.recv()
            except EOFError:
                died.append((p, sorted(left)))
                del live[r]
                continue
            if m is None:
                del live[r]
            else:
                left.discard((m["scenario"], m["index"]))
                results.append(m)
        if time.time() > hard:
            for r in list(live):
                live[r][0].kill()
                del live[r]
    for p, _, _ in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    return report(mod, prop, tier, results, died, time.time() - t0)


def report(mod, prop, tier, results, died, wall):
    known = [k for k in load_known() if k["property"] == prop and k["status"] == "known"]
    states = set()
    events = 0
    per = {}
    samples, fails, hits, harness = [], [], {}, []
    done = 0
    for r in results:
        if r.get("timeout"):
            continue
        if "harness_error" in r:
            harness.append(r)
            continue
        done += 1
        d = per.setdefault(r["scenario"], {"cases": 0, "events": 0, "skipped": 0, "states": 0})
        d["cases"] += 1
        d["events"] += r["events"]
        d["skipped"] += r["skipped"]
        events += r["events"]
        new = set(r["states"]) - states
        d["states"] += len(new)
        states |= new
        if r["params"] and d["cases"] <= 2 and len(samples) < 12:
            samples.append({"scenario": r["scenario"], "case": r["index"], **({"params": r["params"]})})
        for f in r["fails"]:
            k = match_known(known, r, f)
            if k is not None:
                hits[k["key"]] = hits.get(k["key"], 0) + 1
            else:
                fails.append({**f, "scenario": r["scenario"], "index": r["index"], "params": r["params"]})
    for p, left in died:
        # A worker ended by a signal while running the code under test (out of memory is reported, not blamed).
        if p.exitcode is not None and p.exitcode < 0 and -p.exitcode in (4, 6, 7, 8, 11):
            fails.append({"msg": f"process died of signal {-p.exitcode}", "scenario": left[0][0] if left else "?", "index": left[0][1] if left else 0, "detail": {}, "params": {}})
        else:
            harness.append({"harness_error": f"worker exit {p.exitcode}", "left": left[:3]})
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(states), "rule": mod.RULE,
            "samples": samples or [{"note": "no sample recorded"}], "monitored_events": events, "scenarios": per,
            "known_findings_hit": hits, "harness_errors": [h["harness_error"] for h in harness][:5],
            **(mod.extra_coverage() if hasattr(mod, "extra_coverage") else {}),
        },
        "violations": len(fails),
        "assumptions": getattr(mod, "ASSUMPTIONS", ["the Python layer runs on numpy stand-ins for its native extension, which cannot be built offline"]),
        "wall_s": round(wall, 2),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    for k in known:
        if k["key"] in hits:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for h in harness[:5]:
        print("HARNESS-NOTE:", h["harness_error"], h.get("scenario", ""), h.get("index", ""), file=sys.stderr)
    if fails:
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        shown = set()
        for f in fails:
            key = (f["scenario"], f["msg"][:60])
            if key in shown or len(shown) >= 8:
                continue
            shown.add(key)
            path = rd / f"{prop}_{f['scenario']}_{f['index']}_{len(shown)}.json"
            path.write_text(json.dumps({"property": prop, "seed": SEED, "tier": tier, **f}, indent=1))
            print(f"  [{f['scenario']}#{f['index']}] {f['msg']} {json.dumps(f.get('detail'))[:600]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not done:
        print(f"NO-ANSWER property={prop}: no case ran")
        return 2
    print(f"OK property={prop} tier={tier} cases={done} events={events} distinct={len(states)} wall={wall:.1f}s")
    return 0


def match_known(known, r, f):
    for k in known:
        if k.get("scenario") not in (None, r["scenario"]):
            continue
        if k.get("finding") is not None and k["finding"] == f.get("finding"):
            if k.get("where") and k["where"] not in json.dumps(f["detail"]):
                continue
            return k
    return None


def replay(mod, path):
    global SEED
    f = json.loads(Path(path).read_text())
    SEED = f["seed"]
    if not getattr(mod, "JIT", False):
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    if getattr(mod, "NEEDS_CRATERMAKER", True):
        bootstrap()
    if hasattr(mod, "prepare"):
        mod.prepare(f["tier"])
    table = dict((n, fn) for n, fn, _, _ in mod.SCENARIOS)
    r = run_case(mod.PROPERTY, f["scenario"], table[f["scenario"]], f["index"], f["tier"])
    print(json.dumps(r["fails"], indent=1))
    if r["fails"]:
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.path.insert(0, str(VERIF))
    from lib import vh

    sys.exit(vh.main("checks." + sys.argv[1], sys.argv[2:]))
