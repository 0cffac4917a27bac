"""Core of the monitoring framework: reports, verdicts, case execution, evidence."""
import collections, contextlib, hashlib, io, json, os, sys, time, traceback, zlib
from concurrent.futures import ProcessPoolExecutor, as_completed
import multiprocessing as mp
import numpy as np

ROOT = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))


def rng_for(*parts):
    return np.random.default_rng([zlib.crc32(repr(p).encode()) for p in parts])


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:40])}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.floating, float)):
        f = float(x)
        return f if np.isfinite(f) else repr(f)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return repr(x)[:200]


class Report:
    """What the monitors observed in one case (picklable, mergeable)."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.events = collections.Counter()
        self.violations = []          # (key, detail)
        self.skipped = collections.Counter()
        self.errors = []
        self.samples = []
        self.maxerr = {}
        self.lines = set()            # (file, line) of the code under test that ran

    def event(self, name, n=1):
        self.events[name] += n

    def evaluated(self, nontrivial_key=None, n=1):
        self.evaluations += n
        if nontrivial_key is not None:
            self.distinct.add(hashlib.md5(repr(nontrivial_key).encode()).hexdigest()[:16])

    def violate(self, key, **detail):
        if sum(1 for k, _ in self.violations if k == key) < 3:
            self.violations.append((key, jsonable(detail)))
        self.events["violations:" + key] += 1

    def sample(self, **s):
        if len(self.samples) < 2:
            self.samples.append(jsonable(s))

    def skip(self, why, n=1):
        self.skipped[why] += n

    def close(self, key, got, want, rtol=1e-9, atol=0.0, scale=None, **detail):
        """Oracle comparison; elementwise |got-want| <= rtol*max(|want|, scale)+atol."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.events["oracle_comparisons"] += int(max(got.size, 1))
        if got.size != want.size:
            try:
                want = np.broadcast_to(want, got.shape)
            except ValueError:
                self.violate(key, problem="shape", got_shape=got.shape, want_shape=want.shape, **detail)
                return False
        got, want = got.ravel(), want.ravel()
        mag = np.abs(want)
        if scale is not None:
            mag = np.maximum(mag, np.max(np.abs(np.asarray(scale, dtype=float))) if np.size(scale) else 0.0)
        tol = rtol * mag + atol
        with np.errstate(invalid="ignore"):
            bad = ~(np.abs(got - want) <= tol)
            bad &= ~(np.isnan(got) & np.isnan(want))
            bad &= ~(np.isinf(got) & (got == want))
        if got.size and np.all(np.isfinite(got)) and np.all(np.isfinite(want)):
            e = float(np.max(np.abs(got - want) / np.maximum(mag, 1e-300)))
            if np.isfinite(e) and not bad.any():
                self.maxerr[key.split(":")[0]] = max(e, self.maxerr.get(key.split(":")[0], 0.0))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            self.violate(key, index=i, got=got[i], want=want[i], n_bad=int(bad.sum()), size=int(got.size),
                         got_all=got, want_all=want, **detail)
            return False
        return True

    def require(self, key, cond, **detail):
        self.events["oracle_comparisons"] += 1
        if not bool(cond):
            self.violate(key, **detail)
            return False
        return True

    def merge(self, o):
        self.evaluations += o.evaluations
        self.distinct |= o.distinct
        self.events.update(o.events)
        self.violations += o.violations
        self.skipped.update(o.skipped)
        self.errors += o.errors
        self.samples += o.samples
        self.lines |= o.lines
        for k, v in o.maxerr.items():
            self.maxerr[k] = max(v, self.maxerr.get(k, 0.0))


def repo_frames(tb):
    """Frames of the traceback that lie in the code under test (not its tests)."""
    out = []
    base = os.path.join(os.path.realpath(REPO), "openconcept") + os.sep
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(base) and "/tests/" not in f:
            out.append((os.path.relpath(f, os.path.realpath(REPO)), fr.name, fr.lineno))
    return out


def om_frames(tb):
    return any(os.sep + "openmdao" + os.sep in fr.filename for fr in traceback.extract_tb(tb))


class Observed(Exception):
    """A violation that keeps the case from going on."""


class HarnessSkip(Exception):
    """The harness cannot build this case on this tree (e.g. an internal class is gone)."""


@contextlib.contextmanager
def quiet():
    """Swallow stdout/stderr at file-descriptor level."""
    sys.stdout.flush(); sys.stderr.flush()
    o, e = os.dup(1), os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1); os.dup2(dn, 2); os.close(dn)
    try:
        yield
    finally:
        sys.stdout.flush(); sys.stderr.flush()
        os.dup2(o, 1); os.dup2(e, 2); os.close(o); os.close(e)


@contextlib.contextmanager
def guarded(rep, key, legal=True, **detail):
    """Run code under test on legal input: an exception raised from inside it is a violation."""
    try:
        yield
    except HarnessSkip:
        raise
    except Exception as ex:
        frames = repo_frames(ex.__traceback__)
        if legal:
            rep.violate(key + ":exception", exception=type(ex).__name__, message=str(ex)[:500], frames=frames[-3:],
                        **detail)
        else:
            rep.skip(key + ":" + type(ex).__name__)


LINES = set()


def watch_lines():
    """Record which lines of the code under test execute (each reported once per process, so at no cost afterwards)."""
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(mon.COVERAGE_ID):
        return
    base = os.path.join(os.path.realpath(REPO), "openconcept") + os.sep
    known = {}

    def hit(code, line):
        f = known.get(code.co_filename)
        if f is None:
            r = os.path.realpath(code.co_filename)
            f = known[code.co_filename] = r[len(base):] if r.startswith(base) and "/tests/" not in r else ""
        if f:
            LINES.add((f, line))
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, "vf")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, hit)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def run_case(modname, case):
    import importlib
    rep = Report()
    t = time.time()
    try:
        with quiet(), np.errstate(all="ignore"):
            import warnings
            warnings.simplefilter("ignore")
            mod = importlib.import_module(modname)
            getattr(mod, case["fn"])(rep, **case.get("args", {}))
    except HarnessSkip as ex:
        rep.skip("case skipped: " + str(ex)[:200])
    except Observed as ex:
        rep.violate(ex.args[0], message=ex.args[1])
    except Exception as ex:
        frames = repo_frames(ex.__traceback__)
        if not frames and om_frames(ex.__traceback__) and not isinstance(ex, (KeyError, AttributeError, NameError)):
            # raised by OpenMDAO over a model of the code under test (a shape, unit or connection that does not fit)
            frames = [("openmdao", type(ex).__name__, 0)]
        if frames:
            # legal inputs only are generated, so an exception out of the code under test is a failure of it
            rep.violate("exception:%s:%s" % (frames[-1][0].split("/")[-1], type(ex).__name__),
                        message=str(ex)[:600], frames=frames[-4:])
        else:
            rep.errors.append("%s %r: %s" % (case["fn"], case.get("args"), traceback.format_exc()[-1800:]))
    rep.case = case
    rep.wall = time.time() - t
    rep.lines |= LINES
    LINES.clear()
    for i, (k, d) in enumerate(rep.violations):
        d["_case"] = jsonable(case)
        d["_module"] = modname
    return rep


def run_cases(modname, cases, workers=8):
    total = Report()
    walls = []
    if workers <= 1 or len(cases) <= 1:
        for c in cases:
            r = run_case(modname, c); total.merge(r); walls.append((r.wall, c))
        return total, walls
    ctx = mp.get_context("fork")
    with ProcessPoolExecutor(max_workers=min(workers, len(cases)), mp_context=ctx) as ex:
        futs = {ex.submit(run_case, modname, c): c for c in cases}
        for f in as_completed(futs):
            try:
                r = f.result()
            except Exception as e:
                total.errors.append("worker died on %r: %r" % (futs[f], e))
                continue
            total.merge(r); walls.append((r.wall, futs[f]))
    return total, walls


def load_known():
    """known_findings.txt lines: 'finding: property=<id> key=<mechanism> <text>' / 'fixed: ...'"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                w = line.split()
                out.append(dict(prop=w[1].split("=", 1)[1], key=w[2].split("=", 1)[1], text=" ".join(w[3:])))
    return out
