"""Monitoring harness: runs cases of a check in worker processes, lets monitors observe the executions, and
turns what they saw into a verdict, a replay file and an evidence file.

A check module in checks/ defines
    PROPERTY   id
    RULE       how cases are made and what makes one non-trivial
    REQUIRE    {event name: minimum count} without which the run is inconclusive
    CASES      {kind: (function(ctx), number of quick cases, number of thorough cases)}
Each case gets its own random generator derived from (seed, property, kind, index) only.
"""
import collections
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

import repoimport

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
PKG = os.path.join(REPO, "starwinds_magnetogram") + os.sep
CASE_CPU = 200    # seconds of processor time after which a case counts as not terminating (they normally need about one)
# Kinds whose cases enumerate something (or are slow): their number is not scaled.
ENUMERATED = {"singles", "factors", "each", "quadrant", "small", "eviction", "program"}
CASE_WALL = 600   # seconds of wall-clock time after which the run is inconclusive


class Violation(Exception):
    def __init__(self, message, key="", info=None):
        super().__init__(message)
        self.message, self.key, self.info = message, key, info or {}


class Inconclusive(Exception):
    pass


class CaseTimeout(BaseException):
    """The case used up its processor time."""


class CaseStuck(BaseException):
    """The case used up its wall-clock time."""


def brief(x, n=400):
    if isinstance(x, np.ndarray):
        with np.printoptions(threshold=20, precision=17):
            x = repr(x)
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, prop, kind, index, seed, tier):
        self.prop, self.kind, self.index, self.seed, self.tier = prop, kind, index, seed, tier
        s = [int(seed) & 0xFFFFFFFF, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), index]
        self.rng = np.random.default_rng(np.random.SeedSequence(s))
        np.random.seed(self.rng.integers(2 ** 31))
        random.seed(int(self.rng.integers(2 ** 31)))
        self.events = collections.Counter()
        self.keys = set()
        self.worst = {}
        self.sample = None
        self._scratch = None

    # ---- describing the case -------------------------------------------------------------------------------
    def describe(self, *key, trivial=False):
        """Record what this case is. Distinct non-trivial descriptions are counted in the evidence."""
        text = brief(key if len(key) != 1 else key[0], 2000)
        if not trivial:
            self.keys.add(hashlib.sha1((self.kind + text).encode()).hexdigest()[:16])
        if self.sample is None:
            self.sample = self.kind + ": " + text[:500]

    def ev(self, name, n=1):
        self.events[name] += int(n)

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="case.", dir=os.environ.get("VH_SCRATCH") or None)
        return self._scratch

    def cleanup(self):
        if self._scratch:
            shutil.rmtree(self._scratch, ignore_errors=True)

    # ---- monitors ------------------------------------------------------------------------------------------
    def fail(self, message, key="", **info):
        raise Violation(message, key, {k: brief(v) for k, v in info.items()})

    def check(self, cond, message, key="", **info):
        self.ev("assertions")
        if not cond:
            self.fail(message, key, **info)

    def equal(self, got, want, message, **info):
        self.ev("assertions")
        if not (type(got) is type(want) or np.isscalar(got) or np.isscalar(want)) or got != want:
            if got != want:
                self.fail(message, got=got, want=want, **info)

    def close(self, name, got, want, rtol=1e-9, scale=None, atol=0.0, shape=True, **info):
        """Compare arrays. The allowed deviation is atol + rtol * scale; scale defaults to the largest |want| (an
        array of per-element scales may be given). The worst ratio of deviation to allowance is kept as evidence."""
        want = np.asarray(want)
        try:
            got = np.asarray(got)
            ok_kind = got.dtype.kind in "fiucb"
        except Exception:
            ok_kind = False
        if not ok_kind:
            self.fail(name + ": not a numeric result", got=got, **info)
        if want.dtype.kind in "fiub" and got.dtype.kind == "c":
            self.fail(name + ": complex result where a real one is due", got=got, **info)
        if shape and got.shape != want.shape:
            self.fail(name + ": wrong shape", got=got.shape, want=want.shape, **info)
        self.ev("comparisons")
        self.ev("values_compared", want.size)
        if want.size == 0:
            return
        if not np.all(np.isfinite(got)):
            i = np.argwhere(~np.isfinite(np.broadcast_to(got, want.shape)))[0]
            self.fail(name + ": not finite", index=tuple(int(j) for j in i), got=got, want=want, **info)
        if scale is None:
            scale = np.max(np.abs(want))
        allow = atol + rtol * np.asarray(scale, dtype=float) + 1e-300
        dev = np.abs(got - want) / allow
        w = float(np.max(dev))
        if w > self.worst.get(name, -1):
            self.worst[name] = w
        if not w <= 1:
            i = np.unravel_index(int(np.argmax(np.where(np.isnan(dev), np.inf, dev))), dev.shape)
            self.fail(name + ": deviates", index=tuple(int(j) for j in i), got=np.broadcast_to(got, dev.shape)[i],
                      want=np.broadcast_to(want, dev.shape)[i], deviation_over_allowance=w, **info)

    def same(self, name, got, want, **info):
        """Bit-identical arrays (same shape and values; nan equals nan; 0.0 and -0.0 are the same)."""
        got, want = np.asarray(got), np.asarray(want)
        self.ev("comparisons")
        self.ev("values_compared", want.size)
        if got.shape != want.shape:
            self.fail(name + ": wrong shape", got=got.shape, want=want.shape, **info)
        if not np.array_equal(got, want, equal_nan=got.dtype.kind in "fc" and want.dtype.kind in "fc"):
            bad = np.argwhere(np.asarray(got != want))
            i = tuple(int(j) for j in bad[0]) if len(bad) else ()
            self.fail(name + ": differs", index=i, got=got[i], want=want[i], **info)

    def refused(self, fn, message, **info):
        """The call must raise (any ordinary exception)."""
        self.ev("refusals")
        try:
            r = fn()
        except Exception as e:
            return e
        self.fail(message, returned=r, **info)


class _Unchanged:
    """Context manager: the objects have the same fingerprint afterwards."""

    def __init__(self, ctx, what, objs):
        self.ctx, self.what, self.objs = ctx, what, objs

    def __enter__(self):
        self.before = [fingerprint(o) for o in self.objs]

    def __exit__(self, et, ev, tb):
        if et is not None and issubclass(et, (Violation, CaseTimeout, CaseStuck)):
            return False
        for i, (o, b) in enumerate(zip(self.objs, self.before)):
            self.ctx.ev("snapshots_compared")
            if fingerprint(o) != b:
                self.ctx.fail("%s changed its argument number %d" % (self.what, i), before=b, after=fingerprint(o))
        return False


def fingerprint(o):
    """Observable value of an object, for before/after comparison."""
    import starwinds_magnetogram.coefficients as shc
    from starwinds_magnetogram import geometry, zdi_magnetogram
    if isinstance(o, np.ndarray):
        return ("nd", str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, shc.Coefficients):
        return ("coeffs", fingerprint(o.default_coefficients), o.degree_max, o.order_min, o.size,
                tuple((k, fingerprint(v)) for k, v in o.contents()))
    if isinstance(o, zdi_magnetogram.ZdiMagnetogram):
        return ("zdi",) + tuple(fingerprint(np.asarray(getattr(o, a)))
                                for a in ("degrees_l", "orders_m", "alpha", "beta", "gamma"))
    if isinstance(o, geometry.ZdiGeometry):
        return ("geom",) + tuple(fingerprint(np.asarray(c)) for c in o.corners())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fingerprint(x) for x in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((repr(k), fingerprint(v)) for k, v in sorted(o.items(), key=lambda t: repr(t[0])))
    if hasattr(o, "components"):  # quaternion
        return ("quat", fingerprint(np.asarray(o.components)))
    return ("repr", repr(o))


def unchanged(ctx, what, *objs):
    return _Unchanged(ctx, what, objs)


# ---- running ---------------------------------------------------------------------------------------------------
def _alarm(signum, frame):
    raise CaseStuck() if signum == signal.SIGALRM else CaseTimeout()


def _from_repo(tb):
    return any(os.path.realpath(f.filename).startswith(PKG) for f in traceback.extract_tb(tb))


def run_case(mod, kind, index, seed, tier):
    fn = mod.CASES[kind][0]
    ctx = Ctx(mod.PROPERTY, kind, index, seed, tier)
    out = dict(kind=kind, index=index, violation=None, error=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.alarm(CASE_WALL)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    except Violation as v:
        out["violation"] = dict(message=v.message, key=v.key, info=v.info)
    except CaseTimeout:
        out["violation"] = dict(message="did not terminate within %d s of processor time" % CASE_CPU, key="hang", info={})
    except (MemoryError, Inconclusive, CaseStuck) as e:
        out["error"] = repr(e)
    except OSError as e:
        if e.errno in (28, 24, 12):
            out["error"] = repr(e)
        else:
            out["violation"] = dict(message="unexpected " + repr(e), key="exception", info=dict(tb=traceback.format_exc()[-3000:]))
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, (AttributeError, ImportError)) and "starwinds_magnetogram" in str(e) and not _from_repo(e.__traceback__):
            out["error"] = "public name missing: " + repr(e)   # the harness can no longer observe
        elif isinstance(e, KeyboardInterrupt):
            raise
        else:
            # An operation that the property says must work raised (or returned something of the wrong kind).
            out["violation"] = dict(message="unexpected %s: %s" % (type(e).__name__, brief(str(e), 300)), key="exception",
                                    info=dict(tb=tb[-3000:]))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.cleanup()
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    out["executed"] = {f: list(n) for f, n in repoimport.executed.items()}
    repoimport.executed.clear()
    out.update(events=dict(ctx.events), keys=list(ctx.keys), worst=ctx.worst, sample=ctx.sample,
               secs=time.time() - t0)
    return out


_MOD = None


def _worker(args):
    kind, indices, seed, tier = args
    return [run_case(_MOD, kind, i, seed, tier) for i in indices]


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def run_check(mod, tier, seed):
    global _MOD
    _MOD = mod
    t0 = time.time()
    prop = mod.PROPERTY
    budget = float(os.environ.get("VERIF_BUDGET", 480 if tier == "quick" else 1500))
    jobs = []
    for kind, (fn, nq, nt) in mod.CASES.items():
        n = nt if tier != "quick" else nq if kind in ENUMERATED else max(nq, min(nt, nq * getattr(mod, "QUICK_SCALE", 1)))
        chunk = max(1, min(getattr(mod, "CHUNK", 8), -(-n // 16)))
        for a in range(0, n, chunk):
            jobs.append((kind, list(range(a, min(n, a + chunk))), seed, tier))
    # Interleave the kinds so that a truncated run still covers all of them.
    order = np.random.default_rng(seed).permutation(len(jobs))
    jobs = [jobs[i] for i in order]
    planned = sum(len(j[1]) for j in jobs)

    results, errors, truncated = [], [], False
    nproc = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1, len(jobs))
    with cf.ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork")) as ex:
        pending, it = set(), iter(jobs)
        stop = False
        while True:
            while not stop and len(pending) < 2 * nproc:
                j = next(it, None)
                if j is None:
                    break
                pending.add(ex.submit(_worker, j))
            if not pending:
                break
            done, pending = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for d in done:
                try:
                    results.extend(d.result())
                except Exception as e:
                    errors.append("worker failed: %r" % e)
                    stop = True
            if sum(1 for r in results if r["violation"]) >= 6:
                stop = True
            if time.time() - t0 > budget and not stop:
                stop = truncated = True

    events, keys, worst, samples = collections.Counter(), set(), {}, []
    per_kind = collections.Counter()
    reached = collections.defaultdict(set)
    for r in results:
        for f, n in r["executed"].items():
            reached[os.path.relpath(f, REPO)].update(n)
        events.update(r["events"])
        keys.update(r["keys"])
        per_kind[r["kind"]] += 1
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, -1), v)
        if r["error"]:
            errors.append("%s[%d]: %s" % (r["kind"], r["index"], r["error"]))
    seen = set()
    for r in sorted(results, key=lambda r: (r["index"], r["kind"])):
        if r["sample"] and r["kind"] not in seen:
            seen.add(r["kind"])
            samples.append(r["sample"])

    known = [k for k in load_known() if k["property"] == prop and k.get("status") != "fixed"]
    violations, matched = [], set()
    for r in results:
        if r["violation"]:
            hit = [k for k in known if k["key"] and r["violation"]["key"] == k["key"]]
            if hit:
                matched.add(hit[0]["key"])
            else:
                violations.append(r)
    for k in known:
        if k["key"] in matched:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    missing = {k: (events.get(k, 0), n) for k, n in getattr(mod, "REQUIRE", {}).items() if events.get(k, 0) < n}

    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2),
              violations=len(violations),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              coverage=dict(evaluations=len(results), distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples[:12], cases_planned=planned, cases_by_kind=dict(per_kind),
                            truncated_by_time_budget=truncated, monitor_events=dict(sorted(events.items())),
                            worst_deviation_over_allowance={k: float("%.3g" % v) for k, v in sorted(worst.items())},
                            lines_of_code_executed={f: len(n) for f, n in sorted(reached.items())},
                            known_findings_seen=sorted(matched)))
    if os.environ.get("VERIF_LINES"):
        with open(os.environ["VERIF_LINES"], "a") as f:
            f.write(json.dumps({k: sorted(v) for k, v in reached.items()}) + "\n")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, r in enumerate(sorted(violations, key=lambda r: (r["kind"], r["index"]))[:5]):
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind=r["kind"], index=r["index"], seed=seed, tier=tier,
                               case=r["sample"], **r["violation"]), f, indent=1)
            print("  %s[%d]: %s" % (r["kind"], r["index"], r["violation"]["message"]))
            for k, v in r["violation"]["info"].items():
                print("      %s: %s" % (k, v if k == "tb" else brief(v, 300)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or missing:
        print("INCONCLUSIVE property=%s" % prop)
        for e in errors[:5]:
            print("   " + e)
        for k, (got, need) in missing.items():
            print("   monitor saw %d of event %r, needs %d" % (got, k, need))
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d compared=%d worst=%.2g wall=%.1fs%s" % (
        prop, tier, seed, len(results), len(keys), events.get("values_compared", 0),
        max(worst.values(), default=0), time.time() - t0, " (time budget reached)" if truncated else ""))
    return 0
