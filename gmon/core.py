"""Observation core: events at the client boundary, monitors, verdicts, evidence.

A *workload* drives the public API of giddy through ``Ctx.call``.  Every call
becomes an ``Event`` (bound arguments snapshotted before the call, result or
exception, captured stdout, global RNG and weights state before/after).  The
*monitors* registered for the property being decided (``monitors.py``) judge
each event, the workloads judge relations between events.  Nothing here looks
at how the code is written: only arguments, results, printed text, files and
exceptions of public entry points are observed.
"""

import contextlib
import hashlib
import inspect
import io
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

CPU_LIMIT = 90  # CPU seconds one case may take (typical: milliseconds)


class Fail(Exception):
    """The property is violated."""

    def __init__(self, msg, **details):
        super().__init__(msg)
        self.msg = msg
        self.details = details


class Skip(Exception):
    """The generated case falls outside the property's domain."""


class OutOfTime(BaseException):
    pass


# ---------------------------------------------------------------- snapshots


class WSnap:
    """Frozen copy of a spatial weights object."""

    def __init__(self, w):
        self.ids = list(w.id_order)
        self.transform = w.transform
        self.neighbors = {i: list(w.neighbors[i]) for i in self.ids}
        self.weights = {i: [float(v) for v in w.weights[i]] for i in self.ids}
        pos = {i: a for a, i in enumerate(self.ids)}
        self.n = len(self.ids)
        # positional structure
        self.nb = [[pos[j] for j in self.neighbors[i]] for i in self.ids]
        self.wt = [self.weights[i] for i in self.ids]

    def lag(self, y):
        """Spatial lag by definition, columns of a 1-d or 2-d array."""
        y = np.asarray(y, dtype=float)
        out = np.zeros_like(y)
        for i in range(self.n):
            for j, v in zip(self.nb[i], self.wt[i]):
                out[i] = out[i] + v * y[j]
        return out

    def rowstd(self):
        r = WSnap.__new__(WSnap)
        r.ids, r.n, r.nb = self.ids, self.n, self.nb
        r.neighbors = self.neighbors
        r.transform = "R"
        r.wt = [
            [v / sum(ws) for v in ws] if len(ws) and sum(ws) != 0 else list(ws)
            for ws in self.wt
        ]
        r.weights = dict(zip(self.ids, r.wt))
        return r

    def topology(self):
        return (tuple(map(str, self.ids)), tuple(map(tuple, self.nb)))


def is_w(o):
    return hasattr(o, "neighbors") and hasattr(o, "id_order") and hasattr(o, "sparse")


def snap(o):
    """Deep, independent copy of an argument."""
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            out = np.empty(o.shape, dtype=object)
            for ix in np.ndindex(o.shape):
                out[ix] = snap(o[ix])
            return out
        return np.array(o, copy=True)
    if is_w(o):
        return WSnap(o)
    if isinstance(o, list):
        return [snap(i) for i in o]
    if isinstance(o, tuple):
        return tuple(snap(i) for i in o)
    if isinstance(o, dict):
        return {k: snap(v) for k, v in o.items()}
    return o


def same(a, b):
    """Exact equality of two snapshots (nan equals nan)."""
    if isinstance(a, WSnap):
        return isinstance(b, WSnap) and a.topology() == b.topology()
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            return all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
        try:
            return bool(np.array_equal(a, b, equal_nan=True))
        except TypeError:
            return bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return (
            type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
        )
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and list(a) == list(b)
            and all(same(a[k], b[k]) for k in a)
        )
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    return True


def digest(o, h=None):
    top = h is None
    h = h or hashlib.blake2b(digest_size=12)
    if isinstance(o, np.ndarray):
        h.update(str((o.shape, o.dtype)).encode())
        if o.dtype == object:
            for x in o.ravel():
                digest(x, h)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, WSnap):
        h.update(repr((o.ids, o.nb, o.wt)).encode())
    elif isinstance(o, (list, tuple)):
        h.update(b"(")
        for x in o:
            digest(x, h)
        h.update(b")")
    elif isinstance(o, dict):
        for k in o:
            digest(k, h)
            digest(o[k], h)
    elif callable(o):
        h.update(getattr(o, "__name__", "f").encode())
    else:
        h.update(repr(o).encode() if not hasattr(o, "__dict__") else b"obj")
    return h.hexdigest() if top else None


def show(o, lim=1500):
    if isinstance(o, WSnap):
        s = f"W(ids={o.ids}, neighbors={o.neighbors}, weights={o.weights})"
    elif isinstance(o, np.ndarray):
        with np.printoptions(threshold=400, linewidth=10**6):
            s = f"array({o.tolist() if o.size <= 400 else o}, dtype={o.dtype})"
    else:
        s = repr(o)
    return s if len(s) <= lim else s[: lim - 3] + "..."


def rng_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


# ------------------------------------------------------------------- events


class Event:
    __slots__ = (
        "api", "a", "post", "result", "exc", "out", "rng_used", "w_before",
        "warned", "self_obj",
    )

    def __init__(self, api):
        self.api = api
        self.a = {}
        self.post = {}
        self.result = None
        self.exc = None
        self.out = ""
        self.rng_used = False
        self.w_before = None
        self.warned = []
        self.self_obj = None

    def mutated(self):
        """Names of the arguments the call changed in place."""
        return [k for k in self.a if not same(self.a[k], self.post[k])]

    def describe(self):
        return {
            "api": self.api,
            "args": {k: show(v) for k, v in self.a.items()},
            "exception": repr(self.exc) if self.exc is not None else None,
            "stdout": self.out[:2000],
        }


_SIGS = {}

# Documented values of arguments left out (not what the code happens to say).
DEFAULTS = {
    "Markov": {"classes": None, "fill_empty_classes": False, "summary": True},
    "Spatial_Markov": {
        "k": 4, "m": 4, "permutations": 0, "fixed": True, "discrete": False,
        "cutoffs": None, "lag_cutoffs": None, "variable_name": None,
        "fill_empty_classes": False,
    },
    "LISA_Markov": {"permutations": 0, "significance_level": 0.05,
                    "geoda_quads": False},
    "LISA_Markov.spillover": {"quadrant": 1, "neighbors_on": False},
    "FullRank_Markov": {"fill_empty_classes": False, "summary": True},
    "GeoRank_Markov": {"fill_empty_classes": False, "summary": True},
    "sojourn_time": {"summary": True},
    "steady_state": {"fill_empty_classes": False},
    "mfpt": {"fill_empty_classes": False},
    "fmpt": {"fill_empty_classes": False},
    "markov_mobility": {"measure": "P", "ini": None},
    "Theta": {"permutations": 999},
    "SpatialTau": {"permutations": 0},
    "Tau_Local_Neighbor": {"permutations": 0},
    "Tau_Local_Neighborhood": {"permutations": 0},
    "Tau_Regional": {"permutations": 0},
    "Rose": {"k": 8},
    "Rose.permute": {"permutations": 99, "alternative": "two.sided"},
    "Rose.plot_vectors": {"arrows": True},
    "Sequence": {"subs_mat": None, "dist_type": None, "indel": None,
                 "cluster_type": None},
    "Graph": {"undirected": True},
    "Graph.connected_components": {"threshold": 0.9},
    "dynamic_lisa_heatmap": {"p": 0.05},
    "dynamic_lisa_vectors": {"arrows": True},
    "dynamic_lisa_composite": {"p": 0.05},
    "dynamic_lisa_composite_explore": {"pattern": "", "p": 0.05},
}


def leave_out(fn, kw, turn):
    """Drop every other keyword that repeats the documented default."""
    d = DEFAULTS.get(getattr(fn, "__qualname__", None), {})
    out = {}
    for i, (k, v) in enumerate(kw.items()):
        if k in d and type(v) is type(d[k]) and v == d[k] and (turn + i) % 2:
            continue
        out[k] = v
    return out


def bind(fn, args, kw):
    key = getattr(fn, "__qualname__", repr(fn))
    try:
        sig = _SIGS.get(key) or inspect.signature(fn)
        _SIGS[key] = sig
        b = sig.bind(*args, **kw)
        own = DEFAULTS.get(key, {})
        for k, v in own.items():
            if k in sig.parameters and k not in b.arguments:
                b.arguments[k] = v
        b.apply_defaults()
        d = dict(b.arguments)
        for k in list(d):
            p = sig.parameters[k]
            if p.kind is p.VAR_KEYWORD:
                d.update(d.pop(k))
        return d
    except (TypeError, ValueError):
        d = {f"arg{i}": v for i, v in enumerate(args)}
        d.update(kw)
        return d


# monitors: property -> api -> [fn(ctx, event)]
MONITORS = {}


def monitor(prop, *apis):
    def deco(fn):
        for api in apis:
            MONITORS.setdefault(prop, {}).setdefault(api, []).append(fn)
        return fn

    return deco


class Prop:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.workloads = []  # (name, fn, quick, thorough)
        self.floors = {}  # tag -> minimum number of observations per run
        self.assumptions = []
        self.known = []  # filled from the known-findings file
        self.warm = None  # run once, before the workers are forked
        self.scale = 6  # multiplier of the quick numbers of cases


PROPS = {}


def prop(pid, rule, floors=None, assumptions=None):
    p = PROPS.setdefault(pid, Prop(pid, rule))
    p.rule = rule
    p.floors.update(floors or {})
    p.assumptions = assumptions or []
    return p


def workload(pid, quick, thorough):
    def deco(fn):
        PROPS[pid].workloads.append((fn.__name__, fn, quick, thorough))
        return fn

    return deco


class Ctx:
    """One case: its randomness, its observed events and its counters."""

    def __init__(self, pid, wl, idx, seed, tier):
        self.pid, self.wl, self.idx, self.seed, self.tier = pid, wl, idx, seed, tier
        key = int.from_bytes(
            hashlib.blake2b(f"{pid}/{wl}".encode(), digest_size=6).digest(), "big"
        )
        self.rng = np.random.default_rng([seed, key, idx])
        self.events = []
        self.n_events = Counter()
        self.n_checks = Counter()
        self.tags = Counter()
        self.known = Counter()
        self.sigs = []
        self.nontrivial = False
        self.sample = None

    # ---- observing
    def seed_global(self):
        s = int(self.rng.integers(2**31))
        np.random.seed(s)
        random.seed(s)
        return s

    def observe(self, api, fn, args, kw, self_obj=None):
        ev = Event(api)
        ev.self_obj = self_obj
        kw = leave_out(fn, kw, self.idx + sum(self.n_events.values()))
        bound = bind(fn, args, kw)
        ev.a = {k: snap(v) for k, v in bound.items()}
        r0 = rng_state()
        buf = io.StringIO()
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(buf):
                try:
                    ev.result = fn(*args, **kw)
                except Exception as e:
                    ev.exc = e
        ev.warned = [(w.category.__name__, str(w.message)) for w in rec]
        ev.out = buf.getvalue()
        ev.rng_used = rng_state() != r0
        ev.post = {k: snap(v) for k, v in bound.items()}
        self.events.append(ev)
        self.n_events[api] += 1
        return ev

    def event(self, api, fn, *args, **kw):
        """Observe a call; an exception on an input of the domain refutes."""
        ev = self.observe(api, fn, args, kw)
        if ev.exc is not None:
            raise Fail(
                f"{api} raised {type(ev.exc).__name__}: {ev.exc}",
                traceback="".join(traceback.format_exception(ev.exc))[-3000:],
            )
        self.judge(ev)
        return ev

    def call(self, api, fn, *args, **kw):
        return self.event(api, fn, *args, **kw).result

    def raises(self, api, exc, fn, *args, **kw):
        """The call must be rejected with `exc`."""
        ev = self.observe(api, fn, args, kw)
        self.n_checks["rejected"] += 1
        if ev.exc is None:
            raise Fail(f"{api} accepted an input it documents to reject")
        if not isinstance(ev.exc, exc):
            raise Fail(f"{api} raised {type(ev.exc).__name__}: {ev.exc}")
        return ev

    def judge(self, ev):
        for fn in MONITORS.get(self.pid, {}).get(ev.api, ()):
            # lazily computed attributes may print when a monitor reads them
            with contextlib.redirect_stdout(io.StringIO()):
                fn(self, ev)
            self.n_checks["monitor:" + fn.__name__] += 1

    # ---- judging
    def check(self, cond, msg, **details):
        self.n_checks["relations"] += 1
        if not cond:
            raise Fail(msg, **{k: show(v) for k, v in details.items()})

    def eq(self, msg, got, want, rtol=1e-7, atol=1e-9, **details):
        """Numeric agreement; infinities and nans must coincide."""
        self.n_checks["comparisons"] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError) as e:
            raise Fail(f"{msg}: not numeric ({e})", got=show(got), want=show(want))
        if g.shape != w.shape:
            raise Fail(f"{msg}: shape {g.shape} != {w.shape}", got=show(got),
                       want=show(want), **{k: show(v) for k, v in details.items()})
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            bad = tuple(int(i) for i in np.argwhere(~ok)[0]) if g.ndim else ()
            raise Fail(
                f"{msg}: {g[bad]!r} != {w[bad]!r} at {bad}", got=show(got),
                want=show(want), **{k: show(v) for k, v in details.items()},
            )

    def exact(self, msg, got, want, **details):
        self.n_checks["comparisons"] += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not (g == w).all():
            raise Fail(f"{msg}: {show(got)} != {show(want)}",
                       **{k: show(v) for k, v in details.items()})

    def tag(self, *names):
        for n in names:
            if n:
                self.tags[n] += 1

    def case(self, *inputs, nontrivial=True, desc=None):
        """Declare the generated input (distinctness and evidence)."""
        self.sigs.append(digest([snap(i) for i in inputs]))
        if nontrivial:
            self.nontrivial = True
        if self.sample is None:
            self.sample = desc or [show(snap(i), 300) for i in inputs]

    def finding(self, key):
        """A violation that the known-findings file lists by mechanism."""
        if key in {k for k, _ in PROPS[self.pid].known}:
            self.known[key] += 1
            return True
        return False


def _alarm(*_):
    raise OutOfTime()


def run_case(pid, wl, fn, idx, seed, tier):
    ctx = Ctx(pid, wl, idx, seed, tier)
    res = {"violation": None, "skip": False, "error": None}
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        ctx.seed_global()
        fn(ctx)
    except Skip:
        res["skip"] = True
    except Fail as f:
        res["violation"] = {
            "message": f.msg,
            "details": f.details,
            "events": [e.describe() for e in ctx.events[-4:]],
        }
    except OutOfTime:
        res["violation"] = {
            "message": f"no result after {CPU_LIMIT} CPU seconds",
            "details": {},
            "events": [e.describe() for e in ctx.events[-2:]],
        }
    except (RecursionError, Exception) as e:
        # An unexpected shape, type or missing attribute of an observed
        # result surfaces here while a monitor reads it.
        tb = "".join(traceback.format_exception(e))
        res["error"] = {"message": f"{type(e).__name__}: {e}", "trace": tb[-3500:],
                        "events": [x.describe() for x in ctx.events[-3:]]}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        with contextlib.suppress(Exception):
            if "matplotlib.pyplot" in sys.modules:
                sys.modules["matplotlib.pyplot"].close("all")
    res.update(
        wl=wl, idx=idx, events=ctx.n_events, checks=ctx.n_checks, tags=ctx.tags,
        known=ctx.known, sigs=ctx.sigs, nontrivial=ctx.nontrivial, sample=ctx.sample,
    )
    return res


# ------------------------------------------------------------------ running


def _batch(job):
    pid, wl, idxs, seed, tier = job
    fn = {n: f for n, f, _, _ in PROPS[pid].workloads}[wl]
    out = []
    for i in idxs:
        out.append(run_case(pid, wl, fn, i, seed, tier))
        if out[-1]["violation"] or out[-1]["error"]:
            break
    return out


def _results(todo, jobs, lost):
    """Yield the results of every batch; survive the loss of a worker.

    A worker that is ended from outside (memory runs out) takes the batches
    in flight with it: they are run again, fewer at a time.  One that is lost
    even when it runs alone is noted in `lost` and reported as not run.
    """
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool

    fork = mp.get_context("fork")
    left = dict(enumerate(todo))
    for width in (jobs, max(1, jobs // 3)):
        if not left:
            return
        with ProcessPoolExecutor(width, mp_context=fork) as pool:
            futures = {pool.submit(_batch, job): i for i, job in left.items()}
            try:
                for f in as_completed(futures):
                    with contextlib.suppress(BrokenProcessPool):
                        res = f.result()
                        left.pop(futures[f])
                        yield res
            except GeneratorExit:
                for f in futures:
                    f.cancel()
                for proc in list((pool._processes or {}).values()):
                    proc.kill()
                raise
    for i, (pid, wl, idxs, seed, tier) in list(left.items()):
        for idx in idxs:
            with ProcessPoolExecutor(1, mp_context=fork) as pool:
                try:
                    yield pool.submit(_batch, (pid, wl, [idx], seed, tier)).result()
                except BrokenProcessPool:
                    lost.append((wl, idx))
        left.pop(i)


def load_known(root):
    path = os.path.join(root, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        line = line.strip()
        if line.startswith("known:"):
            # known: property=<id> key=<key> <text>
            parts = line.split(None, 3)
            pid = parts[1].split("=", 1)[1]
            key = parts[2].split("=", 1)[1]
            if pid in PROPS:
                PROPS[pid].known.append((key, parts[3]))


def run(pid, root, seed, tier, jobs=None, only=None):
    """Run every workload of a property; returns the process exit status."""
    t0 = time.time()
    p = PROPS[pid]
    if p.warm:
        p.warm()
    jobs = jobs or min(8, os.cpu_count() or 1)
    todo = []
    planned = Counter()
    for name, _fn, q, th in p.workloads:
        if only and name != only:
            continue
        n = th if tier == "thorough" else q * p.scale
        planned[name] = n
        size = max(1, min(25, -(-n // (jobs * 3))))
        for a in range(0, n, size):
            todo.append((pid, name, list(range(a, min(n, a + size))), seed, tier))
    # interleave workloads so that a violation anywhere is met early
    todo.sort(key=lambda j: j[2][0] / max(1, planned[j[1]]))
    ev, ck, tags, known = Counter(), Counter(), Counter(), Counter()
    done, skipped = Counter(), Counter()
    sigs, samples = set(), []
    n_nontriv = 0
    bad = []
    lost = []
    for res in _results(todo, jobs, lost):
        for r in res:
            done[r["wl"]] += 1
            skipped[r["wl"]] += bool(r["skip"])
            ev.update(r["events"])
            ck.update(r["checks"])
            known.update(r["known"])
            if not r["skip"]:
                tags.update(r["tags"])
                if r["nontrivial"]:
                    new = set(r["sigs"]) - sigs
                    n_nontriv += len(new)
                    sigs |= new
                if r["sample"] is not None and len(samples) < 4 and (
                    r["wl"] not in [s["workload"] for s in samples]
                ):
                    samples.append({"workload": r["wl"], "index": r["idx"],
                                    "input": r["sample"]})
            if r["violation"] or r["error"]:
                bad.append(r)
        if bad:
            break
    status, lines = 0, []
    if bad:
        r = bad[0]
        v = r["violation"] or r["error"]
        os.makedirs(os.path.join(root, "evidence", "replay"), exist_ok=True)
        path = os.path.join(
            root, "evidence", "replay", f"{pid}-{r['wl']}-{seed}-{r['idx']}.json"
        )
        with open(path, "w") as f:
            json.dump(
                {"property": pid, "workload": r["wl"], "index": r["idx"],
                 "seed": seed, "tier": tier, "kind":
                 "violation" if r["violation"] else "unreadable result", **v},
                f, indent=1, default=str,
            )
        print(f"[{pid}] {r['wl']}#{r['idx']}: {v['message']}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        status = 1
    low = {t: (tags[t], n) for t, n in p.floors.items() if tags[t] < n}
    if status == 0 and not only:
        total, sk = sum(done.values()), sum(skipped.values())
        if len(lost) > 0.02 * max(1, total):
            print(f"[{pid}] INCONCLUSIVE: the process ended in {lost}")
            status = 3
        elif low:
            print(f"[{pid}] INCONCLUSIVE: situations not reached (seen, needed): {low}")
            status = 3
        elif sk > 0.6 * total:
            print(f"[{pid}] INCONCLUSIVE: {sk} of {total} cases out of domain")
            status = 3
        elif not ck:
            print(f"[{pid}] INCONCLUSIVE: no monitor was reached")
            status = 3
    cov = {
        "evaluations": sum(done.values()),
        "distinct_nontrivial": n_nontriv,
        "rule": p.rule,
        "samples": samples,
        "explanation": "Runtime monitoring: the property held on the executions "
        "observed in this run; counts are measured.",
        "cases_by_workload": dict(done),
        "cases_outside_domain": sum(skipped.values()),
        "cases_lost_with_their_process": lost,
        "events_observed": dict(ev),
        "oracle_evaluations": dict(ck),
        "situations_reached": dict(tags),
        "known_findings_seen": dict(known),
    }
    evd = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": cov, "assumptions": p.assumptions,
        "wall_s": round(time.time() - t0, 3), "violations": len(bad) or int(status == 1),
    }
    if not only:
        os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
        with open(os.path.join(root, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evd, f, indent=1, default=str)
    text = dict(p.known)
    for key in known:
        print(f"KNOWN-FINDING: property={pid} {text.get(key, key)} "
              f"(seen {known[key]} times)")
    for line in lines:
        print(line)
    print(
        f"[{pid}] {sum(done.values())} cases, {n_nontriv} distinct non-trivial, "
        f"{sum(ev.values())} calls observed, {sum(ck.values())} oracle evaluations, "
        f"{time.time() - t0:.1f}s: "
        + {0: "held on all of them", 1: "VIOLATED", 3: "inconclusive"}[status]
    )
    return status
