"""C31-C33: results shared by threads, copied and restored, calls stopped midway."""

import collections
import contextlib
import copy
import io
import os
import pickle
import random
import sys
import threading
import time

import numpy as np

import giddy
import giddy.markov as gm
import giddy.rank as gr
from giddy.directional import Rose

from . import gen
from .core import is_w, prop, same, snap, workload
from .p_cross import (CALLS, SETS_TRANSFORM, SKIP, TALKS, Data, differ, facts, fresh_w,
                      transform_state)
from .p_rose import check_permuted, observed

HOME = os.path.dirname(os.path.abspath(giddy.__file__))

# ------------------------------------------------------------------- C31

P31 = prop(
    "C31",
    "2..5 threads of 1..5 deterministic calls each (every entry point without inference, "
    "reports and plots), on shared arrays and weights of their own, and 2..4 threads "
    "reading one fresh result; threads give way at random lines of the package and the "
    "log of steps shows which calls overlapped; non-trivial: two calls overlapped",
    floors={"threads": 150, "overlap": 150, "same routine at once": 60,
            "shared result": 60, "gave way": 150},
    assumptions=["threads do not share a weights object (libpysal caches in it), and "
                 "random numbers, printing and plotting, which are global to the "
                 "process, are left out"],
)
P31.warm = gen.warm_lisa

ALONE = [a for a, c in CALLS.items() if c[0] != "r" and a not in TALKS
         and "report" not in a]


def readings(o, depth=0, order=None):
    """As `facts`, printing left to the caller (output is global to the process)."""
    if isinstance(o, (list, tuple)):
        return tuple(readings(v, depth) for v in o)
    if isinstance(o, dict):
        return {str(k): readings(v, depth) for k, v in o.items()}
    if isinstance(o, (np.ndarray, int, float, str, bool, type(None), np.generic)):
        return snap(o)
    if is_w(o) or depth > 1:
        return None
    names = [a for a in dir(o) if not a.startswith("_") and a not in SKIP]
    if order is not None:
        names = [names[i] for i in order.permutation(len(names))]
    out = {}
    for a in names:
        try:
            v = getattr(o, a)
        except AttributeError:
            continue
        except Exception as e:  # not defined for this chain
            v = type(e).__name__
        if callable(v) or is_w(v):
            continue
        out[a] = readings(v, depth + 1)
    return out


class Together:
    """Runs one list of steps per thread; threads give way inside the package."""

    def __init__(self, seed, rate):
        self.log = []  # (thread, step, "in" or "out"), in real order
        self.given = 0
        self.seed, self.rate = seed, rate
        self.local = threading.local()

    def trace(self, frame, what, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if what == "line" and self.local.rng.random() < self.rate:
            self.given += 1
            time.sleep(0 if self.local.rng.random() < 0.7 else 1e-4)
        return self.trace

    def run(self, plans):
        got = [[None] * len(p) for p in plans]
        ready = threading.Barrier(len(plans))

        def thread(i):
            self.local.rng = random.Random(f"{self.seed}/{i}")
            ready.wait()
            sys.settrace(self.trace)
            try:
                for j, step in enumerate(plans[i]):
                    self.log.append((i, j, "in"))
                    try:
                        got[i][j] = step()
                    except Exception as e:
                        got[i][j] = e
                    self.log.append((i, j, "out"))
            finally:
                sys.settrace(None)

        switch = sys.getswitchinterval()
        sys.setswitchinterval(2e-5)
        try:
            ts = [threading.Thread(target=thread, args=(i,)) for i in range(len(plans))]
            with contextlib.redirect_stdout(io.StringIO()):
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
        finally:
            sys.setswitchinterval(switch)
        return got

    def overlaps(self):
        """Pairs of steps of different threads that were open at the same time."""
        open_, pairs = {}, collections.Counter()
        for i, j, what in self.log:
            if what == "in":
                for a, b in open_.items():
                    pairs[(a, b, i, j)] += 1
                open_[i] = j
            else:
                del open_[i]
        return pairs


def step_of(d, name, order=None):
    fn, args, kw = CALLS[name][1](d, 0)
    return lambda: readings(fn(*args, **kw), order=order)


@workload("C31", 150, 4000)
def calls_at_the_same_time(ctx):
    """Every thread reads what it would have read on its own."""
    rng = ctx.rng
    data = Data(rng, small=True)
    tr = data.w.transform
    some = [ALONE[int(i)] for i in rng.integers(0, len(ALONE), int(rng.integers(1, 4)))]
    some.append(ALONE[ctx.idx % len(ALONE)])
    plans, ds = [], []
    other = Data(rng, small=True) if rng.random() < 0.6 else None
    for i in range(int(rng.integers(2, 6))):
        # the same arrays or others of another size; weights of its own
        d = copy.copy(other if other is not None and i % 2 else data)
        d = fresh_w(d, tr)
        d.wd = gen.copy_w(d.wd)
        ds.append(d)
        plans.append([some[int(k)] for k in rng.integers(
            0, len(some), int(rng.integers(1, 5)))] if i else list(some))
    ctx.case(data.y, plans, nontrivial=False)
    steps = [[step_of(d, nm) for nm in p] for d, p in zip(ds, plans)]
    want = []
    for d, p in zip(ds, plans):
        d.w.transform = tr
        e = fresh_w(copy.copy(d), tr)
        e.wd = gen.copy_w(d.wd)
        alone = [step_of(e, nm) for nm in p]
        with contextlib.redirect_stdout(io.StringIO()):
            want.append([step() for step in alone])
    before = [d.fingerprint() for d in ds]
    t = Together(f"{ctx.seed}/{ctx.idx}", gen.pick(rng, 0.02, 0.1, 0.4))
    got = t.run(steps)
    ctx.n_events["threaded call"] += sum(map(len, plans))
    for i, p in enumerate(plans):
        for j, nm in enumerate(p):
            ctx.check(not isinstance(got[i][j], Exception),
                      f"{nm} raised while other threads were at work",
                      exc=repr(got[i][j])[:300], plans=plans)
            diff = differ(want[i][j], got[i][j])
            ctx.check(diff is None, f"{nm} reads otherwise while other threads are at "
                      "work", differs=diff, plans=plans)
            ctx.n_checks["threaded reading"] += 1
        ctx.check(differ(before[i], ds[i].fingerprint()) is None, "inputs left alone")
    ctx.tag("threads")
    pairs = t.overlaps()
    if pairs:
        ctx.tag("overlap")
        ctx.nontrivial = True
        ctx.n_events["overlapping pair of calls"] += len(pairs)
    if any(plans[a][b] == plans[i][j] for a, b, i, j in pairs):
        ctx.tag("same routine at once")
    if t.given:
        ctx.tag("gave way")
        ctx.n_events["forced switch inside the package"] += t.given
    ctx.sigs.append(tuple(t.log))


def objects(d):
    return {
        "Markov": lambda: gm.Markov(d.x, summary=False),
        "Spatial_Markov": lambda: gm.Spatial_Markov(
            d.y, d.w, k=d.k, m=2, fill_empty_classes=True),
        "Spatial_Markov discrete": lambda: gm.Spatial_Markov(
            d.x, d.wd, discrete=True, fill_empty_classes=True),
        "LISA_Markov": lambda: gm.LISA_Markov(d.y, d.w),
        "FullRank_Markov": lambda: gm.FullRank_Markov(d.y, summary=False),
        "homogeneity": lambda: gm.homogeneity(d.mats),
        "Rose": lambda: Rose(d.y[:, [0, -1]], d.w, k=4),
    }


@workload("C31", 60, 1500)
def one_result_read_by_many(ctx):
    """Derived results first read by several threads at once."""
    rng = ctx.rng
    d = Data(rng, small=True)
    tr = d.w.transform
    make = objects(d)
    name = [*make, "Spatial_Markov", "Spatial_Markov discrete"][ctx.idx % (len(make) + 2)]
    ctx.case(d.y, d.x, name, nontrivial=False)
    with contextlib.redirect_stdout(io.StringIO()):
        want = readings(make[name]())
        d.w.transform = tr
        m = make[name]()
    ctx.n_events["result read by several threads"] += 1
    t = Together(f"{ctx.seed}/{ctx.idx}/r", gen.pick(rng, 0.05, 0.3))
    orders = [np.random.default_rng(int(rng.integers(2**31)))
              for _ in range(int(rng.integers(2, 5)))]
    got = t.run([[lambda o=o: readings(m, order=o)] * 2 for o in orders])
    for g in [v for p in got for v in p]:
        ctx.check(not isinstance(g, Exception), f"reading a {name} from several threads",
                  exc=repr(g)[:300])
        diff = differ(want, g)
        ctx.check(diff is None, f"{name} reads otherwise from several threads",
                  differs=diff)
    ctx.tag("shared result")
    if t.overlaps():
        ctx.tag("overlap")
        ctx.nontrivial = True
    ctx.sigs.append(tuple(t.log))


# ------------------------------------------------------------------- C32

P32 = prop(
    "C32",
    "every kind of result object, fresh or with some derived results read, with and "
    "without inference, copied, deep-copied and pickled under each protocol; the copy "
    "is read, printed and worked with next to the original; non-trivial: at least three "
    "units",
    floors={"copy": 100, "deepcopy": 100, "pickle": 200, "read before": 120,
            "fresh": 120, "worked with": 80,
            **{f"result:{a}": 12 for a in (
                "Markov", "Spatial_Markov", "Spatial_Markov discrete", "LISA_Markov",
                "FullRank_Markov", "GeoRank_Markov", "homogeneity", "Theta", "Tau",
                "SpatialTau", "Tau_Local", "Tau_Local_Neighbor",
                "Tau_Local_Neighborhood", "Tau_Regional", "Rose", "Sequence",
                "Sequence costs")}},
    assumptions=["the weights object survives being pickled, which is up to libpysal"],
)
P32.warm = gen.warm_lisa

OBJECTS = [a for a in CALLS if a not in (
    "kullback", "chi2", "prais", "sojourn_time", "steady_state", "mfpt", "spillover",
    "var_mfpt_ergodic", "markov_mobility", "fill_empty_diagonals", "kullback sparse",
    "fill_empty_diagonals stack", "chi2 sparse", "is_component", "get_lower",
    "check_contiguity", "Spatial_Markov report", "homogeneity report", "named report")]


def report(m):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        m.summary()
    return out.getvalue()


def work(m, seed):
    """Something a client goes on to do with a result."""
    np.random.seed(seed)
    if isinstance(m, Rose):
        m.permute(9, ["positive", "two.sided", "negative"][seed % 3])
        return facts(m)
    if isinstance(m, gm.LISA_Markov):
        return facts([m.spillover(1 + seed % 4, bool(seed % 2))])
    if isinstance(m, (gm.Spatial_Markov, gm.Homogeneity_Results)):
        return report(m)
    if type(m) in (gm.Markov, gm.FullRank_Markov, gm.GeoRank_Markov):
        with contextlib.redirect_stdout(io.StringIO()):
            return facts([m.mfpt, m.sojourn_time, m.steady_state])
    if isinstance(m, gr.Theta):
        return facts([m.theta, m.ranks])
    return None


@workload("C32", 150, 4000)
def copies_of_results(ctx):
    rng = ctx.rng
    name = OBJECTS[ctx.idx % len(OBJECTS)]
    d = Data(rng, small=True)
    tr = d.w.transform
    kind, call = CALLS[name]
    p = int(gen.pick(rng, 5, 9)) if kind != "d" and rng.random() < 0.5 else 0
    s = int(rng.integers(2**31))
    fn, args, kw = call(d, p)
    ctx.case(d.y, d.x, name, p)

    def made():
        d.w.transform = tr
        np.random.seed(s)
        return ctx.call(name, fn, *args, **kw)

    m = made()
    want = facts(made())
    d.w.transform = tr
    ways = {"copy": copy.copy, "deepcopy": copy.deepcopy}
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        ways[f"pickle {proto}"] = lambda o, q=proto: pickle.loads(pickle.dumps(o, q))
    if rng.random() < 0.5:  # some results have been asked for before
        with contextlib.redirect_stdout(io.StringIO()):
            for a in sorted(want):
                if rng.random() < 0.4:
                    with contextlib.suppress(Exception):
                        getattr(m, a)
            if isinstance(m, gm.Spatial_Markov) and rng.random() < 0.3:
                m.summary()
        ctx.tag("read before")
    else:
        ctx.tag("fresh")
    for way in ("copy", "deepcopy", f"pickle {int(rng.integers(2, 6))}",
                f"pickle {pickle.HIGHEST_PROTOCOL}"):
        ev = ctx.observe(way, ways[way], (m,), {})
        ctx.check(ev.exc is None, f"{way} of a {name}", exc=repr(ev.exc))
        ctx.check(not ev.out and not ev.rng_used, f"{way} of a {name} only copies")
        c = ev.result
        ctx.check(type(c) is type(m), "a result of the same kind", got=type(c))
        w2 = int(rng.integers(1000))
        if way != "copy" and rng.random() < 0.5:
            ref_ = copy.deepcopy(m)  # the copy first: it must not need the original
            got = work(c, w2)
            ctx.check(differ(facts(m), want) is None,
                      f"working with a copy of a {name} changes the original")
            diff = differ(work(ref_, w2), got) if isinstance(got, dict) else (
                None if same(work(ref_, w2), got) else "result")
            ctx.check(diff is None, f"a copy of a {name} works otherwise", differs=diff)
            # a report may settle the default names; inference belongs to the copy
            if not isinstance(m, (Rose, gm.Homogeneity_Results)):
                diff = differ(want, facts(c))
                ctx.check(diff is None, f"a copy of a {name} reads otherwise after work",
                          differs=diff, way=way)
            ctx.tag("worked with")
        else:
            diff = differ(want, facts(c))
            ctx.check(diff is None, f"a {way} of a {name} reads otherwise", differs=diff)
        ctx.tag(way.split()[0])
    diff = differ(want, facts(m))
    ctx.check(diff is None, f"copying changes a {name}", differs=diff)
    ctx.tag("result:" + name)


# ------------------------------------------------------------------- C33

P33 = prop(
    "C33",
    "every entry point, with and without inference, and every lazily computed result "
    "stopped at a random line of the package by an exception such as a keyboard "
    "interrupt, once or several times, then made again on the same inputs; non-trivial: "
    "the interrupt struck before the call was over",
    floors={"stopped": 250, "stopped with inference": 60, "stopped reading": 60,
            "stopped near the end": 40, "stopped again": 60, "stopped permuting": 30,
            "stopped spilling": 10,
            **{f"stopped:{a}": 4 for a in CALLS}},
    assumptions=["interrupts strike between lines of the package, not inside the "
                 "libraries it calls; plots, which go through process-wide state of "
                 "matplotlib, are left to C23"],
)
P33.warm = gen.warm_lisa


class Stopped(KeyboardInterrupt):
    pass


def lines_of(fn):
    """(result, number of lines of the package it went through)."""
    seen = [0]

    def trace(frame, what, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if what == "line":
            seen[0] += 1
        return trace

    sys.settrace(trace)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            res = fn()
    finally:
        sys.settrace(None)
    return res, seen[0]


def stopped(fn, at):
    """Runs fn and stops it at the given line; whether it was stopped."""
    left = [at]

    def trace(frame, what, arg):
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if what == "line":
            left[0] -= 1
            if left[0] == 0:
                raise Stopped
        return trace

    sys.settrace(trace)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fn()
    except Stopped:
        return True
    finally:
        sys.settrace(None)
    return left[0] <= 0  # the interrupt may have been taken for an error


def strike(ctx, fn, total):
    rng = ctx.rng
    if rng.random() < 0.3:
        at = total - int(rng.integers(0, min(12, total)))
        ctx.tag("stopped near the end")
    else:
        at = int(rng.integers(1, total + 1))
    hit = stopped(fn, at)
    if hit:
        ctx.nontrivial = True
        ctx.n_events["call stopped midway"] += 1
        ctx.sigs.append((ctx.wl, ctx.idx % 64, at))
    return hit


@workload("C33", 250, 8000)
def stopped_calls(ctx):
    """A call that is stopped leaves nothing behind for those made later."""
    rng = ctx.rng
    names = list(CALLS)
    name = names[ctx.idx % len(names)]
    d = Data(rng, small=True)
    tr = d.w.transform
    p = int(gen.pick(rng, 0, 3)) if CALLS[name][0] == "p" else 0
    s = int(rng.integers(2**31))
    ctx.case(d.y, d.x, name, p, nontrivial=False)
    e = fresh_w(copy.copy(d), tr)
    e.wd = gen.copy_w(d.wd)
    fn, args, kw = CALLS[name][1](e, p)
    np.random.seed(s)
    res, total = lines_of(lambda: fn(*args, **kw))
    want = facts(res)
    before = d.fingerprint()
    fn, args, kw = CALLS[name][1](d, p)
    wt = transform_state(d.w)
    again = 1 + (rng.random() < 0.3) + (rng.random() < 0.2)
    for turn in range(again):
        np.random.seed(s)
        if not strike(ctx, lambda: fn(*args, **kw), total):
            continue
        ctx.tag("stopped")
        ctx.tag(f"stopped:{name}")
        if p:
            ctx.tag("stopped with inference")
        if turn:
            ctx.tag("stopped again")
        diff = differ(before, d.fingerprint())
        ctx.check(diff is None, f"{name} stopped midway leaves its inputs alone",
                  changed=diff)
        if name not in SETS_TRANSFORM:
            ctx.check(transform_state(d.w) == wt,
                      f"{name} stopped midway leaves the weights alone")
        if name in SETS_TRANSFORM:
            d.w.transform = tr
    np.random.seed(s)
    got = facts(ctx.call(name, fn, *args, **kw))
    diff = differ(want, got)
    ctx.check(diff is None, f"{name} reads otherwise after it was stopped", differs=diff)


def seeded(fn, *args, **kw):
    np.random.seed(7)
    return fn(*args, **kw)


@workload("C33", 120, 3000)
def stopped_readings(ctx):
    """Derived results read again after a reading was stopped."""
    rng = ctx.rng
    d = Data(rng, small=True)
    tr = d.w.transform
    make = objects(d)
    make["LISA_Markov"] = lambda: seeded(
        gm.LISA_Markov, d.y, d.w, permutations=9, significance_level=0.4)
    kinds = [*make, "Spatial_Markov", "Spatial_Markov discrete", "Markov",
             "Spatial_Markov"]
    name = kinds[ctx.idx % len(kinds)]
    ctx.case(d.y, d.x, name, nontrivial=False)
    want = facts(make[name]())
    d.w.transform = tr
    m = make[name]()
    attrs = sorted(want)

    def read():
        for i in rng.permutation(len(attrs))[: int(rng.integers(1, len(attrs) + 1))]:
            try:
                getattr(m, attrs[i])
            except Exception:  # not defined for this chain
                pass

    with contextlib.redirect_stdout(io.StringIO()):
        fresh = make[name]()
        _, total = lines_of(lambda: facts(fresh))
    hits = 0
    for _ in range(int(rng.integers(1, 5))):
        hits += strike(ctx, read, max(1, int(total * float(rng.random()))))
        if isinstance(m, gm.LISA_Markov):
            q, nb = int(rng.integers(1, 5)), bool(rng.integers(2))
            spill, total_s = lines_of(lambda: copy.deepcopy(m).spillover(q, nb))
            if strike(ctx, lambda: m.spillover(q, nb), total_s):
                ctx.tag("stopped spilling")
            diff = differ(facts(spill), facts(m.spillover(q, nb)))
            ctx.check(diff is None, "spillover reads otherwise after it was stopped",
                      differs=diff)
        elif isinstance(m, gm.Spatial_Markov) and rng.random() < 0.3:
            stopped(m.summary, int(rng.integers(1, 60)))
    if hits:
        ctx.tag("stopped reading")
    if hits > 1:
        ctx.tag("stopped again")
    diff = differ(want, facts(m))
    ctx.check(diff is None, f"{name} reads otherwise after a reading was stopped",
              differs=diff)


@workload("C33", 40, 1000)
def stopped_rose_inference(ctx):
    """The observed rose, and later inference, after inference was stopped."""
    rng = ctx.rng
    d = Data(rng, small=True)
    r = ctx.call("Rose", Rose, d.y[:, [0, -1]], d.w, k=int(gen.pick(rng, 4, 8)))
    ctx.case(d.y, r.k, nontrivial=False)
    seen = observed(r)
    _, total = lines_of(lambda: copy.deepcopy(r).permute(5))
    for _ in range(int(rng.integers(1, 4))):
        alt = gen.pick(rng, "two.sided", "positive", "negative")
        if strike(ctx, lambda: r.permute(5, alt), total):
            ctx.tag("stopped permuting")
        ctx.check(same(observed(r), seen), "inference stopped midway leaves the observed "
                  "rose alone")
    alt = gen.pick(rng, "two.sided", "positive", "negative")
    ctx.event("permute", r.permute, 9, alt)
    check_permuted(ctx, r, d.n, 9, alt)
    ctx.check(same(observed(r), seen), "nor does the next one")
