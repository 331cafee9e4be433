"""C21-C23: rose diagrams, their inference and the dynamic LISA plots."""

import functools
import itertools
import math
import sys
import types

import matplotlib
import matplotlib.pyplot as plt
import numpy as np

from giddy import plotting
from giddy.directional import Rose

from . import gen, ref
from .core import WSnap, monitor, prop, rng_state, same, snap, workload
from .p_spatial import against_null, alike, by_position, no_odd_draw

# ------------------------------------------------------------------- C21

prop(
    "C21",
    "seeded two-period panels (n<=60, reals, counts, unsigned and strided arrays) and "
    "weights (row standardised, binary, general, any ids) with 1..16 sectors, "
    "movements on the sector boundaries, units that do not move; non-trivial: at least "
    "two sectors are hit",
    floors={"k=4": 60, "k=8": 60, "other k": 150, "axis": 150, "still unit": 40,
            "empty sector": 60, "one direction": 20, "unsigned": 20,
            "many units": 30},
    assumptions=["no missing values"],
)


UNSURE = 1e-300


def geometry(ev_a):
    """Displacements by definition: (dx, dy, lag, scale)."""
    Y = np.asarray(ev_a["Y"])
    ws = ev_a["w"]
    lag = ws.lag(Y)
    dx = [float(b) - float(a) for a, b in Y[:, [0, -1]].tolist()]
    dy = [b - a for a, b in lag[:, [0, -1]].tolist()]
    sc = max(1e-300, float(np.abs(np.asarray(Y, dtype=float)).max()),
             float(np.abs(lag).max()))
    # a lag that should not move may do so by rounding, unless every term is the
    # same in both periods or all are integers
    F = Y[:, [0, -1]].astype(float)
    for i in range(len(dy)):
        js, vs = ws.nb[i], ws.wt[i]
        if abs(dy[i]) > 1e-12 * sc or (F[js, 0] == F[js, 1]).all() or len(js) < 2:
            continue
        if (F[js] == np.round(F[js])).all() and all(v == round(v) for v in vs):
            continue
        dy[i] = UNSURE
    return dx, dy, lag, sc


def sector_bounds(dx, dy, k, sc):
    """Smallest and largest admissible count of every sector."""
    lo, hi = np.zeros(k, dtype=int), np.zeros(k, dtype=int)
    free = 0
    for a, b in zip(dx, dy):
        r = math.hypot(a, b)
        if b == UNSURE and a > 0:  # on the first cut, or just below it
            hi[0] += 1
            hi[-1] += 1
            lo[0] += k == 1
            hi[0] -= k == 1
            continue
        if a == 0 == b:
            s, near = 0, False  # an angle of zero
        elif r < 1e-12 * sc or (b == UNSURE and a == 0):
            free += 1
            continue
        elif k in (4, 8) and (a == 0 or b == 0):
            q = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}[
                (a > 0) - (a < 0), (b > 0) - (b < 0)]
            s, near = q * k // 4, False
        else:
            x = (math.atan2(b, a) % (2 * math.pi)) * k / (2 * math.pi)
            eps = k * (1e-9 + 1e-13 * sc / r)
            c = round(x)
            if abs(x - c) < eps:
                s, near = c % k, True
            else:
                s, near = int(math.floor(x)) % k, False
        if near:
            hi[s] += 1
            if (s - 1) % k != s:
                hi[(s - 1) % k] += 1
            else:
                lo[s] += 1
        else:
            lo[s] += 1
            hi[s] += 1
    return lo, hi + free


@monitor("C21", "Rose")
def rose_definition(ctx, ev):
    r, k = ev.result, ev.a["k"]
    n = len(ev.a["Y"])
    dx, dy, lag, sc = geometry(ev.a)
    ctx.eq("sector cuts", r.cuts, [2 * math.pi * i / k for i in range(k + 1)])
    ctx.eq("bins", r.bins, r.cuts, rtol=0, atol=0)
    ctx.eq("spatial lag", r.wY, lag, rtol=1e-9, atol=1e-11 * sc)
    ctx.eq("lag", r.lag, r.wY, rtol=0, atol=0)
    ctx.eq("data", r.Y, ev.a["Y"], rtol=0, atol=0)
    ctx.check(r.k == k, "number of sectors")
    ctx.eq("vector lengths", r.r, [math.hypot(a, b) for a, b in zip(dx, dy)], rtol=1e-8,
           atol=1e-11 * sc)
    th = np.asarray(r.theta)
    ctx.check(th.shape == (n,) and (np.abs(th) <= math.pi + 1e-12).all(),
              "angles are signed radians", got=th)
    ctx.eq("angle and length give the own movement", r.r * np.cos(th), dx, rtol=1e-8,
           atol=1e-11 * sc)
    ctx.eq("angle and length give the neighbours' movement", r.r * np.sin(th), dy,
           rtol=1e-8, atol=1e-11 * sc)
    c = np.asarray(r.counts)
    ctx.check(c.shape == (k,) and c.dtype.kind == "i", "one count per sector", got=c)
    ctx.check(c.sum() == n, "every unit is in exactly one sector", got=c, n=n)
    lo, hi = sector_bounds(dx, dy, k, sc)
    ctx.check((lo <= c).all() and (c <= hi).all(), "sector counts", got=c, least=lo,
              most=hi, dx=dx, dy=dy)
    ctx.tag(f"k={k}" if k in (4, 8) else "other k",
            "still unit" if any(a == 0 == b for a, b in zip(dx, dy)) else None,
            "empty sector" if (c == 0).any() else None,
            "one direction" if k > 1 and (c == n).any() else None)


def rose_input(rng, n=None):
    n = n or int(rng.integers(2, 61))
    kind = gen.pick(rng, None, None, "ties", "int", "uint8", "rise", "float32")
    if kind == "uint8":
        Y = rng.integers(0, 256, (n, 2)).astype(gen.pick(rng, "uint8", "int16",
                                                         "uint32"))
    elif kind == "rise":
        Y = rng.random((n, 2)) * gen.pick(rng, 1, -1)
        Y[:, 1] += 3
    elif kind == "float32":
        Y = rng.random((n, 2)).astype("float32")
    else:
        Y, _ = gen.panel(rng, n, 2, kind)
    w, _, _ = gen.weights(rng, n, general=rng.random() < 0.25)
    if rng.random() < 0.2:
        w = gen.lopsided(rng, w)
    return gen.layout(rng, Y), w


@workload("C21", 1500, 60000)
def vectors(ctx):
    rng = ctx.rng
    Y, w = rose_input(rng)
    k = int(gen.pick(rng, 4, 8, 1, 2, 3, 5, 6, 7, 9, 12, 16))
    if rng.random() < 0.3 and Y.flags.writeable:
        i = rng.integers(len(Y))
        Y[i, 1] = Y[i, 0]
    if Y.dtype.kind == "u":
        ctx.tag("unsigned")
    ctx.case(Y, w, k)
    if k == 8 and rng.random() < 0.5:
        ctx.call("Rose", Rose, Y, w)
    else:
        ctx.call("Rose", Rose, Y, w, k=k)


@workload("C21", 12, 500)
def many_vectors(ctx):
    rng = ctx.rng
    Y, w = rose_input(rng, int(gen.pick(rng, 130, 260, 700)))
    k = int(gen.pick(rng, 4, 8, 1, 36, 90, 360))
    ctx.case(Y, w, k)
    ctx.tag("many units")
    ctx.call("Rose", Rose, Y, w, k=k)


@workload("C21", 700, 20000)
def boundary_vectors(ctx):
    """Movements exactly along the axes, where the cuts are."""
    rng = ctx.rng
    n = int(rng.integers(2, 20)) * 2
    # a perfect matching with unit weights: the lag is the partner's value
    q = rng.permutation(n)
    nb = {}
    for a, b in zip(q[::2], q[1::2]):
        nb[int(a)], nb[int(b)] = [int(b)], [int(a)]
    w = gen.make_w(nb, None, list(range(n)))
    if rng.random() < 0.5:
        w.transform = "r"
    Y = np.zeros((n, 2))
    Y[:, 0] = rng.integers(-9, 9, n)
    d = rng.integers(-2, 3, n) * (rng.random(n) < 0.6)
    if rng.random() < 0.3:
        d = d * 0.0 - 0.0
    Y[:, 1] = Y[:, 0] + d
    if rng.random() < 0.4:
        Y = Y.astype(int)
    k = int(gen.pick(rng, 4, 4, 8, 8, 2, 16, 3))
    ctx.case(Y, w, k)
    ctx.tag("axis")
    ctx.call("Rose", Rose, Y, w, k=k)


@workload("C21", 200, 5000)
def symmetries(ctx):
    """Reversing time turns every vector around; scaling leaves angles alone."""
    rng = ctx.rng
    Y, w = rose_input(rng)
    Y = np.array(Y, dtype=float)
    k = int(gen.pick(rng, 4, 8, 6, 16))
    ctx.case(Y, w, k)
    r = ctx.call("Rose", Rose, Y, w, k=k)
    dx, dy, _, sc = geometry({"Y": Y, "w": WSnap(w)})
    lo, hi = sector_bounds(dx, dy, k, sc)
    b = ctx.call("Rose", Rose, Y[:, ::-1], w, k=k)
    ctx.eq("lengths do not depend on the direction of time", b.r, r.r, rtol=1e-8,
           atol=1e-11 * sc)
    c = ctx.call("Rose", Rose, Y * 4.0, w, k=k)
    ctx.eq("lengths scale", c.r, 4 * r.r, rtol=1e-9)
    if (lo == hi).all() and min(r.r) > 1e-9 * sc:
        ctx.exact("time reversal rotates the histogram by half a turn", b.counts,
                  np.roll(r.counts, k // 2))
        ctx.exact("scaling keeps the histogram", c.counts, r.counts)


# ------------------------------------------------------------------- C22

prop(
    "C22",
    "seeded roses and histories of 1..4 permutation calls (alternatives in any case, "
    "1..99 permutations, k in 4, 8 and others for the two-sided test); simulated "
    "counts for n<=5 against the exhaustive list of joint unit permutations; "
    "non-trivial: more than one value of a sector count is simulated",
    floors={"two-sided": 150, "positive": 80, "negative": 80, "history": 100,
            "seeded": 40, "null": 20, "null of several values": 15},
    assumptions=["the directional alternatives are defined for 4 and 8 sectors"],
)

POS = {4: [1, 0, 1, 0], 8: [1, 1, 0, 0, 1, 1, 0, 0]}


def check_permuted(ctx, r, n, permutations, alternative):
    k = r.k
    cp = np.asarray(r.counts_perm)
    ctx.check(cp.shape == (permutations, k), "one histogram per permutation",
              got=cp.shape)
    ctx.check((cp.sum(axis=1) == n).all() and (cp >= 0).all(),
              "every simulated histogram holds every unit", got=cp)
    big = [sum(1 for v in cp[:, j] if v >= r.counts[j]) for j in range(k)]
    small = [sum(1 for v in cp[:, j] if v <= r.counts[j]) for j in range(k)]
    ctx.exact("as large as observed", r.larger_perm, big)
    ctx.exact("as small as observed", r.smaller_perm, small)
    ctx.eq("expected counts", r.expected_perm,
           [math.fsum(cp[:, j]) / permutations for j in range(k)])
    ctx.check(r.alternative == alternative, "alternative", got=r.alternative)
    L = [(v + 1) / (permutations + 1) for v in big]
    S = [(v + 1) / (permutations + 1) for v in small]
    a = alternative.lower()
    if a in ("two.sided", "two-sided"):
        want = [2 * v if v < 0.5 else 2 * (1 - v) for v in L]
        ctx.tag("two-sided")
    elif a == "positive":
        want = [x if p else y for p, x, y in zip(POS[k], L, S)]
        ctx.tag("positive")
    else:
        want = [y if p else x for p, x, y in zip(POS[k], L, S)]
        ctx.tag("negative")
    ctx.eq("pseudo p-values", r.p, want, rtol=1e-10, atol=1e-12)
    if len(np.unique(cp[:, 0])) > 1:
        ctx.nontrivial = True


OBSERVED = ("theta", "bins", "counts", "r", "lag", "wY", "Y", "k", "cuts")


def observed(r):
    return {a: snap(getattr(r, a)) for a in OBSERVED}


@workload("C22", 500, 16000)
def histories(ctx):
    """Any sequence of permutation calls; the observed rose never moves."""
    rng = ctx.rng
    Y, w = rose_input(rng, int(rng.integers(2, 26)))
    k = int(gen.pick(rng, 4, 8, 4, 8, 5, 2, 12))
    Y0 = np.array(Y)
    r = ctx.call("Rose", Rose, Y, w, k=k)
    before = observed(r)
    steps = int(rng.integers(1, 5))
    ctx.case(Y, w, k, steps, nontrivial=False)
    for _ in range(steps):
        alt = gen.pick(rng, "two.sided", "two-sided", "positive", "negative", "Positive",
                       "NEGATIVE", "Two.Sided", "TWO-SIDED")
        if k not in POS:
            alt = gen.pick(rng, "two.sided", "two-sided")
        m = int(gen.pick(rng, 1, 9, 19, 99))
        if m == 99 and alt == "two.sided" and rng.random() < 0.5:
            ev = ctx.event("permute", r.permute)
        else:
            ev = ctx.event("permute", r.permute, permutations=m, alternative=alt)
        ctx.check(ev.rng_used, "permutations draw random numbers")
        ctx.check(ev.out == "", "nothing is reported for a valid alternative",
                  out=ev.out)
        check_permuted(ctx, r, len(Y), m, alt)
        ctx.check(same(observed(r), before), "inference leaves the observed rose alone")
        ctx.check(np.array_equal(Y, Y0), "inference leaves the data alone")
        if rng.random() < 0.4:  # an unrelated rose in between
            ctx.call("Rose", Rose, Y[:, ::-1], w, k=4)
    if steps > 1:
        ctx.tag("history")


@workload("C22", 60, 1500)
def seeds(ctx):
    rng = ctx.rng
    Y, w = rose_input(rng, int(rng.integers(3, 20)))
    k = int(gen.pick(rng, 4, 8))
    ctx.case(Y, w, k)
    got = []
    s = int(rng.integers(2**31))
    for _ in range(2):
        np.random.seed(s)
        r = ctx.call("Rose", Rose, Y, w, k=k)
        ctx.event("permute", r.permute, 19, "positive")
        got.append((r.counts_perm, r.p))
    ctx.exact("a seed fixes the simulated counts", got[0][0], got[1][0])
    ctx.exact("a seed fixes the p-values", got[0][1], got[1][1])
    ctx.tag("seeded")


@workload("C22", 40, 800)
def permutation_distribution(ctx):
    """Simulated histograms are those of uniformly permuted units."""
    rng = ctx.rng
    n = int(rng.integers(3, 6))
    Y = rng.normal(size=(n, 2))
    A, _ = gen.graph(rng, n, gen.pick(rng, "path", "star", "random", "ring"))
    G = rng.integers(1, 9, (n, n)).astype(float)
    nb = {i: [int(j) for j in np.flatnonzero(A[i])] for i in range(n)}
    w = gen.make_w(nb, {i: [float(G[i, j]) for j in nb[i]] for i in nb}, list(range(n)))
    w.transform = gen.pick(rng, "r", "o")
    ws = WSnap(w)
    k = int(gen.pick(rng, 4, 8, 5))
    proj = rng.random(k)
    vals = []
    for q in itertools.permutations(range(n)):
        dx, dy, _, sc = geometry({"Y": Y[list(q)], "w": ws})
        lo, hi = sector_bounds(dx, dy, k, sc)
        if (lo != hi).any():
            return ctx.tag("boundary")
        vals.append(float(lo @ proj))
    ctx.case(Y, w, k)
    r = ctx.call("Rose", Rose, Y, w, k=k)
    R = 1200 if ctx.tier == "quick" else 4000
    if rng.random() < 0.5:
        ctx.event("permute", r.permute, 3)
    ctx.event("permute", r.permute, R)
    sims = np.asarray(r.counts_perm) @ proj
    against_null(ctx, "histogram", sims, vals)
    # consecutive draws are independent: pairs of equal neighbours
    against_null(ctx, "histogram of every other draw", sims[::2], vals)


@workload("C22", 4, 100)
def draws_by_number(ctx):
    rng = ctx.rng
    rows = []
    R = int(gen.pick(rng, 49, 99))
    ctx.case(ctx.idx, R)
    for _ in range(30):
        Y, w = rose_input(rng, int(rng.integers(9, 20)))
        r = ctx.call("Rose", Rose, Y, w, k=int(gen.pick(rng, 4, 8, 12)))
        ctx.event("permute", r.permute, R)
        rows.append((np.asarray(r.counts_perm) == r.counts).all(axis=1))
    no_odd_draw(ctx, "histogram", rows)


@workload("C22", 3, 60)
def permutation_distribution_of_many_units(ctx):
    """Every unit is relocated, however many there are, and anew each time."""
    rng = ctx.rng
    n = int(gen.pick(rng, 60, 80, 110, 270))
    _, _, w, cut = by_position(rng, n)
    w.transform = "r"
    ws = WSnap(w)
    Y = rng.random((n, 2)) + 5
    Y[:, 1] = Y[:, 0] + np.where(np.arange(n) < cut, 1, -1) * (0.2 + rng.random(n))
    k = int(gen.pick(rng, 4, 8))
    proj = rng.random(k) + np.arange(k)
    refs = []
    for _ in range(600 if n > 200 else 2000):
        dx, dy, _, sc = geometry({"Y": Y[rng.permutation(n)], "w": ws})
        lo, hi = sector_bounds(dx, dy, k, sc)
        if (lo == hi).all():
            refs.append(float(lo @ proj))
    ctx.case(Y, w, k)
    r = ctx.call("Rose", Rose, Y, w, k=k)
    for alt in ("positive", "negative", "two.sided")[int(rng.integers(4)):]:
        ctx.event("permute", r.permute, int(gen.pick(rng, 1, 9)), alt)
    ctx.event("permute", r.permute, 1999,
              gen.pick(rng, "positive", "negative", "two.sided"))
    alike(ctx, "histogram of many units", np.asarray(r.counts_perm) @ proj, refs)


@workload("C22", 20, 200)
def unknown_alternative(ctx):
    rng = ctx.rng
    Y, w = rose_input(rng, 8)
    ctx.case(Y, w)
    r = ctx.call("Rose", Rose, Y, w, k=4)
    before = observed(r)
    ev = ctx.observe("permute", r.permute, (9, "sideways"), {})
    ctx.check(ev.exc is not None or "sideways" in ev.out,
              "an unknown alternative is reported", out=ev.out)
    ctx.check(same(observed(r), before), "the observed rose is left alone")


# ------------------------------------------------------------------- C23

P23 = prop(
    "C23",
    "seeded roses (lattices, random graphs, the 48 states; k of any size, before and "
    "after inference) drawn on new and given axes with options; the drawn artists are "
    "read back; non-trivial: at least two units move",
    floors={"vectors": 100, "rose": 100, "heatmap": 12, "composite": 4, "explore": 2,
            "given axes": 80, "rejected": 20, "attribute": 40, "origin": 20,
            "own defaults": 40, "drawn again": 20,
            "significant cell": 6},
    assumptions=["two-period data without missing values"],
)
P23.warm = gen.warm_lisa


def styled(fn):
    """Run under plotting defaults of the user's own in some cases."""

    @functools.wraps(fn)
    def run(ctx):
        rng, rc = ctx.rng, {}
        if rng.random() < 0.5:
            rc = {"axes.edgecolor": gen.pick(rng, "#123456", "green"),
                  "axes.facecolor": gen.pick(rng, "#fafad2", "0.75"),
                  "grid.color": gen.pick(rng, "#00aa00", "k"),
                  "figure.figsize": [5.0, 3.5], "lines.linewidth": 2.5,
                  "font.size": 9.0, "figure.max_open_warning": 0}
            ctx.tag("own defaults")
        with matplotlib.rc_context(rc):
            fn(ctx)

    return run


def world(r):
    """Everything a plot must leave as it was."""
    return {
        "rose": {a: snap(v) for a, v in vars(r).items() if a != "w"},
        "transform": r.w.transform,
        "weights": {i: [float(v) for v in r.w.weights[i]] for i in r.w.id_order},
        "rc": dict(matplotlib.rcParams),
        "rng": rng_state(),
    }


def untouched(ctx, r, before, what):
    after = world(r)
    for key in ("transform", "rng"):
        ctx.check(before[key] == after[key], f"{what} leaves {key} as it was",
                  before=before[key] if key != "rng" else "", after=after[key]
                  if key != "rng" else "")
    ctx.check(before["weights"] == after["weights"], f"{what} leaves the weights alone")
    diff = {k: (before["rc"][k], after["rc"].get(k)) for k in before["rc"]
            if before["rc"][k] != after["rc"].get(k)}
    ctx.check(not diff, f"{what} leaves the plotting defaults alone", changed=diff)
    ctx.check(same(before["rose"], {k: v for k, v in after["rose"].items()
                                    if k in before["rose"]}),
              f"{what} leaves the rose alone")


def make_rose(ctx, n=None, k=None):
    rng = ctx.rng
    Y, w = rose_input(rng, n or int(rng.integers(2, 20)))
    r = ctx.call("Rose", Rose, Y, w, k=k or int(gen.pick(rng, 4, 8, 5)))
    if rng.random() < 0.4:
        ctx.event("permute", r.permute, 9)
    return r


def target(ctx, polar=False):
    """None or a given axes; returns (ax, figure, open figures)."""
    plt.close("all")
    if ctx.rng.random() < 0.5:
        return None
    fig = plt.figure()
    kw = {"projection": "polar"} if polar else {}
    fig.add_subplot(1, 2, 1, **kw)
    ctx.tag("given axes")
    return fig.add_subplot(1, 2, 2, **kw)


def placed(ctx, fig, ax, given, what):
    if given is not None:
        ctx.check(ax is given and fig is given.figure, f"{what} draws in the given axes")
        ctx.check(len(plt.get_fignums()) == 1, f"{what} opens no other figure")
        ctx.check(not (given.figure.axes[0].lines or given.figure.axes[0].collections),
                  f"{what} leaves other axes empty")
    else:
        ctx.check(ax in fig.axes, f"{what} returns its axes")


@workload("C23", 150, 4000)
@styled
def lisa_vectors(ctx):
    rng = ctx.rng
    r = make_rose(ctx)
    ctx.case(r.Y, r.w)
    before = world(r)
    given = target(ctx)
    arrows = bool(rng.integers(2))
    kw, color = {}, "b"
    c = int(rng.integers(4))
    if c == 0:
        kw, color = {"c": "r"}, "r"
    elif c == 1:
        kw, color = {"color": "#00ff00", "linestyle": "--"}, "#00ff00"
    if rng.random() < 0.3 and given is None and not kw:
        fig, ax = ctx.call("plot_vectors", r.plot_vectors, arrows=arrows)
    else:
        if given is not None:
            kw["ax"] = given
        fig, ax = ctx.call("dynamic_lisa_vectors", plotting.dynamic_lisa_vectors, r,
                           arrows=arrows, **kw)
    placed(ctx, fig, ax, given, "vector plot")
    n = len(r.Y)
    lag = WSnap(r.w).lag(r.Y)
    sc = np.abs(lag).max() + np.abs(np.asarray(r.Y, dtype=float)).max()
    ctx.check(len(ax.lines) == n, "one vector per unit", got=len(ax.lines), n=n)
    for i, ln in enumerate(ax.lines):
        ctx.eq(f"own values of unit {i}", ln.get_xdata(), r.Y[i])
        ctx.eq(f"lagged values of unit {i}", ln.get_ydata(), lag[i], rtol=1e-9,
               atol=1e-11 * sc)
        ctx.check(matplotlib.colors.same_color(ln.get_color(), color), "colour",
                  got=ln.get_color(), want=color)
        if "linestyle" in kw:
            ctx.check(ln.get_linestyle() == "--", "line style option")
    ctx.check(len(ax.texts) == (n if arrows else 0), "arrowheads on request",
              got=len(ax.texts), arrows=arrows)
    for ln, tx in zip(ax.lines, ax.texts):
        ctx.eq("arrow points at the end", tx.xy, [ln.get_xdata()[1], ln.get_ydata()[1]])
        ctx.eq("arrow starts at the start", tx.xyann,
               [ln.get_xdata()[0], ln.get_ydata()[0]])
    Yf = np.asarray(r.Y, dtype=float)
    if np.ptp(Yf) > 1e-6 * sc and np.ptp(lag) > 1e-6 * sc:
        ctx.eq("horizontal range", ax.get_xlim(), [Yf.min(), Yf.max()])
        ctx.eq("vertical range", ax.get_ylim(), [lag.min(), lag.max()])
    untouched(ctx, r, before, "vector plot")
    ctx.tag("vectors")


@workload("C23", 150, 4000)
@styled
def lisa_rose(ctx):
    rng = ctx.rng
    r = make_rose(ctx)
    n = len(r.Y)
    ctx.case(r.Y, r.w)
    before = world(r)
    given = target(ctx, polar=True)
    kw = {}
    att = None
    c = int(rng.integers(4))
    if c == 0:
        att = rng.normal(size=n)
        kw["attribute"] = att
    elif c == 1:
        att = np.asarray(r.Y)[:, 0]
        kw.update(attribute=att, cmap="Reds", alpha=0.4)
    elif c == 2:
        kw["c"] = "r"
    if given is not None:
        kw["ax"] = given
    if rng.random() < 0.3:
        fig, ax = ctx.call("plot", r.plot, **kw)
    else:
        fig, ax = ctx.call("dynamic_lisa_rose", plotting.dynamic_lisa_rose, r, **kw)
    placed(ctx, fig, ax, given, "rose plot")
    ctx.check(ax.name == "polar", "polar axes")
    ctx.check(len(ax.collections) == 1, "one set of points")
    pc = ax.collections[0]
    ctx.eq("points are angle and length", np.asarray(pc.get_offsets()),
           np.column_stack([r.theta, r.r]))
    if att is not None:
        ctx.eq("colours follow the attribute", pc.get_array(), att)
        ctx.tag("attribute")
        ctx.check(len(fig.axes) == (2 if given is not None else 2),
                  "colour bar in a figure of its own only", got=len(fig.axes))
        ctx.check(pc.get_alpha() == (0.4 if c == 1 else 0.9), "transparency option")
        ctx.check(pc.get_cmap().name == ("Reds" if c == 1 else "YlGnBu"), "colour map")
    else:
        ctx.check(pc.get_array() is None, "no attribute, no colour scale")
        if c == 2:
            ctx.check(matplotlib.colors.same_color(pc.get_facecolor()[0][:3], "r"),
                      "colour option")
        ctx.check(len(fig.axes) == (2 if given is not None else 1), "no colour bar")
    untouched(ctx, r, before, "rose plot")
    ctx.tag("rose")


@workload("C23", 40, 600)
@styled
def colour_conflict(ctx):
    rng = ctx.rng
    r = make_rose(ctx)
    ctx.case(r.Y, r.w)
    before = world(r)
    kw = {gen.pick(rng, "c", "color"): "r"}
    fn = gen.pick(rng, r.plot, lambda **k: plotting.dynamic_lisa_rose(r, **k))
    ctx.raises("dynamic_lisa_rose", ValueError, fn,
               attribute=np.asarray(r.Y, dtype=float)[:, 0], **kw)
    untouched(ctx, r, before, "a refused rose plot")
    ctx.tag("rejected")


@workload("C23", 40, 600)
@styled
def from_origin(ctx):
    r = make_rose(ctx)
    ctx.case(r.Y, r.w)
    before = world(r)
    plt.close("all")
    plt.figure()
    ctx.call("plot_origin", r.plot_origin)
    dx, dy, _, sc = geometry({"Y": r.Y, "w": WSnap(r.w)})
    lines = plt.gca().lines
    ctx.check(len(lines) == len(dx), "one vector per unit", got=len(lines))
    for ln, a, b in zip(lines, dx, dy):
        ctx.eq("vector from the origin", [ln.get_xdata(), ln.get_ydata()],
               [[0, a], [0, b]], rtol=1e-8, atol=1e-11 * sc)
    untouched(ctx, r, before, "origin plot")
    ctx.tag("origin")


# ---- maps of significant moves

LABELS = ["ns", "HH", "LH", "LL", "HL"]


def morans(r, state):
    """Local Moran statistics of both periods from one random state."""
    import esda

    now = np.random.get_state()
    out = []
    for t in (0, 1):
        np.random.set_state(state)
        out.append(esda.Moran_Local(np.asarray(r.Y)[:, t], gen.copy_w(r.w)))
    np.random.set_state(now)
    return out


def clusters(m, p):
    return [int(q) if s < p else 0 for q, s in zip(m.q, m.p_sim)]


def check_heatmap(ctx, ax, ms, p, masked=True, annotated=True, names=None):
    a, b = clusters(ms[0], p), clusters(ms[1], p)
    want = np.zeros((5, 5), dtype=int)
    for i, j in zip(a, b):
        want[i, j] += 1
    mesh = ax.collections[0]
    arr = np.ma.asarray(mesh.get_array()).reshape(5, 5)
    off = ~np.eye(5, dtype=bool)
    ctx.exact("moves between clusters", np.asarray(arr.filled(-1))[off], want[off])
    ctx.check(not np.ma.getmaskarray(arr)[off].any(), "every move is shown")
    if masked:
        ctx.check(np.ma.getmaskarray(arr)[~off].all(), "units that stay are masked")
    else:
        ctx.exact("units that stay, when asked for", arr.filled(-1)[~off], want[~off])
    # text in the cells, read by position
    seen = {}
    for tx in ax.texts:
        x, y = tx.get_position()
        seen[int(y), int(x)] = int(float(tx.get_text()))
    if not annotated:
        ctx.check(not seen, "no annotation unless asked for", got=len(seen))
    for i in range(5):
        for j in range(5):
            if annotated and (i != j or not masked):
                ctx.check(seen.get((i, j)) == want[i, j], "annotated count",
                          cell=(LABELS[i], LABELS[j]), got=seen.get((i, j)),
                          want=int(want[i, j]))
    names = names or LABELS
    ctx.check([t.get_text() for t in ax.get_xticklabels()] == names
              and [t.get_text() for t in ax.get_yticklabels()] == names,
              "clusters are named in code order",
              got=[t.get_text() for t in ax.get_xticklabels()])
    ctx.check(ax.get_xlabel() == "End time" and ax.get_ylabel() == "Start time",
              "axes are named")
    ctx.tag("heatmap")
    if want[off].any():
        ctx.tag("significant cell")


def clustered(rng, side):
    """Lattice data with strong clusters that move between two periods."""
    n = side * side
    w = gen.lat2W(side, side, rook=False)
    w = gen.copy_w(w)
    w.transform = gen.pick(rng, "r", "r", "b", "o")
    i, j = np.divmod(np.arange(n), side)
    a, b = rng.random(2) * side
    Y = np.column_stack([
        np.exp(-((i - a) ** 2 + (j - b) ** 2) / side) * 5 + rng.random(n),
        np.exp(-((i - b) ** 2 + (j - a) ** 2) / side) * 5 + rng.random(n)])
    if rng.random() < 0.2:
        Y[:, 1] = Y[:, 0]
    u = rng.random()
    if u < 0.35:  # centred, as deviations are
        Y = Y - Y.mean(axis=0)
    elif u < 0.45:
        Y = -Y
    elif u < 0.55:
        Y = np.round(Y * gen.pick(rng, 10, 1000)).astype(gen.pick(rng, int, "int32"))
    elif u < 0.65:
        Y = Y * gen.pick(rng, 1e-6, 1e6) + gen.pick(rng, 0, 0, 1e4)
    return Y, w


@workload("C23", 30, 500)
@styled
def heatmap(ctx):
    rng = ctx.rng
    Y, w = clustered(rng, int(rng.integers(4, 9)))
    r = ctx.call("Rose", Rose, Y, w, k=int(gen.pick(rng, 4, 5, 8)))
    p = float(gen.pick(rng, 0.05, 0.01, 0.2, 0.5, 1.1))
    ctx.case(Y, w, p)
    before = world(r)
    given = target(ctx)
    kw = {"ax": given} if given is not None else {}
    if p != 0.05 or rng.random() < 0.5:
        kw["p"] = p
    if given is None:
        plt.figure()
    names = None
    for opt in ("cmap", "annot", "mask", "cbar", "alpha", "names"):
        if rng.random() > 0.2:
            continue
        ctx.tag("heatmap option")
        if opt == "names":
            names = ["none", "high", "low-high", "low", "high-low"]
            kw.update(xticklabels=list(names), yticklabels=list(names))
        else:
            kw[opt] = {"cmap": "Reds", "annot": False, "mask": np.zeros((5, 5), bool),
                       "cbar": True, "alpha": 0.375}[opt]
    state = np.random.get_state()
    fig, ax = ctx.call("dynamic_lisa_heatmap", plotting.dynamic_lisa_heatmap, r, **kw)
    if given is not None:
        placed(ctx, fig, ax, given, "heatmap")
    untouched(ctx, r, before, "heatmap")
    check_heatmap(ctx, ax, morans(r, state), p, "mask" not in kw, "annot" not in kw, names)
    mesh = ax.collections[0]
    if "cmap" in kw:
        ctx.check(mesh.get_cmap().name == "Reds", "colour map asked for",
                  got=mesh.get_cmap().name)
    if "alpha" in kw:
        ctx.check(mesh.get_alpha() == 0.375, "drawing options are passed on",
                  got=mesh.get_alpha())
    ctx.check((mesh.colorbar is not None) == ("cbar" in kw), "colour bar on request")
    while rng.random() < 0.4:  # once more, from the random state reached by now
        plt.close("all")
        p = float(gen.pick(rng, 0.05, 0.01, 0.2, 0.5, p, p))
        if rng.random() < 0.3:
            np.random.seed(int(rng.integers(2**31)))
        plt.figure()
        state = np.random.get_state()
        before = world(r)
        fig, ax = ctx.call("dynamic_lisa_heatmap", plotting.dynamic_lisa_heatmap, r, p=p)
        untouched(ctx, r, before, "another heatmap")
        check_heatmap(ctx, ax, morans(r, state), p)
        ctx.tag("drawn again")


def squares(side):
    import geopandas as gpd
    from shapely.geometry import box

    return gpd.GeoDataFrame(
        {"id": range(side * side)},
        geometry=[box(c, -q, c + 1, 1 - q) for q in range(side) for c in range(side)],
    )


def check_composite(ctx, r, gdf, fig, axs, state, p):
    import geopandas  # noqa: F401

    ctx.check(len(axs) == 4 and all(a in fig.axes for a in axs), "four panels")
    ms = morans(r, state)
    check_heatmap(ctx, axs[0], ms, p)
    for ax, m, name in ((axs[1], ms[0], "Start time"), (axs[3], ms[1], "End time")):
        ctx.check(ax.get_title() == name, "map title", got=ax.get_title(), want=name)
        f2, a2 = plt.subplots()
        m.plot(gdf, crit_value=p, ax=a2)
        got = [c.get_facecolor() for c in ax.collections]
        want = [c.get_facecolor() for c in a2.collections]
        plt.close(f2)
        ctx.check(len(got) == len(want), "map layers", got=len(got), want=len(want))
        for g, v in zip(got, want):
            ctx.eq(f"map of {name}", np.asarray(g), np.asarray(v))
    pc = axs[2].collections[0]
    ctx.check(axs[2].name == "polar", "polar axes")
    ctx.eq("rose panel", np.asarray(pc.get_offsets()), np.column_stack([r.theta, r.r]))
    ctx.tag("composite")


@workload("C23", 8, 60)
@styled
def composite(ctx):
    rng = ctx.rng
    side = int(rng.integers(4, 7))
    Y, w = clustered(rng, side)
    r = ctx.call("Rose", Rose, Y, w, k=int(gen.pick(rng, 5, 8)))
    gdf = squares(side)
    p = float(gen.pick(rng, 0.05, 0.1, 0.3))
    ctx.case(Y, w, p)
    before = world(r)
    plt.close("all")
    state = np.random.get_state()
    kw, size = {"p": p}, (13, 10)
    if rng.random() < 0.5:
        kw["figsize"] = size = gen.pick(rng, (8, 6), (6.5, 9))
    if rng.random() < 0.4:
        del kw["p"]
        p = 0.05
    if rng.random() < 0.5:  # drawn before, from another random state
        ctx.call("dynamic_lisa_composite", plotting.dynamic_lisa_composite, r, gdf)
        plt.close("all")
        state = np.random.get_state()
        before = world(r)
    fig, axs = ctx.call("dynamic_lisa_composite", plotting.dynamic_lisa_composite, r,
                        gdf, **kw)
    untouched(ctx, r, before, "composite")
    ctx.eq("size of the figure", fig.get_size_inches(), size)
    check_composite(ctx, r, gdf, fig, axs, state, p)


@workload("C23", 4, 30)
@styled
def explore(ctx):
    """The interactive view, with a stand-in for the widget toolkit."""
    rng = ctx.rng
    side = int(rng.integers(4, 6))
    Y, w = clustered(rng, side)
    r = ctx.call("Rose", Rose, Y, w, k=5)
    gdf = squares(side)
    end = gen.pick(rng, "rel", "_rel", "l", "pcr")
    names = [f"1990_{end}", f"2000{end}", f"{end}{end}"]
    for nm in [*names, f"{end}_1990", f"a{end}b", end[:-1] + "?", end.upper() + "."]:
        gdf[nm] = clustered(rng, side)[0][:, 0]
    p, size = gen.pick(rng, 0.05, 0.1, 0.3), gen.pick(rng, (13, 10), (7, 6.5))
    opts = {**({} if p == 0.05 else {"p": p}),
            **({} if size == (13, 10) else {"figsize": size})}
    ctx.case(Y, w, end, opts)
    seen = {}

    def interact(fn, **kw):
        seen["fn"], seen["kw"] = fn, kw

    fake = types.ModuleType("ipywidgets")
    fake.fixed = lambda v: ("fixed", v)
    fake.interact = interact
    old = sys.modules.get("ipywidgets")
    sys.modules["ipywidgets"] = fake
    try:
        ctx.call("dynamic_lisa_composite_explore",
                 plotting.dynamic_lisa_composite_explore, r, gdf, pattern=end, **opts)
    finally:
        if old is None:
            del sys.modules["ipywidgets"]
        else:
            sys.modules["ipywidgets"] = old
    ctx.check("fn" in seen, "a view is opened")
    kw = dict(seen["kw"])
    for t in ("start_time", "end_time"):
        ctx.check(sorted(kw[t]) == sorted(names) and list(kw[t].values()) == list(kw[t]),
                  "selectable periods are the matching columns", got=kw[t])
    a, b = (names[int(i)] for i in rng.choice(3, 2, replace=False))
    args = {k: (v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "fixed" else v)
            for k, v in kw.items()}
    args["start_time"], args["end_time"] = kw["start_time"][a], kw["end_time"][b]
    before = world(r)
    plt.close("all")
    state = np.random.get_state()
    ctx.call("widget update", seen["fn"], **args)
    fig = plt.gcf()
    r2 = Rose(gdf[[a, b]].values, r.w, k=5)
    axs = [x for x in fig.axes]
    ctx.eq("size of the figure", fig.get_size_inches(), size)
    check_composite(ctx, r2, gdf, fig, axs[:4], state, p)
    untouched(ctx, r, before, "interactive view")
    ctx.tag("explore")
