"""C13-C16, C30: LISA chains, spillover, rank chains, connected components."""

import math

import numpy as np
from scipy import stats

import giddy.components as gc
import giddy.markov as gm

from . import gen, ref
from .core import PROPS, Skip, WSnap, monitor, prop, workload

# ------------------------------------------------------------------- C13

prop(
    "C13",
    "seeded panels and weights (n<=30, t<=8; ring, star, lattice, random, block and "
    "directed nearest-neighbour graphs; binary and standardised weights; both quadrant "
    "schemes; several significance levels) and real state incomes; non-trivial: n>=4, "
    "t>=2",
    floors={"quadrant": 4000, "geoda": 60, "pysal": 60, "inference": 40,
            "significant": 100, "mixed significance": 50, "p compared": 400, "real": 2,
            "no inference": 60, "many units": 10, "general weights": 400,
            "many periods": 20, "level attained": 90},
    assumptions=["no cross section is constant", "every unit has a neighbour other "
                 "than itself and is not its own neighbour"],
)


@monitor("C13", "LISA_Markov")
def quadrants_and_moves(ctx, ev):
    m, a = ev.result, ev.a
    y = np.asarray(a["y"], dtype=float)
    n, t = y.shape
    rs = a["w"].rowstd()
    q = np.asarray(m.q)
    ctx.check(q.shape == (n, t), "shape of quadrants", got=q.shape)
    ctx.check(np.isin(q, [1, 2, 3, 4]).all(), "quadrant codes", got=q)
    for s in range(t):
        want = ref.quadrants(y[:, s].tolist(), rs, a["geoda_quads"])
        for i in range(n):
            if want[i] is not None:
                ctx.check(int(q[i, s]) == want[i], "quadrant", unit=i, period=s,
                          got=q[i, s], want=want[i])
                ctx.tag("quadrant")
    T = np.array(ref.counts(q.tolist(), [1, 2, 3, 4]))
    ctx.exact("transitions between quadrants", m.transitions, T)
    ctx.eq("transition probabilities", m.p, ref.fnum(ref.probs(T.tolist())),
           rtol=1e-11, atol=1e-13)
    ctx.exact("classes", np.asarray(m.classes).ravel(), [1, 2, 3, 4])
    mv = 4 * (q[:, :-1] - 1) + q[:, 1:]
    ctx.exact("move types", m.move_types, mv)
    ctx.tag("geoda" if a["geoda_quads"] else "pysal")
    if not a["permutations"]:
        ctx.check(not hasattr(m, "p_values") and not hasattr(m, "significant_moves"),
                  "significance reported without permutations")
        ctx.tag("no inference")
        return
    p = np.asarray(m.p_values, dtype=float)
    ctx.check(p.shape == (n, t), "shape of p-values", got=p.shape)
    ctx.check(((p >= 0) & (p <= 1) | np.isnan(p)).all(), "p-values in [0, 1]", got=p)
    sig = p <= a["significance_level"]
    code = np.array([[3, 2], [1, 0]])  # [significant before][significant after]
    want = 16 * code[sig[:, :-1].astype(int), sig[:, 1:].astype(int)] + mv
    ctx.exact("significant moves", m.significant_moves, want)
    ctx.tag("inference")
    ctx.tags["significant"] += int(sig.sum())
    ctx.tags["mixed significance"] += int((sig[:, 1:] != sig[:, :-1]).sum())
    if a["permutations"] < 400 or n < 8:
        return
    # the simulated pseudo z against its exact conditional moments
    for s in range(t):
        z = y[:, s] - y[:, s].mean()
        for i in range(n):
            w = np.array(rs.wt[i])
            o = np.delete(z, i)
            W, W2 = w.sum(), (w**2).sum()
            v = o.var() * (W2 - W * W / (n - 1)) * (n - 1) / (n - 2)
            if v <= 1e-9 * (z**2).mean() or not np.isfinite(p[i, s]):
                continue
            zx = abs((w @ z[rs.nb[i]] - W * o.mean()) / math.sqrt(v))
            zs = stats.norm.isf(min(max(p[i, s], 1e-300), 0.5))
            # six standard errors of the simulated mean and standard deviation
            u = (o - o.mean()) / o.std()
            d = W2**2 / (w**4).sum()
            kurt = 3 + max(0.0, (u**4).mean() - 3) / max(1.0, min(d, n - 1 - d))
            R = a["permutations"]
            e, f = 6 / math.sqrt(R), 6 * math.sqrt((kurt - 1) / (4 * R))
            if f > 0.6:
                continue
            ctx.check((zx - e) / (1 + f) - 0.05 < zs < (zx + e) / (1 - f) + 0.05,
                      "p-value of a local statistic", unit=i, period=s, z_exact=zx,
                      z_reported=zs)
            ctx.tag("p compared")


def knn(rng, n, d=3):
    """Directed nearest-neighbour weights of random points."""
    xy = rng.random((n, 2))
    D = ((xy[:, None] - xy) ** 2).sum(-1)
    np.fill_diagonal(D, np.inf)
    ix = np.argsort(D, axis=1)[:, : min(d, n - 1)]
    names = [f"k{i}" for i in range(n)] if rng.random() < 0.5 else list(range(n))
    return gen.make_w({names[i]: [names[j] for j in ix[i]] for i in range(n)},
                      None, names)


def lisa_case(ctx, n=None, t=None, directed=True):
    rng = ctx.rng
    if n is None and t is None and rng.random() < 0.015:
        n, t = int(rng.integers(4, 9)), int(rng.integers(60, 140))
        ctx.tag("many periods")
    if n is None and rng.random() < 0.02:
        n = int(rng.integers(25, 110))
        ctx.tag("many units")
    n = n or int(rng.integers(4, 25))
    t = t or int(rng.integers(2, 7))
    if directed and rng.random() < 0.2:
        w = knn(rng, n)
    else:
        g = rng.random() < 0.35
        w, _, _ = gen.weights(rng, n, transform=None if g else gen.pick(
            rng, "r", "b", "b"), general=g)
        if g:
            ctx.tag("general weights")
            if directed and rng.random() < 0.4:
                w = gen.lopsided(rng, w, lone=False, own=False)
    kind = gen.pick(rng, "uniform", "normal", "walk", "lognormal", "int", "scaled",
                    "clustered", "clustered")
    if kind == "clustered":  # smooth over the graph: significant quadrants
        y = rng.normal(size=(n, t)) + 2 * rng.normal(size=(n, 1))
        ws = WSnap(w).rowstd()
        for _ in range(3):
            y = 0.4 * y + 0.6 * ws.lag(y)
        y = y + 20 if rng.random() < 0.6 else y
    else:
        y, _ = gen.panel(rng, n, t, kind)
    if rng.random() < 0.05:  # far from zero, a little apart
        y = np.round(64 * y / max(np.abs(y).max(), 1e-9)) + 2.0 ** int(rng.integers(24, 33))
        ctx.tag("far from zero")
    for s in range(t):
        if len(np.unique(y[:, s])) < 2:
            y[0, s] = y[0, s] + 1
    return y, w


@workload("C13", 700, 20000)
def lisa_chains(ctx):
    rng = ctx.rng
    y, w = lisa_case(ctx)
    kw = {"geoda_quads": bool(rng.integers(2))}
    ctx.case(y, w, *kw.values())
    ctx.call("LISA_Markov", gm.LISA_Markov, gen.layout(rng, y), w, **kw)


@workload("C13", 160, 5000)
def lisa_chains_with_inference(ctx):
    rng = ctx.rng
    y, w = lisa_case(ctx)
    kw = {"geoda_quads": bool(rng.integers(2)),
          "permutations": gen.pick(rng, 19, 99, 499, 499),
          "significance_level": gen.pick(rng, 0.05, 0.01, 0.2, 0.4, 0.05, 0, 1)}
    if rng.random() < 0.3:
        kw.pop("significance_level")
    ctx.case(y, w, *kw.values())
    ctx.call("LISA_Markov", gm.LISA_Markov, y, w, **kw)


@workload("C13", 30, 900)
def level_attained(ctx):
    """A p-value that equals the level is significant."""
    rng = ctx.rng
    y, w = lisa_case(ctx)
    kw = {"geoda_quads": bool(rng.integers(2)), "permutations": 99}
    s = int(rng.integers(2**31))
    ctx.case(y, w, *kw.values())
    np.random.seed(s)
    p = np.asarray(ctx.call("LISA_Markov", gm.LISA_Markov, y, w, **kw).p_values)
    p = p[np.isfinite(p)]
    if not len(p):
        raise Skip
    v = float(rng.choice(p))
    np.random.seed(s)
    m = ctx.call("LISA_Markov", gm.LISA_Markov, y, w, significance_level=v, **kw)
    if (np.asarray(m.p_values) == v).any():
        ctx.tag("level attained")


@workload("C13", 3, 80)
def lisa_of_many_units(ctx):
    rng = ctx.rng
    y, w = lisa_case(ctx, int(gen.pick(rng, 60, 130, 260)), int(rng.integers(2, 30)))
    kw = {"geoda_quads": bool(rng.integers(2))}
    if rng.random() < 0.5:
        kw["permutations"] = 99
        y = y[:, :5]
    ctx.case(y, w, *kw.values())
    ctx.tag("many units")
    ctx.call("LISA_Markov", gm.LISA_Markov, y, w, **kw)


@workload("C13", 3, 40)
def lisa_of_states(ctx):
    rng = ctx.rng
    y, w = gen.real("us")
    a = int(rng.integers(0, 70))
    y = y[:, a : a + int(rng.integers(3, 9))]
    ctx.case(y)
    ctx.tag("real")
    ctx.call("LISA_Markov", gm.LISA_Markov, y, w, geoda_quads=bool(rng.integers(2)))
    ctx.call("LISA_Markov", gm.LISA_Markov, y[:, :3], w, permutations=499)


# ------------------------------------------------------------------- C14

prop(
    "C14",
    "as C13, positive and signed panels, plus panels under which the two quadrant "
    "schemes are compared; non-trivial: at least one move out of a quadrant",
    floors={"expected": 200, "schemes": 60, "chi2": 100},
    assumptions=["no value equals the mean it is compared with up to rounding"],
)


def chains_by_definition(y, rs):
    """Own and lag high/low sequences of every unit over time."""
    mu = y.mean(axis=0)
    ly = rs.lag(y)
    near = (np.abs(y - mu) < 1e-9 * (np.abs(y) + np.abs(mu))).any() or (
        np.abs(ly - mu) < 1e-9 * (np.abs(ly) + np.abs(mu))).any()
    return (y >= mu).astype(int), (ly >= mu).astype(int), bool(near)


def chains_axes_swapped(y, rs):
    """The recorded defect: means over time, sequences across adjacent units."""
    mu = y.mean(axis=1)
    with np.errstate(all="ignore"):
        r, rl = y / mu[:, None], rs.lag(y) / mu[:, None]
    near = not np.isfinite(r).all() or (np.abs(r - 1) < 1e-9).any() or (
        np.abs(rl - 1) < 1e-9).any()
    return (~(r < 1)).astype(int).T, (~(rl < 1)).astype(int).T, bool(near)


@monitor("C14", "LISA_Markov")
def expected_transitions(ctx, ev):
    m, a = ev.result, ev.a
    y = np.asarray(a["y"], dtype=float)
    rs = a["w"].rowstd()
    T = np.asarray(m.transitions)
    E = np.asarray(m.expected_t, dtype=float)
    ctx.check(E.shape == (4, 4), "shape of expected transitions", got=E.shape)
    g = a["geoda_quads"]
    verdict = []
    for seqs in (chains_by_definition, chains_axes_swapped):
        own, lag, near = seqs(y, rs)
        X = ref.lisa_expected(T.tolist(), ref.two_state(own.tolist()),
                              ref.two_state(lag.tolist()), g)
        verdict.append((near, bool(np.allclose(E, X, rtol=1e-9, atol=1e-9)), X))
    if not verdict[0][0] and not verdict[1][0]:
        ctx.tag("expected")
        if verdict[0][1]:
            pass
        elif verdict[1][1]:
            if not ctx.finding("lisa-expected-axes"):
                ctx.check(False, "expected transitions use chains with swapped axes",
                          got=E, want=verdict[0][2])
        else:
            ctx.check(False, "expected transitions under independence", got=E,
                      want=verdict[0][2])
    if not ((E == 0) & (T > 0)).any():
        x, dof = ref.chi2_two(T.tolist(), E.tolist())
        got = m.chi_2
        ctx.check(len(got) == 3, "chi_2 has three values")
        ctx.eq("chi_2 statistic", got[0], x, rtol=1e-8, atol=1e-9 * T.sum())
        ctx.check(got[2] == dof, "chi_2 degrees of freedom", got=got[2], want=dof)
        if dof > 0:
            ctx.eq("chi_2 p-value", got[1], ref.chi2_sf(x, dof), rtol=1e-6, atol=1e-7)
        ctx.tag("chi2")


@workload("C14", 900, 30000)
def independence_of_moves(ctx):
    rng = ctx.rng
    y, w = lisa_case(ctx)
    if rng.random() < 0.6:
        y = np.abs(y) + 0.5
    g = bool(rng.integers(2))
    ctx.case(y, w, g)
    ctx.call("LISA_Markov", gm.LISA_Markov, y, w, geoda_quads=g)


@workload("C14", 200, 6000)
def quadrant_schemes(ctx):
    """The GeoDa scheme only renames LL and LH."""
    rng = ctx.rng
    y, w = lisa_case(ctx)
    ctx.case(y, w)
    a = ctx.call("LISA_Markov", gm.LISA_Markov, y, w)
    b = ctx.call("LISA_Markov", gm.LISA_Markov, y, w, geoda_quads=True)
    ren = np.array([0, 1, 3, 2, 4])  # LH and LL change places
    ctx.exact("quadrants", b.q, ren[np.asarray(a.q)])
    s = [0, 2, 1, 3]
    ctx.exact("transitions", np.asarray(b.transitions)[s][:, s], a.transitions)
    ctx.eq("probabilities", np.asarray(b.p)[s][:, s], a.p)
    ctx.eq("expected transitions", np.asarray(b.expected_t)[s][:, s], a.expected_t)
    ctx.eq("chi_2", np.asarray(b.chi_2, float)[:2], np.asarray(a.chi_2, float)[:2],
           rtol=1e-8, atol=1e-8)
    ctx.tag("schemes")


# ------------------------------------------------------------------- C15

prop(
    "C15",
    "seeded panels on ring, star, lattice, random, block and directed graphs with "
    "integer and string ids, several quadrants, significance levels and neighbour "
    "orders; non-trivial: some period has a significant core",
    floors={"spillover": 120, "cores": 200, "spilled": 40, "second order": 50,
            "several components": 30, "no inference": 10, "string ids": 20,
            "many clusters": 3, "growing cluster": 4},
    assumptions=["every unit has a neighbour"],
)


def clusters(ws, core, second):
    """Components of the cores with their (second order) neighbours, positions."""
    nodes, edges = set(), []
    for i in core:
        for j in ws.nb[i]:
            nodes |= {i, j}
            edges.append((i, j))
            if second:
                for h in ws.nb[j]:
                    nodes |= {j, h}
                    edges.append((j, h))
    return ref.components(nodes, edges)


def check_spillover(ctx, m, ws, quadrant, second, res):
    q, p = np.asarray(m.q), np.asarray(m.p_values)
    n, t = q.shape
    core = (q == quadrant) & (p <= m.significance_level)
    comps = [clusters(ws, np.flatnonzero(core[:, s]).tolist(), second) for s in range(t)]
    C = np.asarray(res["components"])
    S = np.asarray(res["spill_over"])
    ctx.check(C.shape == (n, t) and S.shape == (n, t - 1), "shapes of the results",
              components=C.shape, spill=S.shape)
    for s in range(t):
        got = {}
        for i in range(n):
            if C[i, s]:
                got.setdefault(float(C[i, s]), set()).add(i)
        ctx.check(set(map(frozenset, got.values())) == set(comps[s]),
                  "clusters of a period", period=s, got=got, want=comps[s])
        ctx.check(sorted(got) == list(range(1, len(comps[s]) + 1)),
                  "cluster numbers", got=sorted(got))
        if len(comps[s]) > 1:
            ctx.tag("several components")
    want = np.zeros((n, t - 1))
    for s in range(t - 1):
        before = set().union(*comps[s]) if comps[s] else set()
        for c in comps[s + 1]:
            if c & before:
                for i in c - before:
                    want[i, s] = 1
    ctx.exact("spillover", S, want)
    ctx.tags["cores"] += int(core.any(axis=0).sum())
    ctx.tag("spillover", "spilled" if want.any() else None,
            "second order" if second else None)
    return bool(core.any())


@workload("C15", 260, 8000)
def spillovers(ctx):
    rng = ctx.rng
    big = rng.random() < 0.02
    y, w = lisa_case(ctx, n=int(gen.pick(rng, 100, 150) if big else rng.integers(6, 37)),
                     t=int(rng.integers(2, 7)))
    kw = {"permutations": gen.pick(rng, 19, 49, 99),
          "significance_level": gen.pick(rng, 0.05, 0.15, 0.3),
          "geoda_quads": bool(rng.random() < 0.3)}
    if isinstance(w.id_order[0], str):
        ctx.tag("string ids")
    ws = WSnap(w)
    m = ctx.call("LISA_Markov", gm.LISA_Markov, y, w, **kw)
    some = False
    for quad, second in ((int(rng.integers(1, 5)), False), (int(rng.integers(1, 5)), True),
                         (1, bool(rng.integers(2)))):
        sk = {"quadrant": quad, "neighbors_on": second}
        if sk == {"quadrant": 1, "neighbors_on": False} and rng.random() < 0.5:
            sk = {}
        r = ctx.call("LISA_Markov.spillover", m.spillover, **sk)
        some |= check_spillover(ctx, m, ws, quad, second, r)
    ctx.case(y, w, *kw.values(), nontrivial=some)


@workload("C15", 1, 12)
def very_many_clusters(ctx):
    """Small islands, each of them a cluster of its own."""
    rng = ctx.rng
    n = int(rng.integers(140, 200) if ctx.idx % 3 else rng.integers(290, 340)) * 2
    q = rng.permutation(n).reshape(-1, 2).tolist()
    w = gen.make_w({i: [j] for a, b in q for i, j in ((a, b), (b, a))}, None,
                   list(range(n)))
    y = rng.normal(size=(n, 3))
    for a, b in q:  # nearly all pairs are high-high (or, mirrored, low-low)
        y[a] = np.where(rng.random(3) < 0.08, -9, 1) + 0.1 * rng.random(3)
        y[b] = np.where(rng.random(3) < 0.95, y[a] + 0.01 * rng.random(3), -9)
    y = y * gen.pick(rng, 1, -1)
    ctx.case(y, w)
    ws = WSnap(w)
    m = ctx.call("LISA_Markov", gm.LISA_Markov, y, w, permutations=19,
                 significance_level=1.0)
    for quad in (1, 3):
        r = ctx.call("LISA_Markov.spillover", m.spillover, quadrant=quad)
        check_spillover(ctx, m, ws, quad, False, r)
        ctx.tag("many clusters" if np.ptp(r["components"]) > 127 else None)


@workload("C15", 8, 150)
def growing_clusters(ctx):
    """One cluster that is small first and covers much of the map later."""
    rng = ctx.rng
    side = int(rng.integers(11, 31))
    w = gen.copy_w(gen.lat2W(side, side, rook=bool(rng.integers(2))))
    i, j = np.divmod(np.arange(side * side), side)
    a, b = rng.random(2) * side
    far = np.maximum(abs(i - a), abs(j - b))
    size = np.array([1.6, side * 0.3, side * 0.4, 2.1])[: int(rng.integers(2, 5))]
    y = (far[:, None] < size) + 0.05 * rng.random((side * side, len(size)))
    y = y * gen.pick(rng, 1, -1)
    ctx.case(y, w)
    ws = WSnap(w)
    m = ctx.call("LISA_Markov", gm.LISA_Markov, y, w, permutations=19,
                 significance_level=gen.pick(rng, 0.3, 1.0))
    for quad in (1, 3):
        second = bool(rng.random() < 0.3)
        r = ctx.call("LISA_Markov.spillover", m.spillover, quadrant=quad,
                     neighbors_on=second)
        check_spillover(ctx, m, ws, quad, second, r)
        if r["spill_over"].sum() > 64:
            ctx.tag("growing cluster")


@workload("C15", 30, 500)
def no_inference_no_spillover(ctx):
    y, w = lisa_case(ctx)
    ctx.case(y, w, nontrivial=False)
    m = ctx.call("LISA_Markov", gm.LISA_Markov, y, w)
    ctx.check(ctx.call("LISA_Markov.spillover", m.spillover) is None,
              "spillover without permutations")
    ctx.tag("no inference")


@workload("C15", 4, 60)
def spillover_of_states(ctx):
    rng = ctx.rng
    y, w = gen.real("us")
    a = int(rng.integers(0, 74))
    y = y[:, a : a + 5]
    ctx.case(y)
    ws = WSnap(w)
    m = ctx.call("LISA_Markov", gm.LISA_Markov, y, w, permutations=99)
    for quad in (1, 3):
        for second in (False, True):
            r = ctx.call("LISA_Markov.spillover", m.spillover, quadrant=quad,
                         neighbors_on=second)
            check_spillover(ctx, m, ws, quad, second, r)


# ------------------------------------------------------------------- C16

prop(
    "C16",
    "seeded panels (n<=60, t<=30; ties, integers, lists, read-only and strided arrays) "
    "and real incomes; both rank chains, both policies for empty classes; "
    "non-trivial: n>=2, t>=2",
    floors={"ties": 60, "fill": 100, "exchange": 60, "list": 40, "real": 2,
            "extreme values": 60, "many units": 3},
)


def ordinal(col):
    """Ascending ordinal ranks, equal values in order of occurrence."""
    order = sorted(range(len(col)), key=lambda i: (col[i], i))
    r = [0] * len(col)
    for a, i in enumerate(order):
        r[i] = a + 1
    return r


def check_rank_chain(ctx, ev, rows, n, t):
    m = ev.result
    T = np.array(ref.counts(rows, list(range(1, n + 1))))
    ctx.exact("classes", np.asarray(m.classes).ravel(), np.arange(1, n + 1))
    ctx.exact("transitions", m.transitions, T)
    fill = ev.a["fill_empty_classes"]
    ctx.eq("probabilities", m.p, ref.fnum(ref.probs(T.tolist(), fill)), rtol=1e-11,
           atol=1e-13)
    if t > 1:
        ctx.check((np.asarray(m.transitions).sum(axis=0) == t - 1).all()
                  and (np.asarray(m.transitions).sum(axis=1) == t - 1).all(),
                  "every period moves every rank once", got=m.transitions)
    if ev.a["fill_empty_classes"]:
        ctx.tag("fill")


@monitor("C16", "FullRank_Markov")
def full_rank(ctx, ev):
    y = np.asarray(ev.a["y"]).tolist()
    n, t = len(y), len(y[0])
    asc = [ordinal([y[i][s] for i in range(n)]) for s in range(t)]
    ranks = [[n + 1 - asc[s][i] for s in range(t)] for i in range(n)]
    ctx.exact("ranks, the largest value first", ev.result.ranks, ranks)
    check_rank_chain(ctx, ev, ranks, n, t)


@monitor("C16", "GeoRank_Markov")
def geo_rank(ctx, ev):
    y = np.asarray(ev.a["y"]).tolist()
    n, t = len(y), len(y[0])
    asc = [ordinal([y[i][s] for i in range(n)]) for s in range(t)]
    holder = [[asc[s].index(r) + 1 for s in range(t)] for r in range(1, n + 1)]
    check_rank_chain(ctx, ev, holder, n, t)


@workload("C16", 700, 20000)
def rank_chains(ctx):
    rng = ctx.rng
    n = gen.pick(rng, 1, 2, 3, 5, 8, 14, 40)
    t = int(rng.integers(1, 30))
    if n < 9 and rng.random() < 0.03:
        t = int(rng.integers(100, 300))
        ctx.tag("many periods")
    y, kind = gen.panel(rng, n, t)
    if rng.random() < 0.15:
        y = (y - y.min() + 1).astype(gen.pick(rng, "float32", "uint8", "int16"))
    elif rng.random() < 0.25:
        y, _ = gen.extreme(rng, y)
        ctx.tag("extreme values")
    ctx.case(y, nontrivial=n > 1 and y.shape[1] > 1)
    if any(len(np.unique(c)) < n for c in y.T):
        ctx.tag("ties")
    kw = {"fill_empty_classes": bool(rng.integers(2)), "summary": bool(rng.integers(2))}
    for api, fn in (("FullRank_Markov", gm.FullRank_Markov),
                    ("GeoRank_Markov", gm.GeoRank_Markov)):
        a = y.tolist() if rng.random() < 0.2 else gen.layout(rng, y)
        if isinstance(a, list):
            ctx.tag("list")
        ctx.call(api, fn, a, **kw)


@workload("C16", 200, 6000)
def exchanging_ranks(ctx):
    """The full-rank chain depends on ranks alone; the two chains are conjugate."""
    rng = ctx.rng
    n, t = int(rng.integers(2, 10)), int(rng.integers(2, 12))
    y = np.argsort(rng.random((n, t)), axis=0).astype(float)
    ctx.case(y)
    a = ctx.call("FullRank_Markov", gm.FullRank_Markov, y, summary=False)
    b = ctx.call("FullRank_Markov", gm.FullRank_Markov, np.exp(y / 3) * 7, summary=False)
    ctx.exact("monotone transformation", b.transitions, a.transitions)
    q = rng.permutation(n)
    c = ctx.call("FullRank_Markov", gm.FullRank_Markov, y[q], summary=False)
    ctx.exact("units carry no order", c.transitions, a.transitions)
    d = ctx.call("FullRank_Markov", gm.FullRank_Markov, -y, summary=False)
    ctx.exact("reversed values reverse the ranks",
              np.asarray(d.transitions)[::-1, ::-1], a.transitions)
    g = ctx.call("GeoRank_Markov", gm.GeoRank_Markov, y, summary=False)
    h = ctx.call("GeoRank_Markov", gm.GeoRank_Markov, y[q], summary=False)
    ctx.exact("geographic ranks follow the units", h.transitions,
              np.asarray(g.transitions)[q][:, q])
    ctx.tag("exchange")


@workload("C16", 1, 12)
def rank_chains_of_many_units(ctx):
    rng = ctx.rng
    n = gen.pick(rng, 127, 128, 129, 200, 256, 257, 300)
    if ctx.idx % 6 == 0:
        n = int(rng.integers(2049, 2400))
    y, _ = gen.panel(rng, n, int(rng.integers(2, 6)))
    ctx.case(y)
    ctx.tag("many units")
    ctx.call("FullRank_Markov", gm.FullRank_Markov, y, summary=False)
    ctx.call("GeoRank_Markov", gm.GeoRank_Markov, y, summary=False)


@workload("C16", 3, 30)
def rank_chains_of_states(ctx):
    y, _w = gen.real("us")
    a = int(ctx.rng.integers(0, 60))
    ctx.case(y[:, a:])
    ctx.tag("real")
    ctx.call("FullRank_Markov", gm.FullRank_Markov, y[:, a:], summary=False)
    ctx.call("GeoRank_Markov", gm.GeoRank_Markov, y[:, a:], summary=False)


# ------------------------------------------------------------------- C30

prop(
    "C30",
    "seeded graphs (n<=20; paths, rings, stars, lattices, several components; integer "
    "and string ids), random subsets and leavers, weighted graphs with thresholds in "
    "either direction, and paths of thousands of nodes; non-trivial: at least two nodes",
    floors={"connected": 100, "disconnected": 100, "breaks": 30, "keeps": 30,
            "threshold": 100, "long": 2, "empty": 5, "cut by threshold": 40,
            "isolated": 60, "many units": 20, "hub": 6,
            "weights of zero": 60, "directed": 15, "growing": 100},
    assumptions=["neighbour relations are symmetric"],
)


def subset_components(w, ids):
    s = set(ids)
    return ref.components(s, [(i, j) for i in s for j in w.neighbors[i] if j in s])


@workload("C30", 900, 30000)
def subsets_of_units(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 21))
    if rng.random() < 0.02:
        n = int(gen.pick(rng, 100, 144, 400))
        ctx.tag("many units")
    w, _, _ = gen.weights(rng, n, gen.pick(rng, "lattice", "random", "two")
                          if n > 99 else None)
    ids = list(w.id_order)
    if rng.random() < 0.2:  # isolated units, units that neighbour themselves
        lone = {i for i in ids if rng.random() < 0.2}
        nb = {i: [] if i in lone else [j for j in w.neighbors[i] if j not in lone]
              + ([i] if rng.random() < 0.1 else []) for i in ids}
        if any(nb.values()):
            w = gen.make_w(nb, None, ids)
            ctx.tag("isolated" if lone else None)
    if rng.random() < 0.15:  # neighbours of any weight are neighbours
        wt = {i: [float(gen.pick(rng, 0, 0, -1, 2.5, 1e-9)) for _ in w.neighbors[i]]
              for i in ids}
        w = gen.make_w({i: list(w.neighbors[i]) for i in ids}, wt, ids)
        ctx.tag("weights of zero")
    few = int(rng.integers(0, n + 1)) if rng.random() < 0.7 else max(1, n - 2)
    sub = [ids[i] for i in rng.permutation(n)[:few]]
    ctx.case(w, sub, nontrivial=len(sub) > 1)
    want = len(subset_components(w, sub)) <= 1
    ctx.check(bool(ctx.call("is_component", gc.is_component, w, sub)) == want,
              "one connected component", ids=sub, neighbors=dict(w.neighbors))
    ctx.tag("connected" if want else "disconnected", None if sub else "empty")
    if not sub:
        return
    leaver = sub[int(rng.integers(len(sub)))]
    rest = [i for i in sub if i != leaver]
    want = len(subset_components(w, rest)) <= 1
    ev = ctx.event("check_contiguity", gc.check_contiguity, w, sub, leaver)
    ctx.check(bool(ev.result) == want, "contiguity without the leaver", ids=sub,
              leaver=leaver, neighbors=dict(w.neighbors))
    ctx.check(ev.a["neighbors"] == ev.post["neighbors"], "the list of units changed")
    ctx.tag("keeps" if want else "breaks")


@workload("C30", 600, 20000)
def weighted_graphs(ctx):
    import operator

    rng = ctx.rng
    n = int(rng.integers(2, 15))
    names = gen.pick(rng, [f"v{i}" for i in range(n)], list(range(n)), list(range(n)),
                     [(i % 3, i) for i in range(n)], [i - n // 2 for i in range(n)],
                     ["x" * i for i in range(n)])
    g = gc.Graph(undirected=True)
    edges = {}
    th = gen.pick(rng, float(rng.integers(1, 8)) / 4, 0.9, 0.0, -1.5)
    whole = rng.random() < 0.1  # whole numbers a float cannot tell apart
    if whole:
        th = 2**60
    for _ in range(int(rng.integers(1, 2 * n))):
        i, j = (int(v) for v in rng.integers(0, n, 2))
        x = gen.pick(rng, float(rng.integers(1, 8)) / 4, th, float(np.nextafter(th, 9)),
                     float(np.nextafter(th, -9)), float(rng.normal() * 3))
        if whole:
            x = th + int(rng.integers(-2, 3))
        ctx.call("Graph.add_edge", g.add_edge, names[i], names[j], x)
        edges[frozenset((i, j))] = (i, j, x)
    op = gen.pick(rng, operator.lt, operator.gt, operator.le, operator.ge)
    ctx.case(sorted((i, j, x) for i, j, x in edges.values()), th, op)
    kw = {"threshold": th, "op": op}
    if rng.random() < 0.2:
        kw, th, op = {}, 0.9, operator.lt
    got = ctx.call("Graph.connected_components", g.connected_components, **kw)
    keep = [(names[i], names[j]) for i, j, x in edges.values() if op(x, th)]
    nodes = {names[v] for e in edges for v in e}
    want = set(ref.components(nodes, keep))
    sets = [frozenset(c.nodes) for c in got]
    ctx.check(len(sets) == len(set(sets)) and set(sets) == want, "components",
              got=sets, want=want)
    ctx.tag("threshold")
    if len(keep) < len(edges):
        ctx.tag("cut by threshold")
    again = ctx.call("Graph.connected_components", g.connected_components, **kw)
    ctx.check({frozenset(c.nodes) for c in again} == want, "components asked again")
    if rng.random() < 0.05:
        g = gc.Graph(undirected=False)
        for i, j, x in edges.values():
            g.add_edge(names[i], names[j], x)
        ev = ctx.event("Graph.connected_components", g.connected_components)
        ctx.check(ev.result is None and ev.out.strip(), "a directed graph is turned away "
                  "with a warning", got=ev.result, out=ev.out)
        ctx.tag("directed")


@workload("C30", 250, 8000)
def growing_graphs(ctx):
    """One graph, asked again and again while edges arrive and change weight."""
    import operator

    rng = ctx.rng
    n = int(rng.integers(3, 20))
    g, edges, asked = gc.Graph(), {}, 0
    every = [(i, j) for i in range(n) for j in range(i)]
    for _ in range(int(rng.integers(3, 12))):
        for _ in range(int(rng.integers(0, 4))):
            if edges and rng.random() < 0.4:  # an edge that is known, either way round
                i, j = list(edges)[int(rng.integers(len(edges)))]
            else:
                i, j = every[int(rng.integers(len(every)))]
            x = float(rng.integers(0, 9)) / 4
            a, b = (i, j) if rng.random() < 0.5 else (j, i)
            ctx.call("Graph.add_edge", g.add_edge, a, b, x)
            edges[i, j] = x
        th = float(rng.integers(0, 9)) / 4
        op = gen.pick(rng, operator.lt, operator.gt, operator.le, operator.ge,
                      operator.eq, operator.ne)
        got = ctx.call("Graph.connected_components", g.connected_components, th, op)
        keep = [e for e, x in edges.items() if op(x, th)]
        want = set(ref.components({v for e in edges for v in e}, keep))
        sets = [frozenset(c.nodes) for c in got]
        ctx.check(len(sets) == len(set(sets)) and set(sets) == want,
                  "components of a graph that grows", got=sets, want=want,
                  edges=edges, threshold=th, op=op.__name__)
        for c in got:  # a component carries the edges among its own nodes
            ctx.check({(a, b): x for a, d in c.edges.items() for b, x in d.items()}
                      == {(a, b): x for e, x in edges.items()
                          for a, b in (e, e[::-1]) if a in c.nodes and b in c.nodes},
                      "edges of a component", got=c.edges)
        if got and rng.random() < 0.3:  # a component is a graph of its own
            c = got[int(rng.integers(len(got)))]
            own = list(c.nodes)
            inner = [e for e in keep if e[0] in c.nodes]
            got = ctx.call("Graph.connected_components", c.connected_components, th, op)
            ctx.check({frozenset(x.nodes) for x in got}
                      == set(ref.components(set(own), inner)), "components of a component")
            c.add_edge(own[0], "new", 1.0)
        asked += bool(edges)
    ctx.case(n, sorted(edges.items()), asked)
    ctx.tag("growing" if asked > 2 else None)


@workload("C30", 3, 40)
def crowded_hubs(ctx):
    """Units with a great many neighbours, with and without a bridge."""
    import operator

    rng = ctx.rng
    m = int(rng.integers(300, 1300))
    q = rng.permutation(2 * m + 2).tolist()  # two hubs and their m leaves each
    hub, leaf = q[:2], (q[2 : m + 2], q[m + 2 :])
    nb = {i: [] for i in q}
    for h, ls in zip(hub, leaf):
        for j in ls:
            nb[h].append(j)
            nb[j].append(h)
    bridge = bool(rng.integers(2))
    if bridge:
        i, j = (ls[int(rng.integers(m))] for ls in leaf)
        nb[i].append(j)
        nb[j].append(i)
    ctx.case(q, bridge)
    w = gen.make_w(nb, None, sorted(nb))
    ids = [int(v) for v in rng.permutation(q)]
    ctx.check(bool(ctx.call("is_component", gc.is_component, w, ids)) == bridge,
              "two hubs are connected exactly by a bridge", bridge=bridge, leaves=m)
    ctx.check(not ctx.call("check_contiguity", gc.check_contiguity, w, ids, hub[0]),
              "leaves come apart without their hub")
    one = [hub[0], *leaf[0]]
    ctx.check(bool(ctx.call("check_contiguity", gc.check_contiguity, w, one, leaf[0][-1])),
              "a hub and its leaves hang together without one leaf")
    g = gc.Graph()
    for i in ids:
        for j in nb[i]:
            g.add_edge(i, j, 1.0)
    got = ctx.call("Graph.connected_components", g.connected_components, 0.5, operator.gt)
    ctx.check(sorted(len(c.nodes) for c in got)
              == ([2 * m + 2] if bridge else [m + 1] * 2), "components of two hubs")
    ctx.tag("hub")


@workload("C30", 4, 40)
def long_paths(ctx):
    rng = ctx.rng
    n = int(rng.integers(2000, 6000))
    cut = int(rng.integers(1, n - 1))
    g = gc.Graph()
    for i in range(n - 1):
        if i != cut:
            g.add_edge(i, i + 1, 1.0)
    ctx.case(n, cut)
    import operator

    got = ctx.call("Graph.connected_components", g.connected_components, 0.5, operator.gt)
    ctx.check(sorted(len(c.nodes) for c in got)
              == sorted(x for x in (cut + 1, n - cut - 1) if x > 1), "long components")
    m = 700
    w = gen.make_w({i: [j for j in (i - 1, i + 1) if 0 <= j < m] for i in range(m)},
                   None, list(range(m)))
    ctx.check(bool(ctx.call("is_component", gc.is_component, w, list(range(m)))),
              "a long path is connected")
    ctx.check(not ctx.call("check_contiguity", gc.check_contiguity, w, list(range(m)),
                           m // 2), "a long path breaks")
    ctx.tag("long")


for _p in ("C13", "C15"):
    PROPS[_p].warm = gen.warm_lisa
