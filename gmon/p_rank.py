"""C17-C20: rank concordance measures and their permutation inference."""

import itertools
import math

import numpy as np
import pandas as pd
from scipy import stats

import giddy.rank as gr

from . import gen, ref
from .core import PROPS, WSnap, monitor, prop, workload
from .p_spatial import against_null, alike, by_position, no_odd_draw

# ------------------------------------------------------------------- C17

prop(
    "C17",
    "seeded pairs of sequences (n<=400; ties in either or both, integers, unsigned, "
    "floats, lists, strided and read-only arrays; sorted, reversed, sawtooth); "
    "non-trivial: neither sequence constant",
    floors={"ties in x": 100, "ties in y": 100, "joint ties": 60, "no ties": 60,
            "list": 60, "large": 3, "huge": 3, "sorted": 6, "unsigned": 20, "beyond single precision": 100},
    assumptions=["neither sequence is constant", "no missing values"],
)


@monitor("C17", "Tau")
def tau_definition(ctx, ev):
    x, y = np.asarray(ev.a["x"]).tolist(), np.asarray(ev.a["y"]).tolist()
    m, n = ev.result, len(x)
    C, D, tx, ty = ref.tau_counts(x, y)
    ctx.check((m.concordant, m.discordant) == (C, D), "concordant and discordant pairs",
              got=(m.concordant, m.discordant), want=(C, D))
    # pairs tied in y only, pairs tied in x only
    ctx.check((m.extraX, m.extraY) == (ty, tx), "pairs tied in one sequence only",
              got=(m.extraX, m.extraY), want=(ty, tx))
    tau = (C - D) / math.sqrt((C + D + tx) * (C + D + ty))
    ctx.eq("tau", m.tau, tau, rtol=1e-11, atol=1e-13)
    ctx.eq("asymptotic p-value", m.tau_p, ref.tau_p(tau, n), rtol=2e-4, atol=1e-300)
    ctx.tag("ties in x" if len(set(x)) < n else None,
            "ties in y" if len(set(y)) < n else None,
            "joint ties" if len(set(zip(x, y))) < n else None,
            "no ties" if len(set(x)) == n == len(set(y)) else None)


def pair(rng, n, kind=None):
    """Two sequences of length n, neither constant."""
    while True:
        kind = kind or gen.pick(rng, "real", "real", "fewx", "fewy", "few", "corr",
                                "sorted", "reversed", "saw", "binary")
        x, y = rng.normal(size=n), rng.normal(size=n)
        if kind == "fewx":
            x = rng.integers(0, 4, n)
        elif kind == "fewy":
            y = rng.integers(0, 4, n)
        elif kind == "few":
            x, y = rng.integers(0, 4, n), rng.integers(0, 4, n)
        elif kind == "corr":
            y = x + 0.3 * y
        elif kind == "sorted":
            x = np.arange(n)
        elif kind == "reversed":
            x, y = np.arange(n), -np.arange(n) // 2
        elif kind == "anti":
            y = 0.5 * y - x
        elif kind == "saw":
            x, y = np.arange(n) % 5, (np.arange(n) * 7) % 11
        elif kind == "binary":
            x, y = rng.integers(0, 2, n), rng.integers(0, 2, n)
        if len(np.unique(x)) > 1 and len(np.unique(y)) > 1:
            return x, y
        kind = "real"


def typed(rng, x):
    """The same ordering in another dtype, range or container."""
    x = np.asarray(x)
    if rng.random() < 0.25:
        return gen.layout(rng, gen.extreme(rng, x)[0])
    if x.dtype.kind in "iu":
        x = x - x.min()
        if x.max() < 120:
            x = x.astype(gen.pick(rng, "int64", "uint8", "int8", "uint16", "float64",
                                  "int32"))
    return gen.layout(rng, x)


@workload("C17", 1500, 50000)
def kendall(ctx):
    rng = ctx.rng
    n = int(gen.pick(rng, 2, 3, 5, 10, 25, 50))
    x, y = pair(rng, n)
    x, y = typed(rng, x), typed(rng, y)
    if x.dtype.kind == "u" or y.dtype.kind == "u":
        ctx.tag("unsigned")
    with np.errstate(over="ignore"):
        if any(len(np.unique(v.astype("f4"))) < len(np.unique(v)) for v in (x, y)):
            ctx.tag("beyond single precision")
    ctx.case(x, y)
    a, b = (x.tolist(), y.tolist()) if rng.random() < 0.3 else (x, y)
    if isinstance(a, list):
        ctx.tag("list")
    m = ctx.call("Tau", gr.Tau, a, b)
    ctx.eq("tau equals scipy's", m.tau,
           stats.kendalltau(*(np.unique(v, return_inverse=True)[1] for v in (x, y))
                            ).statistic, rtol=1e-9, atol=1e-12)


@workload("C17", 400, 12000)
def symmetries(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 30))
    x, y = pair(rng, n)
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    ctx.case(x, y)
    a = ctx.call("Tau", gr.Tau, x, y)
    b = ctx.call("Tau", gr.Tau, y, x)
    ctx.eq("symmetric in its arguments", b.tau, a.tau, rtol=1e-12, atol=1e-14)
    c = ctx.call("Tau", gr.Tau, -x, y)
    ctx.eq("antisymmetric", c.tau, -a.tau, rtol=1e-12, atol=1e-14)
    q = rng.permutation(n)
    d = ctx.call("Tau", gr.Tau, x[q], y[q])
    ctx.eq("free of unit order", d.tau, a.tau, rtol=1e-12, atol=1e-14)
    e = ctx.call("Tau", gr.Tau, np.exp(x / 10), 3 * y + 1)
    ctx.eq("depends on order alone", e.tau, a.tau, rtol=1e-12, atol=1e-14)


@workload("C17", 6, 80)
def large_sequences(ctx):
    rng = ctx.rng
    x, y = pair(rng, int(rng.integers(200, 401)))
    ctx.case(x, y)
    ctx.tag("large")
    ctx.call("Tau", gr.Tau, x, y)


@workload("C17", 2, 30)
def sorted_sequences(ctx):
    """Sequences that arrive in order: a search tree over them is a long path."""
    rng = ctx.rng
    x, y = pair(rng, int(rng.integers(1050, 1600)), gen.pick(rng, "real", "corr", "anti"))
    by = np.argsort(x, kind="stable")
    x, y = x[by], gen.pick(rng, np.sort(y), np.sort(y)[::-1], y[by])
    ctx.case(x, y)
    ctx.tag("sorted")
    ctx.call("Tau", gr.Tau, x, y)


@workload("C17", 1, 12)
def huge_sequences(ctx):
    """Thousands of units, where counts and their products outgrow small types."""
    rng = ctx.rng
    # few of the largest: other ways to count pairs need memory for all of them
    n = 17000 if ctx.idx % 6 == 0 else int(gen.pick(rng, 1400, 3000, 5000))
    x, y = pair(rng, n, gen.pick(rng, "real", "corr", "fewx", "fewy", "anti"))
    if rng.random() < 0.5:  # ordinary ties, in both
        x, y = np.round(x, 2), np.round(y, 2)
    ctx.case(x, y)
    ctx.tag("huge")
    ctx.call("Tau", gr.Tau, x, y)


# ------------------------------------------------------------------- C18

prop(
    "C18",
    "seeded panels and partitions (n<=40, t<=8; ties, integer, string and unsorted "
    "regime labels, singletons, one regime) with and without permutations; "
    "non-trivial: at least two regimes",
    floors={"theta": 200, "other containers": 60, "ties": 40, "one regime": 10, "singletons": 10,
            "inference": 60, "string regimes": 20, "extreme values": 60,
            "many units": 15, "many periods": 15},
    assumptions=["ranks change in every period"],
)


@monitor("C18", "Theta")
def theta_definition(ctx, ev):
    m, a = ev.result, ev.a
    y, reg = np.asarray(a["y"]), np.asarray(a["regime"]).tolist()
    n, t = y.shape
    th, tot, cols = ref.theta(y.tolist(), reg)
    ctx.eq("ranks", m.ranks, np.array(cols).T, rtol=0, atol=0)
    ctx.check(np.asarray(m.regimes).tolist() == sorted(set(reg)), "regimes",
              got=m.regimes)
    ctx.eq("total rank changes", m.total, tot, rtol=1e-12)
    ctx.eq("largest possible total", m.max_total, sum(abs(2 * i - n - 1)
                                                      for i in range(1, n + 1)))
    want = [x for x in th]
    ctx.eq("theta", np.asarray(m.theta).ravel(), want, rtol=1e-10, atol=1e-12)
    ctx.check(m.permutations == a["permutations"], "permutations", got=m.permutations)
    v = np.asarray(m.theta)[~np.isnan(np.asarray(m.theta, dtype=float))]
    ctx.check(((v >= 0) & (v <= 1 + 1e-12)).all(), "theta within [0, 1]", got=m.theta)
    ctx.tag("theta", "one regime" if len(set(reg)) == 1 else None,
            "singletons" if len(set(reg)) == n else None,
            "inference" if a["permutations"] else None,
            "ties" if any(len(np.unique(c)) < n for c in y.T) else None)
    if len(set(reg)) == 1:
        ctx.eq("changes cancel over all units", v, np.zeros(len(v)), atol=1e-12)
    if len(set(reg)) == n:
        ctx.eq("every unit its own regime", v, np.ones(len(v)), rtol=1e-12)


@monitor("C18", "Theta")
def theta_tails(ctx, ev):
    if ev.a["permutations"]:
        theta_p(ctx, ev)


def theta_case(ctx, n=None, t=None):
    rng = ctx.rng
    n = n or int(rng.integers(2, 25))
    t = t or int(rng.integers(2, 8))
    while True:
        y, _ = gen.panel(rng, n, t)
        r = np.array([stats.rankdata(c) for c in y.T])
        if (np.abs(np.diff(r, axis=0)).sum(axis=1) > 0).all():
            break
    if rng.random() < 0.2:
        y, _ = gen.extreme(rng, y, ints=False)
        ctx.tag("extreme values")
    g = int(rng.integers(1, min(n, 6) + 1))
    reg = rng.integers(0, g, n)
    u = rng.random()
    if u < 0.1:
        reg = rng.permutation(n)
    elif u < 0.35:
        reg = np.array(["west", "east", "a", "North", "zz", "mid"])[reg]
        ctx.tag("string regimes")
    elif u < 0.5:
        reg = rng.permutation(np.arange(g) * 10 - 7)[reg]
    elif u < 0.6:
        reg = reg.astype(float) / 2
    return gen.layout(rng, y), reg


@workload("C18", 900, 30000)
def thetas(ctx):
    rng = ctx.rng
    y, reg = theta_case(ctx)
    ctx.case(y, reg, nontrivial=len(np.unique(reg)) > 1)
    p = 0 if rng.random() < 0.6 else int(rng.integers(1, 40))
    held = reg
    if rng.random() < 0.3:
        held = gen.pick(rng, reg.tolist(), reg.astype(object), pd.Series(reg, index=(
            rng.permutation(len(reg)))))
        ctx.tag("other containers")
    m = ctx.call("Theta", gr.Theta, y, held, p)
    q = rng.permutation(len(reg))
    g = ctx.call("Theta", gr.Theta, y[q], reg[q], 0)
    ctx.eq("free of unit order", np.asarray(g.theta).ravel(),
           np.asarray(m.theta).ravel(), rtol=1e-10, atol=1e-12)


@workload("C18", 6, 200)
def thetas_of_many_periods(ctx):
    y, reg = theta_case(ctx, int(ctx.rng.integers(4, 12)), int(ctx.rng.integers(60, 200)))
    ctx.case(y, reg)
    ctx.tag("many periods")
    ctx.call("Theta", gr.Theta, y, reg, int(ctx.rng.integers(0, 12)))


@workload("C18", 6, 200)
def thetas_of_many_units(ctx):
    rng = ctx.rng
    n = int(rng.integers(60, 300))
    y, reg = theta_case(ctx, n, int(rng.integers(2, 20)))
    if rng.random() < 0.5:
        reg = rng.integers(0, 40, n)
    ctx.case(y, reg)
    ctx.tag("many units")
    ctx.call("Theta", gr.Theta, y, reg, int(gen.pick(rng, 0, 30, 60, 250)))


# ------------------------------------------------------------------- C19

prop(
    "C19",
    "seeded pairs of sequences on symmetric graphs (n<=25; ties, unsigned integers, "
    "lists; ring, star, lattice, complete, random, block; any unit ids and orders, any "
    "prior transformation) and real regional incomes; non-trivial: ties or at least "
    "two distinct pairs",
    floors={"SpatialTau": 150, "Tau_Local": 150, "Tau_Local_Neighbor": 150,
            "Tau_Local_Neighborhood": 150, "Tau_Regional": 150, "ties": 100,
            "unordered ids": 60, "real": 2, "unsigned": 20,
            "many units": 8},
    assumptions=["symmetric neighbour relations without isolated units"],
)


def seqs(ev):
    return np.asarray(ev.a["x"]).tolist(), np.asarray(ev.a["y"]).tolist()


@monitor("C19", "SpatialTau")
def spatial_tau_values(ctx, ev):
    m = ev.result
    x, y = seqs(ev)
    t, C, D, pairs = ref.spatial_tau(x, y, ev.a["w"].nb)
    ctx.eq("tau over neighbouring pairs", m.tau_spatial, t, rtol=1e-10, atol=1e-12)
    ctx.check((m.concordant_spatial, m.discordant_spatial, m.pairs_spatial)
              == (C, D, pairs), "neighbouring pairs", want=(C, D, pairs),
              got=(m.concordant_spatial, m.discordant_spatial, m.pairs_spatial))
    C, D, tx, ty = ref.tau_counts(x, y)
    ctx.check((m.concordant, m.discordant, m.extraX, m.extraY) == (C, D, ty, tx),
              "all pairs", got=(m.concordant, m.discordant, m.extraX, m.extraY))
    ctx.eq("classic tau", m.tau, ref.tau_b(x, y), rtol=1e-10, atol=1e-12)
    ctx.eq("classic p-value", m.tau_p, ref.tau_p(ref.tau_b(x, y), len(x)), rtol=2e-4)
    ctx.tag("SpatialTau")


@monitor("C19", "Tau_Local")
def local_values(ctx, ev):
    m = ev.result
    x, y = seqs(ev)
    S = np.array(ref.S_matrix(x, y))
    n = len(x)
    ctx.exact("concordance matrix", m.S, S)
    ctx.eq("tau", m.tau, S.sum() / (n * (n - 1)), rtol=1e-12, atol=1e-15)
    ctx.eq("local tau", m.tau_local, S.sum(axis=1) / (n - 1), rtol=1e-12, atol=1e-15)
    ctx.tag("Tau_Local")


def check_sign(ctx, got, tau):
    ctx.exact("sign", got, np.where(np.asarray(tau) < 0, -1, 1))


@monitor("C19", "Tau_Local_Neighbor")
def neighbor_values(ctx, ev):
    m, ws = ev.result, ev.a["w"]
    x, y = seqs(ev)
    want = [ref.lima_neighbor(x, y, ws.nb, i) for i in range(len(x))]
    ctx.eq("neighbor-set values", m.tau_ln, want, rtol=1e-12, atol=1e-15)
    tot = sum(len(v) for v in ws.nb)
    wt = [len(v) / tot for v in ws.nb]
    ctx.eq("weights of the neighbor sets", m.tau_ln_weights, wt, rtol=1e-12)
    S = ref.S_matrix(x, y)
    ctx.eq("weighted average is the spatial concordance",
           float(np.dot(m.tau_ln, m.tau_ln_weights)),
           sum(S[i][j] for i in range(len(x)) for j in ws.nb[i]) / tot, rtol=1e-10,
           atol=1e-12)
    check_sign(ctx, m.sign, m.tau_ln)
    ctx.tag("Tau_Local_Neighbor")


@monitor("C19", "Tau_Local_Neighborhood")
def neighborhood_values(ctx, ev):
    m, ws = ev.result, ev.a["w"]
    x, y = seqs(ev)
    S = ref.S_matrix(x, y)
    n = len(x)
    ctx.exact("concordance matrix", m.S, S)
    ctx.eq("local tau", m.tau_local, np.array(S).sum(axis=1) / (n - 1), rtol=1e-12,
           atol=1e-15)
    want = [ref.lima_hood(S, [i] + ws.nb[i]) for i in range(n)]
    ctx.eq("neighborhood values", m.tau_lnhood, want, rtol=1e-12, atol=1e-15)
    check_sign(ctx, m.sign, m.tau_lnhood)
    ctx.tag("Tau_Local_Neighborhood")


@monitor("C19", "Tau_Regional")
def regional_values(ctx, ev):
    m = ev.result
    x, y = seqs(ev)
    reg = np.asarray(ev.a["regime"]).tolist()
    ur = sorted(set(reg))
    S = ref.S_matrix(x, y)
    want = ref.tau_regional(S, reg, ur)
    got = np.asarray(m.tau_reg, dtype=float)
    ctx.check(got.shape == want.shape, "shape of regional values", got=got.shape)
    ok = ~np.isnan(want)
    ctx.eq("regional concordance", np.where(ok, got, 0), np.where(ok, want, 0),
           rtol=1e-11, atol=1e-13)
    ctx.exact("concordance matrix", m.S, S)
    ctx.tag("Tau_Regional")


def tau_case(ctx, n=None, ties=None):
    rng = ctx.rng
    n = n or int(rng.integers(3, 22))
    x, y = pair(rng, n, "real" if ties is False else None)
    w, _, _ = gen.weights(rng, n, general=bool(rng.random() < 0.2))
    if ties is False:
        return x, y, w
    x, y = typed(rng, x), typed(rng, y)
    if len(np.unique(x)) < n or len(np.unique(y)) < n:
        ctx.tag("ties")
    if list(w.neighbors) != list(w.id_order) or list(w.id_order) != sorted(w.id_order):
        ctx.tag("unordered ids")
    if "u" in (x.dtype.kind, y.dtype.kind):
        ctx.tag("unsigned")
    return x, y, w


def one_sided(rng, w):
    """Nearest neighbours: the relation need not be mutual."""
    ids = list(w.id_order)
    n = len(ids)
    k = int(rng.integers(1, min(n, 6)))
    P = rng.random((n, 2))
    D = ((P[:, None] - P[None]) ** 2).sum(axis=2)
    np.fill_diagonal(D, np.inf)
    few = np.minimum(k, rng.integers(1, k + 1, n)) if rng.random() < 0.4 else np.full(n, k)
    v = gen.make_w({ids[i]: [ids[j] for j in np.argsort(D[i])[: few[i]]]
                    for i in range(n)}, None, ids)
    v.transform = w.transform
    return v


@workload("C19", 150, 5000)
def taus_of_nearest_neighbours(ctx):
    rng = ctx.rng
    x, y, w = tau_case(ctx)
    w = one_sided(rng, w)
    ctx.case(x, y, w)
    ctx.tag("one-sided")
    ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w)
    ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w)


def regimes_of(rng, n):
    g = int(rng.integers(1, min(5, n) + 1))
    reg = rng.integers(0, g, n)
    if rng.random() < 0.4:
        reg = np.array(["b", "a", "D", "c", "zz"])[reg]
    elif rng.random() < 0.3:
        reg = rng.permutation(np.arange(g) * 3 + 1)[reg]
    return reg


@workload("C19", 900, 30000)
def taus(ctx):
    rng = ctx.rng
    x, y, w = tau_case(ctx)
    reg = regimes_of(rng, len(x))
    ctx.case(x, y, w, reg)
    a, b = (x.tolist(), y.tolist()) if rng.random() < 0.2 else (x, y)
    ws = WSnap(w)
    if not math.isnan(ref.spatial_tau(np.asarray(x).tolist(), np.asarray(y).tolist(),
                                      ws.nb)[0]):
        ctx.call("SpatialTau", gr.SpatialTau, x, y, w)
    ctx.call("Tau_Local", gr.Tau_Local, a, b)
    ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, a, b, w)
    ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, a, b, w)
    ctx.call("Tau_Regional", gr.Tau_Regional, a, b, reg)


@workload("C19", 4, 150)
def taus_of_many_units(ctx):
    rng = ctx.rng
    x, y, w = tau_case(ctx, int(rng.integers(60, 140)))
    reg = rng.integers(0, int(rng.integers(2, 14)), len(x))
    ctx.case(x, y, w, reg)
    ctx.tag("many units")
    ctx.call("SpatialTau", gr.SpatialTau, x, y, w)
    ctx.call("Tau_Local", gr.Tau_Local, x, y)
    ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w)
    ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w)
    ctx.call("Tau_Regional", gr.Tau_Regional, x, y, reg)


@workload("C19", 4, 60)
def taus_of_incomes(ctx):
    rng = ctx.rng
    y, w, reg = gen.real("mexico")
    a, b = sorted(int(v) for v in rng.choice(y.shape[1], 2, replace=False))
    ctx.case(a, b)
    ctx.tag("real")
    ctx.call("SpatialTau", gr.SpatialTau, y[:, a], y[:, b], w)
    ctx.call("Tau_Local", gr.Tau_Local, y[:, a], y[:, b])
    ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, y[:, a], y[:, b], w)
    ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, y[:, a], y[:, b], w)
    ctx.call("Tau_Regional", gr.Tau_Regional, y[:, a], y[:, b], reg)


# ------------------------------------------------------------------- C20

prop(
    "C20",
    "seeded inputs of every permutation-based rank measure: pseudo p-values recomputed "
    "from the reported simulations (n<=15), and simulations compared with exhaustive "
    "enumeration of the null for n<=5 (all relabellings); non-trivial: null takes at "
    "least two values",
    floors={"Theta p": 40, "SpatialTau p": 40, "Neighbor p": 40, "Neighborhood p": 40,
            "Regional p": 40, "Theta null": 4, "SpatialTau null": 4, "Neighbor null": 4,
            "Neighborhood null": 4, "Regional null": 4, "null of several values": 30,
            "integer x, float y": 20},
    assumptions=["symmetric neighbour relations without isolated units"],
)
PROPS["C20"].scale = 3

EPS = 1e-9


def counts_ge(sim, obs):
    """Possible numbers of simulated values at least as large as observed."""
    sure = (sim > obs + EPS) | (sim == obs)
    return range(int(sure.sum()), int((sim >= obs - EPS).sum()) + 1)


def counts_le(sim, obs, ties=False):
    """Possible numbers of simulated values (at least) as small as observed."""
    sure = (sim < obs - EPS) | ((sim == obs) & ties)
    return range(int(sure.sum()), int((sim <= obs + EPS).sum()) + 1)


def among(ctx, what, got, cands):
    ctx.check(any(abs(got - c) <= 1e-12 for c in cands), what, got=got,
              want=sorted(cands))


def min_sided(ctx, what, p, sim, obs):
    n = len(sim)
    among(ctx, what, p, {(min(a, b) + 1) / (n + 1) for a in counts_ge(sim, obs)
                         for b in counts_le(sim, obs, True)})


@monitor("C20", "Theta")
def theta_p(ctx, ev):
    m, n = ev.result, ev.a["permutations"]
    if not n:
        ctx.check(not hasattr(m, "pvalue_left"), "p-values without permutations")
        ctx.check(not ev.rng_used, "random numbers used without inference")
        return
    sim = np.asarray(m.sim, dtype=float)
    th = np.asarray(m.theta, dtype=float).ravel()
    ctx.check(sim.shape == (n + 1, len(th)), "shape of simulations", got=sim.shape)
    ctx.eq("first row is the observed statistic", sim[0], th, rtol=0, atol=0)
    for j in range(len(th)):
        among(ctx, "left p-value", np.ravel(m.pvalue_left)[j],
              {c / (n + 1) for c in counts_le(sim[:, j], th[j], True)})
        among(ctx, "right p-value", np.ravel(m.pvalue_right)[j],
              {c / (n + 1) for c in counts_ge(sim[:, j], th[j])})
        sd = sim[:, j].std()
        if sd > 1e-8:
            ctx.eq("z-value", np.ravel(m.z)[j], (th[j] - sim[:, j].mean()) / sd,
                   rtol=1e-7, atol=1e-9)
    ctx.tag("Theta p")


@monitor("C20", "SpatialTau")
def spatial_tau_p(ctx, ev):
    m, n = ev.result, ev.a["permutations"]
    if not n:
        ctx.check(not hasattr(m, "tau_spatial_psim"), "p-value without permutations")
        return
    sim = np.asarray(m.taus, dtype=float).ravel()
    ctx.check(len(sim) == n, "number of simulations", got=len(sim))
    c = set()
    for larger in counts_ge(sim, m.tau_spatial):
        p = (larger + 1) / (n + 1)
        c.add(p if p <= 0.5 else (n - larger + 1) / (n + 1))
    among(ctx, "pseudo p-value", m.tau_spatial_psim, c)
    ctx.tag("SpatialTau p")


@monitor("C20", "Tau_Local_Neighbor")
def neighbor_p(ctx, ev):
    m, n = ev.result, ev.a["permutations"]
    if not n:
        ctx.check(not hasattr(m, "tau_ln_pvalues"), "p-values without permutations")
        return
    sim = np.asarray(m.tau_ln_sim, dtype=float)
    ctx.check(sim.shape == (len(m.tau_ln), n), "shape of simulations", got=sim.shape)
    for i in range(len(sim)):
        min_sided(ctx, "neighbor-set p-value", np.ravel(m.tau_ln_pvalues)[i], sim[i],
                  m.tau_ln[i])
    ctx.tag("Neighbor p")


@monitor("C20", "Tau_Local_Neighborhood")
def neighborhood_p(ctx, ev):
    m, n = ev.result, ev.a["permutations"]
    if not n:
        ctx.check(not hasattr(m, "tau_lnhood_pvalues"), "p-values without permutations")
        return
    sim = np.asarray(m.tau_lnhood_sim, dtype=float)
    ctx.check(sim.shape == (len(m.tau_lnhood), n), "shape of simulations", got=sim.shape)
    for i in range(len(sim)):
        min_sided(ctx, "neighborhood p-value", np.ravel(m.tau_lnhood_pvalues)[i], sim[i],
                  m.tau_lnhood[i])
    ctx.tag("Neighborhood p")


@monitor("C20", "Tau_Regional")
def regional_p(ctx, ev):
    m, n = ev.result, ev.a["permutations"]
    if not n:
        ctx.check(not hasattr(m, "tau_reg_pvalues"), "p-values without permutations")
        return
    sim = np.asarray(m.tau_reg_sim, dtype=float)
    t = np.asarray(m.tau_reg, dtype=float)
    ctx.check(sim.shape == (n, *t.shape), "shape of simulations", got=sim.shape)
    for ix in np.ndindex(t.shape):
        if not np.isnan(t[ix]):
            min_sided(ctx, "regional p-value", np.asarray(m.tau_reg_pvalues)[ix],
                      sim[(slice(None), *ix)], t[ix])
    # pairs stay together: the concordance of all of them is only moved around
    reg = np.asarray(ev.a["regime"]).ravel()
    E = (reg[:, None] == np.unique(reg)).astype(float)
    size = np.outer(E.sum(axis=0), E.sum(axis=0)) - np.diag(E.sum(axis=0))
    S = signs(np.asarray(ev.a["x"]).ravel()) * signs(np.asarray(ev.a["y"]).ravel())
    total = np.where(size > 0, np.nan_to_num(sim) * size, 0).sum(axis=(1, 2))
    ctx.check(np.allclose(total, S.sum(), rtol=0, atol=1e-6), "observations stay paired",
              got=total, want=S.sum())
    ctx.tag("Regional p")


@workload("C20", 260, 8000)
def pseudo_p_values(ctx):
    rng = ctx.rng
    x, y, w = tau_case(ctx, int(rng.integers(3, 14)), ties=gen.pick(rng, None, False))
    reg = regimes_of(rng, len(x))
    R = int(rng.integers(1, 60))
    ctx.case(x, y, w, reg, R)
    if x.dtype.kind != y.dtype.kind:
        ctx.tag("integer x, float y")
    if len(np.unique(x)) == len(x) and len(np.unique(y)) == len(y):
        ctx.call("SpatialTau", gr.SpatialTau, x, y, w, R)
    ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w, R)
    ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w, R)
    ctx.call("Tau_Regional", gr.Tau_Regional, x, y, reg, R)
    ctx.call("SpatialTau", gr.SpatialTau, np.arange(len(x)), np.arange(len(x))[::-1], w)


@workload("C20", 160, 5000)
def theta_p_values(ctx):
    rng = ctx.rng
    y, reg = theta_case(ctx, int(rng.integers(2, 14)))
    R = int(rng.integers(0, 60))
    ctx.case(y, reg, R, nontrivial=len(np.unique(reg)) > 1)
    if rng.random() < 0.05:
        R = 999
    ctx.call("Theta", gr.Theta, y, reg, permutations=R)


def mixed(rng, x, y):
    """Sequences of different dtypes (values kept)."""
    if rng.random() < 0.5:
        x = np.argsort(np.argsort(x))
    elif rng.random() < 0.5:
        y = np.argsort(np.argsort(y)).astype("int8")
    return x, y


@workload("C20", 24, 700)
def null_distributions(ctx):
    """Reported simulations against all equiprobable relabellings."""
    rng = ctx.rng
    n = int(rng.integers(3, 6))
    R = 1500 if ctx.tier == "quick" else 4000
    ties = rng.random() < 0.4
    x, y = pair(rng, n, "few" if ties else "real")
    x, y = mixed(rng, x, y)
    if x.dtype.kind != y.dtype.kind:
        ctx.tag("integer x, float y")
    w, _, _ = gen.weights(rng, n, gen.pick(rng, "path", "star", "random", "ring"))
    nb = WSnap(w).nb
    xs, ys = np.asarray(x), np.asarray(y)
    perms = [list(q) for q in itertools.permutations(range(n))]
    ctx.case(xs, ys, w)
    if len(set(xs.tolist())) == n == len(set(ys.tolist())):
        m = ctx.call("SpatialTau", gr.SpatialTau, x, y, w, 4 * R)
        against_null(ctx, "SpatialTau", np.asarray(m.taus, float).ravel(),
                     [ref.spatial_tau(xs[q].tolist(), ys[q].tolist(), nb)[0]
                      for q in perms])
        ctx.tag("SpatialTau null")
    m = ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w, R)
    for i in range(n):
        o = [j for j in range(n) if j != i]
        vals = []
        for q in itertools.permutations(o):
            xi, yi = xs.copy(), ys.copy()
            xi[o], yi[o] = xs[list(q)], ys[list(q)]
            vals.append(ref.lima_neighbor(xi.tolist(), yi.tolist(), nb, i))
        against_null(ctx, "Tau_Local_Neighbor", np.asarray(m.tau_ln_sim, float)[i], vals)
    ctx.tag("Neighbor null")
    S = ref.S_matrix(xs.tolist(), ys.tolist())
    m = ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w, R)
    for i in range(n):
        o = [j for j in range(n) if j != i]
        vals = [ref.lima_hood(S, [i, *c]) for c in itertools.combinations(o, len(nb[i]))]
        against_null(ctx, "Tau_Local_Neighborhood",
                     np.asarray(m.tau_lnhood_sim, float)[i], vals)
    ctx.tag("Neighborhood null")


@workload("C20", 24, 700)
def null_distributions_of_regimes(ctx):
    rng = ctx.rng
    n = int(rng.integers(3, 6))
    R = 1500 if ctx.tier == "quick" else 4000
    y, reg = theta_case(ctx, n, int(rng.integers(2, 5)))
    ctx.case(y, reg)
    perms = [list(q) for q in itertools.permutations(range(n))]
    m = ctx.call("Theta", gr.Theta, y, reg, R)
    # all periods share a relabelling: compare a random projection
    wt = rng.normal(size=y.shape[1] - 1)
    lab = np.asarray(reg)
    vals = [float(np.dot(wt, ref.theta(y.tolist(), lab[q].tolist())[0])) for q in perms]
    against_null(ctx, "Theta", np.asarray(m.sim, float)[1:] @ wt, vals)
    ctx.tag("Theta null")
    x, z = pair(rng, n, gen.pick(rng, "real", "few"))
    x, z = mixed(rng, x, z)
    reg = regimes_of(rng, n)
    ur = sorted(set(reg.tolist()))
    m = ctx.call("Tau_Regional", gr.Tau_Regional, x, z, reg, R)
    wt = rng.normal(size=(len(ur), len(ur)))
    sim = np.asarray(m.tau_reg_sim, float)
    vals = []
    for q in perms:
        S = ref.S_matrix(np.asarray(x)[q].tolist(), np.asarray(z)[q].tolist())
        vals.append(ref.tau_regional(S, reg.tolist(), ur))
    ok = ~np.isnan(vals[0])
    against_null(ctx, "Tau_Regional",
                 np.where(ok, np.nan_to_num(sim) * wt, 0).sum(axis=(1, 2)),
                 [float(np.where(ok, np.nan_to_num(v) * wt, 0).sum()) for v in vals])
    ctx.tag("Regional null")


def signs(v):
    return np.greater.outer(v, v) * 1.0 - np.less.outer(v, v)


@workload("C20", 4, 100)
def draws_by_number(ctx):
    rng = ctx.rng
    rows = {}
    R = int(gen.pick(rng, 49, 99))
    ctx.case(ctx.idx, R)

    def keep(name, sims, seen):  # simulations in rows
        sims = np.asarray(sims, dtype=float).reshape(R, -1)
        rows.setdefault(name, []).append(
            np.isclose(sims, np.ravel(seen), rtol=1e-9, atol=1e-12,
                       equal_nan=True).all(axis=1))

    for _ in range(12):
        n = int(rng.integers(8, 13))
        x, y = pair(rng, n, "real")
        w, _, _ = gen.weights(rng, n, gen.pick(rng, "ring", "random", "lattice"))
        m = ctx.call("SpatialTau", gr.SpatialTau, x, y, w, R)
        keep("SpatialTau", m.taus, m.tau_spatial)
        m = ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w, R)
        for i in range(n):
            keep("Tau_Local_Neighbor", m.tau_ln_sim[i], m.tau_ln[i])
        m = ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w, R)
        for i in range(n):
            keep("Tau_Local_Neighborhood", m.tau_lnhood_sim[i], m.tau_lnhood[i])
        reg = rng.permutation(np.arange(n) % 3)
        m = ctx.call("Tau_Regional", gr.Tau_Regional, x, y, reg, R)
        keep("Tau_Regional", m.tau_reg_sim, m.tau_reg)
        z, _ = gen.panel(rng, n, int(rng.integers(3, 6)), "normal")
        m = ctx.call("Theta", gr.Theta, z, reg, R)
        keep("Theta", np.asarray(m.sim)[1:], np.asarray(m.sim)[0])
    for name, r in rows.items():
        no_odd_draw(ctx, name, r)


@workload("C20", 2, 40)
def neighbours_of_everyone(ctx):
    """Relocation cannot change what is compared with all other units."""
    rng = ctx.rng
    n = int(rng.integers(20, 90))
    hub = int(rng.integers(n))
    nb = {i: [hub] for i in range(n) if i != hub}
    nb[hub] = [int(i) for i in rng.permutation(n) if i != hub]
    w = gen.make_w(nb, None, list(range(n)))
    x, y = pair(rng, n, gen.pick(rng, "real", "few"))
    ctx.case(x, y, hub)
    R = int(rng.integers(5, 20))
    m = ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w, R)
    ctx.eq("a neighbour of everyone, relocated", m.tau_ln_sim[hub],
           np.full(R, m.tau_ln[hub]), rtol=1e-9, atol=1e-12)
    ctx.check(m.tau_ln_pvalues[hub] == 1, "p-value of a neighbour of everyone",
              got=m.tau_ln_pvalues[hub])
    m = ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w, R)
    ctx.eq("the neighbourhood that is everyone, relocated", m.tau_lnhood_sim[hub],
           np.full(R, m.tau_lnhood[hub]), rtol=1e-9, atol=1e-12)
    ctx.check(m.tau_lnhood_pvalues[hub] == 1, "p-value of the neighbourhood of everyone",
              got=m.tau_lnhood_pvalues[hub])
    ctx.tag("neighbour of everyone")


@workload("C20", 3, 60)
def null_distributions_of_many_units(ctx):
    """Every unit is relocated, at once and anew each time, however many there are."""
    rng = ctx.rng
    n = int(gen.pick(rng, 70, 100, 140, 270))
    x, y, w, cut = by_position(rng, n)
    ctx.case(x, y, w)
    nb = WSnap(w).nb
    S = signs(x) * signs(y)
    I = np.repeat(np.arange(n), [len(v) for v in nb])
    J = np.concatenate(nb).astype(int)
    R, N = 600, 1200
    perms = np.array([rng.permutation(n) for _ in range(N)])
    m = ctx.call("SpatialTau", gr.SpatialTau, x, y, w, R)
    alike(ctx, "SpatialTau of many units", m.taus,
          S[perms[:, I], perms[:, J]].mean(axis=1))
    R = 200
    m = ctx.call("Tau_Local_Neighbor", gr.Tau_Local_Neighbor, x, y, w, R)
    g = ctx.call("Tau_Local_Neighborhood", gr.Tau_Local_Neighborhood, x, y, w, R)
    wt = rng.normal(size=n)
    ln, hood = np.asarray(m.tau_ln_sim, float), np.asarray(g.tau_lnhood_sim, float)
    for i in {0, n - 1, *rng.integers(0, n, 8).tolist()}:
        o = np.delete(np.arange(n), i)
        d = len(nb[i])
        draws = np.array([rng.choice(o, d, replace=False) for _ in range(600)])
        alike(ctx, f"Tau_Local_Neighbor of unit {i} of {n}", ln[i],
              S[i, draws].mean(axis=1))
        c = np.column_stack([np.full(600, i), draws])
        v = S[c[:, :, None], c[:, None, :]].sum(axis=(1, 2)) / (d * (d + 1))
        alike(ctx, f"Tau_Local_Neighborhood of unit {i} of {n}", hood[i], v)
    reg = np.searchsorted([cut, (cut + n) // 2], np.arange(n), side="right")
    R = 600
    m = ctx.call("Tau_Regional", gr.Tau_Regional, x, y, reg, R)
    sim = np.asarray(m.tau_reg_sim, float)
    wt = rng.normal(size=(3, 3))
    E = np.eye(3)[reg]
    size = np.outer(E.sum(axis=0), E.sum(axis=0)) - np.diag(E.sum(axis=0))
    refs = np.array([E.T @ S[q][:, q] @ E / size for q in perms[:600]])
    for name, u in [("a mixture", wt)] + [(f"regime {j}", np.diag(np.eye(3)[j]))
                                          for j in range(3)]:
        alike(ctx, f"Tau_Regional of many units, {name}", (sim * u).sum(axis=(1, 2)),
              (refs * u).sum(axis=(1, 2)))
    t = int(rng.integers(2, 5))
    Y = np.column_stack([np.where(np.arange(n) < cut, x, rng.permutation(x)) +
                         (0.01 * rng.random(n)) for _ in range(t)])
    lab = np.arange(n) * 4 // n
    m = ctx.call("Theta", gr.Theta, Y, lab, R)
    rk = np.abs
    ch = np.diff(np.array([stats.rankdata(c) for c in Y.T]), axis=0)
    tot = rk(ch).sum(axis=1)
    G = np.eye(4)[lab]
    refs = np.array([rk(ch @ G[q]).sum(axis=1) / tot for q in perms[:600]])
    u = rng.normal(size=t - 1)
    alike(ctx, "Theta of many units", np.asarray(m.sim, float)[1:] @ u, refs @ u)
