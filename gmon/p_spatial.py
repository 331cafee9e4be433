"""C09-C12: spatial Markov chains, homogeneity tests, derived results, reports."""

import contextlib
import io
import itertools
import math
import os
import re
import shutil
import tempfile

import mapclassify as mc
import numpy as np
from scipy import stats

import giddy.markov as gm

from . import gen, ref
from .core import PROPS, Skip, WSnap, monitor, prop, workload
from .p_chain import check_mfpt, check_steady

# ------------------------------------------------------------------- C09

prop(
    "C09",
    "seeded panels and weights (n<=20, t<=10, real incomes of 48 states; fixed and "
    "per-period quantiles, given cutoffs, discrete labels of any dtype; ring, star, "
    "lattice, random, block graphs; binary, general and row-standardised weights; any "
    "unit ids); non-trivial: n>=3, t>=2",
    floors={"fixed": 40, "per period": 40, "given cutoffs": 40, "given lag cutoffs": 40,
            "discrete": 40, "categorical tie": 15, "empty class": 10, "fill": 40,
            "exact lags": 40, "permutations": 20, "value on cutoff": 15, "real": 2,
            "m differs from k": 40, "many classes": 30,
            "beyond a byte": 6},
    assumptions=["cutoffs are in increasing order", "every unit has a neighbour"],
)


def quantile_bins(v, k):
    with contextlib.redirect_stdout(io.StringIO()):
        return np.asarray(mc.Quantiles(np.asarray(v).flatten(), k=k).bins, dtype=float)


def assign(v, cut):
    """Class of a value: the number of cutoffs strictly below it."""
    return np.searchsorted(np.asarray(cut, dtype=float), v, side="left")


def near_cut(v, cut):
    cut = np.asarray(cut, dtype=float)
    if not len(cut):
        return np.zeros(np.shape(v), dtype=bool)
    sc = 1e-10 * (np.abs(v) + np.abs(cut).max())
    return (np.abs(np.asarray(v)[..., None] - cut) <= sc[..., None]).any(axis=-1)


def dyadic(ws):
    return all(float(x * 1024).is_integer() for r in ws.wt for x in r)


def lag_candidates(codes, ws, i, t, k):
    """Labels acceptable as the categorical lag of unit i at time t."""
    tally = [0.0] * k
    for j, v in zip(ws.nb[i], ws.wt[i]):
        tally[codes[j][t]] += v
    eps = 1e-9 * max(1.0, max(abs(v) for v in tally))
    top = {c for c in range(k) if tally[c] >= max(tally) - eps}
    if len(top) == 1:
        return top, False
    tally[codes[i][t]] += sum(ws.wt[i]) / len(ws.wt[i])
    out = {c for c in range(k) if tally[c] >= max(tally) - eps}
    return (out if dyadic(ws) or len({*ws.wt[i]}) == 1 else out | top), True


def own_classes(ctx, ev):
    """Check class ids and cutoffs; returns (class ids, k)."""
    m, a = ev.result, ev.a
    y = np.asarray(a["y"])
    n, t = y.shape
    got = np.asarray(m.class_ids)
    if a["discrete"]:
        lab = sorted(set(y.ravel().tolist()))
        ctx.check(np.asarray(m.classes).tolist() == lab, "classes", got=m.classes,
                  want=lab)
        pos = {c: i for i, c in enumerate(lab)}
        ctx.exact("class codes", got, [[pos[v] for v in r] for r in y.tolist()])
        ctx.tag("discrete")
        return got, len(lab)
    if a["cutoffs"] is not None:
        cut = np.asarray(a["cutoffs"], dtype=float)
        k = len(cut) + 1
        ctx.tag("given cutoffs")
    elif a["fixed"]:
        cut = quantile_bins(y, a["k"])
        k = len(cut)
        cut = cut[:-1]
        ctx.tag("fixed")
    else:
        cut, k = None, a["k"]
        ctx.tag("per period")
    if cut is not None:
        ctx.eq("cutoffs", np.asarray(m.cutoffs, dtype=float), cut, rtol=1e-12,
               atol=1e-300)
        ctx.exact("class of every observation", got, assign(y, m.cutoffs), cut=cut)
        if len(cut) and np.isin(y, cut).any():
            ctx.tag("value on cutoff")
    else:
        ctx.check(m.cutoffs is None, "cutoffs although classes differ per period")
        want = np.column_stack([
            assign(y[:, s], quantile_bins(y[:, s], k)) for s in range(t)])
        ctx.exact("class of every observation", got, want)
    ctx.exact("classes", m.classes, np.arange(k))
    return got, k


def lag_classes(ctx, ev, cls, k):
    m, a = ev.result, ev.a
    ws = a["w"]
    y = np.asarray(a["y"])
    n, t = y.shape
    got = np.asarray(m.lclass_ids)
    ctx.check(got.shape == (n, t), "shape of lag classes", got=got.shape)
    if a["discrete"]:
        codes = cls.tolist()
        tie = False
        for i in range(n):
            for s in range(t):
                ok, td = lag_candidates(codes, ws, i, s, k)
                tie |= td
                ctx.check(int(got[i, s]) in ok, "categorical lag", unit=i, period=s,
                          got=got[i, s], allowed=ok)
        if tie:
            ctx.tag("categorical tie")
        ctx.exact("lag classes", m.lclasses, np.asarray(m.classes))
        return got, k
    ly = ws.lag(y.astype(float))
    exact = dyadic(ws) and bool(np.all(y == np.round(y)))
    if a["lag_cutoffs"] is not None:
        cut = np.asarray(a["lag_cutoffs"], dtype=float)
        mm = len(cut) + 1
        ctx.tag("given lag cutoffs")
    elif a["fixed"]:
        cut = quantile_bins(ly, a["m"])
        mm = len(cut)
        cut = cut[:-1]
        if not exact:
            # equal lags that differ by rounding may merge or split quantiles
            flat = np.sort(ly.ravel())
            gap = np.diff(flat)
            tied = (gap > 0) & (gap <= 1e-10 * (1e-300 + np.abs(flat).max()))
            if tied.any():
                cut = np.asarray(m.lag_cutoffs, dtype=float)
                mm = len(cut) + 1
    else:
        cut, mm = None, a["m"]
    if cut is not None:
        ctx.eq("lag cutoffs", np.asarray(m.lag_cutoffs, dtype=float), cut, rtol=1e-9,
               atol=1e-12 * (np.abs(ly).max() + 1e-300))
        want, amb = assign(ly, cut), near_cut(ly, cut)
        if exact:
            amb[:] = False
            ctx.tag("exact lags")
            if len(cut) and np.isin(ly, cut).any():
                ctx.tag("value on cutoff")
        sc = 1e-10 * (np.abs(ly) + np.abs(cut).max(initial=0))
        ok = (got == want) | (amb & (got >= assign(ly - sc, cut))
                              & (got <= assign(ly + sc, cut)))
        ctx.check(ok.all(), "class of every spatial lag", got=got, want=want, lag=ly)
    else:
        ctx.check(m.lag_cutoffs is None, "lag cutoffs although classes differ per period")
        for s in range(t):
            b = quantile_bins(ly[:, s], mm)
            flat = np.sort(ly[:, s])
            gap = np.diff(flat)
            if not exact and (
                (gap > 0) & (gap <= 1e-10 * (1e-300 + np.abs(flat).max()))).any():
                continue
            want = assign(ly[:, s], b)
            amb = near_cut(ly[:, s], b) & (not exact)
            ok = (got[:, s] == want) | (amb & (np.abs(got[:, s] - want) <= 1))
            ctx.check(ok.all(), "class of every spatial lag", got=got[:, s], want=want)
    ctx.exact("lag classes", m.lclasses, np.arange(mm))
    return got, mm


@monitor("C09", "Spatial_Markov")
def conditional_counts(ctx, ev):
    m, a = ev.result, ev.a
    cls, k = own_classes(ctx, ev)
    lag, mm = lag_classes(ctx, ev, cls, k)
    n, t = cls.shape
    ctx.check((m.k, m.m) == (k, mm), "numbers of classes", got=(m.k, m.m), want=(k, mm))
    T = np.zeros((mm, k, k))
    for i in range(n):
        for s in range(t - 1):
            T[int(lag[i, s]), int(cls[i, s]), int(cls[i, s + 1])] += 1
    ctx.exact("conditional counts", m.T, T)
    ctx.exact("conditional counts add up to the pooled counts", T.sum(axis=0),
              m.transitions)
    ctx.check(T.sum() == n * (t - 1), "every transition is counted once")
    fill = a["fill_empty_classes"]
    for name, got, cnt in [("pooled", m.p, T.sum(axis=0))] + [
        (f"lag {g}", m.P[g], T[g]) for g in range(mm)
    ]:
        P = ref.fnum(ref.probs(cnt.astype(int).tolist(), fill))
        ctx.eq(f"{name} probabilities", got, P, rtol=1e-11, atol=1e-13)
        one = (P == 1) | (P == 0)
        ctx.check((np.asarray(got)[one] == P[one]).all(), "certain probability not exact")
    if (T.sum(axis=2) == 0).any():
        ctx.tag("empty class")
    ctx.tag("fill" if fill else None, "m differs from k" if mm != k else None,
            "permutations" if a["permutations"] else None)


def spatial_case(ctx, permutations=False, discrete=None, n=None, exact=None, tmax=9):
    """(y, w, keyword arguments) of a Spatial_Markov."""
    rng = ctx.rng
    n = n or int(rng.integers(3, 21))
    t = int(rng.integers(2, tmax + 1))
    if discrete is None:
        discrete = rng.random() < 0.3
    exact = (rng.random() < 0.45) if exact is None else exact
    kw = {}
    if discrete:
        x, _ = gen.label_panel(rng, n, t, int(rng.integers(2, 6)))
        y, _lab, _kind = gen.relabel(rng, x)
        w, _, _ = gen.weights(rng, n, general=gen.pick(rng, False, "int"),
                              transform="b" if exact else None)
        if rng.random() < 0.3:
            kw.update(k=int(rng.integers(2, 7)), m=int(rng.integers(2, 7)))
        kw["discrete"] = True
        y = y.tolist() if rng.random() < 0.15 and y.dtype.kind in "iU" else y
    else:
        if exact:
            y, _ = gen.panel(rng, n, t, gen.pick(rng, "int", "ties"))
            y = y.astype(gen.pick(rng, "int64", "float64", "int32"))
            w, _, _ = gen.weights(rng, n, gen.pick(rng, "ring", "path", "random"),
                                  general=gen.pick(rng, False, "int"), transform="o")
        else:
            y, _ = gen.panel(rng, n, t)
            w, _, _ = gen.weights(rng, n, general=bool(rng.integers(2)))
        if rng.random() < 0.2:
            w = gen.lopsided(rng, w)
            ctx.tag("lopsided weights")
        kw["k"] = int(rng.integers(1, 7))
        kw["m"] = int(rng.integers(1, 7))
        kw["fixed"] = bool(rng.random() < 0.65)
        if rng.random() < 0.15:
            kw.pop("k"), kw.pop("m"), kw.pop("fixed")
        f = np.asarray(y, dtype=float)
        if rng.random() < 0.45:
            kw["cutoffs"] = cuts(rng, f)
        if rng.random() < 0.45:
            kw["lag_cutoffs"] = cuts(rng, wlag(w, f))
        y = gen.layout(rng, np.asarray(y))
    kw["fill_empty_classes"] = bool(rng.integers(2))
    if permutations:
        kw["permutations"] = int(rng.integers(1, 20))
    return y, w, kw


def wlag(w, y):
    return WSnap(w).lag(y)


def cuts(rng, v):
    """Increasing cutoffs, some of them attained or out of range."""
    u = np.unique(v)
    c = list(rng.choice(u, size=int(rng.integers(0, min(4, len(u)) + 1)), replace=False))
    for _ in range(int(rng.integers(0 if c else 1, 3))):
        c.append(float(rng.uniform(u[0], u[-1] + 1e-9)))
    if rng.random() < 0.2:
        c.append(float(u[-1]) + 1.0)
    if rng.random() < 0.2:
        c.append(float(u[0]) - 1.0)
    c = np.unique(np.array(c, dtype=float))
    # keep cutoffs of the lag away from each other
    keep = [c[0]]
    for v2 in c[1:]:
        if v2 - keep[-1] > 1e-9 * (abs(v2) + abs(keep[-1])):
            keep.append(v2)
    if rng.random() < 0.08:  # a class nothing can be in
        keep = sorted(keep + [keep[int(rng.integers(len(keep)))]])
    return np.array(keep) if rng.random() < 0.7 else [float(x) for x in keep]


FITTED = ("class_ids", "lclass_ids", "T", "P", "p", "transitions", "k", "m", "cutoffs",
          "lag_cutoffs", "classes", "lclasses")


@workload("C09", 1500, 40000)
def spatial_chains(ctx):
    y, w, kw = spatial_case(ctx)
    ctx.case(y, w, *kw.values())
    ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)


@workload("C09", 200, 5000)
def spatial_chains_with_inference(ctx):
    """Permutation inference leaves the observed classes and counts alone."""
    y, w, kw = spatial_case(ctx, permutations=True)
    ctx.case(y, w, *kw.values())
    m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    kw.pop("permutations")
    if kw.get("discrete"):
        return
    o = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    for at in FITTED:
        ctx.exact(f"{at} with and without permutations", getattr(m, at), getattr(o, at))


@workload("C09", 8, 160)
def many_units_and_classes(ctx):
    """More units, periods and classes than the rest: wide counts and codes."""
    rng = ctx.rng
    n, t = int(gen.pick(rng, 40, 90, 135, 300)), int(rng.integers(2, 25))
    k, m = int(rng.integers(7, 14)), int(rng.integers(7, 14))
    w, _, _ = gen.weights(rng, n, gen.pick(rng, "ring", "path", "random", "two"),
                          general=gen.pick(rng, False, "int"))
    kw = {"fill_empty_classes": bool(rng.integers(2))}
    c = int(rng.integers(3))
    if c == 0:
        x, _ = gen.label_panel(rng, n, t, k)
        y = np.array([str(i) for i in range(k)])[x] if rng.random() < 0.5 else x
        kw["discrete"] = True
    else:
        y, _ = gen.panel(rng, n, t)
        kw.update(k=k, m=m, fixed=c == 1)
    ctx.case(y, w, *kw.values())
    ctx.tag("many classes")
    ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)


@workload("C09", 8, 160)
def few_units_for_long(ctx):
    rng = ctx.rng
    n, t = int(rng.integers(3, 9)), int(rng.integers(100, 300))
    x, _ = gen.label_panel(rng, n, t, int(rng.integers(2, 5)))
    w, _, _ = gen.weights(rng, n)
    y, _ = gen.panel(rng, n, t, "normal")
    ctx.case(x, y, w)
    ctx.tag("many periods")
    ctx.call("Spatial_Markov", gm.Spatial_Markov, x, w, discrete=True)
    ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, k=int(rng.integers(2, 5)),
             m=int(rng.integers(2, 5)), fixed=bool(rng.integers(2)))


@workload("C09", 2, 40)
def labels_beyond_a_byte(ctx):
    """More labels than fit a byte; counts beyond sixteen bits."""
    rng = ctx.rng
    if rng.random() < 0.7:
        n, t, k = int(rng.integers(30, 60)), int(rng.integers(8, 14)), None
        x = rng.permutation(n * t).reshape(n, t) % int(rng.integers(130, 300))
        y = gen.pick(rng, x * 3 + 7, np.array([f"l{i:03d}" for i in range(300)])[x])
        w, _, _ = gen.weights(rng, n, "random", general=gen.pick(rng, False, "int"))
    else:
        n, t = int(rng.integers(3000, 4200)), int(rng.integers(26, 34))
        y = np.where(rng.random((n, t)) < 0.02, rng.integers(0, 3, (n, t)), 1)
        w, _, _ = gen.weights(rng, n, "path", transform="b")
    ctx.case(y, w)
    ctx.tag("beyond a byte")
    ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, discrete=True,
             fill_empty_classes=bool(rng.integers(2)))


@workload("C09", 8, 120)
def incomes_of_states(ctx):
    rng = ctx.rng
    y, w = gen.real("us")
    a = int(rng.integers(0, 60))
    y = y[:, a : a + int(rng.integers(5, 22))]
    rel = y / y.mean(axis=0)
    w.transform = "r"
    kw = {}
    if rng.random() < 0.4:
        kw = {"cutoffs": np.array([0.8, 0.9, 1, 1.2]),
              "lag_cutoffs": np.array([0.8, 0.9, 1, 1.2])[: int(rng.integers(1, 5))]}
    else:
        kw = {"k": int(rng.integers(2, 7)), "m": int(rng.integers(2, 7)),
              "fixed": bool(rng.integers(2))}
    ctx.case(y, *kw.values())
    ctx.tag("real")
    ctx.call("Spatial_Markov", gm.Spatial_Markov, rel, w, **kw)
    q = np.clip(assign(rel, [0.8, 0.9, 1, 1.2]), 0, 4)
    ctx.call("Spatial_Markov", gm.Spatial_Markov, q, w, discrete=True)


# ------------------------------------------------------------------- C10

prop(
    "C10",
    "seeded stacks of count matrices (m<=6 regimes, r<=7, rectangular included; "
    "integers and floats, lists and arrays; empty rows in some or all regimes, "
    "never-entered columns); non-trivial: at least two regimes with counts",
    floors={"homogeneity": 200, "row empty everywhere": 20, "row empty somewhere": 40,
            "rectangular": 15, "integer": 40, "chi2": 200, "kullback": 100, "list": 20,
            "one regime": 5, "many regimes": 60, "weighted": 200,
            "weighted chi2": 200, "weighted kullback": 100, "narrow": 100},
    assumptions=["counts are nonnegative", "chi2: cells observed only where the "
                 "reference matrix has mass"],
)


@monitor("C10", "homogeneity", "Homogeneity_Results")
def homogeneity_stats(ctx, ev):
    h = ev.result
    M = [np.asarray(x).tolist() for x in np.asarray(ev.a["transition_matrices"])]
    want = ref.homogeneity(M)
    n = max(1.0, float(want["n"]))
    tol = 1e-11 * n
    ctx.eq("Q statistic", h.Q, want["Q"], rtol=1e-8, atol=tol)
    ctx.eq("LR statistic", h.LR, want["LR"], rtol=1e-8, atol=1e-10 * n)
    ctx.check(h.dof == want["dof"], "degrees of freedom", got=h.dof, want=want["dof"])
    if want["dof"] > 0:
        ctx.eq("Q p-value", h.Q_p_value, ref.chi2_sf(want["Q"], want["dof"]),
               rtol=1e-6, atol=1e-7)
        ctx.eq("LR p-value", h.LR_p_value, ref.chi2_sf(want["LR"], want["dof"]),
               rtol=1e-6, atol=1e-7)
    ctx.eq("pooled probabilities", h.p_h0, want["p0"], rtol=1e-11, atol=1e-13)
    ctx.eq("regime probabilities", h.p_h1, want["p1"], rtol=1e-11, atol=1e-13)
    ctx.eq("contributions to Q", h.Q_table, want["q_table"], rtol=1e-8, atol=tol)
    ctx.eq("contributions to LR", h.LR_table, want["lr_table"], rtol=1e-8,
           atol=1e-10 * n)
    ctx.check((h.m, h.k) == (len(M), len(M[0][0])), "regimes and classes",
              got=(h.m, h.k))
    ctx.eq("number of transitions", h.t_total, want["n"], rtol=1e-12)
    C = np.array(M) > 0
    ctx.exact("targets of a class, pooled", np.asarray(h.A), C.any(axis=0).sum(axis=1))
    ctx.exact("targets of a class, by regime", np.asarray(h.A_im), C.sum(axis=2).T)
    ctx.exact("classes occupied, by regime", np.asarray(h.B), C.any(axis=2).T)
    ctx.exact("regimes in which a class is occupied", np.asarray(h.b_i),
              C.any(axis=2).sum(axis=0))
    ctx.tag("homogeneity")
    A = np.array(M)
    e = A.sum(axis=2) == 0
    ctx.tag("row empty everywhere" if e.all(axis=0).any() else None,
            "row empty somewhere" if (e.any(axis=0) & ~e.all(axis=0)).any() else None,
            "rectangular" if A.shape[1] != A.shape[2] else None,
            "one regime" if len(A) == 1 else None)


@monitor("C10", "chi2")
def chi2_stats(ctx, ev):
    T1, T2 = np.asarray(ev.a["T1"]), np.asarray(ev.a["T2"])
    x, dof = ref.chi2_two(T1.tolist(), T2.tolist())
    r = ev.result
    ctx.check(len(r) == 3, "chi2 returns three values", got=r)
    ctx.eq("chi2 statistic", r[0], x, rtol=1e-8, atol=1e-11 * max(1.0, T1.sum()))
    ctx.check(r[2] == dof, "chi2 degrees of freedom", got=r[2], want=dof)
    if dof > 0:
        ctx.eq("chi2 p-value", r[1], ref.chi2_sf(x, dof), rtol=1e-6, atol=1e-7)
    ctx.tag("chi2")


@monitor("C10", "kullback")
def kullback_stats(ctx, ev):
    F = np.asarray(ev.a["F"])
    x, dof = ref.kullback(F.tolist())
    r = ev.result
    ctx.eq("kullback statistic", r["Conditional homogeneity"], x, rtol=1e-8,
           atol=1e-9 * max(1.0, F.sum()))
    ctx.check(r["Conditional homogeneity dof"] == dof, "kullback degrees of freedom",
              got=r["Conditional homogeneity dof"], want=dof)
    if dof > 0:
        ctx.eq("kullback p-value", r["Conditional homogeneity pvalue"],
               ref.chi2_sf(x, dof), rtol=1e-6, atol=1e-7)
    ctx.tag("kullback")


def regimes(rng, m=None, r=None, c=None, thin=None):
    m = m or int(rng.integers(1, 7))
    r = r or int(rng.integers(1, 8))
    c = c or (r if rng.random() < 0.85 else int(rng.integers(1, 8)))
    M = rng.poisson(gen.pick(rng, 0.5, 2, 20, 300), (m, r, c))
    thin = gen.pick(rng, 0, 0, 0.3, 0.6) if thin is None else thin
    M[rng.random((m, r)) < thin] = 0
    if rng.random() < 0.25:
        M[:, int(rng.integers(r))] = 0
    if rng.random() < 0.25:
        M[:, :, int(rng.integers(c))] = 0
    if M.sum() == 0:
        M[0, 0, 0] = 1
    return M


def weighted(rng, M):
    """Counts of unequal magnitude, or fractional ones (survey weights)."""
    if rng.random() < 0.5:
        return M * rng.choice([0.01, 0.05, 0.3, 2.5, 1e-4], M.shape)
    return M * 10.0 ** rng.integers(0, int(rng.integers(2, 8)), M.shape)


def narrow(rng, M):
    """The same counts in any integer type that holds them."""
    top = M.max(initial=0)
    fit = [t for t, most in (("uint8", 255), ("int8", 127), ("int16", 32767),
                             ("uint16", 65535), ("int32", 2**31 - 1),
                             ("uint64", 2**62)) if top <= most]
    return M.astype(gen.pick(rng, *fit, "int64"))


@workload("C10", 1500, 50000)
def homogeneity_of_regimes(ctx):
    rng = ctx.rng
    M = regimes(rng)
    kind = gen.pick(rng, "int", "float", "list", "arrays")
    if kind != "int" and rng.random() < 0.3:
        M = weighted(rng, M)
        ctx.tag("weighted")
    ctx.case(M, nontrivial=len(M) > 1)
    if kind == "int":
        ctx.tag("integer")
        A = narrow(rng, M)
    elif kind == "float":
        A = gen.layout(rng, M.astype(float))
    elif kind == "list":
        A = M.tolist()
        ctx.tag("list")
    else:
        A = [x.astype(float) for x in M]
    h = ctx.call("homogeneity", gm.homogeneity, A)
    if rng.random() < 0.3:  # regimes carry no order
        q = rng.permutation(len(M))
        g = ctx.call("homogeneity", gm.homogeneity, M[q].astype(float))
        ctx.eq("Q of reordered regimes", g.Q, h.Q, rtol=1e-8, atol=1e-9 * M.sum())
        ctx.exact("dof of reordered regimes", g.dof, h.dof)
    if rng.random() < 0.2:  # proportional regimes
        B = np.array([M[0] * s for s in range(1, 4)])
        if M[0].sum():
            g = ctx.call("homogeneity", gm.homogeneity, B)
            ctx.eq("no heterogeneity in proportional regimes", (g.Q, g.LR), (0, 0),
                   atol=1e-9 * B.sum())


@workload("C10", 20, 800)
def many_regimes(ctx):
    rng = ctx.rng
    r = int(rng.integers(5, 21))
    M = regimes(rng, int(rng.integers(5, 41)), r, r)
    if rng.random() < 0.3:
        M = M * int(10 ** rng.integers(3, 7))
    ctx.case(M)
    ctx.tag("many regimes")
    ctx.call("homogeneity", gm.homogeneity, M.astype(float))
    ctx.call("kullback", gm.kullback, M)
    ctx.call("chi2", gm.chi2, np.where(M[1] > 0, M[0], 0), M[1])


@workload("C10", 1200, 40000)
def chi2_of_two(ctx):
    rng = ctx.rng
    M = regimes(rng, m=2, c=None)
    k = M.shape[1]
    M = M[:, :, :k] if M.shape[2] >= k else regimes(rng, 2, k, k)
    T2 = M[1] + (M[0] if rng.random() < 0.5 else 0)
    T1 = np.where(T2 > 0, M[0], 0)
    if rng.random() < 0.3:
        c = weighted(rng, np.ones(T1.shape))
        T1, T2 = T1 * c, T2 * c
        ctx.tag("weighted chi2")
    elif rng.random() < 0.5:
        T1, T2 = T1.astype(float), T2.astype(float)
    elif rng.random() < 0.5:
        T1, T2 = narrow(rng, T1), narrow(rng, T2)
        ctx.tag("narrow")
    ctx.case(T1, T2)
    ctx.call("chi2", gm.chi2, T1, T2)
    if T2.sum():
        r = ctx.call("chi2", gm.chi2, T2, T2)
        ctx.eq("no difference from itself", r[0], 0, atol=1e-9 * T2.sum())


@workload("C10", 900, 30000)
def kullback_of_strata(ctx):
    rng = ctx.rng
    r = int(rng.integers(1, 7))
    F = regimes(rng, r=r, c=r)
    if rng.random() < 0.25:
        F = weighted(rng, F)
        ctx.tag("weighted kullback")
    else:
        F = narrow(rng, F) if rng.random() < 0.5 else F.astype(float)
    ctx.case(F, nontrivial=len(F) > 1)
    x = ctx.call("kullback", gm.kullback, gen.layout(rng, F))
    h = ctx.call("homogeneity", gm.homogeneity, F)
    ctx.eq("kullback equals the likelihood ratio", x["Conditional homogeneity"], h.LR,
           rtol=1e-7, atol=1e-9 * F.sum())


# ------------------------------------------------------------------- C11

prop(
    "C11",
    "seeded spatial Markov chains (as for C09) whose derived results are read in a "
    "random order with repeats and interleaved with the printed report; permutation "
    "inference against exhaustive enumeration of unit permutations for n<=5; "
    "non-trivial: n>=3, t>=2",
    floors={"s": 100, "S": 100, "f": 80, "F": 80, "rejected": 15, "shtest": 20,
            "permutation": 60, "mixed S": 3, "null": 6, "fixed m": 8, "order": 200,
            "null per period": 2, "with and without": 200},
    assumptions=["every unit has a neighbour"],
)
PROPS["C11"].scale = 3


def has_empty(P):
    return bool((np.asarray(P, dtype=float).sum(axis=-1) == 0).any())


def check_derived(ctx, m, name, value):
    T, tr = np.asarray(m.T), np.asarray(m.transitions)
    p, P = np.asarray(m.p), np.asarray(m.P)
    if name == "s":
        check_steady(ctx, "s", value, p)
        ctx.tag("s")
    elif name == "S":
        ctx.check(len(value) == len(P), "S has one entry per lag class")
        for g in range(len(P)):
            check_steady(ctx, f"S[{g}]", np.asarray(value[g], dtype=float), P[g])
        ctx.tag("S")
        if len({np.shape(v) for v in value}) > 1:
            ctx.tag("mixed S")
    elif name == "f":
        check_mfpt(ctx, "f", value, p)
        ctx.tag("f")
    elif name == "F":
        ctx.check(np.shape(value) == P.shape, "F has one matrix per lag class")
        for g in range(len(P)):
            check_mfpt(ctx, f"F[{g}]", value[g], P[g])
        ctx.tag("F")
    elif name in ("Q", "LR", "dof_hom", "Q_p_value", "LR_p_value"):
        h = ref.homogeneity(T.tolist())
        n = max(1.0, T.sum())
        if name == "dof_hom":
            ctx.check(value == h["dof"], "dof_hom", got=value, want=h["dof"])
        elif name in ("Q", "LR"):
            ctx.eq(name, value, h[name], rtol=1e-8, atol=1e-10 * n)
        elif h["dof"] > 0:
            ctx.eq(name, value, ref.chi2_sf(h[name[: name.index("_")]], h["dof"]),
                   rtol=1e-6, atol=1e-7)
    elif name == "chi2":
        ctx.check(len(value) == len(T), "chi2 has one test per lag class")
        for g, v in enumerate(value):
            x, d = ref.chi2_two(T[g].tolist(), tr.tolist())
            ctx.eq(f"chi2[{g}]", v[0], x, rtol=1e-8, atol=1e-10 * tr.sum())
            ctx.check(v[2] == d, f"chi2[{g}] degrees of freedom", got=v[2], want=d)
            if d > 0:
                ctx.eq(f"chi2[{g}] p-value", v[1], ref.chi2_sf(x, d), rtol=1e-6,
                       atol=1e-7)
    elif name in ("x2", "x2_pvalue", "x2_dof"):
        k = len(tr)
        x = sum(ref.chi2_two(g.tolist(), tr.tolist())[0] for g in T)
        dof = k * (k - 1) ** 2
        if name == "x2":
            ctx.eq("x2", value, x, rtol=1e-8, atol=1e-10 * tr.sum())
        elif name == "x2_dof":
            ctx.check(value == dof, "x2_dof", got=value, want=dof)
        elif dof:
            ctx.eq("x2_pvalue", value, ref.chi2_sf(x, dof), rtol=1e-6, atol=1e-7)
    elif name == "shtest":
        s, S = np.asarray(m.s), m.S
        ctx.check(len(value) == len(T), "shtest has one test per lag class")
        k = len(tr)
        for g, v in enumerate(value):
            nt = T[g].sum()
            o = nt * np.asarray(S[g], dtype=float)
            x = float(((o - nt * s) ** 2 / (nt * s)).sum()) if nt else 0.0
            ctx.eq(f"shtest[{g}]", v[0], x, rtol=1e-7, atol=1e-9 * max(1.0, nt))
            ctx.check(v[2] == k - 1, f"shtest[{g}] degrees of freedom", got=v[2])
            if k > 1:
                ctx.eq(f"shtest[{g}] p-value", v[1], ref.chi2_sf(x, k - 1), rtol=1e-6,
                       atol=1e-7)
        ctx.tag("shtest")


NAMES = ["s", "S", "f", "F", "Q", "LR", "dof_hom", "Q_p_value", "LR_p_value", "chi2",
         "x2", "x2_pvalue", "x2_dof", "shtest"]
NEEDS = {"s": "p", "f": "p", "S": "P", "F": "P"}


def regular_shtest(m):
    """Domain of the steady-state test: one positive distribution everywhere."""
    if has_empty(m.p) or has_empty(m.P):
        return False
    if len(ref.structure(np.asarray(m.p).tolist())[1]) != 1:
        return False
    if len(ref.structure(np.asarray(m.p).tolist())[2]):
        return False
    return all(len(ref.structure(np.asarray(P).tolist())[1]) == 1
               for P in np.asarray(m.P)) and np.asarray(m.T).sum(axis=(1, 2)).all()


def read(m, name):
    with contextlib.redirect_stdout(io.StringIO()):
        return getattr(m, name)


@workload("C11", 1000, 30000)
def derived_results(ctx):
    """Any order of reading, repeated reads, reports in between: same values."""
    rng = ctx.rng
    y, w, kw = spatial_case(ctx, permutations=bool(rng.random() < 0.2), tmax=25)
    if rng.random() < 0.5:
        kw["fill_empty_classes"] = True
    ctx.case(y, w, *kw.values())
    m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    if np.asarray(m.transitions).shape[0] > 6:
        raise Skip
    todo = [NAMES[i] for i in rng.permutation(len(NAMES))]
    todo += [NAMES[int(i)] for i in rng.integers(0, len(NAMES), 6)]
    base = {a: np.array(getattr(m, a)) for a in
            ("class_ids", "lclass_ids", "T", "P", "p", "transitions")}
    seen = {}
    for name in todo:
        if rng.random() < 0.1:
            ctx.call("Spatial_Markov.summary", m.summary)
        if name in NEEDS and has_empty(getattr(m, NEEDS[name])):
            ctx.raises(f"Spatial_Markov.{name}", ValueError, read, m, name)
            ctx.tag("rejected")
            continue
        if name == "shtest" and not regular_shtest(m):
            continue
        v = ctx.call(f"Spatial_Markov.{name}", read, m, name)
        check_derived(ctx, m, name, v)
        if name in seen:
            a = np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in
                                (v if np.ndim(v) or isinstance(v, list) else [v])])
            ctx.eq(f"{name} read again", a, seen[name], rtol=1e-12)
        seen[name] = np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in
                                     (v if np.ndim(v) or isinstance(v, list) else [v])])
    for a, v in base.items():
        ctx.exact(f"{a} after reading the results", getattr(m, a), v)
    ctx.tag("order")


@workload("C11", 150, 4500)
def observed_results_survive_inference(ctx):
    """The same fit with and without inference: equal results in every respect."""
    rng = ctx.rng
    y, w, kw = spatial_case(ctx, permutations=True, discrete=False, tmax=12)
    kw["fill_empty_classes"] = True
    ctx.case(y, w, *kw.values())
    m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    kw.pop("permutations")
    o = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    for at in FITTED + ("x2", "x2_dof", "Q", "LR", "dof_hom"):
        ctx.exact(f"{at} with and without permutations", getattr(m, at), getattr(o, at))
    ctx.tag("with and without")


@monitor("C11", "Spatial_Markov")
def permutation_pvalue(ctx, ev):
    m = ev.result
    n = ev.a["permutations"]
    if not n:
        ctx.check(not hasattr(m, "x2_rpvalue"), "x2_rpvalue without permutations")
        ctx.check(not ev.rng_used or ev.a["discrete"],
                  "random numbers used without inference")
        return
    x = np.asarray(m.x2_realizations, dtype=float).ravel()
    ctx.check(len(x) == n, "number of simulated statistics", got=len(x), want=n)
    eps = 1e-9 * max(1.0, abs(m.x2))
    lo = (((x > m.x2 + eps) | (x == m.x2)).sum() + 1) / (n + 1)
    hi = ((x >= m.x2 - eps).sum() + 1) / (n + 1)
    ctx.check(lo - 1e-12 <= m.x2_rpvalue <= hi + 1e-12, "x2_rpvalue",
              got=m.x2_rpvalue, lo=lo, hi=hi)
    ctx.tag("permutation")


def x2_of(cls, lag, m, k, tr):
    T = np.zeros((m, k, k))
    np.add.at(T, (lag[:, :-1].astype(int), cls[:, :-1], cls[:, 1:]), 1)
    return sum(ref.chi2_two(g.tolist(), tr)[0] for g in T)


def tails(ctx, what, counts, probs, n, alpha=1e-10):
    """Observed category counts against their exact probabilities."""
    for c, p in zip(counts, probs):
        if p >= 1 - 1e-12:
            continue
        lo = stats.binom.cdf(c, n, p)
        hi = stats.binom.sf(c - 1, n, p)
        ctx.check(min(lo, hi) > alpha, f"{what}: frequency of a value", count=c, n=n,
                  probability=p)


@workload("C11", 40, 1200)
def permutation_distribution(ctx):
    """Simulated statistics follow the permutation distribution of whole units."""
    rng = ctx.rng
    n = int(rng.integers(3, 6))
    t = int(rng.integers(3, 9))
    disc = rng.random() < 0.4
    A, _ = gen.graph(rng, n, gen.pick(rng, "path", "random", "star"))
    G = 2.0 ** np.add.outer(np.arange(n), 5 * np.arange(n))  # no ties in the tally
    nb = {i: [int(j) for j in np.flatnonzero(A[i])] for i in range(n)}
    w = gen.make_w(nb, {i: [float(G[i, j]) for j in nb[i]] for i in nb}, list(range(n)))
    ws = WSnap(w)
    R = 1500 if ctx.tier == "quick" else 4000
    kw = {"permutations": R}
    if disc:
        y, _ = gen.label_panel(rng, n, t, 3)
        kw["discrete"] = True
    elif rng.random() < 0.3:
        y = rng.integers(0, 9, (n, t)).astype(float)
        kw.update(fixed=False, k=2, m=int(rng.integers(2, 4)))
        ctx.tag("null per period")
    else:
        y = rng.integers(0, 9, (n, t)).astype(float)
        kw["cutoffs"] = [float(rng.integers(2, 6)) + 0.5]
        fixed_m = rng.random() < 0.5
        if fixed_m:
            kw["lag_cutoffs"] = [float(np.median(ws.lag(y)))]
            ctx.tag("fixed m")
        else:
            kw["m"] = int(rng.integers(2, 4))
            ctx.tag("fixed m")
    ctx.case(y, w, *kw.values())
    m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    cls = np.asarray(m.class_ids)
    tr = np.asarray(m.transitions).tolist()
    k = len(tr)
    vals = []
    for q in itertools.permutations(range(n)):
        yy = np.asarray(y)[list(q)]
        if disc:
            codes = cls[list(q)].tolist()
            lag = np.array([[min(lag_candidates(codes, ws, i, s, k)[0])
                             for s in range(t)] for i in range(n)])
            mm = k
        elif "fixed" in kw:
            ly, mm = ws.lag(yy), kw["m"]
            lag = np.column_stack([assign(ly[:, s], quantile_bins(ly[:, s], mm))
                                   for s in range(t)])
        else:
            cut = np.asarray(m.lag_cutoffs, dtype=float)
            lag, mm = assign(ws.lag(yy), cut), len(cut) + 1
        vals.append(x2_of(cls, lag, mm, k, tr))
    x = np.asarray(m.x2_realizations, dtype=float).ravel()
    against_null(ctx, "simulated x2", x, vals)


STRIDES = (2, 3, 4, 5, 8, 10, 16, 20, 25, 32, 50, 64, 100, 128)


def strides(v):
    for m in STRIDES:
        if len(v) >= 8 * m:
            yield m, v[::m]
            yield m, v[m - 1 :: m]


def no_odd_draw(ctx, what, rows):
    """Whether a simulation equals the observed value does not depend on its number.

    rows: one truth value per simulation, for several independent calls.
    """
    rate = [(r.sum() + 1) / (len(r) + 1) for r in rows]
    most = min(len(r) for r in rows)
    for name, at in (("first", range(most)), ("last", range(-1, -most - 1, -1))):
        for j in at:
            hits = sum(bool(r[j]) for r in rows)
            if hits > 2:
                ctx.check(stats.poisson.sf(hits - 1, sum(rate)) > 1e-12,
                          f"{what}: a draw that reproduces the observed value",
                          number=j, calls=len(rows), hits=hits, expected=sum(rate))
    ctx.tag("draws by number")


def against_null(ctx, what, sims, vals, alpha=1e-10):
    """Simulated values against the exhaustive list of equiprobable values."""
    vals = np.sort(np.asarray(vals, dtype=float))
    tol = 1e-8 * (1 + np.abs(vals).max())
    cat, cnt = [vals[0]], [0]
    for v in vals:
        if v - cat[-1] > tol:
            cat.append(v)
            cnt.append(0)
        cnt[-1] += 1
    cat, cnt = np.array(cat), np.array(cnt)
    ix = np.abs(sims[:, None] - cat[None, :]).argmin(axis=1)
    off = np.abs(sims - cat[ix]) > 2 * tol
    ctx.check(not off.any(), f"{what}: value impossible under the null",
              got=sims[off][:3], possible=cat)
    tails(ctx, what, np.bincount(ix, minlength=len(cat)), cnt / len(vals), len(sims),
          alpha)
    for m, part in strides(ix):  # draws at regular distances are draws like any other
        tails(ctx, f"{what}, every {m}th draw", np.bincount(part, minlength=len(cat)),
              cnt / len(vals), len(part), alpha * 1e-3)
    ctx.tag("null")
    if len(cat) > 1:
        ctx.tag("null of several values")


def rank_z(a, b):
    """Mann-Whitney z of two samples (ties included)."""
    v = stats.rankdata(np.concatenate([a, b]))
    n1, n2 = len(a), len(b)
    N = n1 + n2
    var = n1 * n2 * ((v**2).sum() / N - (N + 1) ** 2 / 4) / (N - 1)
    if var <= 0:
        return 0.0
    return float((v[:n1].sum() - n1 * (N + 1) / 2) / math.sqrt(var))


def levels(*samples, tol=1e-8):
    """Values that differ by rounding alone become one value."""
    v = np.concatenate(samples)
    u = np.sort(v)
    new = np.r_[True, np.diff(u) > tol * (1 + np.abs(u).max())]
    rep = u[new][np.searchsorted(u[new], v, side="right") - 1]
    return np.split(rep, np.cumsum([len(x) for x in samples])[:-1])


def alike(ctx, what, sims, refs, zmax=7.5):
    """Simulated values against independent draws from the stated null.

    Location and spread by ranks; no memory from one simulation to the next.
    """
    sims, refs = levels(np.ravel(np.asarray(sims, dtype=float)),
                        np.ravel(np.asarray(refs, dtype=float)))
    ctx.check(np.isfinite(sims).all(), f"{what}: simulated value not finite")
    mid = np.median(refs)
    for name, a, b in (("location", sims, refs),
                       ("spread", *levels(abs(sims - mid), abs(refs - mid)))):
        z = rank_z(a, b)
        ctx.check(abs(z) <= zmax, f"{what}: {name} under the null", z=z,
                  simulated=np.percentile(sims, [5, 25, 50, 75, 95]),
                  expected=np.percentile(refs, [5, 25, 50, 75, 95]))
    N, c = len(refs), np.unique(refs, return_counts=True)[1]
    q = min(1.0, 1.5 * (c * (c - 1)).sum() / (N * (N - 1)) + 1200 / N**2)
    for lag in (1, 2, 3, 5, 10):
        if lag < len(sims) / 4 and q < 0.9:
            hits = int((sims[lag:] == sims[:-lag]).sum())
            ctx.check(stats.binom.sf(hits - 1, len(sims) - lag, q) > 1e-11,
                      f"{what}: repeated simulations", lag=lag, hits=hits, rate=q)
    top = np.unique(refs, return_counts=True)[1].max() / N * 1.5 + 20 / N
    for m, part in strides(sims):
        z = rank_z(part, refs)
        ctx.check(abs(z) <= zmax, f"{what}: location of every {m}th simulation", z=z)
        c = int(np.unique(part, return_counts=True)[1].max())
        if c > 3 and top < 0.9:
            ctx.check(stats.binom.sf(c - 1, len(part), top) * len(part) > 1e-11,
                      f"{what}: one value in every {m}th simulation", times=c,
                      of=len(part), rate=top)
    r = stats.rankdata(sims)
    if r.std() > 0:
        z = float(np.corrcoef(r[1:], r[:-1])[0, 1] * math.sqrt(len(r) - 1)
                  ) if r[1:].std() * r[:-1].std() > 0 else 0.0
        ctx.check(abs(z) <= zmax, f"{what}: successive simulations are related", z=z)
    ctx.tag("large null")


def by_position(rng, n):
    """Sequences and weights that depend on the position of the units.

    A relocation that leaves out or confines some of the units shows.
    """
    cut = int(n * float(rng.uniform(0.5, 0.8)))
    x = np.arange(n) + 0.3 * rng.random(n)
    y = np.where(np.arange(n) < cut, x, -x) * gen.pick(rng, 1, -1)
    if rng.random() < 0.5:
        x, y = x[::-1].copy(), y[::-1].copy()
    h = int(rng.integers(1, 4))
    nb = {i: sorted({(i + d) % n for d in range(-h, h + 1) if d}) for i in range(n)}
    if rng.random() < 0.5:
        nb = {i: [j for j in v if abs(i - j) <= h] for i, v in nb.items()}
    w = gen.make_w(nb, None, list(range(n)))
    return x, y, w, cut


@workload("C11", 4, 100)
def draws_by_number(ctx):
    rng = ctx.rng
    rows = []
    R = int(gen.pick(rng, 49, 99))
    ctx.case(ctx.idx, R)
    for _ in range(14):
        n, t = int(rng.integers(8, 16)), int(rng.integers(3, 6))
        w, _, _ = gen.weights(rng, n)
        y = rng.random((n, t))
        m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, k=3, m=3,
                     permutations=R, fixed=bool(rng.integers(2)))
        x2 = np.asarray(m.x2_realizations, dtype=float).ravel()
        rows.append(np.isclose(x2, float(m.x2), rtol=1e-9))
    no_odd_draw(ctx, "simulated x2", rows)


@workload("C11", 2, 40)
def permutation_distribution_of_many_units(ctx):
    rng = ctx.rng
    n = int(rng.integers(70, 150))
    t = int(rng.integers(3, 6))
    x, z, w, cut = by_position(rng, n)
    y = np.empty((n, t))
    y[:, 0] = x
    for s in range(1, t):  # movers on one side, stayers on the other
        y[:, s] = np.where(np.arange(n) < cut, y[:, s - 1] + rng.normal(size=n),
                           rng.permutation(y[:, s - 1]))
    ws = WSnap(w)
    R = 400
    c = [float(v) for v in np.quantile(y, [0.3, 0.6])]
    lc = [float(v) for v in np.quantile(ws.lag(y), [0.3, 0.6])]
    kw = {"permutations": R, "cutoffs": c, "lag_cutoffs": lc}
    ctx.case(y, w)
    m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    cls = np.asarray(m.class_ids)
    tr = np.asarray(m.transitions).tolist()
    W_ = np.zeros((n, n))
    for i in range(n):
        W_[i, ws.nb[i]] = ws.wt[i]
    cut_ = np.asarray(m.lag_cutoffs, dtype=float)
    refs = []
    for _ in range(600):
        yy = y[rng.permutation(n)]
        refs.append(x2_of(cls, assign(W_ @ yy, cut_), 3, 3, tr))
    alike(ctx, "simulated x2 of many units", m.x2_realizations, refs)


# ------------------------------------------------------------------- C12

prop(
    "C12",
    "seeded homogeneity results and spatial chains with default and given names, "
    "titles and TeX output; every number and name in the report is parsed back; "
    "non-trivial: at least two regimes",
    floors={"homogeneity": 100, "default names": 30, "given names": 60, "tex": 40,
            "title": 30, "spatial": 60, "m differs from k": 30, "many regimes": 40,
            "many transitions": 100, "other labels": 200, "array of names": 200},
)


def f3(v):
    return "%.3f" % v


def check_report(ctx, out, h, total, regimes_, classes, title):
    """Parse the printed report of a homogeneity result `h`."""
    L = out.splitlines()
    txt = [x.strip() for x in L]
    m, k = len(h.p_h1), len(h.p_h0[0])

    def value(label):
        hit = [x for x in txt if x.startswith(label)]
        ctx.check(len(hit) == 1, f"report line '{label}'", out=out)
        return hit[0][len(label):].strip()

    ctx.check(title in txt, "report title", out=out, want=title)
    ctx.check(value("Number of classes:") == str(k), "number of classes", out=out)
    ctx.check(value("Number of transitions:") == "%d" % total,
              "number of transitions", out=out, want=total)
    ctx.check(value("Number of regimes:") == str(m), "number of regimes", out=out)
    ctx.check(value("Regime names:") == ", ".join(map(str, regimes_)), "regime names",
              out=out)
    head = value("Test").split()
    ctx.check(head in (["LR", "Chi-2"], ["LR", "Q"]), "test header", out=out)
    ctx.check(value("Stat.").split() == [f3(h.LR), f3(h.Q)], "statistics", out=out)
    ctx.check(value("DOF").split() == [str(int(h.dof))] * 2, "degrees of freedom",
              out=out)
    ctx.check(value("p-value").split() == [f3(h.LR_p_value), f3(h.Q_p_value)],
              "p-values", out=out)
    tables = [("P(H0)", h.p_h0)] + [
        (f"P({r})", h.p_h1[i]) for i, r in enumerate(regimes_)]
    pos = 0
    for name, mat in tables:
        ix = [i for i, x in enumerate(txt) if i >= pos and x.split()
              and x.split()[0] == name.split()[0] and x.startswith(name)]
        ctx.check(ix, f"table {name}", out=out)
        i = ix[0]
        ctx.check(txt[i][len(name):].split() == [str(c) for c in classes],
                  f"table {name}: header", out=out)
        for r, row in enumerate(mat):
            got = txt[i + 1 + r].split()
            ctx.check(got == [str(classes[r])] + [f3(v) for v in row],
                      f"table {name}: row {r}", out=out, want=row)
        pos = i + 1


def check_tex(ctx, tex, h, total, regimes_, classes, title):
    flat = re.sub(r"\s+", " ", tex)
    for want in (
        title, "Number of classes: %d" % len(h.p_h0[0]),
        "Number of transitions: %d" % total, "Number of regimes: %d" % len(h.p_h1),
        "Regime names: " + ", ".join(map(str, regimes_)),
    ):
        ctx.check("{" + want + "}" in tex, f"TeX: {want}", tex=tex)
    for label, vals in (
        ("Stat.", (f3(h.LR), f3(h.Q))), ("DOF", ("%d" % h.dof,) * 2),
        ("p-value", (f3(h.LR_p_value), f3(h.Q_p_value))),
    ):
        row = [x for x in tex.split("\\\\") if "{" + label + "}" in x]
        ctx.check(len(row) == 1, f"TeX row {label}", tex=tex)
        cells = re.sub(r"\\multicolumn\{\d+\}\{[^{}]*\}", "", row[0])
        got = re.findall(r"\{([^{}]*)\}", cells)
        ctx.check(got == [label, *vals], f"TeX {label}", row=row[0], want=vals)
    rows = [[c.strip() for c in x.replace("\\hline", "").split("&")]
            for x in flat.split("\\\\")]
    want = []
    for name, mat in [("P(H0)", h.p_h0)] + [
        (f"P({r})", h.p_h1[i]) for i, r in enumerate(regimes_)
    ]:
        want.append([name] + [str(c) for c in classes])
        for r, row in enumerate(mat):
            want.append([str(classes[r])] + [f3(v) for v in row])
    a = next((i for i, r in enumerate(rows) if r[0] == "P(H0)"), None)
    ctx.check(a is not None, "TeX table P(H0)", tex=tex)
    for g, x in zip(rows[a:], want):
        ctx.check(g == x, "TeX table row", got=g, want=x)
    ctx.check(len(rows[a:]) >= len(want), "TeX tables incomplete", tex=tex)
    ctx.check(flat.strip().startswith("\\begin{tabular}")
              and flat.strip().endswith("\\end{tabular}"), "TeX environment", tex=tex)


def report(ctx, api, fn, h, total, regimes_, classes, head, **kw):
    """Call a summary method, with TeX output now and then, and parse it all."""
    tex = ctx.rng.random() < 0.4
    d = tempfile.mkdtemp(prefix="gmon")
    try:
        if tex:
            stem = gen.pick(ctx.rng, "out", "out", "a.b", "my table", "1990-2000.v2")
            kw["file_name"] = os.path.join(d, stem)
            if ctx.rng.random() < 0.4:  # an earlier report is replaced
                with open(os.path.join(d, stem + ".tex"), "w") as f:
                    f.write("an earlier report\n" * 4000)
        ev = ctx.event(api, fn, **kw)
        check_report(ctx, ev.out, h, total, regimes_, classes, head)
        files = sorted(os.listdir(d))
        ctx.check(files == ([stem + ".tex"] if tex else []), "files written", got=files)
        if tex:
            with open(os.path.join(d, stem + ".tex")) as f:
                check_tex(ctx, f.read(), h, total, regimes_, classes, head)
            ctx.tag("tex")
    finally:
        shutil.rmtree(d)


WORDS = ["North", "South", "Poor", "Rich", "A", "b2", "Z-1", "Mid_dle",
         "Eastern-seaboard-states", "Lower-middle-income"]


@workload("C12", 700, 20000)
def homogeneity_reports(ctx):
    rng = ctx.rng
    r, nr = int(rng.integers(1, 7)), None
    if rng.random() < 0.04:
        r, nr = int(rng.integers(9, 14)), int(rng.integers(9, 14))
        ctx.tag("many regimes")
    M = regimes(rng, nr, r, r)
    if rng.random() < 0.15:
        M = M.astype("int64") * int(10 ** rng.integers(4, 9))
        ctx.tag("many transitions")
    kw = {}
    names = ["%d" % i for i in range(len(M))]
    classes = list(range(r))
    title = "Markov Homogeneity Test"
    if rng.random() < 0.6:
        names = [WORDS[i % 10] + "s" * (i // 10)
                 for i in rng.permutation(max(10, len(M)))[: len(M)]]
        kw["regime_names"] = names
        ctx.tag("given names")
    else:
        ctx.tag("default names")
    if rng.random() < 0.6:
        classes = [f"c{WORDS[i % 10]}" + "s" * (i // 10)
                   for i in rng.permutation(max(10, r))[:r]]
        kw["class_names"] = classes
    for key in ("regime_names", "class_names"):
        if key in kw:
            v = kw[key]
            u = rng.random()
            if u < 0.25:  # labels of another kind, in another container
                v = [int(i) * 5 - 10 for i in rng.permutation(len(v))]
                if rng.random() < 0.4:
                    v = [i / 4 for i in v]
            elif u < 0.32 and len(v) > 1:  # not all of them different
                v = [*v[:-1], v[0]]
            v = gen.pick(rng, v, v, tuple(v), np.array(v))
            if key == "regime_names":
                names = [str(i) for i in v]
            else:
                classes = [str(i) for i in v]
            kw[key] = v
            ctx.tag("other labels" if u < 0.25 else None,
                    "array of names" if isinstance(v, np.ndarray) else None)
    if rng.random() < 0.4:
        title = kw["title"] = "A test of " + WORDS[int(rng.integers(10))]
        ctx.tag("title")
    ctx.case(M, *kw.values(), nontrivial=len(M) > 1)
    h = ctx.call("homogeneity", gm.homogeneity, M, **kw)
    for _ in range(2):
        sk = {}
        tt = title
        if rng.random() < 0.3:
            tt = sk["title"] = gen.pick(rng, "Other title", "Other title", "")
        report(ctx, "Homogeneity_Results.summary", h.summary, h,
               sum(M.ravel().tolist()), names, classes, tt, **sk)
    ctx.tag("homogeneity")


@workload("C12", 500, 15000)
def spatial_reports(ctx):
    rng = ctx.rng
    y, w, kw = spatial_case(ctx)
    if not kw.get("discrete") and rng.random() < 0.5:
        kw["lag_cutoffs"] = cuts(rng, wlag(w, np.asarray(y, dtype=float)))
    title = "Spatial Markov Test"
    if rng.random() < 0.5:
        kw["variable_name"] = WORDS[int(rng.integers(10))]
        title += ": " + kw["variable_name"]
        ctx.tag("title")
    ctx.case(y, w, *kw.values())
    m = ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, **kw)
    T = np.asarray(m.T)
    h = gm.homogeneity(T)
    want = ref.homogeneity(T.tolist())
    ctx.eq("reported Q", h.Q, want["Q"], rtol=1e-8, atol=1e-10 * T.sum())
    ctx.eq("reported LR", h.LR, want["LR"], rtol=1e-8, atol=1e-10 * T.sum())
    if rng.random() < 0.5:
        read(m, "Q")
    for _ in range(2):
        report(ctx, "Spatial_Markov.summary", m.summary, h,
               np.asarray(y).shape[0] * (np.asarray(y).shape[1] - 1),
               ["LAG%d" % i for i in range(len(T))],
               ["C%d" % i for i in range(T.shape[1])], title)
    ctx.tag("spatial", "m differs from k" if len(T) != T.shape[1] else None)



