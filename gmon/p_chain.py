"""C01-C08, C28: Markov chains, ergodic summaries, mobility, empty classes."""

import math
import re
import warnings
from fractions import Fraction as Fr

import numpy as np

import giddy.ergodic as ge
import giddy.markov as gm
import giddy.mobility as gmob
import giddy.util as gu
from giddy.sequence import Sequence

from . import gen, ref
from .core import Fail, Skip, monitor, prop, workload

MARKOVS = ("Markov",)


def panel_of(ev):
    return np.array(ev.a["class_ids"])


def classes_of(ev):
    c = ev.a.get("classes")
    if c is not None:
        return np.asarray(c).tolist()
    return sorted(set(panel_of(ev).ravel().tolist()))


def ref_counts(ev):
    cl = classes_of(ev)
    return ref.counts(panel_of(ev).tolist(), cl), cl


# ------------------------------------------------------------------- C01

prop(
    "C01",
    "seeded label panels (n<=1000, t<=400; int/neg/str/float/bool/uint8/int8 labels; "
    "lists, read-only, strided and Fortran arrays; class lists permuted or with "
    "never-visited classes); non-trivial: at least one transition, counted once per "
    "distinct input",
    floors={"never-left class": 5, "explicit classes": 20, "absorbing": 10,
            "string labels": 10, "fill": 20, "large": 2, "many classes": 2},
    assumptions=["class labels are mutually comparable and not nan"],
)


@monitor("C01", *MARKOVS)
def counts_and_probabilities(ctx, ev):
    m = ev.result
    T, cl = ref_counts(ev)
    n, t = panel_of(ev).shape
    k = len(cl)
    fill = ev.a["fill_empty_classes"]
    ctx.check(m.k == k, "number of classes", got=m.k, want=k)
    ctx.check(np.asarray(m.classes).tolist() == cl, "classes", got=m.classes, want=cl)
    ctx.exact("transition counts", m.transitions, T)
    ctx.check(float(np.asarray(m.transitions).sum()) == n * (t - 1),
              "total number of transitions", got=m.transitions.sum())
    P = ref.probs(T, fill)
    ctx.eq("transition probabilities", m.p, ref.fnum(P), rtol=1e-11, atol=1e-13)
    got = np.asarray(m.p)
    for i in range(k):
        for j in range(k):
            if P[i][j] in (0, 1):
                ctx.check(got[i, j] == int(P[i][j]), "certain probability not exact",
                          cell=(i, j), got=got[i, j])
    if any(sum(r) == 0 for r in T):
        ctx.tag("never-left class")
        ctx.tag("fill" if fill else "no fill")
    if any(P[i][i] == 1 and sum(T[i]) for i in range(k)):
        ctx.tag("absorbing")


def markov_case(ctx, **kw):
    """A generated Markov input: (class_ids, keyword arguments)."""
    rng = ctx.rng
    x, mode = gen.label_panel(rng, **kw)
    lx, lab, kind = gen.relabel(rng, x)
    args = {}
    if rng.random() < 0.45:
        cl = list(np.unique(lx).tolist())
        extra = []
        if rng.random() < 0.6:
            if isinstance(cl[0], str):
                extra = ["zz", "A!"]
            elif isinstance(cl[0], bool):
                extra = [True, False]
            elif isinstance(cl[0], float):
                extra = [99.5, -77.25]
            elif kind in ("uint8",):
                extra = [251, 3]
            else:
                extra = [121, -121]
            extra = [e for e in extra if e not in cl]
        cl = cl + extra
        if rng.random() < 0.6:
            cl = [cl[i] for i in rng.permutation(len(cl))]
        args["classes"] = np.array(cl)
        ctx.tag("explicit classes")
    if lx.dtype.kind == "U":
        ctx.tag("string labels")
    args["fill_empty_classes"] = bool(rng.integers(2))
    args["summary"] = bool(rng.random() < 0.5)
    if args["fill_empty_classes"]:
        ctx.tag("fill")
    ids = gen.layout(rng, lx)
    if rng.random() < 0.25:
        ids = lx.tolist()
    return ids, args, lx


@workload("C01", 3600, 120000)
def generated_panels(ctx):
    ids, args, lx = markov_case(ctx)
    ctx.case(lx, *args.values(), nontrivial=lx.shape[1] > 1)
    ctx.call("Markov", gm.Markov, ids, **args)


@workload("C01", 6, 60)
def large_panels(ctx):
    rng = ctx.rng
    shape = gen.pick(rng, (1000, 40), (3, 400), (40, 400), (500, 150))
    k = gen.pick(rng, 2, 3, 12)
    x, _ = gen.label_panel(rng, *shape, k)
    if rng.random() < 0.5:
        x[:, 1:] = x[:, :1]  # every unit stays: 39999 of 39999
    x = x.astype(gen.pick(rng, "int8", "uint8", "int64", "float32"))
    ctx.case(x)
    ctx.tag("large")
    ctx.call("Markov", gm.Markov, x, summary=False)


@workload("C01", 1, 12)
def huge_panels(ctx):
    rng = ctx.rng
    n = int(gen.pick(rng, 17000, 40000, 70000, 140000))
    x = rng.integers(0, int(rng.integers(1, 5)), (n, int(rng.integers(2, 4))))
    if rng.random() < 0.3:
        x = np.repeat(x[:, :1], x.shape[1], axis=1)
    x = x.astype(gen.pick(rng, "int8", "uint8", "int64", "int32"))
    ctx.case(x)
    ctx.tag("large")
    ctx.call("Markov", gm.Markov, x, summary=False)


def rare_exit_panel(rng):
    n = int(gen.pick(rng, 20, 100, 400, 2000, 6000))
    t = int(gen.pick(rng, 3, 10, 60)) if n > 400 else int(gen.pick(rng, 10, 60, 300))
    k = int(rng.integers(2, 4))
    x = np.repeat(rng.integers(0, k, n), t).reshape(n, t)
    for _ in range(int(rng.integers(1, 3))):  # the last step of few units
        x[rng.integers(n), -1] = rng.integers(k)
    return x


@workload("C01", 2, 30)
def rare_exits_counted(ctx):
    ctx.case(x := rare_exit_panel(ctx.rng))
    ctx.tag("large")
    ctx.call("Markov", gm.Markov, x, summary=False)


@workload("C01", 4, 60)
def many_classes(ctx):
    rng = ctx.rng
    k = int(rng.integers(60, 400))
    n = int(rng.integers(k // 2, 2 * k))
    x = rng.integers(0, k, (n, int(rng.integers(2, 5))))
    x[: k // 2, 0] = np.arange(k // 2)
    lab = gen.pick(rng, np.arange(k), np.arange(k) - k, np.arange(k).astype("uint16"),
                   np.array([f"s{i}" for i in range(k)]), np.arange(k) / 4)
    ctx.case(x, lab)
    ctx.tag("many classes")
    ctx.call("Markov", gm.Markov, lab[x], classes=lab if rng.random() < 0.5 else None,
             summary=False)


@workload("C01", 360, 12000)
def staying_forever(ctx):
    # m out of m transitions stay: the probability has to be exactly one
    rng = ctx.rng
    m = int(rng.integers(1, 400))
    c = np.zeros((m, 2), int)
    c = np.vstack([c, [[1, 0]]])
    ctx.case(m)
    ctx.call("Markov", gm.Markov, c, summary=False)


@workload("C01", 360, 12000)
def splitting_units(ctx):
    """Counts are additive over units and over time, and free of unit order."""
    rng = ctx.rng
    x, _ = gen.label_panel(rng, n=int(rng.integers(2, 12)), t=int(rng.integers(3, 14)))
    k = int(x.max()) + 1
    cl = np.arange(k)
    h, c = int(rng.integers(1, len(x))), int(rng.integers(1, x.shape[1] - 1))
    ctx.case(x, h, c)
    T = [
        np.asarray(ctx.call("Markov", gm.Markov, z, classes=cl, summary=False).transitions)
        for z in (x, x[:h], x[h:], x[:, : c + 1], x[:, c:], x[rng.permutation(len(x))])
    ]
    ctx.exact("counts additive over units", T[1] + T[2], T[0])
    ctx.exact("counts additive over time", T[3] + T[4], T[0])
    ctx.exact("counts free of unit order", T[5], T[0])


# ------------------------------------------------------------------- C02

prop(
    "C02",
    "chains estimated from seeded panels and from designed walks that force "
    "reducible, periodic, absorbing and never-visited structure (k<=14); non-trivial: "
    "k>=2; plus parsing of the printed summary",
    floors={"reducible": 40, "irreducible": 40, "transient": 20, "absorbing": 20,
            "several recurrent": 15, "summary": 60, "rare exit": 2, "many classes": 10,
            "chain inside": 60},
)


def flat_index(a):
    return frozenset(int(v) for v in np.asarray(a).ravel())


@monitor("C02", *MARKOVS, "FullRank_Markov", "GeoRank_Markov", "LISA_Markov")
def structure_reported(ctx, ev):
    m = ev.result
    T = np.asarray(m.transitions)
    P = ref.fill_rows([[Fr(int(v)) for v in r] for r in T.tolist()])
    P = [[v / sum(r) for v in r] for r in P]
    comm, rec, tr, ab = ref.structure(P)
    got = [flat_index(c) for c in m.cclasses_indices]
    ctx.check(len(got) == len(set(got)) and set(got) == comm, "communicating classes",
              got=got, want=comm)
    got = [flat_index(c) for c in m.rclasses_indices]
    ctx.check(len(got) == len(set(got)) and set(got) == rec, "recurrent classes",
              got=got, want=rec)
    got = [] if m.tclasses_indices is None else [
        flat_index(c) for c in m.tclasses_indices]
    ctx.check(len(got) == len(set(got)) and set(got) == tr, "transient classes",
              got=got, want=tr)
    ctx.check(tr or m.tclasses_indices is None, "tclasses_indices without transients")
    got = sorted(int(v) for a in m.astates_indices for v in np.asarray(a).ravel())
    ctx.check(got == sorted(ab), "absorbing states", got=got, want=ab)
    ctx.check(
        (m.num_cclasses, m.num_rclasses, m.num_tclasses, m.num_astates)
        == (len(comm), len(rec), len(tr), len(ab)), "numbers of classes",
        got=(m.num_cclasses, m.num_rclasses, m.num_tclasses, m.num_astates))
    ctx.tag("irreducible" if len(comm) == 1 else "reducible")
    ctx.tag("transient" if tr else None, "absorbing" if ab else None,
            "several recurrent" if len(rec) > 1 else None)
    if ev.api == "LISA_Markov":
        return
    if not ev.a["summary"]:
        ctx.check(ev.out == "", "printed although summary=False", out=ev.out)
        return
    ctx.tag("summary")
    out = ev.out
    ctx.check(("irreducible" in out) == (len(comm) == 1)
              and ("is reducible" in out) == (len(comm) > 1),
              "summary: reducibility", out=out)
    a = re.search(r"(\d+) Recurrent class", out)
    b = re.search(r"(\d+) Transient class", out)
    c = re.search(r"has (\d+) absorbing state", out)
    ctx.check(a and b and c, "summary: incomplete", out=out)
    ctx.check((int(a[1]), int(b[1]), int(c[1])) == (len(rec), len(tr), len(ab)),
              "summary: numbers of classes", out=out)

    def groups(s):
        return [frozenset(map(int, re.findall(r"\d+", g)))
                for g in re.findall(r"\[([\d\s]*)\]", s)]

    for name, want, txt in (
        ("recurrent", rec, out[a.end():b.start()]),
        ("transient", tr, out[b.end():c.start()]),
        ("absorbing", {frozenset([v]) for v in ab}, out[c.end():]),
    ):
        g = groups(txt)
        ctx.check(len(g) == len(set(g)) and set(g) == want,
                  f"summary: {name} members", out=out, want=want)


def walk_of(rng, P, steps, units):
    """Panel of walks over the support of P visiting every edge."""
    k = len(P)
    rows = []
    for i in range(k):
        for j in range(k):
            if P[i][j] > 0:
                rows.append([i, j])
    t = steps
    out = []
    for a, b in rows:
        r = [a, b]
        while len(r) < t:
            nx = np.flatnonzero(np.asarray(P[r[-1]]) > 0)
            r.append(int(rng.choice(nx)))
        out.append(r)
    out += [out[int(rng.integers(len(out)))] for _ in range(units)]
    return np.array(out)


@workload("C02", 1800, 60000)
def designed_structure(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 10))
    P = gen.stochastic(rng, k)
    x = walk_of(rng, P, int(rng.integers(2, 6)), int(rng.integers(0, 4)))
    cl = np.arange(k)
    if rng.random() < 0.4:  # never-visited classes
        g = int(rng.integers(1, 4))
        cl = rng.permutation(k + g)
    ctx.case(x, cl, nontrivial=k > 1)
    ctx.call("Markov", gm.Markov, x, classes=cl, summary=bool(rng.random() < 0.6),
             fill_empty_classes=bool(rng.integers(2)))


@workload("C02", 1200, 45000)
def structure_of_panels(ctx):
    ids, args, lx = markov_case(ctx)
    ctx.case(lx, *args.values(), nontrivial=len(np.unique(lx)) > 1)
    ctx.call("Markov", gm.Markov, ids, **args)


@workload("C02", 360, 12000)
def absorbing_counts(ctx):
    rng = ctx.rng
    m, k = int(rng.integers(1, 300)), int(rng.integers(2, 5))
    a = int(rng.integers(k))
    x = np.full((m, 2), a)
    x = np.vstack([x, [[b, a] for b in range(k) if b != a]])
    ctx.case(m, k, a)
    ctx.call("Markov", gm.Markov, x, summary=True)


@monitor("C02", "Sequence", "Spatial_Markov")
def chains_inside(ctx, ev):
    ctx.check(not ev.out, f"{ev.api} prints no summary of a chain", got=ev.out)
    ctx.tag("chain inside")


@workload("C02", 60, 2000)
def quiet_unless_asked(ctx):
    """Chains estimated on the way to something else."""
    rng = ctx.rng
    n, t = int(rng.integers(3, 9)), int(rng.integers(2, 7))
    x, _ = gen.label_panel(rng, n, t, int(rng.integers(2, 5)))
    y, _, _ = gen.relabel(rng, x)
    w, _, _ = gen.weights(rng, n)
    ctx.case(x, w, y.dtype.kind)
    ctx.call("Sequence", Sequence, y, dist_type=gen.pick(
        rng, "markov", "markov", "tran", "interval"))
    ctx.call("Spatial_Markov", gm.Spatial_Markov, y, w, discrete=True)
    ctx.call("LISA_Markov", gm.LISA_Markov, rng.random((n, t)), w)


@workload("C02", 6, 90)
def large_structure(ctx):
    rng = ctx.rng
    k = int(rng.integers(20, 130))
    P = gen.stochastic(rng, k, gen.pick(rng, "sparse", "onerec", "perm", "reducible",
                                        "periodic", "banded"))
    ctx.case(x := walk_of(rng, P, 2, 0))
    ctx.tag("many classes")
    ctx.call("Markov", gm.Markov, x, classes=rng.permutation(k), summary=True)


@workload("C02", 2, 30)
def rare_exits(ctx):
    """Classes that are hardly ever left are not absorbing."""
    ctx.case(x := rare_exit_panel(ctx.rng))
    ctx.tag("rare exit")
    ctx.call("Markov", gm.Markov, x, summary=bool(ctx.rng.integers(2)))


@workload("C02", 180, 4500)
def structure_of_rank_chains(ctx):
    rng = ctx.rng
    y, _ = gen.panel(rng, int(rng.integers(2, 9)), int(rng.integers(2, 10)),
                     gen.pick(rng, "persistent", "walk", "ties"))
    ctx.case(y)
    s = bool(rng.integers(2))
    ctx.call("FullRank_Markov", gm.FullRank_Markov, y, summary=s)
    ctx.call("GeoRank_Markov", gm.GeoRank_Markov, y, summary=s)


# ------------------------------------------------------------------- C03

prop(
    "C03",
    "seeded transition matrices (dense, sparse, banded, periodic, reducible, "
    "absorbing, permutation, with empty rows; k<=7 against exact rationals, k<=40 "
    "by invariance residual) and chains estimated from panels; non-trivial: k>=2",
    floors={"one recurrent, reducible": 15, "several recurrent": 40, "empty rows": 20,
            "periodic": 10, "rejected": 8, "from Markov": 40,
            "nearly decomposable": 40, "many states": 10},
    assumptions=["rows sum to one up to rounding or are entirely zero"],
)


def exact_chain(P):
    P = np.asarray(P, dtype=float)
    if (P[P > 0] < 1e-7).any():  # too rare to be rounded to a nearby fraction
        Q = [[Fr(float(v)) for v in r] for r in P]
        for i, r in enumerate(Q):
            if any(r):  # rounding goes to the moves that stay
                r[i] = 0
                r[i] = 1 - sum(r)
        return ref.fill_rows(Q)
    return ref.fill_rows(ref.to_fr(P))


def loose(P, rtol):
    """Relative error to expect where some moves are rare: rounding / rarest move."""
    P = np.asarray(P, dtype=float)
    rare = P[P > 0].min() if (P > 0).any() else 1.0
    return max(rtol, 1e-12 / rare)


def check_steady(ctx, name, got, P):
    """`got` against the stationary distributions of matrix P (rows filled)."""
    P = np.asarray(P, dtype=float)
    k = len(P)
    Pf = [list(r) for r in P]
    for i, r in enumerate(Pf):
        if not any(r):
            r[i] = 1.0
    comm, rec, tr, _ = ref.structure(Pf)
    got = np.asarray(got, dtype=float)
    want_shape = (k,) if len(rec) == 1 else (len(rec), k)
    ctx.check(got.shape == want_shape, f"{name}: shape", got=got, want=want_shape)
    rows = got.reshape(-1, k)
    sup = [frozenset(np.flatnonzero(r > 0).tolist()) for r in rows]
    ctx.check(len(set(sup)) == len(sup) and set(sup) == rec,
              f"{name}: one distribution supported on every recurrent class",
              got=got, want=rec, P=P)
    ctx.check((rows >= 0).all(), f"{name}: negative probability", got=got)
    ctx.eq(f"{name}: sums to one", rows.sum(axis=1), np.ones(len(rows)), rtol=1e-9)
    ctx.eq(f"{name}: invariant", rows @ np.asarray(Pf, dtype=float), rows,
           rtol=1e-7, atol=1e-10, P=P)
    if k <= 7:
        ex = ref.steady(exact_chain(P))
        for r, c in zip(rows, sup):
            ctx.eq(f"{name}: exact value", r, [float(v) for v in ex[c]],
                   rtol=loose(P, 1e-7), atol=1e-12, P=P)
    if len(rec) == 1 and len(comm) > 1:
        ctx.tag("one recurrent, reducible")
    if len(rec) > 1:
        ctx.tag("several recurrent")
    if (P.sum(axis=1) == 0).any():
        ctx.tag("empty rows")
    if len(comm) == 1 and k > 1 and ref.period(Pf) > 1:
        ctx.tag("periodic")
    if len(comm) == 1 and loose(P, 0) > 1e-8:
        ctx.tag("nearly decomposable")


@monitor("C03", "steady_state")
def steady_state_fn(ctx, ev):
    check_steady(ctx, "steady_state", ev.result, ev.a["P"])


@monitor("C03", "Markov")
def steady_state_attr(ctx, ev):
    m = ev.result
    T = np.asarray(m.transitions, dtype=float)
    s = T.sum(axis=1, keepdims=True)
    check_steady(ctx, "Markov.steady_state", m.steady_state, T / np.where(s == 0, 1, s))
    if m.num_rclasses > 1:
        got = [set(np.flatnonzero(r).tolist()) for r in np.asarray(m.steady_state)]
        ctx.check(got == [set(np.ravel(c).tolist()) for c in m.rclasses_indices],
                  "one row per recurrent class, in the order they are reported in",
                  got=m.steady_state, classes=m.rclasses_indices)
        ctx.tag("rows in the order of the classes")
    ctx.tag("from Markov")


def variant(rng, P):
    """The same matrix in another container."""
    c = int(rng.integers(6))
    if c == 0:
        return np.asarray(P).tolist()
    if c == 1 and np.isin(P, (0, 1)).all():
        return np.asarray(P).astype(int)
    return gen.layout(rng, np.asarray(P))


@workload("C03", 2400, 90000)
def stationary_of_matrices(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(1, 8)))
    if rng.random() < 0.25:
        P = gen.empty_rows(rng, P)
    ctx.case(P, nontrivial=len(P) > 1)
    if (P.sum(axis=1) == 0).any() and rng.random() < 0.4:
        ctx.raises("steady_state", ValueError, ge.steady_state, P)
        ctx.tag("rejected")
        return
    fill = bool((P.sum(axis=1) == 0).any() or rng.integers(2))
    ctx.call("steady_state", ge.steady_state, variant(rng, P), fill_empty_classes=fill)


@workload("C03", 120, 4000)
def stationary_of_rare_moves(ctx):
    P = gen.nearly_decomposable(ctx.rng, int(ctx.rng.integers(2, 8)), 9, True)
    ctx.case(P)
    ctx.call("steady_state", ge.steady_state, P,
             fill_empty_classes=bool(ctx.rng.integers(2)))


@workload("C03", 20, 600)
def drifting_chains(ctx):
    """States that are hardly ever visited: known from the flows across each step."""
    rng = ctx.rng
    k = int(rng.integers(4, 16))
    up = rng.uniform(0.02, 0.2, k) * gen.pick(rng, 1.0, 0.3, 0.1)
    down = rng.uniform(0.3, 0.7, k)
    if rng.random() < 0.5:
        up, down = down, up
    P = np.diag(up[:-1], 1) + np.diag(down[1:], -1)
    P[np.diag_indices(k)] = 1 - P.sum(axis=1)
    want = np.cumprod(np.r_[1.0, up[:-1] / down[1:]])
    want /= want.sum()
    q = rng.permutation(k)
    ctx.case(P, q)
    got = ctx.call("steady_state", ge.steady_state, P[q][:, q])
    ctx.eq("flows across each step balance", got, want[q], rtol=1e-6, atol=1e-15)
    ctx.tag("drift")


@workload("C03", 180, 6000)
def stationary_of_larger_matrices(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(8, 41)))
    if rng.random() < 0.05:
        k = int(rng.integers(64, 150))
        P = (gen.irreducible(rng, k) if rng.random() < 0.4 else gen.stochastic(
            rng, k, gen.pick(rng, "sparse", "dense", "perm", "absorbing", "banded")))
        ctx.tag("many states")
    ctx.case(P)
    ctx.call("steady_state", ge.steady_state, P)


@workload("C03", 600, 22500)
def stationary_of_estimates(ctx):
    ids, args, lx = markov_case(ctx)
    ctx.case(lx, *args.values(), nontrivial=len(np.unique(lx)) > 1)
    m = ctx.call("Markov", gm.Markov, ids, **args)
    a = np.array(m.steady_state)
    m.mfpt
    ctx.exact("steady state read twice", m.steady_state, a)


@workload("C03", 600, 22500)
def stationary_under_relabelling(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(2, 8)))
    q = rng.permutation(len(P))
    ctx.case(P, q)
    a = np.atleast_2d(ctx.call("steady_state", ge.steady_state, P))
    b = np.atleast_2d(ctx.call("steady_state", ge.steady_state, P[q][:, q]))
    key = lambda r: tuple(r > 0)  # noqa: E731
    A = np.array(sorted((r[q] for r in a), key=key))
    B = np.array(sorted(b, key=key))
    ctx.eq("steady states follow a relabelling of the states", B, A,
           rtol=loose(P, 1e-6))


# ------------------------------------------------------------------- C04

prop(
    "C04",
    "as C03, plus integer 0/1 matrices; k<=6 against exact first-step analysis over "
    "rationals, larger ones (k<=40) by first-step residual and reachability; "
    "non-trivial: k>=2",
    floors={"infinite": 60, "irreducible": 60, "periodic": 15, "rejected": 5,
            "many states": 3, "rare move": 40,
            "integer matrix": 5, "from Markov": 40, "finite into reducible": 10,
            "nearly decomposable": 40},
    assumptions=["rows sum to one up to rounding or are entirely zero"],
)


def check_mfpt(ctx, name, got, P, rtol=1e-6):
    P = np.asarray(P, dtype=float)
    k = len(P)
    Pf = [list(r) for r in P]
    for i, r in enumerate(Pf):
        if not any(r):
            r[i] = 1.0
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape == (k, k), f"{name}: shape", got=got)
    comm, rec, _, _ = ref.structure(Pf)
    rtol = loose(P, rtol)
    if k <= 6:
        M = np.array([[float(v) for v in r] for r in
                      ref.passage_moments(exact_chain(P))])
        ctx.eq(f"{name}: expected first passage", got, M, rtol=rtol, atol=0, P=P)
    else:
        M = got
        R = ref.reach(Pf)
        for t in range(k):
            never = {i for i in range(k) if t not in R[i]}
            Pt = [r if i != t else [0] * k for i, r in enumerate(Pf)]
            Rt = ref.reach(Pt)
            sure = [i for i in range(k) if i != t and not (Rt[i] & never)]
            ss = set(sure) | {t}
            ret = all(Pf[t][j] == 0 or j in ss for j in range(k))
            want = np.isin(np.arange(k), sure) | ((np.arange(k) == t) & ret)
            ctx.exact(f"{name}: finite exactly where entry is certain",
                      np.isfinite(M[:, t]), want)
            ix = np.flatnonzero(want)
            if len(ix):
                m = np.where(np.isfinite(M[:, t]), M[:, t], 0.0)
                m0 = m.copy()
                m0[t] = 0
                rhs = 1 + np.asarray(Pf)[ix] @ m0
                ctx.eq(f"{name}: first-step equations", m[ix], rhs, rtol=rtol)
    if len(comm) == 1:
        ctx.tag("irreducible")
        if loose(P, 0) > 1e-8:
            ctx.tag("nearly decomposable")
        if k > 1 and ref.period(Pf) > 1:
            ctx.tag("periodic")
    if np.isinf(got).any():
        ctx.tag("infinite")
        off = ~np.eye(k, dtype=bool)
        if np.isfinite(got[off]).any():
            ctx.tag("finite into reducible")


@monitor("C04", "mfpt")
def mfpt_fn(ctx, ev):
    if np.asarray(ev.a["P"]).dtype.kind in "iu":
        ctx.tag("integer matrix")
    check_mfpt(ctx, "mfpt", ev.result, ev.a["P"])


@monitor("C04", "Markov")
def mfpt_attr(ctx, ev):
    m = ev.result
    T = np.asarray(m.transitions, dtype=float)
    s = T.sum(axis=1, keepdims=True)
    check_mfpt(ctx, "Markov.mfpt", m.mfpt, T / np.where(s == 0, 1, s))
    ctx.tag("from Markov")


@workload("C04", 2400, 90000)
def passage_of_matrices(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(1, 7)))
    if rng.random() < 0.2:
        P = gen.empty_rows(rng, P)
    ctx.case(P, nontrivial=len(P) > 1)
    if (P.sum(axis=1) == 0).any() and rng.random() < 0.3:
        ctx.raises("mfpt", ValueError, ge.mfpt, P)
        ctx.tag("rejected")
        return
    fill = bool((P.sum(axis=1) == 0).any() or rng.integers(2))
    ctx.call("mfpt", ge.mfpt, variant(rng, P), fill_empty_classes=fill)


@workload("C04", 120, 3600)
def passage_through_rare_moves(ctx):
    """Chains one of whose moves is extremely rare, yet possible."""
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(2, 7)), gen.pick(
        rng, "sparse", "absorbing", "reducible"))
    e = 10.0 ** -int(rng.integers(8, 14))
    gaps = np.argwhere(P == 0)
    if len(gaps):
        i, c = gaps[int(rng.integers(len(gaps)))]
        P[i, int(P[i].argmax())] -= e
        P[i, c] = e
    ctx.case(P)
    if (P[P > 0] < 1e-7).any():
        ctx.tag("rare move")
    ctx.call("mfpt", ge.mfpt, P, fill_empty_classes=True)


@workload("C04", 150, 4500)
def passage_of_larger_matrices(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(7, 30)))
    if rng.random() < 0.03:
        P = gen.stochastic(rng, int(rng.integers(50, 75)), gen.pick(
            rng, "sparse", "dense", "perm", "absorbing"))
        ctx.tag("many states")
    ctx.case(P)
    ctx.call("mfpt", ge.mfpt, P)


@workload("C04", 480, 18000)
def passage_of_estimates(ctx):
    ids, args, lx = markov_case(ctx, k=int(ctx.rng.integers(1, 5)))
    ctx.case(lx, *args.values(), nontrivial=len(np.unique(lx)) > 1)
    m = ctx.call("Markov", gm.Markov, ids, **args)
    a = np.array(m.mfpt)
    m.steady_state
    ctx.exact("first passage times read twice", m.mfpt, a)


@workload("C04", 480, 18000)
def integer_matrices(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 6))
    P = np.zeros((k, k), dtype=int)
    P[np.arange(k), rng.integers(0, k, k) if rng.random() < 0.5
      else rng.permutation(k)] = 1
    ctx.case(P, nontrivial=k > 1)
    ctx.call("mfpt", ge.mfpt, P.astype(gen.pick(rng, "int64", "int8", "uint8")))


@workload("C04", 480, 18000)
def recurrence_and_relabelling(ctx):
    rng = ctx.rng
    P = gen.irreducible(rng, int(rng.integers(2, 9)))
    q = rng.permutation(len(P))
    ctx.case(P, q)
    M = np.asarray(ctx.call("mfpt", ge.mfpt, P))
    s = np.asarray(ctx.call("steady_state", ge.steady_state, P))
    ctx.eq("recurrence time is the inverse steady state", np.diag(M) * s,
           np.ones(len(P)), rtol=loose(P, 1e-6))
    N = np.asarray(ctx.call("mfpt", ge.mfpt, P[q][:, q]))
    ctx.eq("first passage times follow a relabelling", N, M[q][:, q],
           rtol=loose(P, 1e-6))


# ------------------------------------------------------------------- C05

prop(
    "C05",
    "seeded irreducible matrices, periodic ones included; k<=5 against exact second "
    "moments over rationals, k<=15 by a float linear solve of the second-moment "
    "equations; non-trivial: k>=2",
    floors={"periodic": 5, "exact": 60, "solved": 10, "many states": 10,
            "small variances": 100},
    assumptions=["the chain is irreducible, as the API requires"],
)


@monitor("C05", "var_mfpt_ergodic")
def variance_fn(ctx, ev):
    P = np.asarray(ev.a["p"], dtype=float)
    k = len(P)
    got = np.asarray(ev.result, dtype=float)
    ctx.check(got.shape == (k, k), "variance: shape", got=got)
    if k <= 5:
        M, V = ref.passage_moments(exact_chain(P), second=True)
        M = np.array([[float(v) for v in r] for r in M])
        V = np.array([[float(v) for v in r] for r in V])
        ctx.tag("exact")
    else:
        M, V = np.zeros((k, k)), np.zeros((k, k))
        for t in range(k):
            Q = P.copy()
            Q[:, t] = 0
            m = np.linalg.solve(np.eye(k) - Q, np.ones(k))
            s = np.linalg.solve(np.eye(k) - Q, 1 + 2 * Q @ m)
            M[:, t], V[:, t] = m, s - m * m
        ctx.tag("solved")
    # cancellation in any formula is relative to the squared means
    big = 1e-12 * k * float(M.max()) ** 2
    ok = np.abs(got - V) <= 1e-7 * (M * M) + 1e-6 * np.abs(V) + 1e-9 + big
    if M.max() < 100:  # well-conditioned: small variances count too
        ok &= np.abs(got - V) <= 1e-10 * M.max() ** 2 + 1e-8 * np.abs(V)
        if V[V > 0].size and V[V > 0].min() < 1e-2:
            ctx.tag("small variances")
    ctx.check(ok.all(), "variance of first passage times", got=got, want=V, P=P)
    if k > 1 and ref.period(P.tolist()) > 1:
        ctx.tag("periodic")


@workload("C05", 1800, 60000)
def variances(ctx):
    rng = ctx.rng
    P = gen.irreducible(rng, int(rng.integers(1, 6)))
    ctx.case(P, nontrivial=len(P) > 1)
    ctx.call("var_mfpt_ergodic", ge.var_mfpt_ergodic, variant(rng, P))


@workload("C05", 100, 3000)
def nearly_certain_moves(ctx):
    """Cycles that are rarely left: variances far below the squared means."""
    rng = ctx.rng
    k = int(rng.integers(2, 9))
    p = rng.permutation(k)
    e = 10.0 ** -rng.integers(2, 8, k) * (rng.random(k) < 0.7)
    P = np.zeros((k, k))
    P[p, np.roll(p, 1)] = 1 - e
    P[np.arange(k), rng.integers(0, k, k) if rng.random() < 0.5 else np.arange(k)] += e[
        np.argsort(p)]
    ctx.case(P)
    ctx.call("var_mfpt_ergodic", ge.var_mfpt_ergodic, P)


@workload("C05", 360, 12000)
def larger_variances(ctx):
    rng = ctx.rng
    P = gen.irreducible(rng, int(rng.integers(6, 16)))
    if rng.random() < 0.05:
        P = gen.stochastic(rng, int(rng.integers(32, 70)), "dense")
        ctx.tag("many states")
    q = rng.permutation(len(P))
    ctx.case(P)
    a = np.asarray(ctx.call("var_mfpt_ergodic", ge.var_mfpt_ergodic, P))
    b = np.asarray(ctx.call("var_mfpt_ergodic", ge.var_mfpt_ergodic, P[q][:, q]))
    ctx.eq("variances follow a relabelling", b, a[q][:, q], rtol=1e-5,
           atol=1e-5 + 1e-10 * float(np.abs(a).max()))


# ------------------------------------------------------------------- C06

prop(
    "C06",
    "seeded transition matrices with certain, near-certain and empty rows, and chains "
    "estimated from panels; non-trivial: k>=2",
    floors={"absorbing": 40, "empty rows": 15, "near one": 10, "from Markov": 40,
            "none absorbing": 30, "many states": 20},
)


def check_sojourn(ctx, name, got, P):
    P = np.asarray(P, dtype=float)
    want = []
    for i in range(len(P)):
        pii = 1.0 if not P[i].any() else float(P[i, i])
        want.append(math.inf if pii == 1 else float(1 / (1 - Fr(pii))))
    ctx.eq(f"{name}: 1/(1-p_ii), infinite exactly for absorbing states", got, want,
           rtol=1e-9, atol=0, P=P)
    inf = [i for i, v in enumerate(want) if v == math.inf]
    ctx.tag("absorbing" if inf else "none absorbing")
    if (P.sum(axis=1) == 0).any():
        ctx.tag("empty rows")
    if any(v > 1e6 and v != math.inf for v in want):
        ctx.tag("near one")
    return inf


@monitor("C06", "sojourn_time")
def sojourn_fn(ctx, ev):
    inf = check_sojourn(ctx, "sojourn_time", ev.result, ev.a["p"])
    if not ev.a["summary"] or not inf:
        ctx.check(ev.out == "", "unexpected message about absorbing states", out=ev.out)
    else:
        m = re.search(r"states? \[(.*)\]", ev.out.replace("np.int64", ""), re.S)
        ctx.check(m is not None, "no message about absorbing states", out=ev.out)
        got = [int(v) for v in re.findall(r"\d+", m[1])]
        ctx.check(got == inf, "message lists other absorbing states", out=ev.out,
                  want=inf)


@monitor("C06", "Markov")
def sojourn_attr(ctx, ev):
    m = ev.result
    T = np.asarray(m.transitions, dtype=float)
    s = T.sum(axis=1, keepdims=True)
    check_sojourn(ctx, "Markov.sojourn_time", m.sojourn_time,
                  T / np.where(s == 0, 1, s))
    ctx.tag("from Markov")


@workload("C06", 2400, 75000)
def sojourn_of_matrices(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(1, 9)))
    if rng.random() < 0.01:
        P = gen.stochastic(rng, int(rng.integers(40, 300)), gen.pick(
            rng, "sparse", "sticky", "absorbing"))
        ctx.tag("many states")
    if rng.random() < 0.25:
        P = gen.empty_rows(rng, P)
    if len(P) > 1 and rng.random() < 0.2:  # almost absorbing
        e = 10.0 ** -int(rng.integers(6, 15))
        i = int(rng.integers(len(P)))
        P[i] = 0
        P[i, i] = 1 - e
        P[i, (i + 1) % len(P)] = e
    ctx.case(P, nontrivial=len(P) > 1)
    ctx.call("sojourn_time", gm.sojourn_time, variant(rng, P),
             summary=bool(rng.integers(2)))


@workload("C06", 720, 22500)
def sojourn_of_estimates(ctx):
    ids, args, lx = markov_case(ctx)
    ctx.case(lx, *args.values(), nontrivial=len(np.unique(lx)) > 1)
    ctx.call("Markov", gm.Markov, ids, **args)


@workload("C06", 360, 12000)
def sojourn_of_stayers(ctx):
    rng = ctx.rng
    m, move = int(rng.integers(1, 500)), int(rng.integers(0, 2))
    x = np.zeros((m, 2), int)
    x = np.vstack([x, [[1, 0]]] + [[[0, 1]]] * move)
    ctx.case(x)
    ctx.call("Markov", gm.Markov, x, summary=False)


# ------------------------------------------------------------------- C07

prop(
    "C07",
    "seeded transition matrices (k<=10) and initial distributions; every measure; "
    "non-trivial: k>=2",
    floors={"P": 20, "D": 20, "L2": 20, "B1": 20, "B2": 20, "given ini": 20,
            "default ini": 20, "prais": 40, "many states": 10},
)


def det(A):
    """Determinant over Fractions."""
    A = [list(r) for r in A]
    n, d = len(A), Fr(1)
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return Fr(0)
        if p != c:
            A[c], A[p] = A[p], A[c]
            d = -d
        d *= A[c][c]
        for r in range(c + 1, n):
            f = A[r][c] / A[c][c]
            A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return d


@monitor("C07", "markov_mobility")
def mobility_formula(ctx, ev):
    P = [[Fr(v) for v in r] for r in np.asarray(ev.a["p"], dtype=float).tolist()]
    k = len(P)
    ini = ev.a["ini"]
    pi = [Fr(1, k)] * k if ini is None else [
        Fr(v) for v in np.asarray(ini, dtype=float).tolist()]
    m = ev.a["measure"]
    tol = 1e-9
    if m == "P":
        want = (k - sum(P[i][i] for i in range(k))) / Fr(k - 1)
    elif m == "D":
        want = 1 - abs(det(P))
    elif m == "L2":
        # companion of deflation: |lambda_2| from the characteristic polynomial
        ev_ = sorted(np.abs(np.linalg.eigvals(np.asarray(P, dtype=float))))
        want, tol = 1 - ev_[-2], 1e-5
    elif m == "B1":
        want = (k - k * sum(pi[i] * P[i][i] for i in range(k))) / Fr(k - 1)
    else:
        want = sum(pi[i] * P[i][j] * abs(i - j) for i in range(k)
                   for j in range(k)) / Fr(k - 1)
    ctx.eq(f"mobility {m}", float(np.real(ev.result)), float(want), rtol=tol, atol=tol,
           P=ev.a["p"], ini=ini)
    ctx.check(np.imag(ev.result) == 0, "complex mobility", got=ev.result)
    ctx.tag(m)
    if m in ("B1", "B2"):
        ctx.tag("default ini" if ini is None else "given ini")


@monitor("C07", "prais")
def prais_formula(ctx, ev):
    P = np.asarray(ev.a["pmat"], dtype=float)
    ctx.eq("prais", ev.result, [1 - P[i, i] for i in range(len(P))], rtol=1e-12,
           atol=1e-15)
    ctx.tag("prais")


@workload("C07", 3000, 90000)
def mobility_measures(ctx):
    rng = ctx.rng
    P = gen.stochastic(rng, int(rng.integers(2, 11)))
    if rng.random() < 0.005:
        P = gen.stochastic(rng, int(rng.integers(20, 33)))
        ctx.tag("many states")
    k = len(P)
    ini = None
    if rng.random() < 0.6:
        ini = rng.integers(0, 9, k).astype(float)
        ini[int(rng.integers(k))] += 1
        ini /= ini.sum()
        if rng.random() < 0.3:
            ini = np.eye(k)[int(rng.integers(k))]
    m = gen.pick(rng, "P", "D", "L2", "B1", "B2")
    ctx.case(P, m, ini)
    kw = {"measure": m}
    if ini is not None:
        kw["ini"] = ini
    if m == "P" and rng.random() < 0.3:
        kw.pop("measure")  # the default
    v = ctx.call("markov_mobility", gmob.markov_mobility, variant(rng, P), **kw)
    ctx.call("prais", gm.prais, variant(rng, P))
    if m in ("P", "D", "L2"):
        q = rng.permutation(k)
        u = ctx.call("markov_mobility", gmob.markov_mobility, P[q][:, q], measure=m)
        ctx.eq("index unchanged by relabelling states", u, v, rtol=1e-5, atol=1e-5)


@workload("C07", 360, 9000)
def extremes(ctx):
    rng = ctx.rng
    k = int(rng.integers(2, 9))
    ctx.case(k)
    for m in ("P", "D", "L2", "B1", "B2"):
        v = ctx.call("markov_mobility", gmob.markov_mobility, np.eye(k), measure=m)
        ctx.eq(f"immobility under {m}", v, 0.0, atol=1e-12)
    E = np.full((k, k), 1.0 / k)
    for m, want in (("P", 1), ("D", 1), ("L2", 1), ("B1", 1)):
        v = ctx.call("markov_mobility", gmob.markov_mobility, E, measure=m)
        ctx.eq(f"equal opportunity under {m}", v, want, atol=1e-6)


# ------------------------------------------------------------------- C08

prop(
    "C08",
    "seeded 2-d and 3-d stacks of (sub)stochastic matrices with any pattern of empty "
    "rows, floats and integers; non-trivial: at least one empty row",
    floors={"2d": 40, "3d": 40, "no empty": 10, "rejected": 10, "all empty": 3,
            "tiny rows": 40, "large": 20},
)


@monitor("C08", "fill_empty_diagonals")
def filled(ctx, ev):
    p = np.asarray(ev.a["p"])
    want = np.array(p)
    it = [()] if p.ndim == 2 else [(i,) for i in range(len(p))]
    ne = 0
    for ix in it:
        for j in range(p.shape[-1]):
            if not p[ix][j].any():
                want[ix][j, j] = 1
                ne += 1
    ctx.exact("fill_empty_diagonals", ev.result, want)
    ctx.check(not ev.mutated(), "fill_empty_diagonals changed its input",
              before=ev.a["p"], after=ev.post["p"])
    ctx.tag("2d" if p.ndim == 2 else "3d", None if ne else "no empty",
            "all empty" if not p.any() else None)


@workload("C08", 1800, 60000)
def fill_rows_of_zeros(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 8))
    big = rng.random() < 0.02
    if rng.random() < 0.1:
        a = np.ones(gen.pick(rng, (k,), (1, 2, k, k)))
        ctx.case(a, nontrivial=False)
        ctx.raises("fill_empty_diagonals", NotImplementedError,
                   gu.fill_empty_diagonals, a)
        ctx.tag("rejected")
        return
    m = int(rng.integers(1, 5))
    if big:
        k, m = gen.pick(rng, (2, 300), (70, 2), (12, 40), (130, 1))
        ctx.tag("large")
    P = np.array([gen.stochastic(rng, k) for _ in range(m)])
    P[rng.random((m, k)) < gen.pick(rng, 0, 0.3, 0.6, 1)] = 0
    if rng.random() < 0.5:
        P = P[0]
    u = rng.random()
    if u < 0.2:
        P = (P > 0).astype(int)
    elif u < 0.5:  # rows that are tiny but not empty
        r = rng.random(P.shape[:-1]) < 0.4
        P[r] *= 10.0 ** -float(rng.integers(3, 300))
        if P[r].any():
            ctx.tag("tiny rows")
    ctx.case(P, nontrivial=bool((~P.any(axis=-1)).any()))
    a = P.tolist() if rng.random() < 0.2 else gen.layout(rng, P)
    r = ctx.call("fill_empty_diagonals", gu.fill_empty_diagonals, a)
    ctx.exact("filling twice changes nothing",
              ctx.call("fill_empty_diagonals", gu.fill_empty_diagonals, r), r)


@workload("C08", 480, 15000)
def policy_of_empty_rows(ctx):
    """Reject by default, treat as absorbing on request: same for every entry point."""
    rng = ctx.rng
    P = gen.empty_rows(rng, gen.stochastic(rng, int(rng.integers(2, 7))))
    if not (P.sum(axis=1) == 0).any():
        raise Skip
    F = np.array(P)
    for i in range(len(F)):
        if not F[i].any():
            F[i, i] = 1
    ctx.case(P)
    for api, fn in (("steady_state", ge.steady_state), ("mfpt", ge.mfpt)):
        ctx.raises(api, ValueError, fn, P)
        ctx.tag("rejected")
        a = ctx.call(api, fn, P, fill_empty_classes=True)
        b = ctx.call(api, fn, F)
        ctx.eq(f"{api}: empty rows are absorbing", a, b, rtol=loose(P, 1e-9))
    ctx.eq("sojourn_time: empty rows are absorbing",
           ctx.call("sojourn_time", gm.sojourn_time, P, summary=False),
           ctx.call("sojourn_time", gm.sojourn_time, F, summary=False))


# ------------------------------------------------------------------- C28

prop(
    "C28",
    "seeded transition matrices through every deprecated name and its replacement; "
    "non-trivial: k>=2",
    floors={"fmpt": 20, "var_fmpt_ergodic": 20},
)


def announced(ctx, ev, old, new):
    """One deprecation warning, which names the routine that replaces the old one."""
    msg = [str(m) for c, m in ev.warned if c == "DeprecationWarning"]
    ctx.check(len(msg) > 0, f"{old} does not announce its deprecation")
    ctx.check(any(re.search(rf"(?<!\w){new}(?!\w)", m) for m in msg),
              f"the warning of {old} does not name {new}", got=msg)


@workload("C28", 720, 22500)
def deprecated_names(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 7))
    if rng.random() < 0.01:
        k = 40
    P = gen.stochastic(rng, k)
    fill = bool(rng.integers(2))
    if fill and rng.random() < 0.5:
        P = gen.empty_rows(rng, P)
    ctx.case(P, nontrivial=k > 1)
    kw = {"fill_empty_classes": gen.pick(rng, fill, int(fill), np.bool_(fill))}
    args = () if rng.random() < 0.5 else (kw.pop("fill_empty_classes"),)
    if not fill and rng.random() < 0.3:
        args, kw = (), {}
    P_ = variant(rng, P)
    old = ctx.event("fmpt", ge.fmpt, P_, *args, **kw)
    new = ctx.event("mfpt", ge.mfpt, P_, *args, **kw)
    ctx.eq("fmpt equals mfpt", old.result, new.result, rtol=1e-12)
    announced(ctx, old, "fmpt", "mfpt")
    ctx.check(not any(c == "DeprecationWarning" for c, _ in new.warned),
              "mfpt announces a deprecation")
    ctx.tag("fmpt")
    if not fill:
        Z = gen.empty_rows(rng, P)
        if (Z.sum(axis=1) == 0).any():
            ctx.raises("fmpt", ValueError, ge.fmpt, Z)
    Q_ = gen.irreducible(rng, k)
    Q = variant(rng, Q_)
    old = ctx.event("var_fmpt_ergodic", ge.var_fmpt_ergodic, Q)
    new = ctx.event("var_mfpt_ergodic", ge.var_mfpt_ergodic, Q)
    ctx.eq("var_fmpt_ergodic equals var_mfpt_ergodic", old.result, new.result,
           rtol=1e-12)
    announced(ctx, old, "var_fmpt_ergodic", "var_mfpt_ergodic")
    ctx.check(not any(c == "DeprecationWarning" for c, _ in new.warned),
              "var_mfpt_ergodic announces a deprecation")
    ctx.tag("var_fmpt_ergodic")
    if hasattr(ge, "_fmpt_ergodic") and hasattr(ge, "_mfpt_ergodic"):
        old = ctx.event("_fmpt_ergodic", ge._fmpt_ergodic, Q)
        ctx.eq("_fmpt_ergodic equals mfpt of an irreducible chain", old.result,
               ge.mfpt(Q), rtol=loose(Q_, 1e-9))
        announced(ctx, old, "_fmpt_ergodic", "_mfpt_ergodic")


_ = (Fail, warnings)
