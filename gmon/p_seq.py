"""C24-C25: optimal matching distances between sequences."""

import itertools

import numpy as np

from giddy.sequence import Sequence

from . import gen, ref
from .core import Skip, monitor, prop, workload

# ------------------------------------------------------------------- C24

prop(
    "C24",
    "seeded sets of sequences (1..9 sequences of length 1..12, equal or ragged, 1..14 "
    "labels of integer, negative, string, numeric-string and wide types, repeats) for "
    "every distance type and user costs; every pair against a shortest-path search "
    "over alignments; non-trivial: two different sequences",
    floors={"interval": 60, "arbitrary": 60, "hamming": 60, "markov": 60, "tran": 60,
            "user costs": 120, "ragged": 150, "repeats": 100, "more than ten labels": 40,
            "strings": 100, "rejected": 60, "upper case": 20,
            "long": 50, "many kinds": 8, "empty sequence": 60, "run together": 100,
            "late difference": 6, "thousands of labels": 6,
            "labels far apart": 6},
    assumptions=["substitution costs are symmetric and hollow, indel is non-negative",
                 "Markov and transition distances are for sequences of equal length"],
)


def codes_of(y):
    seqs = [list(s) for s in y]
    classes = sorted({v for s in seqs for v in s})
    pos = {v: i for i, v in enumerate(classes)}
    return classes, [[pos[v] for v in s] for s in seqs]


def expected(y, dist, subs, indel):
    """(distance function, substitution matrix, indel) by definition."""
    classes, seqs = codes_of(y)
    k = len(classes)
    if dist is None:
        S = np.asarray(subs, dtype=float)
        return (lambda a, b: ref.om(a, b, lambda i, j: S[i, j], indel)), S, indel
    if dist == "interval":
        S = np.abs(np.subtract.outer(np.arange(k), np.arange(k))).astype(float)
        ind = k - 1
    elif dist == "arbitrary":
        S, ind = (np.ones((k, k)) - np.eye(k)) / 2, 1
    elif dist == "markov":
        T = np.array(ref.counts(seqs, list(range(k))), dtype=float)
        s = T.sum(axis=1)
        p = np.array([T[i] / s[i] if s[i] else T[i] * 0 for i in range(k)])
        S, ind = 1 - (p + p.T) / 2, 1
        np.fill_diagonal(S, 0)
    elif dist == "hamming":
        return (lambda a, b: float(sum(i != j for i, j in zip(a, b)))), None, None
    else:
        return (lambda a, b: ref.om(ref.transitions_of(a), ref.transitions_of(b),
                                    ref.tran_cost, 2)), None, 2
    return (lambda a, b: ref.om(a, b, lambda i, j: S[i, j], ind)), S, ind


@monitor("C24", "Sequence")
def alignment_oracle(ctx, ev):
    r, a = ev.result, ev.a
    y = a["y"]
    user = a["subs_mat"] is not None and a["indel"] is not None
    dist = None if user else a["dist_type"].lower()
    classes, seqs = codes_of(y)
    k, n = len(classes), len(seqs)
    fn, S, ind = expected(y, dist, a["subs_mat"], a["indel"])
    ctx.check([str(v) for v in np.asarray(r.classes).tolist()]
              == [str(v) for v in classes], "classes are the sorted labels",
              got=r.classes, want=classes)
    ctx.check(r.k == k and r.n == n, "sizes", got=(r.k, r.n), want=(k, n))
    ctx.check({str(l): int(c) for l, c in r.label_dict.items()}
              == {str(c): i for i, c in enumerate(classes)}, "label codes",
              got=r.label_dict)
    if ind is not None:
        ctx.eq("indel cost", r.indel, ind)
    if S is not None:
        ctx.eq("substitution costs", r.subs_mat, S, rtol=1e-12, atol=1e-14)
    D = np.asarray(r.seq_dis_mat)
    ctx.check(D.shape == (n, n), "one distance per pair", got=D.shape)
    kinds = sorted({tuple(s) for s in seqs})
    at = {s: i for i, s in enumerate(kinds)}
    which = np.array([at[tuple(s)] for s in seqs], dtype=int)
    W = np.zeros((len(kinds),) * 2)
    for i, j in itertools.combinations(range(len(kinds)), 2):
        W[i, j] = W[j, i] = fn(list(kinds[i]), list(kinds[j]))
    # what a sequence is away from an equal one: nothing, at any place but its own
    for i, s in enumerate(kinds):
        if np.count_nonzero(which == i) > 1:
            W[i, i] = fn(list(s), list(s))
    want = W[np.ix_(which, which)]
    np.fill_diagonal(want, 0.0)
    ctx.eq("distances of all pairs of sequences", D, want, rtol=1e-9, atol=1e-10)
    ctx.tag(dist or "user costs",
            "ragged" if len({len(s) for s in seqs}) > 1 else None,
            "repeats" if len({tuple(s) for s in seqs}) < n else None,
            "more than ten labels" if k > 10 else None,
            "strings" if isinstance(classes[0], str) else None,
            "empty sequence" if not all(seqs) else None)
    if a["dist_type"] and a["dist_type"] != a["dist_type"].lower():
        ctx.tag("upper case")
    if sum(map(len, seqs)) > 5000:
        ctx.tag("thousands of labels")
    if len(kinds) > 1:
        ctx.nontrivial = True


def label_maker(rng, k):
    """k labels in a random order of appearance."""
    kind = gen.pick(rng, "int", "int", "neg", "chars", "words", "numstr", "wide",
                    "float", "odd")
    if kind == "int":
        lab = list(range(k))
    elif kind == "neg":
        lab = list(range(-(k // 2) - 1, k - k // 2 - 1))
    elif kind == "chars":
        lab = list("ACGTBDEFHIJKLM")[:k]
    elif kind == "words":
        lab = [f"type {'xyz'[i % 3]}{i}" for i in range(k)]
    elif kind == "numstr":
        lab = [str(i) for i in range(k)]
    elif kind == "wide":
        lab = [i * 1000 - 1500 for i in range(k)]
    elif kind == "odd":
        lab = ["", " ", "a", " a", "A", "É", "é", "中", "a b", "ab", "1", "01", "nan",
               "-"]
        lab = [lab[i] for i in rng.permutation(14)][:k]
    else:
        lab = [i / 2 - 0.75 for i in range(k)]
    return [lab[i] for i in rng.permutation(k)], kind


def sequences(rng, equal=None, k=None, n=None):
    """(labelled sequences in some container, labels used)."""
    n = n or int(rng.integers(1, 10))
    k = k or int(gen.pick(rng, 1, 2, 3, 4, 5, 11, 14))
    equal = rng.random() < 0.5 if equal is None else equal
    t = int(rng.integers(1, 10))
    lab, kind = label_maker(rng, k)
    rows = []
    for _ in range(n):
        m = t if equal else int(rng.integers(1, 13))
        c = int(rng.integers(5))
        if rows and not equal and rng.random() < 0.04:
            s = []
        elif rows and c == 0:
            s = list(rows[int(rng.integers(len(rows)))])
        elif rows and c == 1 and all(rows):  # an edited copy: shifts and gaps pay off
            s = list(rows[int(rng.integers(len(rows)))])
            q = int(rng.integers(len(s)))
            s = s[q:] + s[:q] if equal or rng.random() < 0.5 else s[:q] + s[q + 1:]
            s = s or [0]
        elif c == 2:
            s = np.sort(rng.integers(0, k, m)).tolist()
        else:
            s = rng.integers(0, k, m).tolist()
        rows.append([int(v) for v in s])
    eq = len({len(s) for s in rows}) == 1
    out = [[lab[v] for v in s] for s in rows]
    if eq and rng.random() < 0.7:
        y = np.array(out)
        if rng.random() < 0.1:  # as a data frame holds them
            y = np.array(out, dtype=object)
        elif kind == "int":
            y = y.astype(gen.pick(rng, "int64", "uint8", "int8", "int32"))
        y = gen.layout(rng, y)
    elif kind == "chars":
        y = ["".join(s) for s in out]
        if rng.random() < 0.5:
            y = out
    elif rng.random() < 0.4:
        y = [np.array(s) for s in out]
    else:
        y = out if rng.random() < 0.7 else [tuple(s) for s in out]
    return y, out, eq


def costs(rng, k, free=False):
    """Symmetric hollow substitution costs and an indel cost."""
    S = gen.pick(rng, rng.random((k, k)), rng.integers(1, 9, (k, k)) / 4.0,
                 rng.integers(1, 5, (k, k)), np.ones((k, k)))
    S = np.triu(S, 1)
    S = S + S.T
    indel = gen.pick(rng, float(rng.random()) + 0.01, 0.25, 1, 2, 10.0, 0.5)
    if free and rng.random() < 0.08:
        indel = gen.pick(rng, 0, 0.0)
    return gen.layout(rng, S), indel


@workload("C24", 900, 30000)
def named_distances(ctx):
    rng = ctx.rng
    dist = gen.pick(rng, "interval", "arbitrary", "hamming", "markov", "tran")
    need = dist in ("hamming", "markov", "tran")
    y, out, eq = sequences(rng, equal=True if need else None)
    if need and not eq:
        raise Skip
    if dist in ("markov",) and len(out[0]) < 2:
        raise Skip
    ctx.case(out, dist, nontrivial=False)
    name = gen.pick(rng, dist, dist, dist, dist.upper(), dist.capitalize())
    ctx.call("Sequence", Sequence, y, dist_type=name)


@workload("C24", 600, 20000)
def user_costs(ctx):
    rng = ctx.rng
    y, out, _ = sequences(rng)
    k = len({v for s in out for v in s})
    S, indel = costs(rng, k, True)
    if indel == 0:
        ctx.tag("free indels")
    ctx.case(out, S, indel, nontrivial=False)
    ctx.call("Sequence", Sequence, y, subs_mat=S, indel=indel,
             **({"cluster_type": "ward"} if rng.random() < 0.2 else {}))


@workload("C24", 4, 60)
def many_sequences(ctx):
    """Longer and more numerous sequences, as in neighbourhood studies."""
    rng = ctx.rng
    n, t, k = int(rng.integers(34, 70)), int(rng.integers(4, 14)), int(rng.integers(2, 13))
    x, _ = gen.label_panel(rng, n, t, k)
    dist = gen.pick(rng, "interval", "arbitrary", "hamming", "markov", "tran", None, None)
    kw = {"dist_type": dist}
    if dist is None:
        S, indel = costs(rng, len(np.unique(x)))
        kw = {"subs_mat": S, "indel": indel}
        if rng.random() < 0.4:  # all labels remain
            x = x[:, -1:].tolist() + x.tolist() + [s[: int(rng.integers(1, t + 1))]
                                                   for s in x.tolist()[:9]]
    ctx.case(x, dist, nontrivial=False)
    ctx.call("Sequence", Sequence, x, **kw)


@workload("C24", 12, 400)
def long_sequences(ctx):
    """Many periods and many kinds; empty sequences among ragged ones."""
    rng = ctx.rng
    n, k = int(rng.integers(2, 5)), int(gen.pick(rng, 2, 5, 30, 140, 300))
    dist = gen.pick(rng, "interval", "arbitrary", "hamming", None, None)
    if k <= 30:
        dist = gen.pick(rng, dist, "markov", "tran")
    t = int(rng.integers(15, 90))
    if k > 30:
        t = max(t, -(-k // n) + 1)
    eq = dist in ("hamming", "markov", "tran")
    rows = []
    for i in range(n):
        if rows and rng.random() < 0.5:  # shifted, with a few changes
            s = list(np.roll(rows[-1], int(rng.integers(1, 9))))
            for j in rng.integers(0, len(s), 3):
                s[j] = int(rng.integers(k))
        elif k > 30:
            s = ((rng.permutation(k)[:t]).tolist() * 2)[:t]
        else:
            s = rng.integers(0, k, t).tolist()
        rows.append([int(v) for v in s])
    if not eq:
        rows = [s[: int(rng.integers(0 if i else 1, len(s) + 1))] if rng.random() < 0.4
                else s for i, s in enumerate(rows)]
    u = len({v for s in rows for v in s})
    kw = {"dist_type": dist}
    if dist is None:
        S, indel = costs(rng, u)
        kw = {"subs_mat": S, "indel": indel}
    ctx.case(rows, dist, nontrivial=False)
    ctx.tag("long", "many kinds" if u > 127 else None)
    ctx.call("Sequence", Sequence, rows, **kw)


@workload("C24", 60, 1800)
def codes_that_run_together(ctx):
    """Different sequences whose codes, written one after the other, read alike."""
    rng = ctx.rng
    k = int(rng.integers(12, 24))
    a, b = int(rng.integers(1, 2 if k < 22 else 3)), int(rng.integers(0, min(10, k - 10)))
    c = int(rng.integers(0, k % 10 if a == k // 10 else 10))
    one, two = [a, 10 * a + c], [10 * a + a, c]  # 1,12 and 11,2
    if 10 * a + a >= k:
        one, two = [1, 11], [11, 1]
    pad = [int(v) for v in rng.integers(0, k, int(rng.integers(0, 4)))]
    rows = [pad + one, pad + two, one + pad, two + pad]
    if rng.random() < 0.4:
        rows += [[1, 1, *pad], [11, *pad]]
    eq = len({len(s) for s in rows}) == 1
    dist = gen.pick(rng, "interval", "arbitrary", None,
                    *(("hamming", "markov", "tran") if eq else ()))
    m, todo = len(rows[0]), [int(v) for v in rng.permutation(k)] + [b] * k
    for i in range(-(-k // m)):  # every label occurs
        rows.append(todo[i * m : (i + 1) * m])
    rows = [rows[i] for i in rng.permutation(len(rows))]
    kw = {"dist_type": dist}
    if dist is None:
        S, indel = costs(rng, k)
        kw = {"subs_mat": S, "indel": indel}
    lab = gen.pick(rng, list(range(k)), [f"n{i:02d}" for i in range(k)])
    ctx.case(rows, dist, nontrivial=False)
    ctx.tag("run together")
    ctx.call("Sequence", Sequence, [[lab[v] for v in s] for s in rows], **kw)


@workload("C24", 2, 40)
def late_differences(ctx):
    """Hundreds of periods alike, a difference near the end."""
    rng = ctx.rng
    t, k = int(rng.integers(130, 320)), int(gen.pick(rng, 2, 4, 12))
    dist = gen.pick(rng, "interval", "arbitrary", "hamming", "markov", "tran", None)
    s = [int(v) for v in rng.integers(0, k, t)]
    s[:k] = range(k)
    rows = [s, s[:-1] + [(s[-1] + 1) % k], list(s)]
    rows[2][t - int(rng.integers(2, 9))] = int(rng.integers(k))
    kw = {"dist_type": dist}
    if dist is None:
        S, indel = costs(rng, k)
        kw = {"subs_mat": S, "indel": indel}
    ctx.case(rows, dist, nontrivial=False)
    ctx.tag("late difference")
    ctx.call("Sequence", Sequence, rows, **kw)


@workload("C24", 2, 40)
def labels_far_apart(ctx):
    """More labels than a byte holds; rows whose codes differ by round numbers."""
    rng = ctx.rng
    k, t = int(rng.integers(280, 600)), int(rng.integers(20, 40))
    first = rng.permutation(k)
    far = gen.pick(rng, 100, 127, 128, 255, 256)
    rows = [first[a : a + t].tolist() for a in range(0, k - t + 1, t)]
    rows += [first[k - t :].tolist(), [(v + far) % k for v in rows[0]],
             [(v + 256) % k for v in rows[1]]]
    dist = gen.pick(rng, "hamming", "hamming", "interval", "arbitrary")
    if dist != "hamming":
        rows = rows[-6:] + [list(range(a, min(k, a + t))) for a in range(0, k, t)]
    ctx.case(rows, dist, nontrivial=False)
    ctx.tag("labels far apart")
    ctx.call("Sequence", Sequence, rows, dist_type=dist)


@workload("C24", 2, 40)
def cohorts(ctx):
    """Hundreds of sequences, few of them different, thousands of labels."""
    rng = ctx.rng
    k, t = int(gen.pick(rng, 3, 6, 12)), int(rng.integers(6, 20))
    lab, _ = label_maker(rng, k)
    n = int(rng.integers(5200 // t, 9000 // t))
    few = [[int(v) for v in rng.integers(0, k, t)] for _ in range(int(rng.integers(4, 12)))]
    few[0][:t] = ([int(v) for v in rng.permutation(k)] * t)[:t]
    few += [s[: int(rng.integers(1, t))] for s in few[:2]] if rng.random() < 0.4 else []
    eq = len({len(s) for s in few}) == 1
    if k > t:
        few.append([v for v in range(k)][-t:])
    dist = gen.pick(rng, "interval", "arbitrary", None,
                    *(("hamming", "hamming", "markov", "tran") if eq else ()))
    rows = [few[int(i)] for i in rng.integers(0, len(few), n)]
    rows += few
    kw = {"dist_type": dist}
    if dist is None:
        S, indel = costs(rng, len({v for s in rows for v in s}))
        kw = {"subs_mat": S, "indel": indel}
    y = [[lab[v] for v in s] for s in rows]
    if eq and rng.random() < 0.5:
        y = np.array(y)
    ctx.case(y, dist, nontrivial=False)
    ctx.call("Sequence", Sequence, y, **kw)


@workload("C24", 1, 12)
def very_long_sequences(ctx):
    """Thousands of periods that differ at the very end only."""
    rng = ctx.rng
    t = int(rng.integers(2060, 2200))
    head = rng.integers(0, 3, t).tolist()
    rows = [head + [0] * 3, head + [1, 0, 2][: int(rng.integers(1, 4))]]
    rows += [list(rows[int(rng.integers(2))])]
    dist = gen.pick(rng, "interval", "arbitrary")
    ctx.case(rows, dist, nontrivial=False)
    ctx.call("Sequence", Sequence, rows, dist_type=dist)
    ctx.tag("very long")


@workload("C24", 150, 2000)
def improper_requests(ctx):
    rng = ctx.rng
    y, out, eq = sequences(rng, n=int(rng.integers(2, 6)))
    k = len({v for s in out for v in s})
    S, indel = costs(rng, k)
    c = int(rng.integers(5))
    ctx.case(out, c)
    if c == 0:
        kw = {}
    elif c == 1:
        kw = {"subs_mat": S}
    elif c == 2:
        kw = {"indel": indel}
    elif c == 3:
        kw = {"dist_type": gen.pick(rng, "", "levenshtein", "om", "ham ming")}
    else:
        if eq:
            raise Skip
        kw = {"dist_type": "hamming"}
    ctx.raises("Sequence", ValueError, Sequence, y, **kw)
    ctx.tag("rejected")


# ------------------------------------------------------------------- C25

prop(
    "C25",
    "the sets of sequences of C24 and their reordered, relabelled, reversed, extended "
    "and rescaled copies; non-trivial: two different sequences",
    floors={"metric": 200, "order": 200, "relabelled": 80, "reversed": 80,
            "scaled": 80, "triangle": 60, "hamming bound": 60, "subset": 80,
            "indel dominates": 40, "beginning": 6},
    assumptions=["substitution costs are symmetric and hollow, indel is positive"],
)


def build(ctx, y, kw):
    return np.asarray(ctx.call("Sequence", Sequence, y, **kw).seq_dis_mat)


@workload("C25", 500, 16000)
def metric_and_equivariance(ctx):
    rng = ctx.rng
    user = rng.random() < 0.5
    equal = rng.random() < 0.6
    y, out, eq = sequences(rng, equal=equal, n=int(rng.integers(
        2, 9) if rng.random() < 0.98 else rng.integers(32, 45)))
    k = len({v for s in out for v in s})
    if user:
        S, indel = costs(rng, k)
        kw = {"subs_mat": S, "indel": indel}
    else:
        S, indel = None, None
        kw = {"dist_type": gen.pick(rng, "interval", "arbitrary", *(
            ("hamming", "tran") + (("markov",) if len(out[0]) > 1 else ())
            if eq else ()))}
    ctx.case(out, kw, nontrivial=len({tuple(s) for s in out}) > 1)
    D = build(ctx, y, kw)
    n = len(out)
    ctx.eq("symmetric", D, D.T, rtol=1e-12)
    ctx.check((np.diag(D) == 0).all() and (D >= 0).all(), "zero diagonal, non-negative",
              got=D)
    pos_cost = user and k > 1 and np.asarray(S)[~np.eye(k, dtype=bool)].min() > 0
    for i, j in itertools.combinations(range(n), 2):
        if out[i] == out[j]:
            ctx.check(D[i, j] == 0, "identical sequences", got=D[i, j])
        elif pos_cost or (not user and k > 1 and kw["dist_type"] in ("interval", "arbitrary",
                                                           "hamming")):
            ctx.check(D[i, j] > 0, "different sequences are apart", pair=(out[i], out[j]))
    ctx.tag("metric")
    # reordering the sequences
    q = rng.permutation(n)
    D2 = build(ctx, [out[i] for i in q], kw)
    ctx.eq("reordering sequences", D2, D[np.ix_(q, q)], rtol=1e-10, atol=1e-10)
    ctx.tag("order")
    # reversing time: every kind but the Markov and transition ones
    if user or kw["dist_type"] in ("interval", "arbitrary", "hamming"):
        D3 = build(ctx, [s[::-1] for s in out], kw)
        ctx.eq("reversing time", D3, D, rtol=1e-10, atol=1e-10)
        ctx.tag("reversed")
    # an order-preserving relabelling; any relabelling with permuted costs
    classes = sorted({v for s in out for v in s})
    new = {c: f"{chr(97 + i)}{i % 3}" for i, c in enumerate(classes)}
    D4 = build(ctx, [[new[v] for v in s] for s in out], kw)
    ctx.eq("renaming labels in order", D4, D, rtol=1e-10, atol=1e-10)
    if user or kw["dist_type"] != "interval":
        p = rng.permutation(k)
        lab = {c: int(p[i]) + 3 for i, c in enumerate(classes)}
        kw5 = dict(kw)
        if user:
            inv = np.argsort(p)
            kw5["subs_mat"] = np.asarray(S)[np.ix_(inv, inv)]
        D5 = build(ctx, [[lab[v] for v in s] for s in out], kw5)
        ctx.eq("renaming labels freely", D5, D, rtol=1e-10, atol=1e-10)
    ctx.tag("relabelled")
    if user:
        c = gen.pick(rng, 2.0, 0.5, 8.0, 2.0**-45, 2.0**40)
        D6 = build(ctx, out, {"subs_mat": np.asarray(S) * c, "indel": indel * c})
        ctx.eq("costs scale the distances", D6, c * D, rtol=1e-10, atol=1e-10 * c)
        ctx.tag("scaled")
        # a metric cost gives a metric distance
        Sm = np.minimum(np.asarray(S, dtype=float), 2 * indel)
        np.fill_diagonal(Sm, 0)
        for a in range(k):
            Sm = np.minimum(Sm, Sm[:, [a]] + Sm[[a], :])
        Dm = build(ctx, out, {"subs_mat": Sm, "indel": indel})
        for a in range(n):
            ctx.check((Dm <= Dm[:, [a]] + Dm[[a], :] + 1e-9).all(),
                      "triangle inequality", got=Dm)
        ctx.tag("triangle")
        # adding unrelated sequences of known labels leaves distances alone
        extra = [out[int(rng.integers(n))] + [classes[0]]]
        D7 = build(ctx, out + extra, kw)
        ctx.eq("other sequences do not matter", D7[:n, :n], D, rtol=1e-10, atol=1e-10)
        ctx.tag("subset")
        if eq:
            total = float(np.asarray(S, dtype=float).max()) * len(out[0]) + 1
            D8 = build(ctx, out, {"subs_mat": S, "indel": total})
            want = [[sum(float(S[classes.index(a), classes.index(b)])
                         for a, b in zip(s, u)) for u in out] for s in out]
            ctx.eq("prohibitive gaps: position by position", D8, want, rtol=1e-10,
                   atol=1e-10)
            ctx.tag("indel dominates")
    if eq and user is False and kw["dist_type"] in ("arbitrary", "interval"):
        H = build(ctx, out, {"dist_type": "hamming"})
        f = 0.5 if kw["dist_type"] == "arbitrary" else k - 1
        ctx.check((D <= f * H + 1e-9).all(), "never above position-wise substitution",
                  got=D, hamming=H)
        ctx.tag("hamming bound")
    if user:
        L = np.array([len(s) for s in out])
        ctx.check((D >= indel * np.abs(L[:, None] - L) - 1e-9).all()
                  and (D <= indel * (L[:, None] + L) * (1 - np.eye(n)) + 1e-9).all(),
                  "between the length difference and total replacement", got=D)


@workload("C25", 6, 200)
def one_begins_the_other(ctx):
    """Long sequences that only differ in how long they go on (or began)."""
    rng = ctx.rng
    k = int(gen.pick(rng, 2, 3, 11))
    t = int(gen.pick(rng, 20, 35, 70, 130))
    s = rng.integers(0, k, t).tolist()
    s[-k:] = rng.permutation(k).tolist()
    stay = gen.pick(rng, 0, k - 1, s[-1])
    more = [0, 1, int(rng.integers(2, 9)), t // 3]
    rows = [s + [stay] * m for m in more] + [s + [stay]]
    q = rng.permutation(len(rows))
    rows, more = [rows[i] for i in q], [(more + [1])[i] for i in q]
    if rng.random() < 0.5:
        rows = [r[::-1] for r in rows]
    kind = gen.pick(rng, "interval", "arbitrary", None)
    if kind is None:
        S, indel = costs(rng, k)
        kw = {"subs_mat": S, "indel": indel}
    else:
        kw, indel = {"dist_type": kind}, {"interval": k - 1, "arbitrary": 1}[kind]
    ctx.case(rows, kw)
    want = [[indel * abs(a - b) for a in more] for b in more]
    ctx.eq("beginnings are as far as what is missing", build(ctx, rows, kw), want,
           rtol=1e-9, atol=1e-9)
    ctx.tag("beginning")
