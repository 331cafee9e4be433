"""Workload generators (all randomness from the generator passed in)."""

import libpysal
import numpy as np
from libpysal.weights import W, lat2W

INT_TYPES = ["int64", "int32", "int16", "int8", "uint8", "uint16", "uint32"]


def pick(rng, *items):
    return items[int(rng.integers(len(items)))]


def layout(rng, a):
    """Same values, other memory layout / flags."""
    c = int(rng.integers(6))
    if c == 0:
        return np.asfortranarray(a)
    if c == 1:
        b = np.empty(tuple(2 * s for s in a.shape), dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if c == 2:
        b = np.array(a[::-1])[::-1]
        return b
    if c == 3:
        b = np.array(a)
        b.flags.writeable = False
        return b
    return np.array(a)


# ----------------------------------------------------------------- chains


def stochastic(rng, k, kind=None):
    """k x k transition matrix of rationals with modest denominators."""
    kind = kind or pick(
        rng, "dense", "dense", "sparse", "banded", "periodic", "reducible",
        "reducible", "absorbing", "sticky", "onerec", "perm", "near",
    )
    if kind == "near" and k > 1:
        return nearly_decomposable(rng, k)
    C = np.zeros((k, k), dtype=int)
    if kind == "dense":
        C = rng.integers(1, 20, (k, k))
    elif kind == "sparse":
        C = rng.integers(1, 9, (k, k)) * (rng.random((k, k)) < 1.6 / k)
        if rng.random() < 0.7:  # a cycle makes it irreducible
            p = rng.permutation(k)
            C[p, np.roll(p, 1)] += rng.integers(1, 9, k)
    elif kind == "banded":
        C = rng.integers(1, 30, (k, k))
        i = np.arange(k)
        C[abs(i[:, None] - i) > 1] = 0
    elif kind == "periodic":
        d = int(rng.integers(2, max(3, min(4, k) + 1))) if k > 1 else 1
        g = rng.permutation(np.arange(k) % d)
        C = rng.integers(1, 9, (k, k)) * ((g[:, None] + 1) % d == g)
    elif kind in ("reducible", "onerec"):
        nb = 1 if kind == "onerec" else int(rng.integers(2, max(3, min(4, k) + 1)))
        lab = rng.integers(0, nb + 1, k)  # nb = transient states
        lab[0] = 0
        C = rng.integers(1, 9, (k, k)) * (rng.random((k, k)) < 0.7)
        C = C * (lab[:, None] == lab)
        for b in range(nb):
            ix = np.flatnonzero(lab == b)
            if len(ix):
                ix = rng.permutation(ix)
                C[ix, np.roll(ix, 1)] += 1
        tr = np.flatnonzero(lab == nb)
        for i in tr:
            C[i, rng.integers(0, k, int(rng.integers(1, 4)))] += rng.integers(1, 9)
        q = rng.permutation(k)
        C = C[q][:, q]
    elif kind == "absorbing":
        C = rng.integers(0, 9, (k, k))
        for i in rng.permutation(k)[: int(rng.integers(1, k + 1))]:
            C[i] = 0
            C[i, i] = rng.integers(1, 60)
    elif kind == "sticky":
        C = rng.integers(0, 3, (k, k)) + np.diag(rng.integers(50, 2000, k))
    elif kind == "perm":
        C[np.arange(k), rng.permutation(k)] = 1
    C = C.astype(float)
    for i in range(k):
        if C[i].sum() == 0:
            C[i, int(rng.integers(k))] = 1
    return C / C.sum(axis=1)[:, None]


def nearly_decomposable(rng, k, low=7, deep=False):
    """Irreducible: two groups of states, rarely left for the other one."""
    C = rng.integers(1, 9, (k, k)).astype(float)
    a = rng.permutation(k) < int(rng.integers(1, k))
    e = 10.0 ** -int(rng.integers(2, low + 1))
    if deep and rng.random() < 0.2:
        e = 10.0 ** -int(rng.integers(8, 16))
    C[a[:, None] != a] *= e
    if rng.random() < 0.3:  # one way out of either group
        B = np.where(a[:, None] == a, C, 0)
        i, j = np.flatnonzero(a), np.flatnonzero(~a)
        for u, v in ((i, j), (j, i)):
            B[rng.choice(u), rng.choice(v)] = e * int(rng.integers(1, 9))
        C = B
    return C / C.sum(axis=1)[:, None]


def irreducible(rng, k, periodic_ok=True):
    kind = pick(rng, "dense", "banded", "cycle", "sticky", "near",
                *(("periodic",) if periodic_ok else ()))
    if kind == "near":
        if k > 1:
            return nearly_decomposable(rng, k, 4)
        kind = "dense"
    if kind == "cycle" or (kind == "periodic" and k > 1):
        C = rng.integers(1, 9, (k, k)) * (rng.random((k, k)) < 0.4)
        p = rng.permutation(k)
        C[p, np.roll(p, 1)] += rng.integers(1, 9, k)
        if kind == "periodic":
            C = np.zeros((k, k), dtype=int)
            C[p, np.roll(p, 1)] = rng.integers(1, 9, k)
        elif not periodic_ok:
            C[p[0], p[0]] += 1
        C = C.astype(float)
        return C / C.sum(axis=1)[:, None]
    if kind == "sticky":
        C = rng.integers(1, 4, (k, k)) + np.diag(rng.integers(50, 500, k))
        return C / C.sum(axis=1)[:, None]
    return stochastic(rng, k, "dense" if kind == "periodic" else kind)


def empty_rows(rng, P):
    P = np.array(P)
    k = len(P)
    for i in rng.permutation(k)[: int(rng.integers(1, max(2, k)))]:
        P[i] = 0
    return P


def label_panel(rng, n=None, t=None, k=None):
    """(panel, tag): class labels of any kind, evolving persistently."""
    n = n or int(rng.integers(1, 12))
    t = t or int(rng.integers(1, 14))
    k = k or int(rng.integers(1, 8))
    mode = pick(rng, "iid", "iid", "sticky", "drift", "absorb")
    x = np.empty((n, t), dtype=int)
    x[:, 0] = rng.integers(0, k, n)
    for s in range(1, t):
        if mode == "iid":
            x[:, s] = rng.integers(0, k, n)
        elif mode == "sticky":
            x[:, s] = np.where(rng.random(n) < 0.8, x[:, s - 1], rng.integers(0, k, n))
        elif mode == "drift":
            x[:, s] = np.minimum(k - 1, x[:, s - 1] + (rng.random(n) < 0.4))
        else:
            x[:, s] = np.where(x[:, s - 1] == 0, 0, rng.integers(0, k, n))
    return x, mode


def relabel(rng, x):
    """Map codes 0..k-1 to labels of some dtype; returns labelled panel."""
    k = int(x.max()) + 1
    kind = pick(rng, "int", "neg", "str", "longstr", "float", "bool", "wide", "uint8",
                "int8", "num-str", "big", "odd")
    if kind == "int":
        lab = np.arange(k) * int(rng.integers(1, 4)) + int(rng.integers(0, 3))
    elif kind == "neg":
        lab = np.arange(k) - k // 2 - int(rng.integers(0, 3))
    elif kind == "str":
        lab = np.array(list("dbhacegfikjl"))[:k] if k <= 12 else None
    elif kind == "longstr":
        lab = np.array([f"state {'ab' * (i % 5)}{i}" for i in range(k)])
    elif kind == "float":
        lab = rng.permutation(k) * 0.5 - 1.25
    elif kind == "bool":
        if k <= 2:
            lab = np.array([True, False])[:k]
        else:
            lab = np.arange(k)
    elif kind == "wide":
        lab = rng.permutation(np.arange(k) * 1000 - 1500)
    elif kind == "uint8":
        lab = (np.arange(k) + 250 - k).astype("uint8")
    elif kind == "int8":
        lab = (np.arange(k) - 100).astype("int8")
    elif kind == "num-str":
        lab = np.array([str(i) for i in rng.permutation(k) + 7])
    elif kind == "odd":
        lab = pick(rng, ["", " ", "a", " a", "A", "É", "é", "中", "a b", "ab"],
                   [-0.5, 0.0, 1e-300, 1e300, -1e300, 0.1, 0.1 + 2**-54, 1 / 3, 7.0, 2.5],
                   ["nan", "None", "0", "-1", "1.0", "1", "True", "inf", "+", "_"])
        lab = np.array([lab[i] for i in rng.permutation(10)][:k]) if k <= 10 else None
    else:
        lab = np.arange(k) * 10**14 + 7
    if lab is None:
        lab = np.arange(k)
    if rng.random() < 0.1:  # a column of Python objects, as data frames hold them
        lab, kind = lab.astype(object), "object"
        if k > 1 and isinstance(lab[0], int) and not isinstance(lab[0], bool):
            lab[-1] = float(lab[-1])  # numbers of two types
    return lab[x], lab, kind


# ----------------------------------------------------------------- panels


def panel(rng, n, t, kind=None):
    """Continuous panel (n, t)."""
    kind = kind or pick(
        rng, "uniform", "normal", "walk", "lognormal", "ties", "int", "scaled",
        "persistent",
    )
    if kind == "uniform":
        y = rng.random((n, t))
    elif kind == "normal":
        y = rng.normal(size=(n, t))
    elif kind == "walk":
        y = 10 + np.cumsum(rng.normal(size=(n, t)), axis=1)
    elif kind == "lognormal":
        y = np.exp(rng.normal(size=(n, t)) * 2)
    elif kind == "ties":
        y = rng.integers(0, 4, (n, t)).astype(float)
    elif kind == "int":
        y = rng.integers(0, 50, (n, t))
    elif kind == "scaled":
        y = rng.random((n, t)) * 10.0 ** int(rng.integers(-6, 7))
    else:
        y = rng.random((n, 1)) * 10 + rng.random((n, t))
    return y, kind


def extreme(rng, a, ints=True):
    """Values in the order (and with the ties) of `a`, hard to tell apart or huge."""
    r = np.unique(np.asarray(a), return_inverse=True)[1].reshape(np.shape(a))
    d = int(r.max()) + 1
    kinds = ["ulp", "tiny", "subnormal", "huge", "far", "mixed"]
    kind = pick(rng, *kinds, *(("big", "single", "wide", "unsigned", "full8")
                               if ints else ()))
    if kind == "ulp":  # neighbouring doubles
        return (2.0**52 + r) * 2.0 ** -int(rng.integers(20, 60)), kind
    if kind == "tiny":
        return (r + 1) * 1e-300, kind
    if kind == "subnormal":
        return (r - d // 2) * 5e-324, kind
    if kind == "huge":
        return (r - d // 2) * (1.5e308 / d), kind
    if kind == "far":  # an offset swallows the differences in single precision
        return 1e12 + r * 0.5, kind
    if kind == "mixed":
        v = np.sort(rng.normal(size=d) * 10.0 ** rng.integers(-12, 13, d))
        return v[r] if len(np.unique(v)) == d else r.astype(float), kind
    if kind == "big":
        return r.astype("int64") + 2**53, kind
    if kind == "single":
        return (r + 2**24).astype("int32"), kind
    if kind == "wide":  # differences do not fit the type
        return np.array([-(2**63) + i * ((2**64 - 1) // max(d - 1, 1))
                         for i in range(d)], dtype="int64")[r], kind
    if kind == "unsigned":
        return r.astype("uint64") + np.uint64(2**63 + 5), kind
    if d > 200:
        return r.astype("int16"), kind
    return np.array([-128 + i * (255 // max(d - 1, 1)) for i in range(d)],
                    dtype="int8")[r], kind


# ---------------------------------------------------------------- weights


def make_w(neighbors, weights=None, ids=None):
    return W(neighbors, weights, id_order=ids, silence_warnings=True)


def graph(rng, n, kind=None):
    """Symmetric neighbour lists without isolated units (n >= 2)."""
    kind = kind or pick(rng, "ring", "path", "random", "random", "star", "complete",
                        "lattice", "two")
    A = np.zeros((n, n), dtype=bool)
    if kind == "lattice":
        r = int(np.sqrt(n))
        if r * r == n and r > 1:
            w = lat2W(r, r, rook=bool(rng.integers(2)))
            for i in range(n):
                A[i, w.neighbors[i]] = True
        else:
            kind = "ring"
    if kind == "ring":
        i = np.arange(n)
        A[i, (i + 1) % n] = True
    elif kind == "path":
        A[np.arange(n - 1), np.arange(1, n)] = True
    elif kind == "star":
        A[0, 1:] = True
    elif kind == "complete":
        A[:] = True
    elif kind == "random":
        A = rng.random((n, n)) < min(1.0, 2.2 / n)
    elif kind == "two":
        h = max(1, n // 2)
        A = rng.random((n, n)) < 0.6
        A[:h, h:] = False
        A[h:, :h] = False
    A |= A.T
    np.fill_diagonal(A, False)
    for i in range(n):
        if not A[i].any():
            j = int(rng.integers(n - 1))
            j += j >= i
            A[i, j] = A[j, i] = True
    q = rng.permutation(n)
    A = A[q][:, q]
    return A, kind


def weights(rng, n, kind=None, ids=None, transform=None, general=False):
    """Spatial weights over n units; ids: None (0..n-1), 'str', 'shuffled'."""
    A, kind = graph(rng, n, kind)
    ids = ids or pick(rng, None, None, "str", "str", "shuffled", "offset", "odd")
    names = list(range(n))
    if ids == "str":
        names = [f"u{(i * 7 + 3) % 101}x{i}" for i in range(n)]
    elif ids == "shuffled":
        names = [int(v) for v in rng.permutation(n)]
    elif ids == "offset":
        names = [int(v) for v in rng.permutation(n) + 100]
    elif ids == "odd":
        names = pick(rng, [-i for i in range(n)], [(i % 3, f"r{i}") for i in range(n)],
                     [str(n - i) for i in range(n)], [i * 10**12 for i in range(n)],
                     [f"{' ' * (i % 2)}Ñ {chr(0x4E00 + i % 9)}{i}" for i in range(n)],
                     [0.5 * i - 1 for i in range(n)])
        names = [names[i] for i in rng.permutation(n)]
    nb = {names[i]: [names[j] for j in np.flatnonzero(A[i])] for i in range(n)}
    wt = None
    if general:
        G = rng.integers(1, 8, (n, n)).astype(float)
        if general != "int" and rng.random() < 0.45:
            G = real_weights(rng, A)
        wt = {names[i]: [float(G[i, j]) for j in np.flatnonzero(A[i])]
              for i in range(n)}
    if rng.random() < 0.3:  # insertion order differs from id_order
        keys = list(nb)
        keys = [keys[i] for i in rng.permutation(n)]
        nb = {k: nb[k] for k in keys}
        wt = {k: wt[k] for k in keys} if wt else None
    w = make_w(nb, wt, names)
    tr = transform or pick(rng, "r", "r", "b" if not general else "o")
    if transform is None and A.any(axis=1).all() and rng.random() < 0.15:
        tr = pick(rng, "v", "d", "o")
    if 3 < n < 60 and rng.random() < 0.08:
        used(rng, w, pick(rng, *("rb" if tr != "b" else "rrr")))
    w.transform = tr
    return w, kind, ids


def used(rng, w, tr):
    """Weights that have served other data, and another standardisation, before."""
    import contextlib
    import io

    from giddy import components, directional, markov, rank

    n = w.n
    y = rng.random((n, 3)) + 1
    w.transform = tr
    s, state = w.id_order, np.random.get_state()
    for call in (lambda: markov.Spatial_Markov(y, w, k=2, m=2),
                 lambda: directional.Rose(y[:, :2], w, k=4),
                 lambda: markov.LISA_Markov(y, w),
                 lambda: rank.SpatialTau(y[:, 0], y[:, 1], w),
                 lambda: rank.Tau_Local_Neighbor(y[:, 0], y[:, 1], w),
                 lambda: rank.Tau_Local_Neighborhood(y[:, 0], y[:, 1], w),
                 lambda: components.is_component(w, list(s[: n // 2 + 1])),
                 lambda: components.check_contiguity(w, list(s), s[0])):
        w.transform = tr
        with contextlib.suppress(Exception), contextlib.redirect_stdout(io.StringIO()):
            call()
    np.random.set_state(state)


def real_weights(rng, A):
    """Weights that are no whole numbers: shares, decay with distance, some zero."""
    n, kind = len(A), pick(rng, "uniform", "decay", "shares", "scaled")
    if kind == "uniform":
        G = rng.random((n, n)) + 0.05
    elif kind == "decay":
        G = 10.0 ** rng.uniform(-4, 2, (n, n))
    elif kind == "shares":
        G = rng.integers(1, 8, (n, n)) / 10
    else:
        G = rng.integers(1, 8, (n, n)) * 10.0 ** int(rng.integers(-7, 8))
    if rng.random() < 0.3:  # neighbours without influence
        Z = np.where(rng.random((n, n)) < 0.25, 0.0, G)
        ok = ((Z > 0) & A.astype(bool)).any(axis=1)
        G = np.where(ok[:, None], Z, G)
    return G


def lopsided(rng, w, lone=True, own=True):
    """The same units with one-sided links, own weights or isolated units."""
    ids = list(w.id_order)
    n = len(ids)
    keep = float(rng.random()) * 0.6 + 0.4
    own = own and rng.random() < 0.4
    lone = lone and rng.random() < 0.3
    nb, wt = {}, {}
    for a, i in enumerate(w.neighbors):
        js = [j for j in w.neighbors[i] if rng.random() < keep]
        if not js:
            js = [w.neighbors[i][int(rng.integers(len(w.neighbors[i])))]]
        extra = ids[int(rng.integers(n))]
        if rng.random() < 0.4 and extra != i and extra not in js:
            js.append(extra)
        if own and rng.random() < 0.7:
            js.append(i)
        if lone and a and rng.random() < 0.15:
            js = []
        nb[i] = js
        wt[i] = [float(rng.integers(1, 8)) for _ in js]
    v = make_w(nb, None if rng.random() < 0.5 else wt, ids)
    v.transform = w.transform
    return v


def relabel_w(w, perm, names=None):
    """Same graph with units reordered: new position a holds old perm[a]."""
    old = list(w.id_order)
    names = names or [f"z{v}" for v in range(len(old))]
    inv = {int(p): a for a, p in enumerate(perm)}
    pos = {i: a for a, i in enumerate(old)}
    nb, wt = {}, {}
    for a, p in enumerate(perm):
        o = old[int(p)]
        nb[names[a]] = [names[inv[pos[j]]] for j in w.neighbors[o]]
        wt[names[a]] = list(w.weights[o])
    return make_w(nb, wt, [names[a] for a in range(len(old))])


def copy_w(w):
    c = make_w(
        {i: list(w.neighbors[i]) for i in w.id_order},
        {i: list(w.weights[i]) for i in w.id_order},
        list(w.id_order),
    )
    return c


_REAL = {}


def real(name):
    """Real panels and weights shipped with libpysal."""
    if name not in _REAL:
        if name == "us":
            f = libpysal.io.open(libpysal.examples.get_path("usjoin.csv"))
            y = np.array([f.by_col[str(v)] for v in range(1929, 2010)]).T
            w = libpysal.io.open(libpysal.examples.get_path("states48.gal")).read()
            _REAL[name] = (y, w)
        else:
            f = libpysal.io.open(libpysal.examples.get_path("mexico.csv"))
            v = ["pcgdp%d" % d for d in range(1940, 2010, 10)]
            y = np.transpose(np.array([f.by_col[c] for c in v]))
            reg = np.array(f.by_col["esquivel99"])
            w = libpysal.weights.block_weights(reg, silence_warnings=True)
            _REAL[name] = (y, w, reg)
    got = _REAL[name]
    return (np.array(got[0]), copy_w(got[1]), *got[2:])


def warm_lisa():
    """Compile esda's conditional randomisation before any case is timed."""
    import esda

    w = lat2W(4, 4)
    esda.Moran_Local(np.arange(16.0) % 5, w, permutations=9)
