"""Reference models: short, independent re-statements of the definitions.

Plain Python, exact rationals where it matters.  Nothing is imported from
giddy; scipy is trusted for tail probabilities and mapclassify for the
definition of quantile classes.
"""

import itertools
import math
from collections import defaultdict
from fractions import Fraction as Fr

import numpy as np
from scipy import stats


# ----------------------------------------------------------------- chains


def counts(rows, classes):
    """Transition counts of label sequences (one per unit)."""
    pos = {c: i for i, c in enumerate(classes)}
    k = len(classes)
    T = [[0] * k for _ in range(k)]
    for r in rows:
        for a, b in zip(r, r[1:]):
            T[pos[a]][pos[b]] += 1
    return T


def probs(T, fill=False):
    k = len(T)
    P = []
    for i in range(k):
        s = sum(T[i])
        if s:
            P.append([Fr(v) / Fr(s) for v in T[i]])
        else:
            P.append([Fr(int(fill and i == j)) for j in range(k)])
    return P


def fill_rows(P):
    return [
        [type(r[0])(int(i == j)) for j in range(len(r))] if not any(r) else list(r)
        for i, r in enumerate(P)
    ]


def fnum(a):
    """Nested list of Fractions/ints -> float array."""
    return np.array([[float(v) for v in r] for r in a], dtype=float).reshape(
        len(a), -1
    )


def to_fr(P):
    """Exact rational rows, renormalised, of a float/int stochastic matrix."""
    out = []
    for r in np.asarray(P).tolist():
        f = [Fr(v) for v in r]
        # recover the intended rational of small denominators
        f = [x.limit_denominator(10**6) if abs(
            x - x.limit_denominator(10**6)) < Fr(1, 10**13) else x for x in f]
        s = sum(f)
        out.append([x / s for x in f] if s else f)
    return out


def reach(P):
    """reach[i] = set of states reachable from i in >= 0 steps."""
    k = len(P)
    nxt = [[j for j in range(k) if P[i][j] > 0] for i in range(k)]
    out = []
    for i in range(k):
        seen, st = {i}, [i]
        while st:
            a = st.pop()
            for b in nxt[a]:
                if b not in seen:
                    seen.add(b)
                    st.append(b)
        out.append(seen)
    return out


def structure(P):
    """(communicating classes, recurrent classes, transient classes, absorbing)."""
    k = len(P)
    R = reach(P)
    comm = {frozenset(j for j in R[i] if i in R[j]) for i in range(k)}
    rec = {c for c in comm if all(R[i] <= c for i in c)}
    absb = {i for i in range(k) if P[i][i] == 1}
    return comm, rec, comm - rec, absb


def period(P):
    k = len(P)
    dist = {0: 0}
    st = [0]
    g = 0
    while st:
        a = st.pop()
        for b in range(k):
            if P[a][b] > 0:
                if b not in dist:
                    dist[b] = dist[a] + 1
                    st.append(b)
                else:
                    g = math.gcd(g, dist[a] + 1 - dist[b])
    return g


def solve(A, b):
    """Gauss-Jordan over Fractions; A nonsingular."""
    n = len(A)
    M = [list(map(Fr, A[i])) + [Fr(b[i])] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [v * iv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[i][n] for i in range(n)]


def stationary(P):
    """Stationary distribution of an irreducible rational chain (exact)."""
    k = len(P)
    A = [[P[j][i] - (1 if i == j else 0) for j in range(k)] for i in range(k)]
    A[-1] = [Fr(1)] * k
    return solve(A, [Fr(0)] * (k - 1) + [Fr(1)])


def steady(P):
    """{recurrent class: full-length stationary distribution}."""
    _, rec, _, _ = structure(P)
    out = {}
    for c in rec:
        ix = sorted(c)
        v = stationary([[P[i][j] for j in ix] for i in ix])
        full = [Fr(0)] * len(P)
        for i, x in zip(ix, v):
            full[i] = x
        out[c] = full
    return out


def passage_moments(P, second=False):
    """Mean (and second moment) first passage times by first-step analysis.

    math.inf where the target may never be entered.
    """
    k = len(P)
    M = [[math.inf] * k for _ in range(k)]
    S = [[math.inf] * k for _ in range(k)]
    for t in range(k):
        # states from which t is entered with probability one before anything
        # else closes: those that cannot reach (avoiding t) a state that
        # cannot reach t
        R = reach(P)
        never = {i for i in range(k) if t not in R[i]}
        Pt = [list(r) for r in P]
        Pt[t] = [Fr(0)] * k
        Rt = reach(Pt)
        sure = [i for i in range(k) if i != t and not (Rt[i] & never)]
        ss = set(sure)
        if sure:
            A = [[(1 if i == j else 0) - P[i][j] for j in sure] for i in sure]
            m = solve(A, [1] * len(sure))
            for i, v in zip(sure, m):
                M[i][t] = v
            if second:
                mm = dict(zip(sure, m))
                b = [
                    1 + 2 * sum(P[i][j] * mm[j] for j in sure) for i in sure
                ]
                s = solve(A, b)
                for i, v in zip(sure, s):
                    S[i][t] = v
        if all(P[t][j] == 0 or j == t or j in ss for j in range(k)):
            M[t][t] = 1 + sum(P[t][j] * M[j][t] for j in sure)
            if second:
                S[t][t] = (
                    1
                    + 2 * sum(P[t][j] * M[j][t] for j in sure)
                    + sum(P[t][j] * S[j][t] for j in sure)
                )
    if not second:
        return M
    V = [
        [S[i][j] - M[i][j] ** 2 if M[i][j] != math.inf else math.inf for j in range(k)]
        for i in range(k)
    ]
    return M, V


# ------------------------------------------------------------- test statistics


def chi2_sf(x, dof):
    return float(stats.chi2.sf(x, dof))


def homogeneity(mats):
    """Bickenbach-Bode Q and LR over regimes with empty-row corrections."""
    m, r, c = len(mats), len(mats[0]), len(mats[0][0])
    T = [[sum(M[i][j] for M in mats) for j in range(c)] for i in range(r)]
    Q = LR = 0.0
    dof = 0
    qt = np.zeros((m, r, c))
    lt = np.zeros((m, r, c))
    for i in range(r):
        ni = sum(T[i])
        a = sum(1 for v in T[i] if v > 0)
        b = sum(1 for M in mats if sum(M[i]) > 0)
        if b:
            dof += (a - 1) * (b - 1)
        for g, M in enumerate(mats):
            nim = sum(M[i])
            if not nim:
                continue
            for j in range(c):
                if T[i][j] == 0:
                    continue
                p = T[i][j] / ni
                pm = M[i][j] / nim
                qt[g, i, j] = nim * (pm - p) ** 2 / p
                Q += qt[g, i, j]
                if M[i][j] > 0:
                    lt[g, i, j] = 2 * M[i][j] * math.log(pm / p)
                    LR += lt[g, i, j]
    p0 = [[v / sum(row) if sum(row) else 0.0 for v in row] for row in T]
    p1 = [
        [[v / sum(row) if sum(row) else 0.0 for v in row] for row in M] for M in mats
    ]
    return {"Q": Q, "LR": LR, "dof": dof, "p0": np.array(p0), "p1": np.array(p1),
            "q_table": qt, "lr_table": lt, "n": sum(map(sum, T))}


def chi2_two(T1, T2):
    """chi2 of the counts T1 against the row probabilities of T2."""
    k = len(T1)
    x = 0.0
    d1 = sum(1 for r in T1 if sum(r) > 0)
    d2 = sum(1 for r in T2 if sum(r) > 0)
    for i in range(k):
        n1, n2 = sum(T1[i]), sum(T2[i])
        for j in range(len(T1[i])):
            e = n1 * T2[i][j] / n2 if n2 else 0.0
            if e > 0:
                x += (T1[i][j] - e) ** 2 / e
    return x, (d1 - 1) * (d2 - 1)


def kullback(F):
    """Conditional homogeneity information statistic 2*sum f ln(...)."""
    s, r, c = len(F), len(F[0]), len(F[0][0])
    tot = 0.0
    for j in range(r):
        fj = sum(sum(F[i][j]) for i in range(s))
        for i in range(s):
            fij = sum(F[i][j])
            for k in range(c):
                f = F[i][j][k]
                if f:
                    fjk = sum(F[a][j][k] for a in range(s))
                    tot += f * math.log((f / fij) / (fjk / fj))
    return 2 * tot, r * (s - 1) * (r - 1)


# --------------------------------------------------------------- rank measures


def sgn(a, b):
    return (a > b) - (a < b)


def conc(x, y, i, j):
    return sgn(x[i], x[j]) * sgn(y[i], y[j])


def tau_counts(x, y):
    """concordant, discordant, tied only in x, tied only in y."""
    if len(x) > 300:
        return tau_counts_rows(x, y)
    C = D = tx = ty = 0
    for i, j in itertools.combinations(range(len(x)), 2):
        sx, sy = sgn(x[i], x[j]), sgn(y[i], y[j])
        if sx and sy:
            if sx == sy:
                C += 1
            else:
                D += 1
        elif sy:
            tx += 1
        elif sx:
            ty += 1
    return C, D, tx, ty


def tau_counts_rows(x, y):
    """The same counts, one unit against all later ones at a time."""
    rank = [{v: k for k, v in enumerate(sorted(set(a)))} for a in (x, y)]
    x, y = (np.array([r[v] for v in a], dtype=np.int32) for r, a in zip(rank, (x, y)))
    C = D = tx = ty = 0
    for i in range(len(x) - 1):
        lx, gx = x[i + 1:] < x[i], x[i + 1:] > x[i]
        ly, gy = y[i + 1:] < y[i], y[i + 1:] > y[i]
        c = int(np.count_nonzero((lx & ly) | (gx & gy)))
        d = int(np.count_nonzero((lx & gy) | (gx & ly)))
        C, D = C + c, D + d
        tx += int(np.count_nonzero(ly | gy)) - c - d
        ty += int(np.count_nonzero(lx | gx)) - c - d
    return C, D, tx, ty


def tau_b(x, y):
    C, D, tx, ty = tau_counts(x, y)
    return (C - D) / math.sqrt((C + D + tx) * (C + D + ty))


def tau_p(tau, n):
    v = (4.0 * n + 10) / (9.0 * n * (n - 1))
    return math.erfc(abs(tau) / math.sqrt(v) / math.sqrt(2))


def spatial_tau(x, y, nb):
    """tau_b over the neighbouring pairs (symmetric neighbour lists)."""
    pairs = {(min(i, j), max(i, j)) for i in range(len(x)) for j in nb[i] if i != j}
    C = D = n1 = n2 = 0
    for i, j in pairs:
        sx, sy = sgn(x[i], x[j]), sgn(y[i], y[j])
        C += sx * sy > 0
        D += sx * sy < 0
        n1 += sx != 0
        n2 += sy != 0
    t = (C - D) / math.sqrt(n1 * n2) if n1 and n2 else math.nan
    return t, C, D, len(pairs)


def S_matrix(x, y):
    n = len(x)
    return [[conc(x, y, i, j) for j in range(n)] for i in range(n)]


def lima_neighbor(x, y, nb, i):
    return sum(conc(x, y, i, j) for j in nb[i]) / len(nb[i])


def lima_hood(S, members):
    m = len(members)
    return sum(S[a][b] for a in members for b in members) / (m * (m - 1))


def tau_regional(S, reg, ur):
    k = len(ur)
    n = len(reg)
    out = np.full((k, k), np.nan)
    for a in range(k):
        for b in range(k):
            I = [i for i in range(n) if reg[i] == ur[a]]
            J = [j for j in range(n) if reg[j] == ur[b]]
            pairs = [(i, j) for i in I for j in J if i != j]
            if pairs:
                out[a, b] = sum(S[i][j] for i, j in pairs) / len(pairs)
    return out


def avg_ranks(col):
    return [
        sum(1 for b in col if b < a) + (sum(1 for b in col if b == a) + 1) / 2
        for a in col
    ]


def theta(y, regime):
    """theta and total per period from average ranks."""
    n, k = len(y), len(y[0])
    cols = [avg_ranks([y[i][t] for i in range(n)]) for t in range(k)]
    th, tot = [], []
    for t in range(k - 1):
        d = [cols[t + 1][i] - cols[t][i] for i in range(n)]
        s = sum(abs(v) for v in d)
        g = defaultdict(float)
        for v, r in zip(d, regime):
            g[r] += v
        th.append(sum(abs(v) for v in g.values()) / s if s else math.nan)
        tot.append(s)
    return th, tot, cols


# -------------------------------------------------------------------- LISA


def quadrants(col, rs, geoda=False):
    """LISA quadrants of one cross section; None where a sign is borderline."""
    n = len(col)
    mu = math.fsum(col) / n
    z = [v - mu for v in col]
    sc = max((abs(v) for v in z), default=0.0) or 1.0
    out = []
    for i in range(n):
        lag = math.fsum(w * z[j] for j, w in zip(rs.nb[i], rs.wt[i]))
        eps = 1e-9 * sc + 1e-12 * abs(mu)
        if abs(z[i]) < eps or (abs(lag) < eps and rs.nb[i]):
            out.append(None)
            continue
        h, l = z[i] > 0, lag > 0
        names = {(True, True): 1, (False, True): 2, (False, False): 3, (True, False): 4}
        if geoda:
            names = {(True, True): 1, (False, True): 3, (False, False): 2,
                     (True, False): 4}
        out.append(names[h, l])
    return out


QUAD = {False: {1: (1, 1), 2: (0, 1), 3: (0, 0), 4: (1, 0)},
        True: {1: (1, 1), 3: (0, 1), 2: (0, 0), 4: (1, 0)}}  # (own high, lag high)


def two_state(seqs):
    """2x2 transition probabilities of high(1)/low(0) sequences."""
    T = {(a, b): 0 for a in (0, 1) for b in (0, 1)}
    for s in seqs:
        for a, b in zip(s, s[1:]):
            T[a, b] += 1
    P = {}
    for a in (0, 1):
        s = T[a, 0] + T[a, 1]
        for b in (0, 1):
            P[a, b] = T[a, b] / s if s else 0.0
    return P


def lisa_expected(trans, own, lag, geoda):
    E = np.zeros((4, 4))
    qd = QUAD[geoda]
    for a in range(4):
        for b in range(4):
            h1, l1 = qd[a + 1]
            h2, l2 = qd[b + 1]
            E[a, b] = sum(trans[a]) * own[h1, h2] * lag[l1, l2]
    return E


# ------------------------------------------------------------------- graphs


def components(nodes, edges):
    """Union-find; returns list of frozensets."""
    par = {v: v for v in nodes}

    def find(v):
        while par[v] != v:
            par[v] = par[par[v]]
            v = par[v]
        return v

    for a, b in edges:
        par[find(a)] = find(b)
    g = defaultdict(set)
    for v in nodes:
        g[find(v)].add(v)
    return [frozenset(s) for s in g.values()]


# ---------------------------------------------------------------- sequences


def om(a, b, sub, indel):
    """Optimal matching cost as a shortest path (Dijkstra) over alignments."""
    import heapq

    goal = (len(a), len(b))
    best = {}
    q = [(0.0, 0, 0)]
    while q:
        d, i, j = heapq.heappop(q)
        if (i, j) in best:
            continue
        best[i, j] = d
        if (i, j) == goal:
            return d
        if i < len(a):
            heapq.heappush(q, (d + indel, i + 1, j))
        if j < len(b):
            heapq.heappush(q, (d + indel, i, j + 1))
        if i < len(a) and j < len(b):
            heapq.heappush(q, (d + sub(a[i], b[j]), i + 1, j + 1))
    raise AssertionError


def tran_cost(a, b):
    """Substitution of two transitions (previous, current); None = start."""
    if a == b:
        return 0.0
    if a[0] is None or b[0] is None:
        return 1.0
    return float((a[0] == a[1]) != (b[0] == b[1]))


def transitions_of(s):
    return list(zip([None] + list(s[:-1]), s))


# --------------------------------------------------------------------- rose


def rose_vectors(Y, wY):
    r, th = [], []
    for i in range(len(Y)):
        dx = float(Y[i][-1]) - float(Y[i][0])
        dy = float(wY[i][-1]) - float(wY[i][0])
        r.append(math.hypot(dx, dy))
        th.append(math.atan2(dy, dx))
    return r, th


def sector(th, k):
    """Sector of an angle, and whether it lies on a boundary."""
    u = th % (2 * math.pi)
    x = u * k / (2 * math.pi)
    s = math.floor(x)
    near = min(x - s, s + 1 - x) < 1e-7
    return min(int(s), k - 1), near
