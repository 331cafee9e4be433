From 10e4670fe09950e5866a966de6455933d1103b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 01/40] fix: divide transition counts by row totals so that
 absorbing states get p == 1

Multiplying by the rounded reciprocal gives 0.9999999999999999 for, e.g.,
49 out of 49 transitions, so absorbing states were not reported and their
sojourn times came out as 9e15 instead of inf.
---
 giddy/markov.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..c35cb18 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
@@ -977,8 +977,7 @@ class Spatial_Markov:
         for i, mat in enumerate(T):
             row_sum = mat.sum(axis=1)
             row_sum = row_sum + (row_sum == 0)
-            p_i = np.array(np.diag(1.0 / row_sum)).dot(np.array(mat))
-            P[i] = p_i
+            P[i] = mat / row_sum[:, np.newaxis]
 
         if fill_empty_classes:
             P = fill_empty_diagonals(P)
-- 
2.43.0


From c08cc9a2e43e68608cc485efc3481651a528fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 02/40] fix: return a (k,) steady state whenever there is one
 recurrent class

The documentation promises a (k,) distribution for every chain with a single
recurrent class, but chains that also have transient states got (1, k).
---
 giddy/ergodic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..96d8dbf 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -145,8 +145,7 @@ rows to be 1 to make sure the matrix is stochastic.
                 "sure the matrix is stochastic." % rows0
             )
     mc = qe.MarkovChain(P)
-    num_classes = mc.num_communication_classes
-    if num_classes == 1:
+    if mc.num_recurrent_classes == 1:
         return mc.stationary_distributions[0]
     else:
         return mc.stationary_distributions
-- 
2.43.0


From 459cc55ee63aad6f4d51c41cff4ae6f9cb9609f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:17 +0000
Subject: [PATCH 03/40] fix: build Spatial_Markov.S from conditional steady
 states of mixed shapes

numpy cannot stack e.g. (2,) and (2, 2) arrays into an object array, so S
raised ValueError when one lag class had k recurrent classes.
---
 giddy/markov.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c35cb18..9fea9a1 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -862,8 +862,12 @@ class Spatial_Markov:
             _S = []
             for p in self.P:
                 _S.append(steady_state(p))
-            # if np.array(_S).dtype is np.dtype('O'):
-            self._S = np.asarray(_S, dtype=object)
+            if len({s.shape for s in _S}) == 1:
+                self._S = np.asarray(_S, dtype=object)
+            else:
+                self._S = np.empty(len(_S), dtype=object)
+                for i, s in enumerate(_S):
+                    self._S[i] = s
         return self._S
 
     @property
-- 
2.43.0


From 52acd1a60c73f7baff9b4d2e661ec22ea65a2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 04/40] fix: keep all k classes in the a-spatial chain of
 Spatial_Markov

When a class held no observation (user-defined cutoffs, or per-period
quantiles with ties) p and transitions lost that class while T and P kept
it, so the shapes disagreed and the chi2 tests raised ValueError.
---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 9fea9a1..56f0353 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -830,7 +830,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 5e3f7e419289fa891e5e66bc47bdea545aad3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 05/40] fix: sum simulated x2 over all m lag classes in
 Spatial_Markov

The permutation loop ran over k classes: it raised IndexError for m < k and,
for m > k, compared the observed sum over m classes with sums over k.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 56f0353..b93794c 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -845,7 +845,7 @@ class Spatial_Markov:
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(t, self.transitions)[0] for t in T]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
-- 
2.43.0


From 776b57dcc21429120df1fc9adb54094718dd610a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 06/40] fix: keep the observed lag classes when Spatial_Markov
 permutes

lclass_ids was left holding the lag classes of the last random permutation.
---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index b93794c..c81f26e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -843,6 +843,7 @@ class Spatial_Markov:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
+            lclass_ids = self.lclass_ids
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
                 x2 = [chi2(t, self.transitions)[0] for t in T]
@@ -850,6 +851,7 @@ class Spatial_Markov:
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
                     counter += 1
+            self.lclass_ids = lclass_ids
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
 
-- 
2.43.0


From 49b895eaef9293b1c62db84fbe27fe9155f49b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 07/40] fix: permute the categorical lags in discrete
 Spatial_Markov inference

With discrete=True the permuted series was ignored and every realization of
x2 was computed from the observed lags.
---
 giddy/markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c81f26e..635e639 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -823,6 +823,7 @@ class Spatial_Markov:
                 y_int.append(list(map(label_dict.get, yi)))
             self.class_ids = np.array(y_int)
             self.lclass_ids = self.class_ids
+            y = self.class_ids
         else:
             self.class_ids, self.cutoffs, self.k = self._maybe_classify(
                 y, k=k, cutoffs=self.cutoffs
@@ -965,7 +966,7 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            self.lclass_ids = weights.lag_categorical(w, y, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From 945bccb0093380382bdc57eabaeee98c318f4278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 08/40] fix: set the documented lclasses attribute for discrete
 Spatial_Markov

---
 giddy/markov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 635e639..5955d20 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -815,6 +815,7 @@ class Spatial_Markov:
             merged = list(itertools.chain.from_iterable(y))
             classes = np.unique(merged)
             self.classes = classes
+            self.lclasses = classes
             self.k = len(classes)
             self.m = self.k
             label_dict = dict(zip(classes, range(self.k), strict=False))
-- 
2.43.0


From b5cc2bb31924c648e535071928e8484445750b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 09/40] fix: name all m lag classes in Spatial_Markov.summary

Naming k of them raised IndexError for m > k and listed regimes that do not
exist for m < k.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 5955d20..ac9a945 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1053,7 +1053,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From cb203f7be8ce9e1374c07b1dd6a2ade3c0e6b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 10/40] fix: accept integer transition counts in homogeneity

The regime probabilities were stored in an integer array and truncated to 0,
which made Q, its p-value and the reported matrices wrong.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index ac9a945..4b0c50b 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1789,7 +1789,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 2c49c280f8a038bb985c52e95324d64307c2281e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 11/40] fix: do not count never-visited classes in the
 homogeneity dof

A row that is empty in all regimes contributed (0 - 1) * (0 - 1) = 1 degree
of freedom.
---
 giddy/markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 4b0c50b..53055b2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1832,7 +1832,8 @@ class Homogeneity_Results:
         # b_i is the number of regimes that have non-zero observations in row i
         # A_i is the number of non-zero elements in row i of the aggregated
         # transition matrix
-        self.dof = int(((b_i - 1) * (A_i - 1)).sum())
+        # rows that are empty in every regime do not contribute
+        self.dof = int(((b_i - 1) * (A_i - 1) * (b_i > 0)).sum())
         self.Q = Q
         self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
         self.LR = LR * 2.0
-- 
2.43.0


From e7f8d2645b70beb40023ac5201b12aeaf8926d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 12/40] fix: use the title given to homogeneity in its summary

---
 giddy/markov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 53055b2..088f150 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1848,7 +1848,9 @@ class Homogeneity_Results:
         self.p_h0 = p_ij
         self.p_h1 = p_ijm
 
-    def summary(self, file_name=None, title="Markov Homogeneity Test"):
+    def summary(self, file_name=None, title=None):
+        if title is None:
+            title = self.title
         regime_names = ["%d" % i for i in range(self.m)]
         if self.regime_names:
             regime_names = self.regime_names
-- 
2.43.0


From 63187cb890861c4ebce1d0f646cb09bd8f6ab66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 13/40] fix: mean first passage times of integer transition
 matrices

The steady state was stored in an integer array and truncated to 0, so an
irreducible matrix such as [[0, 1], [1, 0]] raised LinAlgError.
---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 96d8dbf..4012873 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -203,7 +203,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros((k, k))
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From 0031baaf646c9fc5d61052c436d0682718dc107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 14/40] fix: mean first passage times of reducible chains

Which passage times are infinite was inferred from the linear solver failing
and from absorbing single states only. With recurrent classes of two or more
states finite times were returned as inf, ill-conditioned ones as numbers
around 1e15, and combinations with absorbing states raised LinAlgError.
Decide reachability on the transition graph and solve for the states from
which the destination is reached with probability one.
---
 giddy/ergodic.py | 71 +++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 4012873..3f15edb 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -219,6 +219,32 @@ def _mfpt_ergodic(P):
     return M
 
 
+def _can_reach(step, targets):
+    """
+    Find the states from which a set of target states can be reached.
+
+    Parameters
+    ----------
+    step     : array
+               (k, k), boolean, step[i, j] is True if the chain can move from
+               i to j.
+    targets  : array
+               (k,), boolean, True for target states.
+
+    Returns
+    -------
+    reach    : array
+               (k,), boolean, True for targets and states that can reach them.
+
+    """
+    reach = targets
+    while True:
+        grown = reach | step[:, reach].any(axis=1)
+        if (grown == reach).all():
+            return reach
+        reach = grown
+
+
 def fmpt(P, fill_empty_classes=False):
     warn(
         "fmpt is deprecated. It will be replaced in giddy 2.5 with mfpt",
@@ -320,39 +346,22 @@ rows to be 1 to make sure the matrix is stochastic.
         mfpt_all = _mfpt_ergodic(P)
     else:  # deal with non-ergodic Markov chains
         k = P.shape[0]
-        mfpt_all = np.zeros((k, k))
+        mfpt_all = np.full((k, k), np.inf)
+        step = P > 0
         for desti in range(k):
-            b = np.ones(k - 1)
-            p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
-            p_calc = np.eye(k - 1) - p_sub
-            m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
-                m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
-            recc = (
-                np.nan_to_num(
-                    (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
-                ).sum()
-                + 1
+            is_desti = np.arange(k) == desti
+            never = ~_can_reach(step, is_desti)
+            # the passage ends in desti, it does not matter where it leads to
+            step_desti = step & ~is_desti[:, np.newaxis]
+            # desti may never be entered from these states
+            lost = _can_reach(step_desti, never)
+            sure = np.flatnonzero(~lost & ~is_desti)
+            m = np.linalg.solve(
+                np.eye(len(sure)) - P[np.ix_(sure, sure)], np.ones(len(sure))
             )
-            mfpt_all[:, desti] = np.insert(m, desti, recc)
-            mfpt_all = np.where(mfpt_all < -1e16, np.inf, mfpt_all)
-            mfpt_all = np.where(mfpt_all > 1e16, np.inf, mfpt_all)
+            mfpt_all[sure, desti] = m
+            if not step[desti, lost].any():
+                mfpt_all[desti, desti] = 1 + P[desti, sure].dot(m)
     return mfpt_all
 
 
-- 
2.43.0


From 15b306f9a4bcf6c107cbfbfe6c5e654b3620063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 15/40] fix: do not overwrite the observed values of a Rose
 when permuting

permute() left the last permuted values in Y and wY, so that plots made after
inference showed permuted instead of observed data.
---
 giddy/directional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..d664d29 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -209,6 +209,7 @@ class Rose:
         """
 
         self.Y = Y
+        self._rY = Y
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
@@ -219,6 +220,7 @@ class Rose:
         self.counts = observed["counts"]
         self.r = observed["r"]
         self.lag = observed["lag"]
+        self.wY = observed["lag"]
         self._dx = observed["dx"]
         self._dy = observed["dy"]
 
@@ -239,12 +241,13 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        rY = self._rY.copy()
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
             np.random.shuffle(idxs)
-            res = self._calc(rY[idxs, :], self.w, self.k)
+            self._rY = rY[idxs, :]
+            res = self._calc(self._rY, self.w, self.k)
             counts[m] = res["counts"]
         self.counts_perm = counts
         self.larger_perm = np.array(
@@ -303,8 +306,6 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From 0576fed94215be6e754a03da2ef77c4c2aec5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 16/40] fix: always cut the circle into k sectors in Rose

Rounding made np.arange return k + 2 edges for k = 12, 30, 46, ...
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index d664d29..15c26cf 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -213,7 +213,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.theta = observed["theta"]
         self.bins = observed["bins"]
-- 
2.43.0


From d488e2ad936898f58dc55eb92a9f528cc0394775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 17/40] fix: accept the documented alternative two-sided in
 Rose.permute

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 15c26cf..1edd392 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -277,7 +277,7 @@ class Rose:
         # depending on the problem at hand.
 
         alt = alternative.upper()
-        if alt == "TWO.SIDED":
+        if alt in ("TWO.SIDED", "TWO-SIDED"):
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
             self.p = mask * 2 * P + (1 - mask) * 2 * (1 - P)
-- 
2.43.0


From 75b311e71e4274e68f4e2c922a6f284a2d7ce49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 18/40] fix: align observations with weights ids in the spatial
 taus

The ids of the weights object were used as positions in x and y: string ids
failed and integer ids in another order paired the wrong observations.
---
 giddy/rank.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..9a64cb3 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -378,10 +378,10 @@ class SpatialTau:
     def _calc(self, x, y, w):
         n1 = n2 = iS = gc = 0
         ijs = {}
-        for i in w.id_order:
+        for i, idi in enumerate(w.id_order):
             xi = x[i]
             yi = y[i]
-            for j in w.neighbors[i]:
+            for j in w.neighbor_offsets[idi]:
                 if i < j:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
@@ -644,19 +644,20 @@ class Tau_Local_Neighbor:
     def _calc(self, x, y, w, i=None):
         if i is not None:
             iS_local = 0
-            for j in w.neighbors[i]:
+            idi = w.id_order[i]
+            for j in w.neighbor_offsets[idi]:
                 iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
-            tau_ln = iS_local * 1.0 / w.cardinalities[i]
+            tau_ln = iS_local * 1.0 / w.cardinalities[idi]
             return tau_ln
         else:
             tau_ln = np.zeros(self.n)
             tau_ln_weights = np.zeros(self.n)
-            for i in w.id_order:
+            for i, idi in enumerate(w.id_order):
                 iS_local = 0
-                for j in w.neighbors[i]:
+                for j in w.neighbor_offsets[idi]:
                     iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
-                tau_ln[i] = iS_local * 1.0 / w.cardinalities[i]
-                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / w.s0
+                tau_ln[i] = iS_local * 1.0 / w.cardinalities[idi]
+                tau_ln_weights[i] = w.cardinalities[idi] * 1.0 / w.s0
             return tau_ln, tau_ln_weights
 
 
@@ -759,7 +760,7 @@ class Tau_Local_Neighborhood:
         tau_lnhood = np.zeros(self.n)
         for i in range(self.n):
             neighbors_i = [i]
-            neighbors_i.extend(w.neighbors[i])
+            neighbors_i.extend(w.neighbor_offsets[w.id_order[i]])
             n_i = len(neighbors_i)
             sh_i = self.S[neighbors_i, :][:, neighbors_i]
             # Neighborhood set LIMA
@@ -781,7 +782,7 @@ class Tau_Local_Neighborhood:
                 for j in range(permutations):
                     np.random.shuffle(rids)
                     neighbors_i = [i]
-                    neighbors_i.extend(rids[: len(w.neighbors[i])])
+                    neighbors_i.extend(rids[: w.cardinalities[w.id_order[i]]])
                     n_i = len(neighbors_i)
                     neighbors_i_second = neighbors_i
                     sh_i = self.S[neighbors_i, :][:, neighbors_i_second]
-- 
2.43.0


From 574350a33702df1959159cf73b056214fa450f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 19/40] fix: compare instead of multiplying differences in the
 local taus

The products of the differences overflow for large integers, wrap around for
unsigned ones and underflow to 0 for small floats, giving wrong concordances.
---
 giddy/rank.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 9a64cb3..7597fb3 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -386,21 +386,21 @@ class SpatialTau:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
                     yj = y[j]
-                    dx = xi - xj
-                    dy = yi - yj
+                    dx = int(xi > xj) - int(xi < xj)
+                    dy = int(yi > yj) - int(yi < yj)
                     dxdy = dx * dy
                     if dxdy != 0:
                         n1 += 1
                         n2 += 1
-                        if dxdy > 0.0:
+                        if dxdy > 0:
                             gc += 1
                             iS += 1
                         else:
                             iS -= 1
                     else:
-                        if dx != 0.0:
+                        if dx != 0:
                             n1 += 1
-                        if dy != 0.0:
+                        if dy != 0:
                             n2 += 1
         tau_g = iS / (np.sqrt(n1) * np.sqrt(n2))
         gd = gc - iS
@@ -483,8 +483,9 @@ class Tau_Local:
         xx = x.reshape(self.n, 1)
         yy = y.reshape(self.n, 1)
 
-        C = (xx - xx.T) * (yy - yy.T)
-        self.S = -1 * (C < 0) + 1 * (C > 0)
+        sx = 1 * (xx > xx.T) - 1 * (xx < xx.T)
+        sy = 1 * (yy > yy.T) - 1 * (yy < yy.T)
+        self.S = sx * sy
 
         self.tau = self.S.sum() * 1.0 / (self.n * (self.n - 1))
         si = self.S.sum(axis=1)
@@ -630,16 +631,9 @@ class Tau_Local_Neighbor:
             self.tau_ln_pvalues = tau_ln_pvalues
 
     def _calc_r(self, xi, yi, xj, yj, w):
-        dx = xi - xj
-        dy = yi - yj
-        dxdy = dx * dy
-        if dxdy != 0:
-            if dxdy > 0.0:
-                return 1
-            else:
-                return -1
-        else:
-            return 0
+        dx = int(xi > xj) - int(xi < xj)
+        dy = int(yi > yj) - int(yi < yj)
+        return dx * dy
 
     def _calc(self, x, y, w, i=None):
         if i is not None:
-- 
2.43.0


From 1e1f398891ba4b24257eaa0b493e4231ecd47f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 20/40] fix: keep the dtype of x when permuting in
 Tau_Local_Neighbor

With integer y the permuted values of a float x were truncated.
---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 7597fb3..787793d 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -612,7 +612,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 23394a515ccf967f417cad9cf177ad2c797cb15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 21/40] fix: count the observed value in the right-tailed
 p-value of Theta

The p-value was 0 whenever no simulated theta was strictly larger, although
the observed theta belongs to the reference distribution.
---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 787793d..e8aeb6b 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -110,7 +110,7 @@ class Theta:
             self.sim = sim
             den = permutations + 1.0
             self.pvalue_left = (sim <= sim[0]).sum(axis=0) / den
-            self.pvalue_right = (sim > sim[0]).sum(axis=0) / den
+            self.pvalue_right = (sim >= sim[0]).sum(axis=0) / den
             self.z = (sim[0] - sim.mean(axis=0)) / sim.std(axis=0)
 
     def _calc(self, regime):
-- 
2.43.0


From 2c4bd9c061c301adcb43b20abf20a3dea7b73285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 22/40] fix: keep sequences with more than ten codes apart in
 optimal matching

1, 11 and 11, 1 were merged because their codes were joined without a separator.
---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..c752538 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(" ".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From f70e5325592c4efafe91f73d9513e6903a8d88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:44 +0000
Subject: [PATCH 23/40] fix: accept lists of varying lengths in Sequence

numpy no longer builds ragged arrays implicitly.
---
 giddy/sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index c752538..9c63fdc 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -177,7 +177,10 @@ class Sequence:
     """  # noqa E501
 
     def __init__(self, y, subs_mat=None, dist_type=None, indel=None, cluster_type=None):
-        y = np.asarray(y)
+        try:
+            y = np.asarray(y)
+        except ValueError:  # sequences of varying lengths
+            y = np.array(y, dtype=object)
         merged = list(itertools.chain.from_iterable(y))
         self.classes = np.unique(merged)
         self.k = len(self.classes)
-- 
2.43.0


From c1b347fce07b582e0b41ed111970c4d35128e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 24/40] fix: reject unknown distance types in Sequence

An unknown dist_type was ignored and left the object without distances.
---
 giddy/sequence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 9c63fdc..60f32c3 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -280,6 +280,12 @@ class Sequence:
                             y_tran_index[i, j] = dict_trans_state[y_tran[j][i]]
                     self._om_dist(y_tran_index)
 
+                else:
+                    raise ValueError(
+                        "Please specify a proper `dist_type` or "
+                        "`subs_mat` and `indel` to proceed!"
+                    )
+
         else:
             self._om_dist(y_int)
 
-- 
2.43.0


From 02dc5638725f4d1e09a8a19997681f521fa846ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 25/40] fix: follow the GeoDa quadrant order in the expected
 LISA transitions

With geoda_quads=True expected_t and chi_2 mixed up the LH and LL quadrants.
---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 088f150..1eaf161 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1430,6 +1430,8 @@ class LISA_Markov(Markov):
         markov_y = Markov(rc, summary=False)
         markov_ylag = Markov(rlagc, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
+        if geoda_quads:  # LL = 2 and LH = 3
+            A = A[[0, 2, 1, 3]]
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
         trans = self.transitions.sum(axis=1)
-- 
2.43.0


From 9cc245f7c57433ee4ddd89346b313fcfd3ee2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 26/40] fix: keep both classes in the own and lag chains of
 LISA_Markov

When all values, or all lags, were on one side the chain had a single class
and the expected transitions could not be computed.
---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 1eaf161..b53de64 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1427,8 +1427,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        below = np.array([False, True])  # no guarantee both are visited
+        markov_y = Markov(rc, below, summary=False)
+        markov_ylag = Markov(rlagc, below, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
         if geoda_quads:  # LL = 2 and LH = 3
             A = A[[0, 2, 1, 3]]
-- 
2.43.0


From 919fcb80fe8acb3bde1cc3be695e117e90f35a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 27/40] fix: report the spillover components of the last period

The documented (n, t) components array was always 0 in the last column.
---
 giddy/markov.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index b53de64..5dda4f3 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1557,6 +1557,11 @@ class LISA_Markov(Markov):
                     for i in component:
                         ii = self.w.id2i[i]
                         components[ii, t] = c + 1
+                if t == k - 2:  # last period
+                    for c, component in enumerate(components2):
+                        for i in component:
+                            ii = self.w.id2i[i]
+                            components[ii, t + 1] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From 71974cc21be529942ae4a02722a723d94ee9c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 28/40] fix: search components without recursion

Components of about a thousand units exceeded the recursion limit, e.g. in
LISA_Markov.spillover.
---
 giddy/components.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..25c6d0f 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -147,16 +147,14 @@ class Graph:
             return components
 
     def dfs(self, v, visited, threshold, op=lt, first=None):
-        aux = [v]
+        aux = []
         visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        stack = [v]
+        while stack:
+            v = stack.pop()
+            aux.append(v)
+            for n, w in self.edges.get(v, {}).items():
+                if op(w, threshold) and n not in visited:
+                    visited.add(n)
+                    stack.append(n)
         return aux, visited
-- 
2.43.0


From 91cabf12a3996940727ff441ef46521784e573c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 29/40] fix: label the LISA heatmap in the order of its cells

Rows and columns 2, 3 and 4 count LH, LL and HL, but were labelled HL, LH, LL.
---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..5da44c5 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -167,8 +167,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From fc16804580e6b5a806ca1d03e059d5511cb6fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 30/40] fix: restore the plotting style when dynamic_lisa_rose
 fails

A rejected keyword left grid and axes colors changed for all later figures.
---
 giddy/plotting.py | 62 ++++++++++++++++++++---------------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 5da44c5..2734858 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -266,46 +266,36 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     >>> plt.show()
 
     """
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
     alpha = kwargs.pop("alpha", 0.9)
     cmap = kwargs.pop("cmap", "YlGnBu")
 
-    if ax is None:
-        fig = plt.figure()
-        ax = fig.add_subplot(111, projection="polar")
-        can_insert_colorbar = True
-    else:
-        fig = ax.get_figure()
-        can_insert_colorbar = False
-
-    ax.set_rlabel_position(315)
-
-    if attribute is None:
-        c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
-    else:
-        if "c" in kwargs or "color" in kwargs:
-            raise ValueError(
-                "c and color are not valid keywords here; "
-                "attribute is used for coloring"
+    # define plotting style, default values are restored afterwards
+    style = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
+    with mpl.rc_context(style):
+        if ax is None:
+            fig = plt.figure()
+            ax = fig.add_subplot(111, projection="polar")
+            can_insert_colorbar = True
+        else:
+            fig = ax.get_figure()
+            can_insert_colorbar = False
+
+        ax.set_rlabel_position(315)
+
+        if attribute is None:
+            c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
+        else:
+            if "c" in kwargs or "color" in kwargs:
+                raise ValueError(
+                    "c and color are not valid keywords here; "
+                    "attribute is used for coloring"
+                )
+
+            c = ax.scatter(
+                rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
             )
-
-        c = ax.scatter(
-            rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
-        )
-        if can_insert_colorbar:
-            fig.colorbar(c)
-
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
+            if can_insert_colorbar:
+                fig.colorbar(c)
     return fig, ax
 
 
-- 
2.43.0


From f19dad94280167a3c556d68683bb27ec511f1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 31/40] fix: keep the weights transformation when plotting a
 Rose

Moran_Local row-standardizes the weights, so that inference after plotting
used other spatial lags than the observed ones.
---
 giddy/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 2734858..8bc540e 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -62,10 +62,12 @@ def _moran_loc_from_rose_calc(rose):
     Calculate esda.moran.Moran_Local values from giddy.rose object
     """
     old_state = np.random.get_state()
+    old_transform = rose.w.transform
     moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
     np.random.set_state(old_state)
     moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
     np.random.set_state(old_state)
+    rose.w.transform = old_transform
     return moran_locy, moran_locx
 
 
-- 
2.43.0


From 252319dbaad50fefe02d6615e90d608caa5d2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 32/40] fix: sum the Kullback test over terminal states

The marginal counts of every stratum and initial state were summed over
initial instead of terminal states, so that the statistic was wrong (even
negative) whenever row and column totals of a stratum differ.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 5dda4f3..cd85408 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1646,7 +1646,7 @@ def kullback(F):
     FdJd1 = FdJd + (FdJd == 0)
     T3 = 2 * (FdJd * np.log(FdJd1)).sum()
 
-    FIJd = F[:, :].sum(axis=1)
+    FIJd = F.sum(axis=2)
     FIJd1 = FIJd + (FIJd == 0)
     T4 = 2 * (FIJd * np.log(FIJd1)).sum()
 
-- 
2.43.0


From 021f460d717b67e44f9e3ad15c079d9cc98c8cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 33/40] fix: signed displacements of integer data in Rose

---
 giddy/directional.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 1edd392..7b58c49 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -304,7 +304,8 @@ class Rose:
 
     def _calc(self, Y, w, k):
         wY = weights.lag_spatial(w, Y)
-        dx = Y[:, -1] - Y[:, 0]
+        # unsigned and narrow integers would wrap around
+        dx = Y[:, -1].astype(float) - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
-- 
2.43.0


From d9c5507e24dee009e603d45ea11923e0570a7180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 34/40] fix: homogeneity reports accept any sequence of labels

Regime names that are not strings made the report fail in join, and arrays of
names have no truth value.
---
 giddy/markov.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index cd85408..d48bbb1 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1860,10 +1860,10 @@ class Homogeneity_Results:
         if title is None:
             title = self.title
         regime_names = ["%d" % i for i in range(self.m)]
-        if self.regime_names:
+        if len(self.regime_names) > 0:
             regime_names = self.regime_names
         cols = ["P(%s)" % str(regime) for regime in regime_names]
-        if not self.class_names:
+        if self.class_names is None or len(self.class_names) == 0:
             self.class_names = list(range(self.k))
 
         max_col = max([len(col) for col in cols])
@@ -1876,7 +1876,7 @@ class Homogeneity_Results:
         L = "Number of regimes: %d" % int(self.m)
         k = "Number of classes: %d" % int(self.k)
         r = "Regime names: "
-        r += ", ".join(regime_names)
+        r += ", ".join(map(str, regime_names))
         t = "Number of transitions: %d" % int(self.t_total)
         contents.append(k)
         contents.append(t)
@@ -1895,7 +1895,7 @@ class Homogeneity_Results:
         print(lead)
 
         cols = ["P(%s)" % str(regime) for regime in self.regime_names]
-        if not self.class_names:
+        if self.class_names is None or len(self.class_names) == 0:
             self.class_names = list(range(self.k))
         cols.extend(["%s" % str(cname) for cname in self.class_names])
 
@@ -1948,7 +1948,7 @@ class Homogeneity_Results:
                 s = "Number of regimes: %d" % int(self.m)
                 c.append("\\multicolumn{%s}{|l|}{%s}" % (ks, s))
                 s = "Regime names: "
-                s += ", ".join(regime_names)
+                s += ", ".join(map(str, regime_names))
                 c.append("\\multicolumn{%s}{|l|}{%s}" % (ks, s))
                 s = "\\hline\\multicolumn{2}{|l}{%s}" % ("Test")
                 s += "&\\multicolumn{2}{r}{LR}&\\multicolumn{2}{r|}{Q}"
-- 
2.43.0


From 709b9223f2ed96a06646216a39ea61ab546fec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 35/40] fix: deprecation warnings name the routine that
 replaces the old one

---
 giddy/ergodic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 3f15edb..96c7cda 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -153,7 +153,10 @@ rows to be 1 to make sure the matrix is stochastic.
 
 def _fmpt_ergodic(P):
     warn(
-        "_fmpt_ergodic is deprecated. It will be replaced in giddy 2.5 with _mfpt_",
+        (
+            "_fmpt_ergodic is deprecated. It will be "
+            "replaced in giddy 2.5 with _mfpt_ergodic"
+        ),
         DeprecationWarning,
         stacklevel=2,
     )
@@ -369,7 +372,7 @@ def var_fmpt_ergodic(p):
     warn(
         (
             "var_fmpt_ergodic is deprecated. It will be "
-            "replaced in giddy 2.5 with var_fmpt_ergodic"
+            "replaced in giddy 2.5 with var_mfpt_ergodic"
         ),
         DeprecationWarning,
         stacklevel=2,
-- 
2.43.0


From ce3fd819c0464b785b24c8a0815a916dba063c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 36/40] fix: Markov distances of sequences print no chain
 summary

---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 60f32c3..50f6590 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -231,7 +231,7 @@ class Sequence:
                     self._om_dist(y_int)
 
                 elif dist_type.lower() == "markov":
-                    p = Markov(y_int).p
+                    p = Markov(y_int, summary=False).p
                     self.indel = 1
                     mat = (2 - (p + p.T)) / 2
                     np.fill_diagonal(mat, 0)
-- 
2.43.0


From 5dd33c9ab1d3fd21a27d3b81634a6efdcaaa650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 37/40] fix: kullback keeps full precision for counts of narrow
 integer types

---
 giddy/markov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index d48bbb1..f87409a 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1632,6 +1632,7 @@ def kullback(F):
 
     """
 
+    F = np.asarray(F, dtype=float)
     F1 = F == 0
     F1 = F + F1
     FLF = F * np.log(F1)
-- 
2.43.0


From 9de08362a2c304a724ab6be67631ea63bf551348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 38/40] fix: Theta reads regime labels given as a list

---
 giddy/rank.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/rank.py b/giddy/rank.py
index e8aeb6b..a2f3993 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -95,6 +95,7 @@ class Theta:
         n, k = y.shape
         ranks_d = ranks[:, list(range(1, k))] - ranks[:, list(range(k - 1))]
         self.ranks_d = ranks_d
+        regime = np.asarray(regime)
         regimes = np.unique(regime)
         self.regimes = regimes
         self.total = sum(abs(ranks_d))
-- 
2.43.0


From 388bcb96629b6e0d03f017c03864d40cd11e0acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 39/40] fix: SpatialTau reads values by position, not by label

---
 giddy/rank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/rank.py b/giddy/rank.py
index a2f3993..f7d0636 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -353,6 +353,8 @@ class SpatialTau:
 
     def __init__(self, x, y, w, permutations=0):
         w.transform = "b"
+        x = np.asarray(x)
+        y = np.asarray(y)
         self.n = len(x)
         res = Tau(x, y)
         self.tau = res.tau
-- 
2.43.0


From 3063fb00d593dc59921e291cc15f493d577090d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 40/40] fix: set the conditional steady states of
 Spatial_Markov only when complete

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index f87409a..c4e81c9 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -872,9 +872,10 @@ class Spatial_Markov:
             if len({s.shape for s in _S}) == 1:
                 self._S = np.asarray(_S, dtype=object)
             else:
-                self._S = np.empty(len(_S), dtype=object)
+                S = np.empty(len(_S), dtype=object)
                 for i, s in enumerate(_S):
-                    self._S[i] = s
+                    S[i] = s
+                self._S = S
         return self._S
 
     @property
-- 
2.43.0

