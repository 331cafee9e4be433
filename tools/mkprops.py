#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, E, R, D, S, P, G, U, C = ("giddy/markov.py", "giddy/ergodic.py", "giddy/rank.py",
                             "giddy/directional.py", "giddy/sequence.py",
                             "giddy/plotting.py", "giddy/mobility.py", "giddy/util.py",
                             "giddy/components.py")

# id, title, statement, over, quantifier, why tests cannot, files, mechanisms
# [(name, where)], observe_at, technique, assumptions for the level note
T = []


def add(*a):
    T.append(a)


add("C01", "Classic Markov counts and probabilities are the panel's transitions",
    "For any panel of class labels (one row per unit, one column per period), the transition counts hold, for every ordered pair of classes, exactly the number of unit-periods moving from the first to the second, so they sum to n(t-1). Classes are the sorted distinct labels unless given, in which case given order and unvisited classes are respected. Every transition probability is the count divided by its row total (a class never left has a zero row, or a one on the diagonal when filling is requested, with counts untouched), so every other row sums to one and an absorbing class has probability exactly one.",
    ["inputs"], "all label panels: any n, t, number of classes, label type (integers of any width, negative, strings, floats, booleans), memory layout and given class list",
    "tests pin a few probabilities of one income panel; nothing samples label types, unvisited classes, single periods or counts with awkward divisions",
    [M, U], [("Markov.__init__ (count loop, division, filling)", M), ("fill_empty_diagonals", U)],
    ["Markov.classes", "Markov.transitions", "Markov.p"],
    "runtime monitor: exact rational recount of every observed panel")
add("C02", "Chain structure and printed summary agree with reachability",
    "For any estimated chain, the reported communicating, recurrent and transient classes partition the states exactly as mutual reachability and closedness in the transition probabilities dictate, the absorbing states are exactly those with a staying probability of one, and the counts of each kind match their lists. The printed summary, shown only when asked for, states the same numbers and members and whether the chain is irreducible.",
    ["inputs"], "all label panels, including reducible, periodic, absorbing and never-visited structures, with and without filling of empty rows, for classic and rank chains",
    "tests only look at one irreducible chain; the structure depends on the zero pattern of the matrix, of which there are exponentially many",
    [M], [("Markov.__init__ (structure attributes, summary printing)", M)],
    ["Markov.cclasses_indices", "Markov.rclasses_indices", "Markov.tclasses_indices", "Markov.astates_indices", "num_*", "stdout"],
    "runtime monitor: reachability oracle and parsing of the printed report")
add("C03", "Steady states are the stationary distributions of the recurrent classes",
    "For any stochastic matrix the steady state is a probability vector left unchanged by one step of the chain: one vector of length k when there is exactly one recurrent class, otherwise one row per recurrent class, supported on that class only and zero elsewhere; a chain gives the rows in the order in which it reports its recurrent classes. Matrices with empty rows are refused unless filling is requested, in which case the result is that of the filled matrix.",
    ["inputs"], "all stochastic matrices: irreducible, periodic, reducible, absorbing, nearly decomposable, integer or float, any layout, and the chains estimated from panels",
    "tests check three fixed matrices; stationarity over arbitrary zero patterns is a universal statement",
    [E, M], [("steady_state", E), ("Markov.steady_state", M)], ["steady_state", "Markov.steady_state"],
    "runtime monitor: exact rational stationary distributions per recurrent class")
add("C04", "Mean first passage times satisfy first-step analysis",
    "For any stochastic matrix the mean first passage time from i to j equals one plus the probability-weighted passage times from the successors of i other than j, the diagonal being mean recurrence times (reciprocal steady state probabilities in an irreducible chain). It is infinite exactly when j may never be entered from i. Results do not depend on the number type of the matrix and follow a relabelling of the states.",
    ["inputs"], "all stochastic matrices of any structure (irreducible, reducible, periodic, absorbing), of integer or real type, and the chains estimated from panels",
    "tests check one regular and two reducible matrices; the closed form used must agree with first-step analysis on every zero pattern",
    [E, M], [("mfpt", E), ("Markov.mfpt", M)], ["mfpt", "Markov.mfpt"],
    "runtime monitor: exact rational first-step analysis")
add("C05", "Variances of first passage times are those of the chain",
    "For any irreducible chain the reported variance of the first passage time from i to j is the second moment minus the squared mean, with both moments obtained by conditioning on the first step. It is non-negative, zero where the passage is deterministic, and follows a relabelling of the states.",
    ["inputs"], "all irreducible aperiodic and periodic transition matrices of modest condition",
    "one matrix is tested", [E], [("var_mfpt_ergodic", E)], ["var_mfpt_ergodic"],
    "runtime monitor: exact rational second-moment first-step analysis")
add("C06", "Sojourn times are the expected stays of the chain",
    "The sojourn time of every state is 1/(1 - staying probability), infinite exactly for absorbing states, and computing it never fails on a chain with absorbing states. Rows without any probability mass are treated as absorbing, and the informational message about absorbing states is printed only when a summary is requested and such states exist.",
    ["inputs"], "all transition matrices and estimated chains, with and without absorbing and empty states",
    "tests check two matrices", [M], [("sojourn_time", M), ("Markov.sojourn_time", M)], ["sojourn_time", "Markov.sojourn_time", "stdout"],
    "runtime monitor: definition on every observed matrix")
add("C07", "Mobility indices equal their published formulas",
    "For any stochastic matrix each of the five Markov mobility indices (trace-based, determinant, second-largest eigenvalue modulus, and the two weighted by an initial distribution, uniform by default) equals its published formula. They vanish for a chain that never moves, and the trace, determinant and eigenvalue indices do not change when the states are relabelled. The Prais measure of each class is one minus its staying probability.",
    ["inputs"], "all stochastic matrices of any size and all initial distributions",
    "tests evaluate each index on one matrix", [G, M], [("markov_mobility", G), ("prais", M)], ["markov_mobility", "prais"],
    "runtime monitor: independent formula evaluation with exact rationals")
add("C08", "Empty rows are filled, refused or kept exactly as requested",
    "Filling sets the diagonal of precisely the rows that are entirely zero to one, in two- and three-dimensional arrays, changes nothing else, is idempotent, and never alters its argument; other dimensions are refused. Every long-run routine either refuses a matrix with empty rows or, when filling is requested, gives the result of the filled matrix.",
    ["inputs", "configurations"], "all non-negative matrices and stacks with any set of empty rows",
    "tests fill two small arrays", [U, E], [("fill_empty_diagonals", U), ("empty row guards", E)], ["fill_empty_diagonals", "steady_state", "mfpt", "sojourn_time"],
    "runtime monitor: definition, idempotence and refusal on every observed matrix")
add("C09", "Spatial Markov conditions every transition on the lag class at its start",
    "For any panel and weights, own classes and spatial-lag classes are those given by the cutoffs in force (pooled quantiles, per-period quantiles, supplied cutoffs, with values equal to a cutoff in the lower class) or, for discrete data, the labels and the weight-majority label among neighbours with ties first broken by the unit's own label. The conditional count for (lag class, i, j) is exactly the number of unit-periods that start in i with that lag class and end in j, so the conditional counts sum over lag classes to the a-spatial ones. Conditional and a-spatial probabilities are these counts divided by row totals over all k own and m lag classes, empty ones included.",
    ["inputs", "configurations"], "all panels, weights (binary, row-standardised, general; any unit identifiers), numbers of classes, cutoff modes and discrete label types",
    "tests cover one income panel with contiguity weights and two class settings",
    [M], [("Spatial_Markov.__init__", M), ("Spatial_Markov._maybe_classify", M), ("Spatial_Markov._calc", M)],
    ["Spatial_Markov.class_ids", "lclass_ids", "cutoffs", "lag_cutoffs", "T", "P", "transitions", "p"],
    "runtime monitor: independent discretisation, dense spatial lag and recount; conservation")
add("C10", "Homogeneity, chi-square and Kullback tests equal their definitions",
    "For any set of regime transition-count matrices the homogeneity test reports pooled and regime probabilities, the Q and likelihood-ratio statistics, their per-cell contributions, the degrees of freedom with the corrections for empty rows and cells, the counts of occupied classes and targets these rest on, and the matching chi-square tail probabilities, exactly as defined by Bickenbach and Bode. The two-matrix chi-square test and Kullback's information test likewise equal their definitions, are zero for proportional regimes and non-negative otherwise. Results do not depend on the number type or the order of the regimes.",
    ["inputs"], "all lists of equally sized count matrices, square or rectangular, with empty rows, columns, cells and regimes, of any integer or real type",
    "tests compare one published example", [M], [("Homogeneity_Results._homogeneity", M), ("chi2", M), ("kullback", M)],
    ["homogeneity(...).Q, LR, dof, p-values, tables", "chi2", "kullback"],
    "runtime monitor: independent evaluation of the statistics on observed counts")
add("C11", "Spatial Markov results derive from its counts in any reading order",
    "Steady states, passage times, homogeneity and chi-square results read from a spatial Markov object are those of its conditional and a-spatial matrices, whatever the order, repetition or interleaving of the readings and of the printed report. With permutation inference, each simulated statistic is the summed chi-square of one joint reshuffling of whole units' lag histories with the fitted cutoffs kept, every reshuffling being equally likely, and the pseudo p-value is (number at least as large + 1)/(permutations + 1). Inference leaves every observed result unchanged.",
    ["inputs", "histories"], "all panels and weights, fixed and per-period, discrete and continuous, and all orders of access to the derived results",
    "tests read each attribute once for one fit and check one p-value for one seed", [M],
    [("lazy properties of Spatial_Markov", M), ("permutation loop of Spatial_Markov.__init__", M)],
    ["s", "S", "f", "F", "ht", "Q", "LR", "dof_hom", "shtest", "chi2", "x2", "x2_pvalue", "x2_dof", "x2_realizations", "x2_rpvalue"],
    "runtime monitor over access histories; simulated values against exhaustive enumeration of permutations")
add("C12", "Printed and TeX reports state the computed results",
    "The printed homogeneity and spatial Markov reports show the title, the regime and class names (given, or numbered defaults covering all regimes), the number of regimes and classes, test statistics, degrees of freedom, p-values, the pooled matrix and one matrix per regime, all equal to the computed results to three decimals. When a file name is given, the TeX file holds the same numbers and names.",
    ["inputs", "configurations"], "all results, names, titles and output requests, with any numbers of classes and lag classes",
    "tests only call the report for one result", [M], [("Homogeneity_Results.summary", M), ("Spatial_Markov.summary", M)],
    ["stdout", "TeX file"], "runtime monitor: every printed number and name is parsed back")
add("C13", "LISA Markov classifies quadrants, moves and significance as defined",
    "For any panel and weights every unit-period is in the Moran-scatterplot quadrant given by the signs of its value and of its row-standardised spatial lag relative to the cross-section mean, in the default or the GeoDa numbering. The chain over the four quadrants counts exactly these moves, each move has the type number of its origin-destination pair, and, with permutations, the significant move type follows the documented table of origin, destination and the significance of both ends at the requested level.",
    ["inputs", "configurations"], "all panels without values or lags at the mean, all weights and identifiers, both quadrant schemes, all significance levels",
    "tests check one panel", [M], [("LISA_Markov.__init__", M), ("TT, MOVE_TYPES tables", M)],
    ["LISA_Markov.q", "transitions", "move_types", "significant_moves", "p_values"],
    "runtime monitor: sign oracle, move table rebuilt from the documentation")
add("C14", "Expected LISA moves assume independent own and lag moves",
    "The expected transition table is the row totals of the observed quadrant transitions times the product of the two-state (high or low relative to the mean) transition probabilities of the unit and of its lag, arranged in the quadrant order in use, always covering both states. The reported chi-square test compares observed with expected transitions, and the GeoDa scheme gives the same results up to renumbering the second and third quadrant.",
    ["inputs", "configurations"], "all panels and weights, both quadrant schemes, including chains in which one state never occurs",
    "tests pin one table", [M], [("LISA_Markov.__init__ (expected_t, chi_2)", M)],
    ["LISA_Markov.expected_t", "LISA_Markov.chi_2"],
    "runtime monitor: independent two-state chains and their product")
add("C15", "Spill-over marks the units newly joined to earlier significant clusters",
    "For any quadrant and period, the component numbers group exactly the units connected through the significant units of that quadrant and their neighbours (and neighbours' neighbours on request), zero meaning in no component, in every period including the last. A unit spills over in a transition exactly if it is in no component at the start and its component at the end contains a unit that was in a component at the start. Without permutation inference no spill-over is reported.",
    ["inputs", "configurations"], "all panels, graphs (any size and depth), unit identifiers, quadrants, significance levels and neighbourhood options",
    "tests count two numbers for one panel", [M, C], [("LISA_Markov.spillover", M), ("Graph.connected_components", C)],
    ["spillover()['components']", "spillover()['spill_over']"],
    "runtime monitor: union-find oracle on the observed significant units")
add("C16", "Rank chains follow ranks and locations",
    "The full-rank chain gives the highest value of each period rank one and counts, over all units, the moves between ranks, with ties resolved so that every rank is taken exactly once per period. The geographic-rank chain counts, for every rank, the moves between the units that hold it in consecutive periods. Both depend only on the order of values within periods, have n states and n(t-1) transitions, and their probabilities follow.",
    ["inputs"], "all panels, with and without ties, of any number type and size",
    "tests check two corners of one panel", [M], [("FullRank_Markov", M), ("GeoRank_Markov", M)],
    ["FullRank_Markov.ranks", "transitions", "p", "GeoRank_Markov.transitions", "p"],
    "runtime monitor: rank oracle and invariance relations")
add("C17", "Kendall's tau equals its pairwise definition",
    "For any two non-constant sequences, the numbers of concordant and discordant pairs and of pairs tied in exactly one sequence are those of a full pairwise comparison, tau is the tie-corrected (tau-b) ratio, and its p-value is the two-sided normal approximation with the standard variance. Tau is symmetric, antisymmetric under negation and depends only on the orderings.",
    ["inputs"], "all pairs of sequences, of any length, number type, with any ties and any order",
    "tests check one pair", [R], [("Tau._calc", R)], ["Tau.tau", "tau_p", "concordant", "discordant", "extraX", "extraY"],
    "runtime monitor: full pairwise count and scipy cross-check")
add("C18", "Theta equals the share of rank movement shared within regimes",
    "For any panel and partition, theta of each period is the sum over regimes of the absolute net rank change divided by the total absolute rank change, using average ranks for ties, and lies in [0, 1]. With permutations, the left and right p-values count the simulated values (the observed one included) not above and not below the observed one, over permutations + 1. It does not depend on the order of the units or the names of the regimes.",
    ["inputs", "configurations"], "all panels and partitions: ties, singleton regimes, one regime, labels of any type",
    "tests check one panel", [R], [("Theta.__init__", R), ("Theta._calc", R)], ["Theta.theta", "total", "ranks", "pvalue_left", "pvalue_right"],
    "runtime monitor: definition in average ranks")
add("C19", "Spatial, local and regional taus equal their pairwise definitions",
    "For any two variables, weights and partition: the spatial tau is the tie-corrected tau over neighbouring pairs only; the local tau of a unit is its mean concordance with all others; the neighbour and neighbourhood local taus are its weighted mean concordance with its neighbours and the mean concordance of all pairs in its neighbourhood; the regional tau of two regimes is the mean concordance of the pairs between (or within) them. Observations belong to units by position in the weights' order, whatever the identifiers.",
    ["inputs", "configurations"], "all pairs of variables (including large integers and unsigned types), symmetric weights, identifiers and partitions",
    "tests check one panel whose identifiers equal positions", [R],
    [("SpatialTau._calc", R), ("Tau_Local", R), ("Tau_Local_Neighbor", R), ("Tau_Local_Neighborhood", R), ("Tau_Regional", R)],
    ["tau_spatial", "concordant_spatial", "discordant_spatial", "tau_local", "tau_ln", "tau_ln_weights", "tau_lnhood", "tau_reg"],
    "runtime monitor: brute-force pairwise oracle")
add("C20", "Rank inference simulates the stated permutations and counts fairly",
    "Each simulated value of the spatial, local, neighbourhood, regional taus and of theta is the statistic of a random relocation of the observations (pairs kept together, the focal unit held in place for local ones; random regime membership for theta), all relocations being equally likely. Every pseudo p-value is a tail count plus one over permutations + 1: the smaller of the numbers of simulated values at least as large and at least as small as the observed one for local and regional taus, the number at least as large (or its complement above one half) for the spatial tau, and each tail separately for theta.",
    ["inputs", "histories"], "all data, weights, partitions and numbers of permutations",
    "tests fix one seed per statistic; a biased shuffle or an off-by-one count passes them", [R],
    [("permutation loops of Theta, SpatialTau, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional", R), ("pseudop", R)],
    ["taus", "tau_spatial_psim", "tau_ln_sim", "tau_ln_pvalues", "tau_lnhood_sim", "tau_lnhood_pvalues", "tau_reg_sim", "tau_reg_pvalues", "sim"],
    "runtime monitor: recount of p-values; simulated values against exhaustive permutation distributions")
add("C21", "Rose diagrams count every movement vector in its sector",
    "For any two-period data, weights and number of sectors k, each unit's vector is its own change and the change of its spatial lag; length and signed angle reproduce it, whatever the number type. The circle is always cut into k equal sectors starting at zero, closed at their lower end, and every unit is counted in exactly the sector of its angle, so the counts sum to n.",
    ["inputs", "configurations"], "all two-period data (real, integer, unsigned), weights, identifiers and k, including vectors on the cuts and units that do not move",
    "tests use one panel with k of 4 and 8", [D], [("Rose._calc", D), ("Rose.__init__", D)],
    ["Rose.cuts", "bins", "counts", "theta", "r", "lag", "wY"],
    "runtime monitor: vector geometry and sector oracle with exact axis cases")
add("C22", "Rose inference permutes whole units and leaves the observed rose alone",
    "Each simulated histogram is the rose of a uniformly random relocation of whole units, and always counts all n units. The counts as large and as small as observed, the expected counts and the two-sided, positive and negative pseudo p-values follow from the simulated histograms as documented, for every spelling of the documented alternatives. No sequence of inference calls changes the observed vectors, lags, counts or data.",
    ["inputs", "histories"], "all roses and all sequences of inference calls with any alternatives and numbers of permutations",
    "tests run four calls with one seed and look at p only", [D], [("Rose.permute", D)],
    ["Rose.counts_perm", "larger_perm", "smaller_perm", "expected_perm", "p", "theta", "counts", "Y", "wY"],
    "runtime monitor over call histories; simulated histograms against exhaustive enumeration")
add("C23", "Plots draw exactly the computed movements and change nothing else",
    "Vector plots draw one line per unit from its start to its end value and lag; rose plots draw one point per unit at its angle and length, coloured by the attribute; the heatmap shows, off the diagonal, the number of units moving between the clusters significant at the requested level (start in rows, end in columns, labelled ns, HH, LH, LL, HL), both periods simulated with the same random numbers; the composite and interactive views combine these with start and end maps. Given axes and drawing options are used, and colour options conflicting with an attribute are refused. No plot, successful or refused, changes the data, the weights, the random number state or the plotting defaults.",
    ["inputs", "configurations"], "all two-period data, weights, axes and options, before and after inference",
    "tests only check that a figure is returned", [P, D],
    [("dynamic_lisa_vectors", P), ("dynamic_lisa_rose", P), ("dynamic_lisa_heatmap", P), ("dynamic_lisa_composite", P), ("dynamic_lisa_composite_explore", P), ("Rose.plot, plot_origin, plot_vectors", D)],
    ["drawn artists", "matplotlib.rcParams", "numpy random state", "weights transformation"],
    "runtime monitor: drawn artists are read back; before/after snapshots of global state")
add("C24", "Sequence distances are optimal alignment costs",
    "For any set of label sequences (of different lengths where the kind allows), the distance of every pair is the minimum total cost over all alignments by substitution, insertion and deletion under the costs in force: user costs, or the documented costs of the interval, arbitrary, Markov and transition kinds; the Hamming distance counts differing positions. Labels are coded in sorted order, equal sequences share their distances, and missing, unknown or unsuitable requests are refused with an error.",
    ["inputs", "configurations"], "all sets of sequences: any labels and types, more than ten codes, repeats, ragged lengths, all kinds and user costs",
    "tests check three short sequences over four letters", [S, M], [("Sequence.__init__", S), ("Sequence._om_pair_dist", S), ("Sequence._om_dist", S)],
    ["Sequence.seq_dis_mat", "classes", "k", "n", "label_dict", "subs_mat", "indel"],
    "runtime monitor: shortest-path oracle over alignments for every pair")
add("C25", "Sequence distance matrices are metric-like and equivariant",
    "Every distance matrix is symmetric, non-negative and zero for equal sequences, positive for different ones when costs are positive, and satisfies the triangle inequality when the substitution costs do. It follows a reordering of the sequences and a renaming of the labels (order-preserving for the interval kind), is unchanged by reversing time for cost-based, interval, arbitrary and Hamming kinds, scales with the costs, and does not depend on other sequences under user costs.",
    ["inputs"], "all sets of sequences and costs, and all their reorderings, renamings and reversals",
    "tests never compare two runs", [S], [("Sequence._om_dist (deduplication of sequences)", S)], ["Sequence.seq_dis_mat"],
    "runtime monitor: metamorphic relations between observed runs")
add("C26", "Calls leave inputs alone and depend only on inputs and seed",
    "No public routine changes the arrays, lists, names or neighbour structure it is given, and none draws random numbers unless inference (or random tie-breaking) is requested. The same inputs and random state give the same results, whatever calls were made before, and requesting permutation inference changes no observed statistic.",
    ["inputs", "histories"], "all public routines, all inputs (read-only and strided arrays included) and all interleavings of calls",
    "tests make single calls on fresh data", [M, E, G, R, D, S, U, C],
    [("copies made by every constructor", M), ("permutation loops", R), ("Rose.permute", D)],
    ["arguments before and after", "numpy random state", "all public result attributes"],
    "runtime monitor: argument, RNG and result snapshots over random call histories")
add("C27", "Matrix utilities permute and flatten exactly",
    "Shuffling a matrix applies one uniformly random permutation to rows and columns simultaneously and leaves the matrix itself alone. The lower half of a square matrix is flattened row by row into a column of n(n-1)/2 values strictly below the diagonal.",
    ["inputs", "histories"], "all square matrices and repeated calls, reusing identifiers or not",
    "tests check one seed and one matrix", [U], [("shuffle_matrix", U), ("get_lower", U)], ["shuffle_matrix", "get_lower"],
    "runtime monitor: permutation recovered from each result; exhaustive uniformity test")
add("C28", "Deprecated names behave as their replacements",
    "Every deprecated routine returns exactly what its replacement returns for the same arguments, refuses what it refuses, and warns about its replacement.",
    ["inputs"], "all transition matrices and arguments", "tests call each alias once", [E],
    [("fmpt", E), ("var_fmpt_ergodic", E)], ["fmpt", "var_fmpt_ergodic", "warnings"],
    "runtime monitor: differential comparison of both names on observed inputs")
add("C29", "Results follow the units, not their order, names or listing",
    "Presenting the same data and weights with the units reordered, the identifiers renamed, or neighbours listed or inserted in another order gives the same aggregate results, and per-unit results that move with their units, for classic, rank, spatial and LISA Markov chains, all rank measures, roses, sequences and component checks. The same numbers held in another integer or exactly representable numeric type give the same results, as do lists and tables in the classic, spatial and rank Markov chains, the Markov statistics and the pairwise rank measures.",
    ["inputs", "configurations"], "all panels with distinct values, all symmetric weights, all permutations and renamings of the units",
    "tests use one presentation of one data set", [M, R, D, S, C],
    [("positional alignment of data and weights", M), ("id handling in the taus", R), ("lag computation", D)],
    ["public result attributes of two presentations"],
    "runtime monitor: metamorphic comparison of observed presentations")
add("C30", "Connectivity answers agree with reachability in the graph",
    "A set of identifiers is reported as one component exactly if every member can be reached from every other through members only, for any identifiers, and removing a unit is allowed exactly if the remaining members stay connected. The component search groups nodes exactly by connectivity through edges whose weight compares as requested with the threshold, for graphs of any depth, repeatably.",
    ["inputs", "histories"], "all graphs (deep chains included), subsets, leavers, thresholds, comparison operators and repeated queries",
    "tests use one lattice and a handful of subsets", [C], [("is_component", C), ("check_contiguity", C), ("Graph.connected_components", C)],
    ["is_component", "check_contiguity", "Graph.connected_components"],
    "runtime monitor: union-find oracle")
add("C31", "Calls made at the same time in several threads do not interfere",
    "Calls made at the same time from several threads, each with a weights object of its own and without random inference, give the results they give one after the other, on the same shared arrays or on others. The results of one object, first read by several threads at once and in any order, are those read by one thread.",
    ["schedules", "inputs"], "all routines, inputs, numbers of threads and interleavings of their steps",
    "tests call one routine at a time from one thread", [M, E, G, R, D, S, U, C],
    [("lazily computed results", M), ("module tables and caches", M), ("constructors", R)],
    ["public result attributes read in each thread", "log of the steps of all threads"],
    "runtime monitor: threads forced to give way inside the package, compared with sequential readings")
add("C32", "Results survive being copied, stored and restored",
    "Every result object, whether or not its derived results have been read before and with or without inference, can be copied, deep-copied, and pickled and restored. The copy is of the same kind and reads the same in every result, reports, spills over and permutes as the original would, and working with it (other than with a shallow copy) leaves the original alone.",
    ["inputs", "histories"], "all result objects, their reading histories and the pickle protocols",
    "tests never copy or store a result", [M, R, D, S],
    [("attributes set by the constructors", M), ("lazily computed results", M), ("Rose.permute", D)],
    ["public result attributes of copy and original"],
    "runtime monitor: snapshots of copies and originals before and after work on either")
add("C33", "A call stopped midway does no lasting harm",
    "A call or a reading of a derived result that is stopped by an exception at any point, such as a keyboard interrupt, leaves its arguments, the neighbour structure and the results of existing objects as they were: the same call or reading made again gives what it would have given, and inference of a rose that was stopped leaves the observed rose alone and can be run again.",
    ["crash_points", "histories"], "all computing routines, inputs and lines at which they may be stopped, repeatedly",
    "tests never interrupt a call", [M, E, G, R, D, S, U, C],
    [("lazily computed results", M), ("permutation loops", R), ("Rose.permute", D)],
    ["arguments and results after the interrupt and after the call is made again"],
    "runtime monitor: exception injected at traced lines, then snapshots of inputs and repeated results")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for (pid, title, st, over, q, why, files, mech, obs, _tech) in T:
            assert len(title) <= 80, title
            f.write(json.dumps({
                "id": pid, "title": title, "statement": st,
                "quantifier": {"over": over, "text": q},
                "why_tests_cant": why[0].upper() + why[1:] + ".",
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": obs, "hook_needed": None},
            }) + "\n")
    checks = []
    for (pid, _t, _s, _o, _q, _w, _f, _m, _obs, tech) in T:
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {pid}",
            "technique": tech,
            "level": "exploration",
            "level_note": "Every observed execution of the real code is judged by an "
            "independent oracle; reach is that of the seeded workloads, whose measured "
            "situations are in the evidence file. Trusts the oracle, numpy and scipy.",
        })
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); "
        "import giddy, gmon'",
        "checks": checks,
        "not_applicable": [],
        "notes": "giddy is pure Python without native code: compiler sanitizers "
        "have nothing to observe; every property is decided by monitors over recorded "
        "calls, threads (C31) and injected interrupts (C33) included. No hooks in /repo are needed. "
        "GIDDY_REPO may name another tree for development; the registered commands use "
        "/repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
