#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SE = "src/ldt_statistics/modeling/search/"
LI = "src/ldt_statistics/modeling/linear/"
DC = "src/ldt_statistics/modeling/discrete/"
VA = "src/ldt_statistics/modeling/time_series/varma/"
INC = "include/math/statistics/inference/"

p("S01", "Declared storage and work sizes cover every use",
  "An estimator or algorithm that runs in caller-provided buffers declares, when it is constructed, how much result storage and scratch space it needs; a calculation never places a block of its buffers beyond the declared size, and blocks that hold its results never overlap one another. "
  "A calculation whose actual dimensions need more than was declared is rejected before the buffers are used. "
  "This holds for every combination of dimensions and options (restricted or not, detailed or not, with or without principal components, and so on).",
  ["inputs", "configurations"], "all dimensions (observations, equations, regressors, horizons, choices, partitions) and all on/off options of each estimator",
  "A too-small declaration writes past a heap block only for particular dimension/option combinations, and silently; the tests allocate a handful of sizes and do not run under a memory checker.",
  [LI + "sur.cpp", LI + "sur_extended.cpp", LI + "sur_simulation.cpp", LI + "sur_projection.cpp", VA + "varma.cpp", VA + "varma_arma.cpp", VA + "varma_forecast.cpp", VA + "varma_simulation.cpp", DC + "discrete_choice.cpp", DC + "discrete_choice_sim.cpp", "src/ldt_statistics/pca.cpp", "src/matrix/dataset.cpp", "src/ldt_statistics/correlation.cpp", "src/ldt_statistics/clustering/distance.cpp", "src/ldt_math/derivative.cpp"],
  [("Sur", LI + "sur.cpp: constructor computes sizes, calculation carves the buffers"), ("Varma", VA + "varma.cpp"), ("DiscreteChoiceSim", DC + "discrete_choice_sim.cpp"), ("PcaAnalysis", "src/ldt_statistics/pca.cpp")],
  [("StorageSize / WorkSize / WorkSizeI", "declared number of elements of the caller's buffers")])

p("T01", "Models evaluated in parallel share no mutable state",
  "When a search evaluates models concurrently, evaluating one model changes nothing that another evaluation can see: it writes only to its own searcher and to buffers private to it, never to static or global storage, to the shared data, options and request objects, or to a buffer shared between searchers. "
  "Evaluations that run on worker threads never call into the host R interpreter and never call library functions that keep hidden global state. "
  "So results do not depend on the number of threads or on their interleaving.",
  ["schedules"], "all interleavings of the worker threads and of the progress-reporting thread, for every model family",
  "A data race shows up only under particular interleavings; the tests run a few tiny parallel searches and compare one summary.",
  [SE + "modelset.cpp", SE + "searcher.cpp", SE + "searcher_reg.cpp", LI + "sur_modelset.cpp", VA + "varma_modelset.cpp", DC + "discrete_choice_modelset.cpp", INC + "searchers.h", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_varma.cpp", "Rpackage/src/r_dc.cpp"],
  [("ModelSet::Start", SE + "modelset.cpp parallel loop with per-searcher work arrays"), ("Searcher::EstimateOne overrides", "per-family evaluation run on worker threads")])

p("D01", "Random results are a function of the user's seed",
  "Every random draw made while splitting, simulating, sampling or filling data comes from a generator initialised from the seed the user gave; entropy sources and clocks are consulted only when the seed is zero (not set). "
  "The seed the user gives reaches every generator used in the call, and nothing that selects or scores models depends on addresses, hash order or time. "
  "The same call with the same non-zero seed therefore gives the same answer.",
  ["inputs", "histories"], "all entry points with a seed, all non-zero seeds, repeated calls in any order",
  "A test can compare two runs of one configuration; it cannot show that no path uses another source of randomness.",
  [LI + "sur_simulation.cpp", DC + "discrete_choice_sim.cpp", "src/ldt_statistics/data_split.cpp", "src/ldt_statistics/distributions/distributions_uni.cpp", "src/ldt_statistics/distributions/mixture.cpp", "src/matrix/matrix.cpp", "src/variable/variable.cpp", LI + "sur_modelset.cpp", DC + "discrete_choice_modelset.cpp"],
  [("engine construction", "every std random engine in src/"), ("seed derivation", "SurModelset / DiscreteChoiceModelset constructors")])

p("C01", "Every candidate model is counted exactly once",
  "A search gives every candidate it enumerates exactly one outcome: it is counted as searched, and if evaluating it failed, for whatever reason, its failure reason is counted too. "
  "A failure of one candidate never stops the others and never escapes the search, sequential or parallel. "
  "The reported totals (expected, searched, failures by reason) sum over all searchers, and the expected number is obtained by the same enumeration and the same skipping rule as the search itself.",
  ["inputs", "fault_sequences", "configurations"], "all candidate sets, all ways in which an evaluation can fail, sequential and parallel mode",
  "Tests look at the counts of a few successful searches; failing evaluations of every kind at every position are not sampled.",
  [SE + "searcher.cpp", SE + "modelset.cpp", INC + "searchers.h"],
  [("Searcher::Start", SE + "searcher.cpp"), ("Searcher::AddState / GetCount", SE + "searcher.cpp"), ("ModelSet::CombineInfo", SE + "modelset.cpp")],
  [("Counter, States", "searched count and failures by reason")])

p("C02", "No model that fails a requested check is admitted",
  "When the user sets limits on a model (minimum observations, minimum degrees of freedom, maximum condition number, maximum AIC or SIC, minimum R2, minimum number of valid simulations, bounds on predictions), a model that violates one of them contributes nothing to any result: it is rejected and its rejection reason is counted. "
  "Each limit is compared with the statistic it is named after, in the right direction, whenever the limit is set. "
  "Models whose prediction is not a number, and metrics that are not a number, are never recorded.",
  ["inputs", "configurations"], "all data sets, all limit values, all three model families that support the limit",
  "Tests set one or two limits on one data set; that no path records a model before or without the check is a statement about all paths.",
  [LI + "sur.cpp", LI + "sur_modelset.cpp", LI + "sur_simulation.cpp", VA + "varma_modelset.cpp", VA + "varma_simulation.cpp", VA + "varma.cpp", DC + "discrete_choice_modelset.cpp", DC + "discrete_choice_sim.cpp", SE + "searcher_reg.cpp"],
  [("EstimateOneReg overrides", "the three modelset files"), ("Sur::Calculate", LI + "sur.cpp"), ("SearcherReg::EstimateOne", SE + "searcher_reg.cpp")])

p("C03", "Each requested metric is recorded in its own slot",
  "A search records, for every in-sample and out-of-sample metric the user requested and every target, that metric's own value in the slot that belongs to it, whatever the position of the metric in the request. "
  "In-sample and out-of-sample slots never collide, a metric that was not requested writes nothing, and a requested metric that the estimator does not provide records nothing. "
  "Pushing results keeps the same correspondence: evaluation, target and coefficient indices of a recorded value are those it was computed for.",
  ["inputs", "configurations"], "all subsets and orders of requested metrics, all target sets, the three model families",
  "The number of subsets and orders of metrics is large; tests request one or two, usually in the enumerators' order.",
  [LI + "sur_modelset.cpp", VA + "varma_modelset.cpp", DC + "discrete_choice_modelset.cpp", SE + "searcher_reg.cpp", SE + "summary.cpp", LI + "sur_simulation.cpp", VA + "varma_simulation.cpp"],
  [("EstimateOneReg overrides", "the three modelset files"), ("SearchMetricOptions::Update", SE + "summary.cpp")])

p("C04", "A cancelled search stops promptly and reports no partial model",
  "Once cancellation is requested, no search loop and no simulation loop starts another model estimation: each of them looks at the request between two estimations. "
  "A model whose evaluation was interrupted contributes no metric, coefficient or projection to the results. "
  "When the user interrupts the host call, the request is raised and the call waits for the running work before releasing what that work uses.",
  ["schedules", "histories"], "all points in time at which cancellation can be requested, all loops that estimate models",
  "Cancellation timing cannot be enumerated by tests, and none of the tests cancels a search.",
  [SE + "searcher.cpp", SE + "modelset.cpp", SE + "searcher_reg.cpp", LI + "sur_simulation.cpp", VA + "varma_simulation.cpp", DC + "discrete_choice_sim.cpp", "Rpackage/src/r_ldt.cpp", "Rpackage/src/r_sur.cpp"],
  [("Searcher::Start", SE + "searcher.cpp"), ("simulation loops", "sur_simulation.cpp, varma_simulation.cpp, discrete_choice_sim.cpp"), ("SearcherReg::EstimateOne", SE + "searcher_reg.cpp")],
  [("RequestCancel", "cancellation flag in the search options")])

p("C05", "Every requested summary is collected and merged completely",
  "For each kind of summary the user can ask for (best models, all models, inclusion weights, cumulative distributions, extreme bounds, mixture moments), every admitted model updates that summary whenever, and only when, it was requested, independently of which others were requested. "
  "The final result merges the summaries of every searcher for the same metric, target and coefficient, without leaving any out and without stopping early. "
  "Running bounds start from values that any observation replaces.",
  ["inputs", "configurations", "schedules"], "all combinations of requested summaries, all numbers of searchers, all value ranges (also all-negative values)",
  "Tests request summaries in a few fixed combinations on small searches.",
  [SE + "summary.cpp", SE + "modelset.cpp", "Rpackage/src/r_ldt.cpp"],
  [("SearcherSummary::Push", SE + "summary.cpp"), ("ModelSet::Combine*", SE + "modelset.cpp")])

p("C06", "Impossible search configurations are rejected up front",
  "A model set refuses, before it creates a searcher for them, variable indices outside the available variables (negative or too large), sizes that are not positive, and combinations of options that cannot be served; it never proceeds with an index that addresses a non-existent variable. "
  "A search with nothing to evaluate, no target, or nothing to save is refused as well.",
  ["inputs", "configurations"], "all partitions, sizes and option combinations a caller can pass",
  "Boundary values of every index in every family are not enumerated by the tests.",
  [LI + "sur_modelset.cpp", VA + "varma_modelset.cpp", DC + "discrete_choice_modelset.cpp", SE + "searcher.cpp", SE + "summary.cpp"],
  [("SurModelset, VarmaModelset, DiscreteChoiceModelset constructors", "the three modelset files"), ("Searcher constructor", SE + "searcher.cpp")])

p("E01", "Numerical and logical failures surface, never pass silently",
  "When a factorisation, inversion, decomposition or linear solve reports failure, the operation that needed it reports an error (or hands the failure code to its caller, who does); it never continues with the unusable result. "
  "Every error condition the code constructs is actually raised, and every error it intercepts is re-raised, converted into a reported error, or recorded; an error message handed back by a call is looked at.",
  ["inputs", "fault_sequences"], "all inputs that make any factorisation or inversion fail (singular, indefinite or non-finite matrices), all call sites",
  "Only a few call sites are reached with singular data by tests; a dropped status leaves plausible-looking wrong numbers.",
  ["src/matrix/matrix_la.cpp", "src/matrix/decompositions.cpp", "src/ldt_math/polynomials/mpolynomial.cpp", LI + "sur.cpp", VA + "varma.cpp", DC + "discrete_choice.cpp", "src/ldt_math/optimization/newton.cpp", "src/ldt_statistics/pca.cpp"],
  [("status-returning matrix routines", "src/matrix/matrix_la.cpp"), ("LAPACK info codes", "src/matrix/*.cpp"), ("catch handlers", "whole tree")])

p("I01", "Operations leave the operands they only read unchanged",
  "An operation that takes data only to read it (the right-hand operands of matrix operations, the data given to an estimator, a score, a distance, a simulation or a search) never modifies that data, on any path, including through aliases of its underlying memory. "
  "Only the documented results (the receiver, explicit output arguments, caller-provided buffers) change.",
  ["inputs", "configurations"], "all operations that accept read-only data, all inputs and option combinations",
  "Tests compare outputs and hardly ever re-check their inputs; a const reference to a matrix does not stop C++ code from writing to the memory it points to.",
  ["include/matrix.h", "src/matrix/matrix.cpp", "src/matrix/matrix_la.cpp", "src/matrix/matrix_sym.cpp", "src/matrix/dataset.cpp", "src/ldt_statistics/", "src/ldt_math/"],
  [("matrix operations", "src/matrix/*.cpp"), ("estimators' Calculate", "src/ldt_statistics/**")])

p("M01", "Checked matrix operations reject mismatched shapes before touching data",
  "The checked matrix operations (element access, products, solves, transposes, sub-matrix copies, row and column operations) verify that indices are inside the matrix and that the shapes of operands and results agree, and raise an error otherwise, before any element is read or written. "
  "Whatever the arguments, a checked operation never accesses memory outside its operands.",
  ["inputs"], "all shapes and indices that can be passed to the checked operations",
  "There are dozens of operations with several shape relations each; tests exercise matching shapes and a few mismatches.",
  ["include/matrix.h", "src/matrix/matrix.cpp", "src/matrix/matrix_la.cpp", "src/matrix/matrix_sym.cpp", "src/matrix/vmatrix.cpp"],
  [("checked operation delegating to its unchecked twin", "src/matrix/matrix.cpp, matrix_la.cpp, matrix_sym.cpp")])

p("N01", "Names, orientations and options agree across the whole library",
  "Every named option (goodness-of-fit, scoring, frequency class, day of week, descriptive and distance types, linkage, distribution and so on) that the library prints is read back as the same option, and no printed name is captured by another option's parser. "
  "Tables indexed by the same option agree with each other: a metric declared positively oriented is one whose weight increases with it.",
  ["inputs", "configurations"], "all enumerators of all option types, all parser branch orders",
  "The tests parse a few names; they do not enumerate every option against every branch.",
  ["include/math/statistics/scoring.h", "src/ldt_statistics/scoring/scoring.cpp", "include/frequency.h", "src/frequency/f_base.cpp", "include/math/statistics/statistics.h", "include/math/statistics/clustering.h", "include/math/statistics/distributions.h"],
  [("ToString / FromString pairs", "include/**, src/**"), ("IsPositiveOriented, ToWeight, FromWeight", "src/ldt_statistics/scoring/scoring.cpp")])

p("N02", "Every option value is either served or refused",
  "Code that selects behaviour by an option's value serves every value the option can take or refuses it with an error; no option value falls through silently into another value's behaviour, into doing nothing, or into an undefined result.",
  ["inputs", "configurations"], "all selections by option value in the library, all values",
  "A forgotten value is reached only by a request for exactly that value; tests request a subset.",
  ["src/", "include/", "Rpackage/src/", "Rpackage_F/src/"],
  [("switch statements over enumerations", "whole tree")])

p("F01", "Values of different frequency classes are never confused",
  "An operation that combines or compares two points in time checks that they belong to the same frequency class before treating one as the other's class, and refuses otherwise. "
  "Reading a frequency from its class text and value text constructs an object of exactly the class that the text denotes, for every class the library can print.",
  ["inputs"], "all pairs of frequency classes, all class texts",
  "There are more than a dozen classes and all their pairs; reinterpreting one class as another gives garbage rather than a crash.",
  ["include/frequency.h", "src/frequency/", "src/variable/", "Rpackage_F/src/"],
  [("CheckClassEquality and the casts it protects", "src/frequency/*.cpp"), ("Frequency::Parse, Frequency::GetClass", "src/frequency/f_base.cpp")])

p("O01", "Every user option reaches the engine field it names",
  "Each option the R interface offers is transferred to the engine setting of the same meaning: none is dropped, swapped with another one or replaced by a constant on the way. "
  "Every option the engine side reads is one the R side provides under that name, and the order of arguments agrees across the language boundary.",
  ["inputs", "configurations"], "all options of all exported functions",
  "Tests set few non-default options, and a dropped or swapped one changes results only when it is set.",
  ["Rpackage/src/r_ldt.cpp", "Rpackage/src/r_ldt.h", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_varma.cpp", "Rpackage/src/r_dc.cpp", "Rpackage/R/options.R", "Rpackage/R/search.R"],
  [("Update* functions of the R boundary", "Rpackage/src/r_ldt.cpp"), ("option constructors", "Rpackage/R/options.R")])

p("U01", "No result depends on uninitialised state",
  "Every scalar or pointer that is part of a library object has a defined value as soon as the object exists, and every local scalar is assigned before it is read on every path. "
  "Results therefore never depend on leftover contents of such members and locals (the elements of caller-provided buffers are not part of this property).",
  ["inputs", "histories"], "all objects, all construction paths, all control-flow paths to each read",
  "Reading an indeterminate value usually yields zero in tests, and no test runs under a memory sanitizer.",
  ["include/", "src/", "Rpackage/src/", "Rpackage_F/src/"],
  [("class members without initialiser", "include/**"), ("local scalars", "src/**")])

p("R01", "Every allocation has exactly one owner that releases it",
  "Memory the library allocates is released exactly once on every path, also when an exception is raised after the allocation: it is either handed to an owner at once or released by the destructor of the object that holds it. "
  "Objects are never released through a type without a virtual destructor, never released twice, and never released by code that does not own them.",
  ["inputs", "fault_sequences", "histories"], "all allocation sites and all normal and exceptional paths after them",
  "Leaks and double releases on error paths are invisible to the tests, which do not run under a leak checker.",
  ["include/", "src/", "Rpackage/src/", "Rpackage_F/src/"],
  [("new / delete / smart pointers", "whole tree"), ("model set destructors", "modelset files")])

# ---- stated, but outside what static analysis can decide here
p("V01", "Estimates solve the estimation problem they are defined by",
  "The coefficients reported for a system of linear equations, a discrete choice model or a vector ARMA model solve the corresponding generalised least squares or maximum likelihood problem for the given data and restrictions, and their reported variances are those of that estimator.",
  ["inputs"], "all full-rank data sets", "Tests compare a few data sets with published numbers.",
  [LI + "sur.cpp", DC + "discrete_choice.cpp", VA + "varma.cpp"], [("Calculate / EstimateMl", "estimator sources")])
p("V02", "Distribution functions are consistent with each other",
  "For every distribution and valid parameters the cumulative function is non-decreasing from 0 to 1, the quantile function is its inverse, and the density integrates to it; moments agree with the density.",
  ["inputs"], "all parameters and arguments", "Tests evaluate a few points per distribution.",
  ["src/ldt_statistics/distributions/distributions_uni.cpp"], [("Distribution<type>", "distributions_uni.cpp")])
p("V03", "Frequency arithmetic is an ordered group action",
  "For every frequency class, moving forward by n and measuring the distance from the start gives n, order agrees with distance, and printing and parsing a value is the identity.",
  ["inputs"], "all frequencies of all classes and all step counts", "Tests sample a few dates per class.",
  ["src/frequency/", "include/frequency.h"], [("Next, Minus, CompareTo, Parse0, ToString", "src/frequency/*.cpp")])
p("V04", "Merged running moments equal the moments of the union",
  "Combining running means, variances, skewness and kurtosis of parts of a weighted sample gives the moments of the whole sample, whatever the partition and order.",
  ["inputs", "schedules"], "all samples, weights and partitions", "Tests combine a few samples.",
  ["include/math/statistics/running.h"], [("RunningMoments", "running.h")])
p("V05", "Optimisers stop only at stationary points or report why not",
  "When an optimiser reports success its point satisfies the stopping tolerance, and it always terminates within its iteration limit.",
  ["inputs"], "all objective functions and starting points", "Tests use a few smooth functions.",
  ["src/ldt_math/optimization/"], [("Newton, LimitedMemoryBFGSB, NelderMead", "src/ldt_math/optimization")])
p("V06", "The search visits every combination exactly once",
  "The enumeration of a search yields every admissible combination of items from distinct partitions exactly once, respecting fixed items and partitions.",
  ["inputs"], "all partitions, sizes, fixed counts", "Tests enumerate a few partition structures.",
  [SE + "searcher.cpp"], [("Searcher::MoveNext", SE + "searcher.cpp")])
p("V07", "Scores take the values their definitions give",
  "Areas under the curve lie in [0,1] and equal the probability of correct ranking, cost ratios, Brier scores, absolute and squared errors take the values of their definitions for all samples, weights and ties.",
  ["inputs"], "all samples, weights, ties", "Tests use a few samples.",
  ["src/ldt_statistics/scoring/"], [("ROC, FrequencyCost, Scoring", "src/ldt_statistics/scoring")])
p("V08", "The best-model lists hold exactly the best models",
  "The list of best models for a metric and target holds the models with the best values of that metric among all admitted ones, in order, ties included deterministically.",
  ["inputs", "schedules"], "all sequences of admitted models", "Tests look at short lists.",
  [SE + "summary.cpp"], [("SearcherSummary::Push", SE + "summary.cpp")])
p("V09", "Data reshaping preserves every observation",
  "Partitioning, aggregating, interpolating, converting and trimming series keeps each observation at its own date and invents none.",
  ["inputs"], "all series, frequencies, missing patterns", "Tests convert a few series.",
  ["src/variable/", "src/matrix/dataset.cpp", "Rpackage_F/src/r_convert.cpp"], [("Variable, Variables, DatasetTs", "src/variable, src/matrix/dataset.cpp")])
p("V10", "Clusterings and components satisfy their definitions",
  "Principal components are orthogonal with the reported variances, hierarchical merges follow the chosen linkage, and cutting the tree gives the requested number of groups.",
  ["inputs"], "all data matrices", "Tests use small examples.",
  ["src/ldt_statistics/pca.cpp", "src/ldt_statistics/clustering/"], [("PcaAnalysis, HCluster", "src/ldt_statistics")])

if __name__ == "__main__":
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
