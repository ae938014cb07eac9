#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
S = "src/lpaggreg/sources/"
H = "src/lpaggreg/headers/"
DOM = ("Measurements are finite and non-negative; a hierarchy numbers its leaves 0..L-1, its grouping nodes after them in any order, "
       "every grouping node has a child and every node leads to one root. ")
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

add("C01", "Every best partition is an exact cover with truthful part descriptions",
    "For every dataset, hierarchy and trade-off parameter in [0,1], the parts of a best partition cover the aggregated space exactly once: consecutive intervals for ordered data, hierarchy nodes whose leaf sets are disjoint and complete for hierarchical data, node-by-interval rectangles covering every (leaf, time slice) cell once for spatiotemporal data. "
    "Each part reports its true extent and size (cells, leaves and slices it covers) and exactly the gain and loss the quality table holds for it. The partition reports the parameter it was asked for and the sum of its parts' gains and losses.",
    ["inputs", "configurations"], DOM + "Any size, any variable count, raw or normalised qualities, and user-supplied quality tables.",
    "No test looks at the parts of any partition; H and D have no result check at all, and tests use one 5-point dataset and one 2-leaf hierarchy.",
    [S+"opartition.cpp", S+"hpartition.cpp", S+"dpartition.cpp", S+"partition.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"hvalues.cpp"],
    [("parts rebuilt from the cuts", "opartition.cpp computeParts"), ("recursive descent from the root", "hpartition.cpp computeSubPart"), ("recursive descent over node and interval", "dpartition.cpp computeSubPart"), ("sum over parts", "*partition.cpp computeQuality")],
    ["computeBestPartition(p)->getParts/getQuality/getParameter"],
    [("cuts / aggregated", "encoded optimal decisions", "opartition.h, hpartition.h, dpartition.h")])

add("C02", "Ordered aggregation returns an optimal partition",
    "For every quality table over n ordered elements and every parameter p in [0,1], the best partition maximises p*gain-(1-p)*loss over all 2^(n-1) partitions into consecutive intervals. "
    "When several partitions reach the same value, the one returned has the highest gain among them and, among those, the lowest loss (for tables whose arithmetic is exact).",
    ["inputs", "configurations"], "Any n>=1, tables computed from any finite non-negative data (raw or normalised) or supplied by the caller, any p in [0,1]; values compared up to floating-point rounding.",
    "Tests compare the gain of four partitions of one 5-point dataset; optimality quantifies over all tables, sizes and p, and ties are never exercised.",
    [S+"opartitioner.cpp", S+"tradeoff.cpp", S+"uppertriangularmatrix.cpp", S+"opartition.cpp"],
    [("suffix dynamic programme", "opartitioner.cpp computeBestPartition"), ("parametrised criterion and its ordering", "tradeoff.cpp computePIC, operator>")],
    ["OPartitioner::computeBestPartition"])

add("C03", "Hierarchical aggregation returns an optimal partition",
    "For every hierarchy, every table giving one gain and loss per node and every parameter p in [0,1], the best partition maximises p*gain-(1-p)*loss over all partitions of the leaves into hierarchy nodes. "
    "When several partitions reach the same value, the one returned has the highest gain among them and, among those, the lowest loss (for tables whose arithmetic is exact).",
    ["inputs", "configurations"], DOM + "Any shape (unbalanced, chains, wide, any numbering of grouping nodes), any table, any p in [0,1]; values compared up to floating-point rounding.",
    "The only hierarchical test ignores every result and uses one balanced hierarchy.",
    [S+"hpartitioner.cpp", S+"hpartition.cpp", S+"tradeoff.cpp", S+"hvalues.cpp"],
    [("bottom-up dynamic programme along the node order", "hpartitioner.cpp computeBestPartition"), ("node order", "hvalues.cpp setPath"), ("criterion and its ordering", "tradeoff.cpp")],
    ["HPartitioner::computeBestPartition"])

add("C04", "Spatiotemporal aggregation returns an optimal partition",
    "For every hierarchy, every table giving one gain and loss per node and time interval and every parameter p in [0,1], the best partition maximises p*gain-(1-p)*loss over all exact covers of the leaf-by-time grid with node-by-interval rectangles. "
    "When several covers reach the same value, the one returned has the highest gain among them and, among those, the lowest loss (for tables whose arithmetic is exact).",
    ["inputs", "configurations"], DOM + "Any hierarchy shape, any number of slices, any table, any p in [0,1]; values compared up to floating-point rounding.",
    "The only spatiotemporal test ignores every result and uses two identical leaves under one root.",
    [S+"dpartitioner.cpp", S+"dpartition.cpp", S+"tradeoff.cpp", S+"uppertriangularmatrix.cpp", S+"hvalues.cpp"],
    [("dynamic programme over nodes and intervals", "dpartitioner.cpp computeBestPartition"), ("reading the decisions back", "dpartition.cpp computeSubPart")],
    ["DPartitioner::computeBestPartition"])

add("C05", "Gain and loss equal their information-theoretic definitions",
    "For every dataset, each candidate part (interval; node; node by interval) covering n microscopic cells has gain equal to the sum over variables of s*log2(s)-sum(v*log2(v)) and loss equal to the sum over variables of s*log2(n)-s*log2(s)+sum(v*log2(v)), where v are the covered values of that variable, s their sum and 0*log2(0)=0. "
    "A part covering a single cell has zero gain and loss, and the tables have one entry per candidate part.",
    ["inputs", "configurations"], DOM + "Any sizes, variables and dimensionality (1 to 4), zeros included; equality up to rounding relative to the magnitudes summed.",
    "Tests see only the summed gain of four partitions of one ordered dataset; H and D tables and every loss are unchecked (swapping loss for gain in H passes all tests).",
    [S+"complexity.cpp", S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"hvalues.cpp", S+"uppertriangularmatrix.cpp"],
    [("entropy reduction and divergence", "complexity.cpp"), ("incremental sums over intervals", "oqualities.cpp computeQualities"), ("bottom-up sums over nodes", "hqualities.cpp, dqualities.cpp computeQualities")],
    ["OQualities/HQualities/DQualities::getQualities after computeQualities"])

add("C06", "Normalisation scales every part by the full aggregation",
    "After normalising, every candidate part's gain (loss) is its raw gain (loss) divided by the raw gain (loss) of the part that aggregates everything, whatever the numbering of the hierarchy nodes and whether the table was computed from data or supplied by the caller; normalising again changes nothing. "
    "Normalised gains and losses are finite and, for tables computed from data, lie in [0,1] up to rounding; when the full aggregation's gain (loss) is zero, or only rounding residue (at most 1e-13 of the other measure), every part's normalised gain (loss) is 0.",
    ["inputs", "histories", "configurations"], DOM + "Including homogeneous, all-zero and single-element data. Tables supplied by the caller have positive full-aggregation gain and loss.",
    "Two tests call normalize and look at nothing; none has a root that is not numbered last, degenerate data, or a table without data behind it.",
    [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"quality.cpp"],
    [("division by the root / full-interval entry", "oqualities.cpp, hqualities.cpp, dqualities.cpp normalize")],
    ["normalize(), then getQualities"])

add("C07", "The list of best partitions is sound and self-consistent",
    "For every dataset, resolution threshold > 0 and range 0<=min<=max<=1, computing the best partitions yields a non-empty, strictly increasing list of parameters that starts at min and stays within [min,max]; each listed parameter comes with exactly the best partition for that parameter, and consecutive listed partitions differ. "
    "The partition map, the quality list and the flat table of parts describe exactly these partitions and nothing else, in increasing parameter order, with the parts' extents, sizes, gains and losses.",
    ["inputs", "configurations", "histories"], DOM + "O, H and D; any threshold > 0, sub-ranges and min=max included, repeated calls on one partitioner included.",
    "Tests check only the length of the list for one dataset and one threshold, full range, first call.",
    [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"partitioner.cpp"],
    [("dichotomy then removal of repeated partitions", "*partitioner.cpp computeBestPartitions/addBestQualities"), ("result assembly", "*partitioner.cpp computeBestPartitions")],
    ["getPList, getPartitions, getPartitionsTuples, getQualityList"],
    [("pList, partitions, partitionsTuples, qualityList", "four views of one sweep", "partitioner.h, *partitioner.h")])

add("C08", "The list of best partitions misses nothing beyond the threshold, and ends",
    "For every dataset, resolution threshold > 0 and range 0<=min<=max<=1, computing the best partitions terminates, even when the threshold is below the resolution of the parameter type. "
    "Every listed partition is optimal (up to rounding) for all parameters from its own up to the next listed parameter minus the threshold (for the last one, up to max), so every partition that is strictly the best on an interval of parameters wider than the threshold is represented.",
    ["inputs", "configurations"], DOM + "O, H and D; thresholds from 1 down to values far below float resolution; full and partial ranges; completeness up to one unit of parameter resolution.",
    "Tests use one threshold (0.001) on one dataset; nothing probes parameters between the listed ones, nor tiny thresholds.",
    [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
    [("recursive dichotomy on the parameter", "*partitioner.cpp addBestQualities")],
    ["computeBestPartitions(threshold,min,max), computeBestPartition(p) between listed parameters"])

add("C09", "Recommended parameter, largest parameter and quality-curve area are right",
    "After a sweep, the recommended parameter is a listed one whose partition is closest (Euclidean distance) to gain 1 and loss 0, whatever the magnitude of the qualities; the maximal parameter is the last listed one; and the area measure equals 1 minus the trapezoidal integral of loss over gain along the listed partitions. "
    "Before any sweep the same queries return 0 for the parameters and 1 for the area instead of failing.",
    ["inputs", "histories"], "Any O, H or D sweep, normalised or raw qualities, any threshold and range, repeated sweeps, and partitioners never swept; area up to single-precision rounding.",
    "One test calls the recommended-parameter query, before any sweep, and feeds the result to code whose output it ignores; nothing checks either measure.",
    [S+"partitioner.cpp", H+"partitioner.h", H+"lpglobal.h"],
    [("minimisation over the list", "partitioner.cpp computePOpt"), ("trapezoids over the list", "partitioner.cpp computeAUC"), ("dispatch", "partitioner.cpp getP")],
    ["getP(P_OPT), getP(P_MAX), computeAUC"])

add("C10", "Aggregated values are the sums and means of the cells each part covers",
    "For every dataset and every best partition, the aggregation has one aggregate per part, in the partition's order, and for each variable its sum is the sum of the values in exactly the cells that part covers and its mean is that sum divided by the number of cells. "
    "Hence, for each variable, the sums over all parts add up to the dataset's total.",
    ["inputs", "configurations"], DOM + "O (1-4 dimensions), H (1-4) and D (2-4), any hierarchy depth and part level; up to double rounding.",
    "One ordered test prints aggregates without checking them; hierarchical and spatiotemporal aggregates are never built.",
    [S+"oaggregationn.cpp", S+"haggregationn.cpp", S+"daggregationn.cpp", S+"oaggregation.cpp", S+"haggregation.cpp", S+"daggregation.cpp"],
    [("sum over an interval", "oaggregationn.cpp compute"), ("recursive sum under a node", "haggregationn.cpp, daggregationn.cpp subSum")],
    ["getAggregates()->getSum/getMean/getPart"])

add("C11", "Value containers keep shape and values; qualities add up over variables",
    "A container built from nested vectors, or built empty with given sizes (then all zeros) and filled cell by cell, reports its sizes and returns for every cell exactly the value last stored there, both by coordinates and through the flattened variable index; storing one cell changes no other. "
    "The quality tables of a 3- or 4-dimensional dataset equal those of the same data with its variables flattened into one dimension, and the sum of the tables of its variables taken alone; triangular quality tables likewise return for every pair i<=j what was stored there last.",
    ["inputs", "histories"], "All dimensionalities of O, H and D containers, unequal and unit dimension sizes, any sequence of stores; table equality up to rounding.",
    "Tests use 2x2x2 cubes of identical rows, so swapped or mixed-up dimensions are invisible; setters and size constructors are never called.",
    [S+"ovaluesn.cpp", S+"hvaluesn.cpp", S+"dvaluesn.cpp", S+"ovalues.cpp", S+"hvalues.cpp", S+"dvalues.cpp", S+"uppertriangularmatrix.cpp", H+"lpglobal.h"],
    [("flattened index decoding", "toI/toJ/toK in *valuesn.cpp"), ("shape macros", "lpglobal.h SIZE1..SIZE4"), ("diagonal-major storage", "uppertriangularmatrix.cpp")],
    ["operator(), operator[], getOsize/getVsize/getI/getJ/getK"])

add("C12", "Hierarchy structure is derived correctly for every tree",
    "For every well-formed hierarchy given as a parent list, whatever its depth profile and node numbering, the derived structure names the true root, gives each node exactly its children, counts for each node the leaves below it, and provides an order that lists every node once, leaves first and every node before its parent.",
    ["inputs"], DOM + "Balanced or not, single-child chains, a single node, any numbering of grouping nodes.",
    "Two hierarchies appear in tests, both with all leaves at compatible depths, and none of the derived structure is checked.",
    [S+"hvalues.cpp", H+"hvalues.h"],
    [("upward traversal from the leaves", "hvalues.cpp setPath")],
    ["HValuesMetaData getRoot/getChildren/getSize/getPath/getHsize/getLeaveSize/getParents"],
    [("path, children, size, root", "order and structure used by every H and D computation", "hvalues.h")])

add("C13", "Results do not depend on unit, direction or numbering",
    "Multiplying all values by a positive constant multiplies every gain and loss by it; reversing the time order mirrors the tables; renumbering leaves or grouping nodes, reordering the children of a node, or permuting variables leaves the corresponding entries unchanged. "
    "Under each of these changes the optimal trade-off value at every parameter (scaled accordingly) is unchanged, and so is the best partition, up to the renaming, whenever it is the only optimal one.",
    ["inputs", "configurations"], DOM + "O, H and D; up to rounding.",
    "Needs pairs of related runs over many inputs; tests run single fixed datasets.",
    [S+"complexity.cpp", S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"hvalues.cpp"],
    [("homogeneous definitions of gain and loss", "complexity.cpp"), ("symmetric dynamic programmes", "*partitioner.cpp")],
    ["quality tables and computeBestPartition of the original and the transformed dataset"])

add("C14", "The ordered, hierarchical and spatiotemporal algorithms agree where they overlap",
    "On data with a single time slice the spatiotemporal tables and optimal trade-off values equal the hierarchical ones; on a hierarchy with a single leaf they equal the ordered ones; and for any spatiotemporal dataset the entries of one leaf over all intervals equal the ordered analysis of that leaf, and the entries of all nodes on one slice equal the hierarchical analysis of that slice. "
    "A spatiotemporal best partition is never worse than the best one that only splits time or only splits space.",
    ["inputs", "configurations"], DOM + "Any p in [0,1]; up to rounding.",
    "No test runs two algorithms on the same data.",
    [S+"dqualities.cpp", S+"hqualities.cpp", S+"oqualities.cpp", S+"dpartitioner.cpp", S+"hpartitioner.cpp", S+"opartitioner.cpp"],
    [("three implementations of the same measures and criterion", "*qualities.cpp, *partitioner.cpp")],
    ["tables, computeBestPartition and sweeps of two algorithms on the same data"])

add("C15", "Raising the parameter never lowers gain or loss",
    "For every quality table, when the parameter increases the best partition's gain does not decrease and its loss does not decrease (up to rounding); at parameter 1 the gain is the largest any partition has and at parameter 0 the loss is the smallest. "
    "The same holds along the list of best partitions; for tables computed from data, the last partition listed by a sweep over [0,1] has the full aggregation's gain and the first one has zero loss.",
    ["inputs", "configurations", "histories"], DOM + "O, H and D, sequences of parameters in any order, sweeps with any threshold.",
    "Tests look at four parameters of one dataset, gain only.",
    [S+"tradeoff.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
    [("linear criterion", "tradeoff.cpp computePIC")],
    ["getQuality of partitions at increasing parameters; getQualityList"])

add("C16", "Results depend only on the inputs, not on what ran before",
    "A best partition, sweep, quality table, aggregate or summary is the same, bit for bit, whether it is the first result asked of an object or comes after any sequence of other queries, sweeps, recomputations or analyses of other datasets, in any order. "
    "Queries never change the input values, the hierarchy or the quality tables, and results handed out earlier never change afterwards, except that normalising updates the table it normalises.",
    ["histories", "inputs"], DOM + "Any interleaving of operations over several live objects in one process; O, H and D.",
    "Each test is one straight-line sequence on one object.",
    [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"partitioner.cpp", S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"tradeoff.cpp"],
    [("state cleared at each sweep", "*partitioner.cpp computeBestPartitions"), ("fresh tables at each computation", "*qualities.cpp computeQualities"), ("trade-offs copy the qualities they accumulate", "tradeoff.cpp set")],
    ["every getter, before and after random operation sequences"])

add("C17", "No memory error, undefined behaviour, uninitialised result or leak",
    "For every well-formed input and every sequence of public operations in an order the interface allows, the library performs no out-of-bounds or use-after-free access, no invalid iterator use, no undefined arithmetic and no read of uninitialised memory, and releases all memory when its objects are destroyed. "
    "Queries made before any sweep are included.",
    ["inputs", "histories"], DOM + "All public classes of O, H and D, sizes from one element or one node upward, all lifecycles (objects destroyed in any order, results outliving the objects that made them).",
    "Tests run uninstrumented, on fixed small inputs, one lifecycle each.",
    ["src/lpaggreg/sources", "src/lpaggreg/headers"],
    [("shared ownership of tables and partitions", "shared_ptr throughout"), ("iterator-based removal", "*partitioner.cpp computeBestPartitions"), ("hand-computed triangular indices", "uppertriangularmatrix.cpp")],
    ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ debug mode, valgrind memcheck over the workload"])

add("C18", "Analyses in different threads do not interfere",
    "Threads that run complete analyses on their own objects, or query their own partitioners built on one shared quality table, or build their own tables and aggregates from one shared dataset, or read one shared best partition or finished sweep, never race on shared memory and each obtains exactly the result of running alone.",
    ["schedules", "inputs"], "Any number of threads, any mix of O, H and D analyses, any interleaving.",
    "No test starts a thread.",
    ["src/lpaggreg/sources", "src/lpaggreg/headers"],
    [("no mutable global state", "complexity.h ln is const; no static buffers"), ("tables are only read by partitioners", "*partitioner.cpp"), ("values are only read by tables and aggregates", "*values.cpp *aggregation*.cpp"), ("getters of partitions and partitioners only read", "*partition.h *partitioner.h")],
    ["ThreadSanitizer reports; per-thread results compared with a sequential run"])

add("C19", "Running out of memory is reported cleanly at any point",
    "If a memory allocation fails during any operation (one allocation, or all from some point on), the operation ends with an out-of-memory exception or still delivers its normal result, with no crash, memory error or leak. "
    "Inputs and quality tables the operation only reads are unchanged, and repeating the operation on the same objects with memory available gives the normal result.",
    ["fault_sequences", "inputs"], "Every allocation reached, over building values, computing and normalising tables, best partitions, sweeps, aggregates and summaries of O, H and D.",
    "Tests never make an allocation fail.",
    ["src/lpaggreg/sources", "src/lpaggreg/headers"],
    [("RAII everywhere", "shared_ptr and std containers")],
    ["replacement operator new with a failure at the n-th call, AddressSanitizer and LeakSanitizer"])

add("C20", "Quality and trade-off algebra and equality are componentwise and consistent",
    "Adding, subtracting, multiplying and dividing qualities or trade-offs acts on gain, loss (and value) separately, in place or as a new object, leaving the right operand untouched, and a copy is independent of its original (one assigned to itself keeps its value); a trade-off built for parameter p has value p*gain-(1-p)*loss; trade-offs are ordered by value, then higher gain, then lower loss, with a<b exactly when b>a, a<=b exactly when not a>b, and a>=b exactly when not a<b. "
    "Two qualities are equal exactly when both gain and loss agree up to the documented relative precision; two parts are equal exactly when they have the same extent; two partitions are equal exactly when they consist of the same parts. Inequality is always the negation of equality.",
    ["inputs"], "All finite operands (nonzero divisors), all pairs of parts and partitions of the same dataset.",
    "Tests use quality equality on expected values only and cannot notice that a component is ignored; every other operator is uncalled.",
    [S+"quality.cpp", S+"tradeoff.cpp", S+"opartition.cpp", S+"hpartition.cpp", S+"dpartition.cpp"],
    [("operators", "quality.cpp, tradeoff.cpp"), ("part and partition comparison", "*partition.cpp")],
    ["operators of the public classes"])

add("C21", "The R bridge reports the library's results faithfully",
    "The three R entry points return, for every input array (space x type x time), hierarchy and threshold, exactly the partitions the C++ library lists for that normalised dataset, with 1-based element, node and slice numbers, part sizes, gains and losses, the quality list, the recommended parameter and the area measure; a hierarchy entry of 0 marks the root.",
    ["inputs"], "Any array shape with non-negative entries, any well-formed hierarchy in R numbering, any threshold in (0,1).",
    "R is not installed and no test touches the bridge.",
    ["R/lpaggreg.R"],
    [("array and hierarchy conversion", "R/lpaggreg.R convertToMicroModel, convertToHierarchy"), ("result frames", "R/lpaggreg.R oaggregate, haggregate, daggregate")],
    ["the embedded C++ of R/lpaggreg.R compiled against a stand-in for Rcpp/Armadillo"])

add("C22", "R trace slicing conserves time",
    "When a trace is cut into time slices by the R preprocessing, the time spent per resource and type summed over slices equals the time recorded in the trace, and the R post-processing of a partition conserves it.",
    ["inputs"], "Any trace the R parser accepts.",
    "R is not installed; the scripts have no tests.",
    ["R/lpaggreg_pjdump.R"],
    [("slicing and normalisation", "R/lpaggreg_pjdump.R slicerstate, pjdump2micro, omacro, hmacro")],
    ["data frames returned by the R functions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
