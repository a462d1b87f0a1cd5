#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source, so that ids/titles stay in step with the checks)."""
import json, os
S = "src/lpaggreg/sources/"; H = "src/lpaggreg/headers/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Ordered aggregation returns an optimal partition for every p",
  "For every ordered dataset (or table of per-interval gains and losses) and every trade-off parameter p in [0,1], the partition returned as best maximises p*gain - (1-p)*loss, summed over its parts, among all partitions of the sequence into contiguous intervals.",
  ["inputs"], "all sequence lengths, all gain/loss tables, all p",
  "Tests look at one 5-point dataset and 4 values of p; optimality is a claim over 2^(n-1) partitions of every dataset.",
  [S+"opartitioner.cpp", S+"tradeoff.cpp", S+"opartition.cpp"],
  [("backward dynamic programme over cut positions", S+"opartitioner.cpp: OPartitioner::computeBestPartition"), ("trade-off comparison", S+"tradeoff.cpp: operator>")],
  observe=["OPartitioner::computeBestPartition"])
p("C02", "Hierarchical aggregation returns an optimal partition for every p",
  "For every hierarchy, every dataset on its leaves (or table of per-node gains and losses) and every p in [0,1], the partition returned as best maximises p*gain - (1-p)*loss, summed over its parts, among all sets of nodes that cover each leaf exactly once.",
  ["inputs"], "all trees with leaves numbered first (any depth, balanced or not, any numbering of inner nodes), all tables, all p",
  "The one hierarchical test that is stable checks no result at all and uses one balanced tree.",
  [S+"hpartitioner.cpp", S+"tradeoff.cpp", S+"hvalues.cpp"],
  [("bottom-up comparison of a node with its children", S+"hpartitioner.cpp: HPartitioner::computeBestPartition"), ("children-before-parents traversal order", S+"hvalues.cpp: HValuesMetaData::setPath")],
  observe=["HPartitioner::computeBestPartition"])
p("C03", "Spatiotemporal aggregation returns an optimal partition for every p",
  "For every hierarchy, sequence length, dataset (or table of gains and losses per node and interval) and every p in [0,1], the partition returned as best maximises p*gain - (1-p)*loss, summed over its parts, among all exact covers of the leaves-by-time grid by (hierarchy node x time interval) blocks.",
  ["inputs"], "all trees, lengths, tables and p",
  "The single 2-D test asserts nothing about the partitions; the space of covers is exponential in both dimensions.",
  [S+"dpartitioner.cpp", S+"dpartition.cpp", S+"tradeoff.cpp"],
  [("dynamic programme over (node, interval)", S+"dpartitioner.cpp: DPartitioner::computeBestPartition"), ("reconstruction of the blocks from the cuts", S+"dpartition.cpp: DPartition::computeSubPart")],
  observe=["DPartitioner::computeBestPartition"])
p("C04", "Every partition covers the data exactly once and reports true part data",
  "Every partition produced (ordered, hierarchical or spatiotemporal, directly or by a sweep) covers each micro element exactly once with contiguous intervals and/or hierarchy nodes. Each part reports its own bounds, node and size truthfully, and the gain and loss of that aggregate; the partition reports the parameter it was computed for and the sum of its parts' gains and losses.",
  ["inputs"], "all datasets, trees, p and sweep ranges",
  "Tests compare only the total quality of four ordered partitions; parts, sizes and covers are never looked at.",
  [S+"opartition.cpp", S+"hpartition.cpp", S+"dpartition.cpp", S+"partition.cpp"],
  [("parts derived from cuts", S+"opartition.cpp: computeParts"), ("parts derived from aggregated flags", S+"hpartition.cpp: computeSubPart"), ("parts derived from cut matrices", S+"dpartition.cpp: computeSubPart")],
  observe=["getParts", "getQuality", "getParameter"])
p("C05", "The best partition is never dominated, also at p=0, p=1 and on ties",
  "When several partitions reach the same best trade-off at p, the one returned has the largest gain among them and, for that gain, the smallest loss; so no other partition has at least its gain and at most its loss with one of them strictly better. If the complete aggregate ties with the best in trade-off, gain and loss, it is the one returned, and the same request always gets the same parts.",
  ["inputs"], "all tables with exact ties, all trees, all p including 0 and 1",
  "Ties need exact coincidences the sample dataset does not contain (apart from one zero value).",
  [S+"tradeoff.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
  [("lexicographic comparison (trade-off, gain, -loss)", S+"tradeoff.cpp: operator>, operator<"), ("strict improvement required to cut", S+"opartitioner.cpp / dpartitioner.cpp / hpartitioner.cpp")],
  observe=["computeBestPartition"])
p("C06", "Ordered gains and losses equal their information-theoretic definition",
  "For every non-negative ordered dataset with any number of components, the gain of an interval is the sum over components of S*log2(S) - sum(v*log2(v)) and its loss is the sum over components of the divergence sum(v*log2(v*n/S)), with 0*log 0 = 0. Single elements have gain and loss 0, and intervals of equal values have loss 0.",
  ["inputs"], "all lengths, component counts and non-negative values including 0 and very small or large ones",
  "Tests check totals for one vector of 5 values, repeated for the components.",
  [S+"oqualities.cpp", S+"complexity.cpp", S+"uppertriangularmatrix.cpp"],
  [("incremental sums over sub-intervals", S+"oqualities.cpp: computeQualities"), ("entropy and divergence", S+"complexity.cpp")],
  observe=["OQualities::getQualities"])
p("C07", "Hierarchical gains and losses equal their information-theoretic definition",
  "For every hierarchy and every non-negative dataset on its leaves, the gain and loss of a node are those of the set of leaves below it: the sum over components of S*log2(S) - sum(v*log2(v)) and of sum(v*log2(v*n/S)), n being the number of leaves below the node. Leaves have gain and loss 0, and nodes over equal values have loss 0.",
  ["inputs"], "all trees and numberings, component counts and non-negative values",
  "No stable test checks a hierarchical quality.",
  [S+"hqualities.cpp", S+"hvalues.cpp", S+"complexity.cpp"],
  [("bottom-up accumulation along the path", S+"hqualities.cpp: computeQualities"), ("entropy and divergence", S+"complexity.cpp")],
  observe=["HQualities::getQualities"])
p("C08", "Spatiotemporal gains and losses equal their information-theoretic definition",
  "For every hierarchy and every non-negative dataset, the gain and loss of a (node, interval) block are those of the micro values in it: the sum over components of S*log2(S) - sum(v*log2(v)) and of sum(v*log2(v*n/S)), n being the number of leaves below the node times the length of the interval. Single micro values have gain and loss 0, and blocks of equal values have loss 0.",
  ["inputs"], "all trees, lengths, component counts and non-negative values",
  "The 2-D test prints sizes only.",
  [S+"dqualities.cpp", S+"hvalues.cpp", S+"complexity.cpp", S+"uppertriangularmatrix.cpp"],
  [("sums over intervals for leaves, accumulation into parents", S+"dqualities.cpp: computeQualities")],
  observe=["DQualities::getQualities"])
p("C09", "Normalisation divides every quality by the whole's and stays finite",
  "Normalising divides every gain by the gain of the complete aggregate and every loss by its loss, so the complete aggregate becomes (1,1), whatever the node numbering and also when the qualities were supplied directly. A component that is zero for the complete aggregate is left as it is (0 everywhere when computed from data), and no result is ever infinite or undefined. Normalising twice changes nothing more.",
  ["inputs", "histories"], "all datasets incl. constant, all-zero, single-element ones; all trees and numberings; all three kinds; repeated calls",
  "The standard tests call it on one dataset and look at nothing.",
  [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"quality.cpp"],
  [("normalize", S+"oqualities.cpp, hqualities.cpp, dqualities.cpp: normalize")],
  observe=["getQualities after normalize"])
p("C10", "Datasets of any dimensionality read back and flatten consistently",
  "For every shape, a dataset of any supported dimensionality returns exactly the values given to it or written to it cell by cell, reports its sizes correctly, starts at 0 when built by size, and writing one cell changes no other. Its flattened view enumerates each component exactly once, row-major, so computing qualities from an N-dimensional dataset equals computing them from the same data flattened.",
  ["inputs"], "all shapes, all constructors, all cells, the ordered, hierarchical and spatiotemporal containers",
  "Tests use at most 2x2x2x5 with identical rows, so permuted or repeated components cannot be noticed.",
  [S+"ovaluesn.cpp", S+"hvaluesn.cpp", S+"dvaluesn.cpp", S+"ovalues.cpp", S+"hvalues.cpp", S+"dvalues.cpp", H+"lpglobal.h"],
  [("index to (i,j,k) conversion", S+"ovaluesn.cpp, hvaluesn.cpp, dvaluesn.cpp: toI/toJ/toK"), ("size deduction", H+"lpglobal.h: SIZE1..SIZE4")],
  observe=["operator()", "operator[]", "getVsize", "getOsize"])
p("C11", "A parameter sweep lists the right best partitions in the right order",
  "A sweep over [min,max] lists strictly increasing parameters starting at min, each with the best partition at that parameter, no two neighbours having the same partition. No partition that is best on a parameter range longer than the threshold is missing, and each listed partition remains the best from its parameter up to the next listed one minus the threshold (the last one up to max).",
  ["inputs"], "all datasets and tables, all thresholds and parameter ranges, all three kinds of aggregation",
  "Tests count the listed parameters of one dataset with one threshold.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
  [("dichotomic search", S+"opartitioner.cpp (and h, d): addBestQualities"), ("removal of equal neighbours", S+"opartitioner.cpp (and h, d): computeBestPartitions")],
  observe=["getPList", "getPartitions"])
p("C12", "A sweep terminates with usable results for every threshold and range",
  "For every threshold, however small, and every range with 0 <= min <= max <= 1, including an empty-width range, a sweep terminates and yields at least one parameter, all inside the range, each with a partition and a quality.",
  ["inputs"], "all thresholds (below the resolution of the parameter type too), all ranges including min = max, all three kinds",
  "Every test uses threshold 0.001 and the full range.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
  [("bisection stop condition", S+"opartitioner.cpp (and h, d): addBestQualities")],
  observe=["computeBestPartitions", "getPList", "getPartitions", "getQualityList"])
p("C13", "The tabular results of a sweep agree with its partitions",
  "After a sweep, the table of parts contains, for every listed parameter in increasing order, one line per part of that parameter's partition in order, with exactly that part's bounds, node, size, gain and loss, and nothing else. The list of qualities has exactly the listed parameters, each with the total gain and loss of its partition.",
  ["inputs", "histories"], "all datasets and sweeps, including repeated ones, all three kinds",
  "No test reads the tables, although they are all the R binding uses.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"partitioner.cpp"],
  [("table construction after the sweep", S+"opartitioner.cpp (and h, d): computeBestPartitions")],
  observe=["getPartitionsTuples", "getQualityList"])
p("C14", "Summary parameters and the area under the curve match the sweep",
  "After any sweep, the minimum, maximum and optimum parameter requests return the smallest listed parameter, the largest one, and a listed one whose (gain, loss) is nearest to (1,0), and the area value is 1 minus the trapezoid area of loss over gain along the listed qualities, whatever their magnitude (as far as the returned type can hold it). Before any sweep these requests return without failing, and the parameter returned is a defined value in [0,1].",
  ["inputs", "histories"], "all sweeps, normalised or not, any magnitude of values, also before any sweep",
  "Only one test asks for the optimum, before any sweep, and ignores the answer; the area is never tested.",
  [S+"partitioner.cpp"],
  [("getP, computePOpt", S+"partitioner.cpp"), ("computeAUC", S+"partitioner.cpp")],
  observe=["getP", "computeAUC"])
p("C15", "Results do not depend on the history of calls",
  "Any sequence of best-partition requests, sweeps, quality computations, normalisations and result reads, on one object or interleaved over several objects that share data, gives at each step what a fresh object gives for that step alone. Computing partitions or aggregates never modifies the dataset, the qualities it works on, or results returned earlier.",
  ["histories"], "all operation sequences up to a depth, one or two objects, different sizes and ranges, all three kinds",
  "Tests run one fixed sequence per object.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"partitioner.cpp"],
  [("state cleared at the start of a sweep", S+"opartitioner.cpp (and h, d): computeBestPartitions"), ("copies of qualities in trade-offs", S+"tradeoff.cpp: set")],
  observe=["getPList", "getPartitions", "getPartitionsTuples", "getQualityList", "getQualities"])
p("C16", "Ordered aggregates carry the sums and means of their parts",
  "For every ordered partition and dataset of any dimensionality, the aggregation has one aggregate per part, in the order of the parts; each holds, for every component, the sum of the micro values inside the part and that sum divided by the number of elements of the part.",
  ["inputs"], "all shapes, all partitions, all values",
  "Tests print aggregates without checking them.",
  [S+"oaggregationn.cpp", S+"oaggregation.cpp"],
  [("OAggregateN*::compute", S+"oaggregationn.cpp")],
  observe=["OAggregationN*::getAggregates"])
p("C17", "Hierarchical aggregates carry the sums and means of their parts",
  "For every partition of every hierarchy and every dataset of any dimensionality, the aggregation has one aggregate per part, in the order of the parts; each holds, for every component, the sum of the values of the leaves below the part's node and that sum divided by the number of these leaves.",
  ["inputs"], "all trees (any depth and numbering), all shapes, all partitions, all values",
  "No test builds a hierarchical aggregation.",
  [S+"haggregationn.cpp", S+"haggregation.cpp", S+"hvalues.cpp"],
  [("HAggregateN*::subSum", S+"haggregationn.cpp")],
  observe=["HAggregationN*::getAggregates"])
p("C18", "Spatiotemporal aggregates carry the sums and means of their parts",
  "For every spatiotemporal partition and every dataset of any dimensionality, the aggregation has one aggregate per part, in the order of the parts; each holds, for every component, the sum of the micro values of the leaves below the part's node over the part's interval and that sum divided by the number of these micro values.",
  ["inputs"], "all trees, lengths, shapes, partitions and values",
  "No test builds a spatiotemporal aggregation.",
  [S+"daggregationn.cpp", S+"daggregation.cpp", S+"hvalues.cpp"],
  [("DAggregateN*::subSum", S+"daggregationn.cpp")],
  observe=["DAggregationN*::getAggregates"])
p("C19", "The hierarchy description is right for every tree and numbering",
  "For every tree given as a parent list with the leaves numbered first and the root marked -1, the description reports the true root, leaf count, node count, parents and children (each child exactly once) and the true number of leaves below every node. Its traversal order lists every node exactly once, leaves first and every node before its parent.",
  ["inputs"], "all trees up to a size: balanced or not, any depth and arity, unary chains, any numbering of inner nodes and any order of leaves",
  "Tests use one or two balanced trees numbered in the convenient order.",
  [S+"hvalues.cpp"],
  [("HValuesMetaData::setPath", S+"hvalues.cpp")],
  state=[("path/size/children/root", "derived description of the tree", H+"hvalues.h: HValuesMetaData")],
  observe=["getPath", "getSize", "getChildren", "getRoot"])
p("C20", "Triangular tables keep every cell apart at every size",
  "For every size, a triangular table offers one distinct cell for each pair i <= j, n(n+1)/2 in all, initialised to the requested value or to zero; what is written to a cell is read back from it, no write affects another cell, and visiting all cells by rank meets each cell once.",
  ["inputs", "histories"], "all sizes up to a bound beyond 64, all pairs, all element kinds",
  "Tests only use sizes 2 and 5 and never read the table directly.",
  [S+"uppertriangularmatrix.cpp"],
  [("index formula", S+"uppertriangularmatrix.cpp: operator()")],
  observe=["UpperTriangularMatrix::operator()", "operator[]", "getElements", "getSize"])
p("C21", "Quality and trade-off arithmetic and comparisons are sound and usable",
  "Adding, subtracting, multiplying and dividing qualities or trade-offs, in place or as a new value, works component by component and leaves the operands it should not change unchanged. Two qualities compare equal exactly when both gain and loss agree (within the stated relative precision); a trade-off is p*gain - (1-p)*loss, a larger one compares greater, equal ones are ordered by larger gain then smaller loss, and 'less than' is the mirror image of 'greater than'. Every declared operation can be linked and called.",
  ["inputs"], "all pairs over an alphabet of exact gains, losses and p",
  "Tests use only inequality on qualities that agree.",
  [S+"quality.cpp", S+"tradeoff.cpp"],
  [("operators", S+"quality.cpp, tradeoff.cpp")],
  observe=["operators of Quality and Tradeoff"])
p("C22", "Spatiotemporal aggregation reduces to its one-dimensional cases",
  "On a hierarchy with a single leaf, or one whose inner nodes form a chain over a single leaf, spatiotemporal qualities and best trade-offs at every p equal those of ordered aggregation of that leaf's sequence; with a single time slice they equal those of hierarchical aggregation of that slice; and an ordered or star-shaped hierarchical aggregation of the same values gives the same gain and loss to the complete aggregate.",
  ["inputs"], "all sequences / trees / datasets and p",
  "No test compares two kinds of aggregation.",
  [S+"dqualities.cpp", S+"dpartitioner.cpp", S+"oqualities.cpp", S+"opartitioner.cpp", S+"hqualities.cpp", S+"hpartitioner.cpp"],
  [("shared entropy/divergence and trade-off code", S+"complexity.cpp, tradeoff.cpp")],
  observe=["getQualities", "computeBestPartition"])
p("C23", "Results respect the symmetries of the data",
  "Reversing the order of the sequence, permuting the components, renumbering the hierarchy nodes consistently, or multiplying all values by a positive constant changes qualities and best trade-offs only correspondingly: mirrored, unchanged, renumbered and multiplied. Adding a component that is zero everywhere changes nothing, and after normalisation scaling has no effect at all.",
  ["inputs"], "all datasets of the enumerated shapes, all permutations/renumberings of small trees, several scale factors",
  "Needs pairs of runs on related inputs; tests make single runs.",
  [S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"hvalues.cpp", S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp"],
  [("order-independent accumulation", S+"oqualities.cpp, hqualities.cpp, dqualities.cpp")],
  observe=["getQualities", "computeBestPartition", "computeBestPartitions"])
p("C24", "Raising p never loses gain, p=0 is lossless and p=1 gains all",
  "For every dataset, raising p never decreases the gain and never decreases the loss of the best partition. At p=0 the best partition has no loss and the largest gain possible without loss; at p=1 it has the gain of the complete aggregate and the smallest loss possible with it.",
  ["inputs"], "all datasets and trees, all pairs of parameters, all three kinds",
  "Relates runs at different p on every dataset; tests have four fixed points of one dataset.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"tradeoff.cpp", S+"complexity.cpp"],
  [("computePIC", S+"tradeoff.cpp"), ("best partition search", S+"opartitioner.cpp, hpartitioner.cpp, dpartitioner.cpp")],
  observe=["computeBestPartition(p)->getQuality", "computeBestPartitions"])
p("C25", "No valid use touches memory it should not or runs undefined operations",
  "For every well-formed dataset, hierarchy, table, parameter and sequence of documented calls (construction, quality computation, normalisation, partitioning, sweeping, aggregation, reading results), the library performs no out-of-bounds or use-after-free access, no use of uninitialised results, no undefined arithmetic, no unbounded recursion, and leaks no memory.",
  ["inputs", "histories"], "all enumerated pipelines of the other properties at reduced bounds, including single-element sequences and one-node hierarchies",
  "Tests run without sanitizers on a handful of inputs.",
  [S+"uppertriangularmatrix.cpp", S+"hvalues.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"partitioner.cpp"],
  [("index computations and loop bounds", "all sources")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer, bounds-checked containers"])
p("C26", "The R interface returns what the library computes",
  "For every data cube, hierarchy and threshold passed from R, each of the three R aggregation functions returns one row per part with 1-based positions and node numbers, the part's parameter, size, normalised gain and loss, the total qualities per parameter, the optimum parameter and the area value, all equal to the library's results for the same cube and hierarchy.",
  ["inputs"], "all small cubes, hierarchies and thresholds",
  "Nothing tests the R interface.",
  ["R/lpaggreg.R"],
  [("conversion of R arrays, C++ code handed to Rcpp", "R/lpaggreg.R: lpaggreg_src")],
  observe=["oaggregate", "haggregate", "daggregate"])
p("C27", "Partitions and parts compare equal exactly when they are the same",
  "Two partitions of the same data compare equal exactly when they consist of the same parts, and unequal otherwise; two parts compare equal exactly when they denote the same node and/or interval. The comparison is reflexive and symmetric, does not depend on the parameters the partitions were computed for, and changes neither operand.",
  ["inputs"], "all pairs of partitions of small sequences, hierarchies and grids",
  "Tests never compare partitions directly; a wrong comparison silently drops results from a sweep.",
  [S+"opartition.cpp", S+"hpartition.cpp", S+"dpartition.cpp"],
  [("operator== and operator!= of parts and partitions", S+"opartition.cpp, hpartition.cpp, dpartition.cpp")],
  observe=["operator==", "operator!="])
p("C28", "Independent computations in different threads do not disturb each other",
  "Two threads that each use their own objects, even when these were built from the same dataset, hierarchy or qualities which neither modifies, obtain under every interleaving exactly the results they obtain when run one after the other.",
  ["schedules"], "all interleavings of two pipelines with a bounded number of preemptions at function-call granularity, all three kinds",
  "Tests are single-threaded.",
  [S+"opartitioner.cpp", S+"hpartitioner.cpp", S+"dpartitioner.cpp", S+"oqualities.cpp", S+"hqualities.cpp", S+"dqualities.cpp", S+"tradeoff.cpp", S+"complexity.cpp"],
  [("absence of shared mutable state", "all sources")],
  observe=["results of both pipelines"])
p("C29", "The R helpers convert traces and plot results faithfully",
  "Reading a pjdump trace into a time-sliced cube attributes to each slice the time each state spends in it, builds the hierarchy the containers declare, and the plots show exactly the parts of the requested parameter.",
  ["inputs"], "all traces",
  "Nothing tests the R scripts.",
  ["R/lpaggreg_pjdump.R"],
  [("R data-frame code", "R/lpaggreg_pjdump.R")],
  observe=["returned arrays and data frames"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
