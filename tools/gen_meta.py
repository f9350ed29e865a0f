#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (kept in step, one source)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/graphblas/platforms/{sequential,optimized_sequential}/"
def bk(*n):
    return ["src/graphblas/platforms/%s/%s" % (p, x) for p in ("sequential", "optimized_sequential") for x in n]
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, state=None, obs=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
      why_tests_cant=tests,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                   observe_at=obs or [], hook_needed=None)))

LIL = dict(name="LIL rows", meaning="per-row sorted (column,value) lists plus cached dimensions and stored-value count", where="LilSparseMatrix::m_data/m_nvals")
BMP = dict(name="bitmap vector", meaning="presence bitmap, value array, cached size and stored-value count", where="BitmapSparseVector::m_bitmap/m_vals/m_nvals")

prop("C01", "Clients sharing read-only operands never interfere",
 "Any number of concurrent callers may use the same matrices, vectors and views as read-only inputs or masks, and read them through the const interface, while each writes only its own outputs: there is no data race. Every call returns exactly what it would return if it ran alone, whatever the interleaving.",
 ["schedules", "histories", "inputs"], "All interleavings (at the granularity of memory accesses) of up to four callers running arbitrary operation sequences over shared const operands and private outputs.",
 "The test suites are single-threaded; nothing runs two calls at once, so hidden shared scratch state or logically-const mutation is invisible to them.",
 ["src/graphblas/operations.hpp", "src/graphblas/Matrix.hpp", "src/graphblas/Vector.hpp"] + bk("LilSparseMatrix.hpp", "BitmapSparseVector.hpp", "sparse_helpers.hpp", "sparse_mxm.hpp"),
 [("all operands are taken by const reference and scratch storage is local to the call", "backend operations and helpers"), ("containers have no mutable members", "LilSparseMatrix, BitmapSparseVector")], [LIL, BMP],
 ["operation results", "memory accesses of the running clients"])
prop("C02", "Matrix container behaves as a finite map under any history",
 "A matrix is a finite map from in-range (row, column) pairs to values: after any history of construction, build (with any duplicate-combining function), setElement, removeElement, clear, resize, copy and assignment, its dimensions, stored-value count, membership, element reads, extracted tuples and equality agree with that map. Out-of-range indices, reads of absent elements, mismatched dimensions, resizing to zero and empty or ragged dense data are reported by exception and change nothing; building into a non-empty matrix merges with last-value or caller-supplied combination.",
 ["histories", "inputs", "fault_sequences"], "All histories of container calls, over all dimensions, scalar types (bool, integer, floating, user-defined) and duplicate patterns, with calls that fail part way.",
 "Tests run a handful of fixed 3x3-ish sequences per method; no test mixes methods over long histories, wide shapes or several scalar types, or fails a call part way.",
 ["src/graphblas/Matrix.hpp"] + bk("LilSparseMatrix.hpp", "Matrix.hpp"),
 [("sorted insertion and count upkeep in every mutator", "LilSparseMatrix")], [LIL], ["nrows/ncols/nvals/hasElement/extractElement/extractTuples/operator=="])
prop("C03", "Vector container behaves as a finite map under any history",
 "A vector is a finite map from in-range indices to values: after any history of construction (empty, filled, from dense data with or without an implied zero), build with any duplicate-combining function (which replaces the contents), setElement, removeElement, clear, resize, copy and assignment, its size, stored-value count, membership, element reads, extracted tuples and equality agree with that map. Out-of-range indices, reads of absent elements, mismatched sizes and zero sizes are reported by exception and change nothing.",
 ["histories", "inputs", "fault_sequences"], "All histories of container calls, over all sizes, scalar types and duplicate patterns, with calls that fail part way.",
 "Tests check each method once or twice on short vectors; count upkeep after mixed histories, duplicates and resizes is never checked.",
 ["src/graphblas/Vector.hpp"] + bk("BitmapSparseVector.hpp", "Vector.hpp"),
 [("bitmap, value array and count are updated together in every mutator", "BitmapSparseVector")], [BMP], ["size/nvals/hasElement/extractElement/extractTuples/operator=="])
prop("C04", "mxm computes the masked, accumulated semiring product",
 "Matrix-matrix multiply stores in C exactly the GraphBLAS result: entry (i,j) of the product exists iff some k has both A(i,k) and B(k,j), its value is the semiring sum of mult(A(i,k),B(k,j)) with the operands in that order, and it is then combined with C through the accumulator, mask and MERGE/REPLACE rules. This holds for every combination of transposed operands, mask kind, accumulator, scalar types and sparsity, as any step of a history, and for both platforms alike.",
 ["inputs", "histories", "configurations"], "All shapes, sparsity patterns (empty rows and columns, stored zeros), operand/mask/output element types, semirings including non-commutative multiply, descriptors, aliasing of operands, prior contents of C.",
 "Tests compare a few fixed small matrices per descriptor with mostly commutative, single-typed semirings and fresh outputs.",
 bk("sparse_mxm.hpp", "sparse_helpers.hpp") + ["src/graphblas/platforms/optimized_sequential/sparse_mxm_%s.hpp" % s for s in ("AB", "ABT", "ATB", "ATBT")] + ["src/graphblas/operations.hpp"],
 [("per-descriptor kernels", "sparse_mxm*.hpp"), ("write-back", "sparse_helpers.hpp")], [LIL], ["contents of C"])
prop("C05", "mxv and vxm compute the masked, accumulated semiring product",
 "Matrix-vector and vector-matrix multiply store in w exactly the GraphBLAS result: an output entry of the product exists iff some index has both operands stored, its value is the semiring sum of mult(matrix, vector) for mxv and mult(vector, matrix) for vxm in that order, then combined with w through accumulator, mask and MERGE/REPLACE. This holds for transposed matrices, every mask kind, accumulator and scalar types, as any step of a history.",
 ["inputs", "histories", "configurations"], "All shapes, sparsity patterns, element types, semirings including non-commutative multiply, descriptors, aliasing of u, w and mask, prior contents of w.",
 "Tests use fixed 3- and 4-element operands with commutative arithmetic.",
 bk("sparse_mxv.hpp", "sparse_vxm.hpp", "sparse_helpers.hpp"), [("dot-product and axpy kernels", "sparse_mxv.hpp, sparse_vxm.hpp")], [LIL, BMP], ["contents of w"])
prop("C06", "eWiseAdd is the union and eWiseMult the intersection",
 "Element-wise addition applies the operator where both operands are stored and passes the single stored value through elsewhere; element-wise multiplication produces entries only where both are stored, operands in order. The result is combined with the output by accumulator, mask and MERGE/REPLACE, for vectors and for matrices with any combination of transposed operands, types and masks, as any step of a history.",
 ["inputs", "histories", "configurations"], "All shapes, patterns, element types per operand, non-commutative operators, transposes, masks, prior contents and operand aliasing.",
 "Tests use fixed small operands with plus/times; mixed scalar types with transposed operands and non-commutative operators are not covered.",
 bk("sparse_ewiseadd.hpp", "sparse_ewisemult.hpp", "sparse_helpers.hpp"), [("sorted-merge of rows and bitmaps", "ewise_or / ewise_and in sparse_helpers.hpp")], [LIL, BMP], ["contents of the output"])
prop("C07", "extract returns exactly the selected elements",
 "Extract makes output position k (or (i,j)) hold the source element at the k-th (i-th, j-th) listed index if one is stored and nothing otherwise, for arbitrary index lists including repeats, any order, ranges and all-indices, for vectors, submatrices, single columns and (through transpose) rows. The result is combined with the output by accumulator, mask and MERGE/REPLACE, as any step of a history.",
 ["inputs", "histories", "configurations"], "All index lists, shapes, patterns, element types, masks, prior contents.",
 "Tests use a few short index lists over one or two fixed sources.",
 bk("sparse_extract.hpp", "sparse_helpers.hpp") + ["src/graphblas/indices.hpp"], [("index translation and re-sorting of extracted rows", "sparse_extract.hpp")], [LIL, BMP], ["contents of the output"])
prop("C08", "assign updates exactly the addressed region",
 "Assign writes the source (vector, matrix, single row, single column, or constant) into the addressed positions: positions not addressed keep their contents except where REPLACE and the mask delete them, addressed positions take the source element (or become empty where the source has none and there is no accumulator), and accumulator and mask are honoured. It does so whatever the order of the index list, for ranges and all-indices, for any scalar types, as any step of a history.",
 ["inputs", "histories", "configurations"], "All valid index lists (any order; duplicate-free for non-constant sources), shapes, patterns, masks (over the whole output, or over the row/column for row/column variants), element types, prior contents.",
 "Tests use fixed ascending index lists on small dense-ish inputs.",
 bk("sparse_assign.hpp", "sparse_helpers.hpp") + ["src/graphblas/indices.hpp"], [("expansion of the source into output coordinates, then masked write", "sparse_assign.hpp")], [LIL, BMP], ["contents of the output"])
prop("C09", "apply and reduce visit every stored value exactly once",
 "Apply maps each stored value, and only stored values, through the unary operator or the operator with its bound first or second argument, leaving positions unchanged. Reduce folds exactly the stored values of each row (column when transposed), of a vector or of a matrix with the monoid, produces no entry for empty rows, and accumulates into the scalar or vector output by the accumulator, mask and MERGE/REPLACE rules.",
 ["inputs", "histories", "configurations"], "All shapes, patterns, element types, operators, monoids, masks, transposes, prior outputs.",
 "Tests use a few fixed inputs per variant.",
 bk("sparse_apply.hpp", "sparse_reduce.hpp", "sparse_helpers.hpp"), [("row walk and reduction helpers", "sparse_apply.hpp, sparse_reduce.hpp, sparse_helpers.hpp")], [LIL, BMP], ["contents of the output / scalar"])
prop("C10", "transpose and kronecker place every product entry correctly",
 "Transpose stores A(j,i) at (i,j) for exactly the stored entries of A, and Kronecker stores op(A(i,j),B(k,l)) at (i*rowsB+k, j*colsB+l) for exactly the stored pairs, with operand transposes, accumulator, mask and MERGE/REPLACE honoured, as any step of a history.",
 ["inputs", "histories", "configurations"], "All shapes, patterns, element types, operators, masks, operand transposes, prior contents.",
 "Tests use single fixed shapes.",
 bk("sparse_transpose.hpp", "sparse_kronecker.hpp", "sparse_helpers.hpp"), [("row scatter", "sparse_transpose.hpp"), ("block row construction", "sparse_kronecker.hpp")], [LIL], ["contents of C"])
prop("C11", "Mask, accumulator and REPLACE frame every operation alike",
 "For every operation, positions where the effective mask (value, structural, complemented or structurally complemented; stored zeros count as false for value masks) is false are left untouched under MERGE and emptied under REPLACE. Where it is true the output holds the accumulated old and new values, the old value if only it exists and an accumulator is given, and nothing if there is no new value and no accumulator; no mask means true everywhere.",
 ["inputs", "histories", "configurations"], "All operations x mask kinds x mask element types x accumulator x MERGE/REPLACE x prior output contents, as any step of a history.",
 "Each test fixes one operation, a mask of one type and one prior output.",
 bk("sparse_helpers.hpp") + ["src/graphblas/ComplementView.hpp", "src/graphblas/StructureView.hpp", "src/graphblas/StructuralComplementView.hpp"], [("shared masked write-back helpers", "write_with_opt_mask*, opt_accum*, check_mask in sparse_helpers.hpp"), ("mask-fused multiply kernels", "sparse_mxm_*.hpp")], [LIL, BMP], ["contents of the output"])
prop("C12", "Outputs may alias inputs and masks",
 "Using the same object as output and as any input or mask of one call, including through a transpose, complement or structure view, gives the same result as if every input had been a copy taken before the call, whenever the shapes allow it.",
 ["inputs", "histories", "configurations"], "All operations, all aliasing patterns among output, inputs and mask, all descriptors, as any step of a history.",
 "Tests alias in only a few algorithm-driven places and never with transposed or complemented views of the output.",
 bk("sparse_mxm.hpp", "sparse_helpers.hpp", "sparse_ewiseadd.hpp", "sparse_assign.hpp", "sparse_transpose.hpp"), [("results are computed into temporaries before the output is written", "backend operations")], [LIL, BMP], ["contents of the output"])
prop("C13", "A failing call leaves everything consistent and reusable",
 "If an allocation, a caller-supplied operator, or a scalar copy fails at any point inside an operation, container call or algorithm, the failure reaches the caller unchanged, every operand other than the output holds exactly what it held before, and the output is still a well-formed container of the same dimensions whose stored-value count, membership and tuples agree. A failed single-element update (setElement, removeElement) changes nothing. Every object may then be used in any further operation or algorithm with correct results.",
 ["crash_points", "fault_sequences", "histories", "inputs"], "Every allocation, callable invocation and element copy inside every operation as a failure point, at any step of a history.",
 "No test injects a failure; the suite never runs an operation that stops half way.",
 ["src/graphblas/operations.hpp"] + bk("LilSparseMatrix.hpp", "BitmapSparseVector.hpp", "sparse_helpers.hpp"), [("temporaries computed first; count and data updated together", "setRow, setContents, operator=, resize, mergeRow")], [LIL, BMP], ["container contents after the exception"])
prop("C14", "No leak, double free or out-of-bounds access, ever",
 "In every history of operations, container calls and algorithms, successful, rejected or failed part way, every heap access stays inside a live allocation of the caller or the library, nothing is freed twice, and when the caller's objects are gone no memory obtained by the library remains allocated.",
 ["histories", "fault_sequences", "crash_points", "inputs"], "All histories with any number of injected allocation/callable failures.",
 "The suites run without memory checking and never fail a call half way, so neither out-of-bounds accesses nor leaks on error paths can show.",
 ["src/algorithms/bc.hpp", "src/graphblas/operations.hpp"] + bk("LilSparseMatrix.hpp", "BitmapSparseVector.hpp", "sparse_helpers.hpp", "sparse_extract.hpp", "sparse_assign.hpp"), [("RAII containers", "std::vector members and locals")], [LIL, BMP], ["allocator and every instrumented memory access"])
prop("C15", "Invalid calls are rejected with a typed, readable exception",
 "A call of an operation, container member, matrix utility or algorithm whose operand dimensions, index counts or index values (start vertices, sources, sinks) do not fit is rejected before anything is modified, with an exception of the documented kind (dimension, index, index-out-of-bounds, no-value or invalid-value). The exception derives from std::exception and its message is readable, non-empty text that names its kind, for as long as the exception object lives.",
 ["inputs", "histories"], "All operations, container calls and algorithms x every way a dimension or index can be wrong, at any step of a history.",
 "Tests check exception types for some mismatches; they never check that operands are unmodified and never read the message.",
 ["src/graphblas/exceptions.hpp", "src/graphblas/detail/checks.hpp", "src/graphblas/operations.hpp", "src/algorithms/metrics.hpp", "src/algorithms/bfs.hpp", "src/algorithms/maxflow.hpp", "src/graphblas/matrix_utils.hpp"] + bk("sparse_extract.hpp", "sparse_assign.hpp", "LilSparseMatrix.hpp"), [("front-end checks before the back end is called", "detail/checks.hpp")], [], ["exception type, what(), operands after the throw"])
prop("C16", "Results depend on operands only, never on earlier calls",
 "Repeating a call on equal operands gives an identical result, whatever other calls, failures, allocations or destructions of objects happened in between and wherever the objects live in memory; copies of a container are independent of the original.",
 ["histories", "fault_sequences", "schedules"], "All pairs of histories leading to equal operands, with memory addresses reused adversarially and failures in between.",
 "Tests run each call once from a fixed fresh state.",
 ["src/graphblas/operations.hpp"] + bk("LilSparseMatrix.hpp", "BitmapSparseVector.hpp", "sparse_helpers.hpp", "sparse_mxm.hpp"), [("no global, static or cached state in the library", "whole library")], [LIL, BMP], ["results of repeated calls"])
prop("C17", "Views are live, exact and non-modifying",
 "Transpose, complement, structure and structural-complement views always reflect the current contents of the object they refer to, have its (swapped, for transpose) dimensions, answer element and mask queries as the mathematical definition demands, and using a view never changes the object.",
 ["histories", "inputs"], "All views of all objects, queried directly or used as operands/masks, with the underlying object mutated between uses.",
 "Tests build a view, use it once and compare one fixed answer.",
 ["src/graphblas/ComplementView.hpp", "src/graphblas/StructureView.hpp", "src/graphblas/StructuralComplementView.hpp", "src/graphblas/TransposeView.hpp"], [("views hold a reference and forward", "*View.hpp")], [], ["view queries and operations using views"])
prop("C18", "Printing never disturbs data, even on a failing stream",
 "Printing a container, view or index sequence to any stream, including one that fails, throws or runs out of space at any byte, leaves the object unchanged and usable, reports failure only through the stream's own state or exception, and on a healthy stream shows the dimensions, the stored-value count and every stored value in the formatting the caller chose for the stream, which it leaves as it was; two equal containers print identically.",
 ["fault_sequences", "crash_points", "histories", "inputs"], "All containers and views, every byte position as a stream failure point.",
 "Tests never print to a failing stream and never check printed content.",
 ["src/graphblas/Matrix.hpp", "src/graphblas/Vector.hpp", "src/graphblas/indices.hpp"] + bk("LilSparseMatrix.hpp", "BitmapSparseVector.hpp", "Matrix.hpp", "Vector.hpp"), [("const printInfo", "containers and views")], [], ["text written, stream state, container afterwards"])
prop("C19", "Maximal independent set is valid for every random stream",
 "For every simple undirected graph and every sequence of random numbers, including ties, the maximal-independent-set algorithm terminates with a set in which no two vertices are adjacent and to which no vertex can be added.",
 ["schedules", "inputs"], "All undirected unit-weight graphs without self-loops, all random streams (adversarial ties or extreme draws followed by fair numbers).",
 "Tests use fixed graphs with the default generator and a fixed seed.",
 ["src/algorithms/mis.hpp"], [("random scores, winners have the largest score among neighbours", "mis.hpp")], [], ["returned set"])
prop("C20", "Clustering follows its rules and terminates under any random stream",
 "Every clustering algorithm finishes within its iteration limit on every graph, whatever the random stream. Peer-pressure clustering puts each vertex, round by round, in the cluster that gets most votes from its in-neighbours (the highest-numbered on ties, none if nobody votes) and stops when a round changes nothing. Markov clustering applies its expansion (restricted to existing entries) and inflation rounds with column sums of one and never connects vertices the graph does not. Louvain clustering, when it does not give up at the limit, gives every vertex exactly one cluster from which no single move of a vertex to another (for the masked variant: adjacent) cluster is better, and the masked variant never mixes components. The assignment helpers report the strongest (v1) or highest-numbered (v2) cluster of each vertex.",
 ["schedules", "inputs"], "All graphs with positive weights, directed or not, with and without self-loops; all initial assignments, iteration limits and random streams including ties and extreme draws.",
 "Tests run one or two fixed graphs with a fixed seed.",
 ["src/algorithms/cluster.hpp", "src/algorithms/cluster_louvain.hpp"], [("vote and tally", "cluster.hpp"), ("modularity moves with random tie-breaking", "cluster_louvain.hpp")], [], ["cluster matrices"])
prop("C21", "Breadth-first search levels and parents are right on every graph",
 "Every breadth-first search variant returns, for each source, exactly the reachable vertices with level equal to one plus the hop distance, and parents that are themselves reachable in-neighbours of the vertex at the previous level (the smallest such vertex for the parent-list variants), the source being its own parent.",
 ["inputs", "histories"], "All directed graphs (self-loops, unreachable parts, isolated sources), all sources and source sets, with graph, outputs and wavefront reused across calls.",
 "Tests use one or two fixed graphs.",
 ["src/algorithms/bfs.hpp", "src/algorithms/appendix_algorithms.hpp"], [("masked vxm/mxm frontier expansion", "bfs.hpp")], [], ["levels, parents"])
prop("C22", "Shortest-path and distance metrics are exact on every graph",
 "Single-source, batch, filtered, delta-stepping and all-pairs shortest paths return exactly the least path weight of every reachable vertex and nothing for unreachable ones, zero-weight edges and self-loops included; the single-source, batch and filtered variants answer false exactly when a negative cycle is reachable from a source. In-, out- and total degree, graph distance, distance matrix, eccentricity (greatest distance), radius (least eccentricity), diameter (greatest distance) and closeness (here: the sum of the distances from a vertex) agree with their definitions on every graph.",
 ["inputs", "histories"], "All weighted directed graphs with integer-valued weights (non-negative for delta-stepping and the metrics, no negative cycle for all-pairs), all sources and source sets, all positive delta values.",
 "Tests use two fixed graphs.",
 ["src/algorithms/sssp.hpp", "src/algorithms/apsp.hpp", "src/algorithms/metrics.hpp"], [("min-plus iteration", "sssp.hpp, apsp.hpp"), ("reductions", "metrics.hpp")], [], ["distance vectors and matrices"])
prop("C23", "Triangle counting and k-truss are exact on every graph",
 "Every triangle-counting variant returns the number of triangles of the undirected graph, and both k-truss algorithms return the maximal subgraph in which every edge lies in at least k-2 triangles (k at least 3).",
 ["inputs"], "All simple undirected graphs and k.",
 "Tests use a few fixed graphs.",
 ["src/algorithms/triangle_count.hpp", "src/algorithms/k_truss.hpp", "src/algorithms/appendix_algorithms.hpp"], [("masked products and support counting", "triangle_count.hpp, k_truss.hpp")], [], ["returned counts and matrices"])
prop("C24", "Minimum spanning tree and maximum flow are optimal",
 "On every connected weighted undirected graph the minimum-spanning-tree algorithm returns a spanning tree of least total weight, and on every capacitated network the maximum-flow algorithms return the value of a minimum cut, terminating on all integer capacities.",
 ["inputs"], "All connected weighted graphs; all integer-capacity networks with distinct source and sink.",
 "Tests use one to three fixed graphs.",
 ["src/algorithms/mst.hpp", "src/algorithms/maxflow.hpp"], [("Prim iteration", "mst.hpp"), ("augmenting paths / push-relabel", "maxflow.hpp")], [], ["weights, parents, flow value"])
prop("C25", "Betweenness centrality and PageRank agree with their definitions",
 "Every vertex-betweenness variant (single-source, batch, whole-graph) returns the sum over the given sources of the dependency of each vertex, edge betweenness counts the shortest paths that use each edge, and PageRank returns non-negative ranks that satisfy the PageRank equation within the requested tolerance and sum to one if every vertex has an out-edge. This holds on every directed graph, whatever its depth, self-loops and isolated vertices, as long as the numbers of shortest paths fit the 32-bit counters of the algorithms, and nothing from one source or call leaks into another.",
 ["inputs", "histories"], "All directed graphs (unit weights for betweenness, positive weights for PageRank), all source lists with repeats, all damping factors below one.",
 "Tests use three or four fixed graphs.",
 ["src/algorithms/bc.hpp", "src/algorithms/page_rank.hpp", "src/algorithms/appendix_algorithms.hpp"], [("Brandes-style sweeps by masked products", "bc.hpp"), ("power iteration", "page_rank.hpp")], [], ["centralities, ranks"])
prop("C26", "Matrix utilities build and rescale exactly what they promise",
 "Diagonal, scaled identity, triangular split, and row/column normalisation produce exactly the documented entries for every shape and pattern, whatever their outputs held before: each non-empty normalised row or column sums to one with its pattern and proportions kept, and split gives the lower triangle with the diagonal and the strict upper triangle. Inputs of the building utilities stay untouched.",
 ["inputs", "histories"], "All shapes including rectangular, all patterns with non-zero sums, all scalar types the utilities accept.",
 "Tests use fixed square matrices.",
 ["src/graphblas/matrix_utils.hpp", "src/graphblas/indices.hpp"], [("build from index arrays; apply/reduce compositions", "matrix_utils.hpp")], [], ["contents of the results"])
prop("C27", "Predefined operators, monoids and semirings satisfy their algebraic laws",
 "Every predefined unary and binary operator computes its named function on all representable arguments, every monoid is associative with its stated identity, and every semiring's additive identity behaves as declared.",
 ["inputs"], "All scalar arguments of all instantiations.",
 "Tests spot-check a few values.",
 ["src/graphblas/algebra.hpp"], [("operator structs and generator macros", "algebra.hpp")], [], ["operator results"])
prop("C28", "Domain mismatches and misuse of views are rejected at compile time",
 "Calls whose operand kinds make no sense (a mask view used as an operand, a vector where a matrix is needed, an apply with two containers) do not compile.",
 ["programs"], "All client programs.",
 "Tests cannot contain programs that do not compile.",
 ["src/graphblas/operations.hpp", "src/graphblas/types.hpp"], [("enable_if / static_assert", "operations.hpp, types.hpp")], [], ["compiler diagnostics"])

NA = {
 "C27": "pure functions of scalar arguments: no schedule, clock, I/O, allocation, history or fault for a simulator to vary (operators are exercised as components of C04-C11 histories, but their laws are not decided by this technique)",
 "C28": "a property of programs that must not compile: nothing runs, so there is no execution to simulate",
}
TECH = "deterministic simulation with fault injection: seeded simulated callers, scheduler, allocator and callable/stream faults, reference-model oracle"
LEVEL = {"C13": "fault_enumeration", "C18": "fault_enumeration"}
NOTE = {}
def main(ready):
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in ready:
            checks.append(dict(property=i, quick_cmd="python3 /verif/check.py %s" % i, thorough_cmd="python3 /verif/check.py %s --thorough" % i,
               evidence_file="evidence/%s.json" % i, technique=TECH, level=LEVEL.get(i, "exploration"),
               level_note=NOTE.get(i, "Seeded search over simulated histories: sampled, not exhaustive. Trusts the reference model in sim/, clang's memory-access instrumentation and the simulator runtime; both platforms' real code runs, nothing of the library is stubbed.")))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="python3 /verif/check.py --setup",
             hooks=dict(guard="none", enable="no hooks in /repo: the simulator takes over operator new/delete, instrumented memory accesses, callables, iterators, streams and the random engine from outside", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="See DESIGN.md. Repairs of genuine defects are separate fix: commits in /repo, listed in known-findings.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main(open(os.path.join(V, "tools", "ready.txt")).read().split())
