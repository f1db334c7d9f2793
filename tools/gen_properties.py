#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable and in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

F="phlite/src/fields.rs"; C="phlite/src/columns.rs"; M="phlite/src/matrices/mod.rs"
A="phlite/src/matrices/adaptors.rs"; CO="phlite/src/matrices/combinators.rs"; I="phlite/src/matrices/implementors.rs"
S="phlite/src/reduction/standard.rs"; CL="phlite/src/reduction/clearing.rs"; RM="phlite/src/reduction/mod.rs"
RL="phlite_rips/src/lib.rs"; RC="phlite_rips/src/cohomology.rs"; RH="phlite_rips/src/homology.rs"; RX="phlite_rips/src/main.rs"
GL="phlite_grpph/src/lib.rs"; GC="phlite_grpph/src/coboundary.rs"; GB="phlite_grpph/src/boundary.rs"

prop("C01","Prime-field coefficients obey exact field arithmetic",
 "For each provided finite field (2, 3, 5, 7, 11 and 13 elements) the non-zero elements under addition, multiplication, additive inverse and multiplicative inverse behave exactly as the integers modulo p: sums that are 0 modulo p are reported as the absence of a value, every other result is the unique correct non-zero element, and no operation fails. Adding an absent value leaves an element unchanged.",
 ["inputs"],"every pair (and triple, for associativity and distributivity) of elements of every provided finite field",
 "Tests cover a few sums and products in Z2 and Z3 only; Z5..Z13 and every hand-written inverse table entry are untested.",
 [F],[("Add/Mul/inverse tables for Z2 and ZP",F)],["operators + and *, one, additive_inverse, mult_inverse"])
prop("C02","Rational coefficients are exact and canonical",
 "Rational coefficients built from one by sums, products, negation and inversion always equal the exact rational number, as long as the numerators and denominators involved fit in a machine word. Equal rationals compare equal however they were computed, and a sum equal to zero is reported as the absence of a value.",
 ["inputs","histories"],"every sequence of field operations up to a depth, and every pair of rationals with small numerator and denominator (both signs)",
 "No test touches the rationals.",
 [F],[("common-denominator addition and gcd reduction",F)],["operators on Q, equality"])
prop("C03","A heap column behaves as the linear combination it holds",
 "After any sequence of insertions and removals, a heap column represents the sum of the inserted terms minus the removed ones: popping returns the row that is greatest in (filtration value, row index) order among the rows whose total coefficient is non-zero, with exactly that total coefficient and filtration value, or nothing if the sum is zero. Draining or converting to a sorted list yields every remaining non-zero row once in strictly decreasing order, and asking for a copy of the pivot leaves the represented sum unchanged and makes that pivot the one seen by peeking.",
 ["histories","inputs"],"every sequence of add / batch add / pop / clone-pivot / peek / partial drain / full drain up to a depth, over several coefficient fields and every filtration of the rows",
 "The tests pop a handful of hand-made Z2 columns; histories with repeated rows, cancellation to zero followed by more rows, and other fields are not reached.",
 [C],[("pop_pivot coalescing loop",C),("clone_pivot push-back",C)],["BHCol public methods"],
 [("heap","unordered terms of the linear combination",C)])
prop("C04","Lazy products and sums equal matrix algebra",
 "For all matrices of compatible types, every column of a lazy product is the left matrix applied to the right matrix's column, and every column of a lazy sum is the sum of the two columns, over any coefficient field and for matrices whose columns repeat or reorder rows. The product's row filtration is the left one and its column basis is the right one, both through plain and filtration-enriched column access.",
 ["inputs","configurations"],"every pair of small matrices over several fields (including repeated rows and non-square shapes), and every nesting of products and sums of small depth",
 "Two fixed Z2 products are tested; coefficients other than 1, operand order, filtration pass-through and sums are never tested.",
 [CO],[("Product / Sum column iterators and matrix_col_product!",CO)],["column, column_with_filtration, filtration_value, basis of product/sum"])
prop("C05","Consolidating a matrix preserves its columns without repeats",
 "Every column of a consolidated matrix has exactly the same total coefficient at every row as the underlying column, lists each row at most once and never lists a row whose total is zero. Filtration values and column basis of the underlying matrix are kept.",
 ["inputs"],"every column given as a sequence of terms up to a length over several fields, directly and through products",
 "One Z2 power of a 2x2 matrix is tested, and only the number of entries is compared.",
 [A,M],[("Consolidator via heap with trivial filtration",A)],["column of consolidate()"])
prop("C06","Column caching is transparent under any interleaving of reads",
 "A matrix wrapped in a column cache answers every column request with the same entries in the same order as the wrapped matrix, for every interleaving of opening, advancing and abandoning any number of simultaneously live column iterators, and asks the wrapped matrix for each column at most once. Filtration values and basis are those of the wrapped matrix.",
 ["histories","schedules"],"every interleaving of open / advance / drop over a few live column iterators up to a depth; products, sums and reductions that read one cache several times at once",
 "The cache has no test at all ('TODO: Test column cacher').",
 [A,M],[("RefCell<HashMap> column cache",A)],["column of cache_cols()"],
 [("cache","columns computed so far",A)])
prop("C07","Reversing order is an exact, invertible change of view",
 "Reversing a matrix keeps every matrix entry while reversing the order of the rows, of the filtration values and of the column basis (whole basis and each dimension), so the leading term of a reversed column is the least row of the original one. Un-reversing gives back the original entries, filtration values and basis order, for a whole matrix, a basis and each dimension of a split basis.",
 ["inputs","configurations"],"every small matrix with every sub-list of its basis, every row filtration and every split by dimension; basis sizes from zero up",
 "One test checks three basis elements of one matrix and prints the columns without comparing them.",
 [A,M],[("ReverseMatrix/UnreverseMatrix/ReverseBasis/UnreverseBasis incl. transmuting Deref",A)],["column, filtration_value, basis, in_dimension of reversed and unreversed matrices"])
prop("C08","Filtration-enriched columns agree with plain columns",
 "For every matrix and every stack of wrappers (trivial or function filtration, attached basis, cache, consolidation, reversal and un-reversal, restriction to a dimension, product, reference), enriched column access yields exactly the terms of the plain column, each tagged with the row's filtration value, and a heap built from a column sorts by (filtration value, row). Wrappers that do not change entries, filtration or basis leave them all unchanged.",
 ["inputs","configurations"],"every small matrix, every filtration function on its rows and every listed wrapper stack",
 "Only one function filtration on one matrix is tested; no wrapper stack is.",
 [A,M],[("column_with_filtration default and overrides, build_bhcol",M)],["column_with_filtration, filtration_value, build_bhcol"])
prop("C09","Basis views list exactly the right elements in order",
 "A column basis reports its size and elements consistently: the reverse lookup inverts indexing, the split bases of Rips and path-homology matrices are the concatenation of their dimensions, restricting a matrix to a dimension exposes exactly that dimension's elements and the unchanged columns, and re-indexing by basis position returns the column of the element at that position.",
 ["inputs","configurations"],"every basis order and sub-list of small sizes, every split into dimensions (including empty ones), and Rips / path-homology bases of small inputs",
 "Sub-bases are used only implicitly by the clearing tests; reverse lookup and positional indexing are never tested.",
 [M,A,I,RL,GC],[("ColBasis/SplitByDimension/WithSubBasis/UsingColBasisIndex",A),("flattening element()",RL)],["element, size, in_dimension, construct_reverse_lookup, sub_matrix_in_dimension, using_col_basis_index"])
prop("C10","Stored matrices and smart pointers return exactly the stored columns",
 "A matrix stored as a list or as a map of columns, owned or borrowed, returns for each index exactly the terms it was built from, in order, with coefficient one when built from bare rows, and its standard basis lists each column index once in order. Accessing it through a reference, Box, Rc or Arc makes no difference.",
 ["inputs"],"every small matrix over several fields, in every storage form and pointer form, with several key types",
 "Only the Z2 list form is used by tests, and only through other features.",
 [I,M],[("VecVecMatrix, MapVecMatrix, StandardBasis, pointer impls",I)],["column, basis"])
prop("C11","Column comparison decides equality of linear combinations",
 "Comparing two matrices on a column answers true exactly when the two columns are equal as linear combinations, regardless of term order, repeated rows or terms that cancel, and of any filtrations attached.",
 ["inputs"],"every pair of columns given as term sequences up to a length, over several fields and pairs of matrix kinds",
 "Used as the oracle of a few tests, almost always with the answer true on Z2.",
 [M],[("eq_on_col",M)],["eq_on_col"])
prop("C12","Reading a matrix has no observable effect",
 "Any column of any matrix of the library (stored, cached, consolidated, reversed and un-reversed, filtered, restricted or re-indexed, a product or sum, also of one object with itself, a reduction matrix, a Rips or path-homology matrix) can be requested any number of times, in any order, while other column iterators are alive, half read or abandoned: every reader that is run to its end delivers the same linear combination, whatever was read before or at the same time.",
 ["inputs","histories"],"all histories of bounded length of opening, advancing, finishing and abandoning two concurrent readers (plain, enriched, heap) on every small matrix and wrapper",
 "Tests read each column once, one at a time.",
 [A,I,M,CO,CL,RL,GC],[("lazy column iterators, column cache, reduction matrices",A),("sharing between column heaps",CO)],["column, column_with_filtration, build_bhcol on every matrix type"])
prop("C13","Safe use of the library never has undefined behaviour",
 "No sequence of calls to the safe interface (field arithmetic, views of reversed and un-reversed bases and their dimensions held through references, boxes or shared pointers, cached and lazy columns read together, both reductions, Rips and path-homology matrices) reads freed or foreign memory, produces an invalid value or breaks aliasing, although the implementation uses unsafe casts and unchecked constructors.",
 ["inputs","histories"],"all operand pairs of the finite fields and all small bases, splits, reader pairs, complexes, metric spaces and digraphs of the stated spaces",
 "Tests run natively, where undefined behaviour usually goes unnoticed.",
 [F,A,RL,GC],[("new_unchecked constructors",F),("pointer casts in ReverseBasis/UnreverseBasis",A)],["the whole safe interface, executed by an interpreter that checks every memory access and value"])
prop("C14","Threads that use the library at the same time do not disturb each other",
 "Matrices and bases that can be shared between threads (stored, wrapped, multiplied, added, Vietoris-Rips, path homology; by reference or shared pointer) give each of several threads reading them at once, under every interleaving of the reads, exactly the columns, enriched columns, comparisons and basis elements that a single reader gets. Constructions and reductions that run at the same time in different threads give the same valid decompositions and diagrams as when they run alone.",
 ["schedules","inputs"],"every interleaving, with a bounded number of preemptions at atomic operations, accesses to static memory, calls back into the caller's code and between reads, of two or three threads on every small matrix, complex, metric space and digraph of the stated spaces",
 "Every test uses one thread.",
 [A,I,M,CO,S,CL,RL,RC,GC],[("no state shared between readers or reductions",M),("reductions keep their state in the call",S)],["the safe interface, called from several threads under a controlled scheduler"])
prop("R01","Standard reduction returns a valid R = DV decomposition",
 "For every square matrix over a field, every row filtration and every ordered column basis, the standard algorithm terminates and returns V such that each column of V is that basis element with coefficient one plus earlier basis elements only, and the non-zero columns of D*V have pairwise distinct pivots with respect to (filtration value, row index).",
 ["inputs"],"every small square matrix over Z2, Z3, Z5, Z7, Z11, Z13 and the rationals, every row filtration and ordered sub-basis of small size, plus parametrised families of large matrices",
 "One Z2 matrix is reduced by the tests and compared with a hand-computed result.",
 [S,C,CO],[("reduction loop with low_inverse",S)],["standard_algo"],[("low_inverse","pivot row -> column and coefficient",S)])
prop("R02","Clearing reduction returns a valid R = DV decomposition",
 "For every chain complex whose basis in each dimension is in filtration order, reducing dimensions in the order of the complex with clearing terminates and returns an invertible V that is triangular in that order, such that the non-zero columns of D*V have pairwise distinct pivots and every cleared column maps to zero. Its cycle test answers true exactly for the columns that D*V sends to zero.",
 ["inputs"],"every small chain or cochain complex (up to four dimensions) over several fields, in homological and reversed cohomological form, with several filtrations; plus large structured complexes",
 "Two tests count the pairs of one example; V, R and the cycle test are never inspected.",
 [CL,C,CO],[("ReductionColumn::Cleared, reduce_dimension, col_is_cycle",CL)],["ClearedReductionMatrix::build_with_diagram, column, col_is_cycle"],
 [("reduction_columns","reduced or cleared columns of V",CL)])
prop("R03","The standard diagram is the persistence pairing",
 "For every filtered chain complex, the diagram of the standard algorithm pairs birth and death elements exactly as determined by the ranks of the lower-left sub-matrices of the boundary matrix, and lists as essential exactly the columns that are cycles and are not paired; no basis element is both essential and paired. This holds for boundary matrices and for reversed coboundary matrices, whichever column order is declared for reading the diagram off.",
 ["inputs"],"every filtered chain complex reachable by adding one element at a time up to a size, over several fields and filtrations, as boundary and as reversed coboundary matrix",
 "Tests only count pairs and essential classes of one 4-point example.",
 [S,RM],[("read_off_diagram",S)],["standard_algo_with_diagram, read_off_diagram"])
prop("R04","The clearing diagram is the persistence pairing",
 "For every filtered chain complex with a basis split by dimension, the diagram of the clearing algorithm, run in the order of the complex, is exactly the persistence pairing determined by the ranks of sub-matrices, with no element both essential and paired, and coincides with the standard algorithm's diagram on the reduced dimensions. Rows outside the column basis may appear as pivots, and elements in a dimension range that was not requested are not reported as essential.",
 ["inputs","configurations"],"every small chain or cochain complex over several fields, every contiguous dimension range, homological and cohomological direction",
 "Tests only count pairs and essential classes of one 4-point example and two digraphs.",
 [CL,RM],[("save_column diagram updates, clearing of births",CL)],["ClearedReductionMatrix::build_with_diagram"])
prop("R05","Homology and reversed cohomology give the same pairing",
 "For every filtered chain complex, reducing the boundary matrix and reducing the reversed coboundary matrix give the same set of (birth, death) pairs and the same essential elements, with either algorithm.",
 ["inputs"],"every small filtered chain complex over several fields and filtrations with ties",
 "No test compares the two directions.",
 [S,CL,A],[("reverse() composed with the reduction algorithms",A)],["diagrams of D and of reversed D^T"])
prop("R06","Results depend on the matrix, not on how it is presented",
 "The diagram and the decomposition guarantees of either algorithm do not change when the same matrix is presented with its column terms in another order, with terms split into repeated rows that add up, through a cache, a consolidation, a reference or another storage, with other labels for its basis elements that keep their order, or with another filtration inducing the same order.",
 ["inputs","configurations"],"every small complex combined with every listed change of presentation",
 "No test varies the presentation.",
 [S,CL,C,A],[("heap coalescing makes order and repetition irrelevant",C)],["diagrams"])
prop("V01","Simplex indices encode simplices faithfully",
 "Encoding a non-empty list of vertices of an n-point space as a simplex index and decoding it returns the same list, for all sizes where (n+1) to the power of the list length fits in a machine word; different lists get different indices, the empty list gets none, and the reported dimension is one less than the number of vertices.",
 ["inputs"],"every vertex list up to a length for every n up to a bound, and boundary lists for large n",
 "Two lists for one n are tested.",
 [RL],[("base n+1 digits",RL)],["RipsIndex::from_indices, to_vec, dimension"])
prop("V02","The Rips basis is every simplex once, in filtration order",
 "For every distance matrix and maximum dimension, the generated basis in each dimension up to the maximum contains every simplex of that dimension exactly once and no other, sorted by diameter and then by the order of simplex indices, so that it is consistent with the row filtration; dimensions with no simplex are empty.",
 ["inputs"],"every distance matrix on few points with few distinct values (including ties, zero and non-metric values), every maximum dimension, and structured inputs with many points",
 "Never tested directly.",
 [RL],[("add_cofacets recursion and sort",RL)],["build_rips_bases, basis of Rips matrices"])
prop("V03","Rips boundary and coboundary list exactly the faces and cofaces",
 "For every simplex, the boundary column lists each facet once with alternating sign and the coboundary column lists each cofacet once with the matching sign, so that the two operators are transposes of each other and square to zero over every field. Filtration values are simplex diameters, also in the enriched columns of the bare coboundary operator.",
 ["inputs"],"every simplex of every dimension on up to a bounded number of points, over Z2, Z3 and others, with all small distance matrices for the filtration values",
 "Only the number of cofacets of three simplices of a square is tested, over Z2.",
 [RC,RH,RL],[("CoboundaryIterator, boundary column, filtration overrides",RC)],["column, column_with_filtration, filtration_value"])
prop("V04","Vietoris-Rips barcodes are correct",
 "For every finite distance matrix, maximum dimension and coefficient field, the bars of positive length obtained by reducing the reversed Rips coboundary matrix (with or without clearing) are exactly those determined by the ranks of the maps between homology of the Rips complexes, in each dimension up to the maximum; reducing the boundary matrix gives the same bars below the maximum dimension.",
 ["inputs"],"every distance matrix on up to 4 points with up to 6 distinct values, on 5 and 6 points with few values, several fields, every maximum dimension; structured larger point sets",
 "One unit square is tested, and only the number of pairs.",
 [RL,RC,RH,CL,S],[("whole Rips pipeline",RC)],["diagram filtration values"])
prop("V05","The Rips command line tool prints the right barcode",
 "Given a distance matrix as CSV on standard input and an optional maximum dimension (default 1), the tool exits successfully and prints the number of basis elements in each dimension, one line per essential class and one line per finite pair whose persistence exceeds 0.01, each with the right dimension, birth and death.",
 ["inputs","configurations"],"every small distance matrix with few values (including a single point, ties and persistence around the threshold) and every small maximum dimension",
 "The binary has no test.",
 [RX,RC],[("CSV parsing, reporting loop",RX)],["stdout and exit status of phlite_rips_cli"])
prop("V06","Rips barcodes respect relabelling and rescaling of the points",
 "Permuting the points of a distance matrix leaves the barcode (multiset of dimension, birth, death with positive length) unchanged, applying a strictly increasing function to the distances that fixes zero applies that function to the endpoints, and adding a duplicate of a point at distance zero adds no bar of positive length.",
 ["inputs"],"every permutation of every small distance matrix, several monotone maps, structured larger point sets",
 "No test varies labels or scale.",
 [RL,RC,CL],[("filtration order with index tie-break",RL)],["barcodes"])
prop("G01","Path-homology boundary and coboundary form one filtered complex",
 "For every digraph filtration and edge set, the path-homology boundary operator squares to zero over every field, the coboundary operator is its transpose on all nodes, edges and 2-cells, every cell's filtration value is at least that of its faces, and enriched columns carry the same terms and filtration values as plain columns.",
 ["inputs"],"every digraph filtration with few time values on up to 3 or 4 nodes (complete closures or arbitrary), every grounding edge set; larger structured digraphs",
 "Tests print one coboundary; signs and agreement between the two operators are never compared.",
 [GC,GB],[("produce_edge_total_coboundary / produce_node_total_coboundary / boundary columns",GC)],["column, column_with_filtration, filtration_value"])
prop("G02","The 2-cells form a basis of the invariant 2-paths at all times",
 "At every filtration time, the 2-cells born by that time, read as combinations of directed 2-paths (a double edge, a directed triangle, or the difference of the two sides of a long square), are linearly independent, consist of 2-paths present at that time with boundary present at that time, and span all such boundary-invariant combinations of 2-paths.",
 ["inputs"],"every digraph filtration with few time values on up to 4 nodes, and larger structured digraphs with many competing bridges",
 "Never tested.",
 [GC],[("primary bridge map and collapse rules",GC)],["rows of the coboundary columns and their filtration values"])
prop("G03","Grounded persistent path homology barcodes are correct",
 "For every weighted digraph without self-loops (positive, zero or infinite weights, parallel edges, isolated nodes), the Python function for the barcode returns exactly the essential values and positive-length finite bars determined by ranks: cycles of the grounded edges (input edges from time 0, other node pairs from their shortest-path time) modulo boundaries of invariant 2-paths of the shortest-path filtration. Degree 0 has one essential value 0 per weakly connected component and no finite bar.",
 ["inputs"],"every weighted digraph on up to 3 nodes with several weights and on 4 nodes with few weights; larger structured digraphs; embedded labels",
 "Two highly symmetric digraphs are tested, by counting bars, and not through the Python functions.",
 [GL,GC],[("build_filtration, build_edge_set, diagram translation",GL)],["phlite_grpph.grpph"])
prop("G04","Path-homology representatives are genuine representatives",
 "The function with representatives returns the same barcode as the function without, and one representative per positive-length finite bar of degree 1: a cycle of distinct edges over the two-element field whose birth (the latest of its edges' times) and death (the first time it is a boundary) are, as a multiset over all representatives, exactly the finite bars. The representatives alive at any time are linearly independent in homology.",
 ["inputs"],"every weighted digraph on up to 3 nodes with several weights and on 4 nodes with few weights; larger structured digraphs",
 "Never tested (only an example script with one cycle).",
 [GL,GB,S],[("involution basis, standard reduction of the restricted boundary",GL)],["phlite_grpph.grpph_with_involution"])
prop("G05","Path-homology barcodes respect presentation of the digraph",
 "Relabelling the nodes, reordering the edge list, repeating an edge (with equal or larger weight) and adding isolated nodes (one more essential value 0 each) leave the finite bars and the degree-1 essential values unchanged; multiplying all weights by a positive factor multiplies all bar endpoints by it.",
 ["inputs"],"every relabelling and listed change of presentation of every small weighted digraph, embeddings among hundreds of isolated nodes",
 "No test varies the presentation.",
 [GL,GC],[("shortest-path filtration, primary bridge tie-break by label",GC)],["phlite_grpph.grpph, phlite_grpph.grpph_with_involution"])
prop("G06","Path-homology barcodes are correct over every field",
 "For every digraph filtration and grounding set, through the Rust interface and over every coefficient field, the bars of positive length in degrees 0 and 1 obtained by reducing the reversed path-homology coboundary (with the clearing or the standard algorithm) are exactly those determined by ranks of cycles of grounded edges modulo boundaries of invariant 2-paths; reducing the boundary matrix on a basis of the 2-cells gives the same finite bars of degree 1.",
 ["inputs"],"every small digraph filtration (not only shortest-path ones) and every grounding set, over Z2, Z3, other primes and the rationals, with torsion examples where fields differ",
 "Two tests compute one barcode over Z2.",
 [GC,GB],[("GrPPHCoboundary, GrPPHBoundary with the reductions",GC)],["GrPPHCoboundary::build, GrPPHBoundary::build, ClearedReductionMatrix::build_with_diagram, standard_algo_with_diagram"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
