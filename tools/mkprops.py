#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
I = "include/"
p("A01", "ModP and Rational values are exact field elements with one representation",
  "A value of ModP<int,P> built from any integer and combined with any sequence of +, -, *, /, unary minus, inv() and their compound forms equals the exact result modulo P, represented by one integer in 0..P-1, and a Rational<int> equals the exact fraction in lowest terms with positive denominator. Comparisons between two values, or between a value and an integer, agree with equality of the exact field elements, and every non-zero value times its inverse is one.",
  ["inputs", "histories"], "every integer used to construct a value, every pair of values, every sequence of arithmetic operations, for each characteristic and for the rationals",
  "tests/field.cpp checks a few sums and products for P = 2, 3, 5; negative integers, mixed integer comparisons, inverses of every residue and long operation histories are not sampled.",
  [I+"linalg/field.hpp"], [("ModP arithmetic and reduction modulo P", I+"linalg/field.hpp ModP"), ("P = 2 specialisation", I+"linalg/field.hpp ModP<IntT,2>"), ("Rational reduction", I+"linalg/field.hpp Rational")])
p("A02", "SparseVector operations compute the mathematical vector and keep it canonical",
  "After any sequence of sparse-vector operations (construction, axpy/axpy to a permuted or scaled vector, scaling, get/set of entries and blocks, insertion, erasure, permutation or swapping of indices, dot and Kronecker products, addition and subtraction) the vector holds exactly the entries of the mathematical result. Its stored entries have strictly increasing indices and no explicit zeros (given non-zero entries and non-zero scale factors), and queries (nnz, last entry, lookup, iteration, equality) answer for that mathematical vector. SetVector, which keeps the same entries in a std::set, does the same for the operations it offers.",
  ["inputs", "histories"], "every sequence of operations on vectors over every field, including cancellation, empty operands, and indices at both ends",
  "tests/sparse_vector.cpp applies single operations to a couple of fixed vectors; cancellation, aliasing order, empty vectors and multi-step histories are not reached.",
  [I+"linalg/sparse_vector.hpp", I+"linalg/abstract_vector.hpp", I+"linalg/set_vector.hpp"], [("sorted (index,value) storage and merge-based axpy", I+"linalg/sparse_vector.hpp SparseVector::axpy"), ("block and index edits", I+"linalg/sparse_vector.hpp set_block/erase_for_matrix/insert_rows/permute")],
  state=[("indval", "sorted non-zero entries", I+"linalg/sparse_vector.hpp")])
p("A03", "Column-matrix algebra equals matrix algebra over the field",
  "For any matrices of compatible shape, sums, differences, products, matrix-vector products, transposes, scalar multiples, row/column permutations and swaps, row/column/block extraction, assignment, insertion, deletion and appending, direct sums, identity tests and equality produce exactly the entries and the shape that matrix algebra over the field prescribes. Operations that return a new matrix leave their operands unchanged.",
  ["inputs", "histories"], "every matrix over every field, every compatible operand, every sequence of operations, including zero rows, zero columns and empty matrices",
  "tests/col_matrix.cpp covers a few operations on fixed or random square F2/F3 matrices; subtraction order, rectangular and empty shapes and histories of edits are untested.",
  [I+"linalg/col_matrix.hpp", I+"linalg/sparse_vector.hpp"], [("column list plus row count", I+"linalg/col_matrix.hpp ColumnMatrix"), ("gemv/matmul", I+"linalg/col_matrix.hpp operator*")])
p("A04", "Triangular solves and inverses are exact",
  "For an invertible upper or lower triangular matrix, the corresponding solve with a vector or a matrix returns the unique x with A x = b (or X with A X = B), and its inverse is a two-sided inverse of the same triangular shape. A general invertible matrix times its computed inverse is the identity.",
  ["inputs"], "every invertible triangular or general matrix with any non-zero diagonal over every field, and every right-hand side",
  "tests/col_matrix.cpp checks solves against a few seeded random matrices, mostly with unit diagonals over F2 and F3.",
  [I+"linalg/col_matrix.hpp", I+"linalg/sparse_fact.hpp"], [("back/forward substitution", I+"linalg/col_matrix.hpp u_solve, l_solve, u_inv, l_inv"), ("inverse by factorisation", I+"linalg/sparse_fact.hpp inv")])
p("A05", "Matrix factorisations multiply back and have the promised shapes",
  "For every matrix over every field, each factorisation (LEUP, PLEU, UELP, PUEL, LQU and the other echelon/pivot factorisations offered) has a product equal to the input; L factors are lower and U factors upper triangular and invertible, P factors are permutations, and the echelon or pivot factor has its promised shape with as many pivots as the rank. Commuting a triangular factor past a pivot matrix preserves the product and the triangular shape.",
  ["inputs"], "every rectangular matrix of any rank over every field, including zero and empty rows or columns",
  "tests/col_matrix.cpp factors a few seeded random matrices of fixed shape; rank-deficient patterns that exercise every pivot order are sampled only by luck.",
  [I+"linalg/sparse_fact.hpp", I+"linalg/col_matrix.hpp"], [("elimination loops", I+"linalg/sparse_fact.hpp LEUP_fact, PLEU_fact, UELP_fact, PUEL_fact, LQU_fact"), ("commutation", I+"linalg/sparse_fact.hpp EL_L_commute, L_EU_commute etc.")])
p("A06", "Every reduction algorithm yields a valid reduced decomposition",
  "For every matrix and every reduction option (standard, extra or sparse-aware, with or without recording the basis change), the result has pairwise distinct column pivots with the reported pivot-to-column map and the number of non-zero columns equal to the rank, each column's span preserved left to right. When a basis matrix U is recorded it is invertible upper triangular and input times U equals the reduced matrix.",
  ["inputs", "configurations"], "every matrix (including single-entry, empty and duplicate columns) over every field, crossed with every reduction option",
  "tests/reduction.cpp runs seeded random matrices for a few flags; single-entry columns under extra reduction and boundary-matrix structure are not checked.",
  [I+"homology/reduction.hpp"], [("left-to-right column reduction", I+"homology/reduction.hpp reduce_matrix_standard"), ("extra reduction and sparsification", I+"homology/reduction.hpp reduce_matrix_extra, reduce_column_sparsify")],
  state=[("p2c", "pivot row -> column", I+"homology/reduction.hpp")])
p("A07", "Divide-and-conquer reduction equals sequential reduction on any schedule",
  "Reducing a matrix with the divide-and-conquer (task-parallel) algorithm terminates with the same pivot pairs as sequential reduction, and with a valid basis change when one is requested, for every matrix size relative to the block size, every number of threads and every order in which block tasks run.",
  ["schedules", "inputs", "configurations"], "all task interleavings and thread counts, all matrix sizes below, at and above the block sizes",
  "Tests run matrices that fit in one block, on one schedule; merges between blocks and other thread counts are never exercised.",
  [I+"homology/parallel.hpp", I+"homology/reduction.hpp"], [("recursive block split and merge with OpenMP tasks", I+"homology/parallel.hpp divide_conquer, partial_reduce_parallel")])
p("A08", "Betti numbers are correct under every option",
  "For every finite chain complex of field vector spaces, and for chain complexes of simplicial, cubical and cell complexes, the reported Betti number in each dimension equals dim ker - rank of the incoming boundary, under every combination of reduction, clearing, compression and basis options. Reduced (augmented) and relative complexes report reduced and relative Betti numbers.",
  ["inputs", "configurations"], "every finite complex in every dimension, every coefficient field, every option combination",
  "tests/homology.cpp prints but does not assert Betti numbers; option combinations are compared on nothing.",
  [I+"homology/basis.hpp", I+"chain/chain_complex.hpp", I+"homology/reduction.hpp"], [("ReducedChainComplex construction", I+"homology/basis.hpp"), ("clearing/compression between dimensions", I+"homology/reduction.hpp")],
  state=[("R, U, I, p2c", "reduced matrices, basis change, homology-generating columns, pivots", I+"homology/basis.hpp")])
p("A09", "Homology generators are a basis of cycles, with unique preferred forms",
  "The reported homology generators in each dimension are cycles, independent modulo boundaries, and as many as the Betti number. The preferred representative of any cycle is homologous to it and is a combination of generators, so two cycles have equal preferred representatives exactly when they are homologous.",
  ["inputs", "configurations"], "every chain complex, every cycle in it, every option that computes a basis",
  "No test asks for a representative or a preferred representative.",
  [I+"homology/basis.hpp", I+"homology/dgbasis.hpp"], [("generator extraction", I+"homology/basis.hpp get_preferred_representative, to_hom_basis, from_hom_basis"), ("elimination against boundaries", I+"homology/basis.hpp find_preferred_representative")])
p("A10", "Persistence pairs are the barcode of the filtration",
  "For every filtered complex the persistence pairs form the unique barcode: for all values s <= t the number of bars alive from s to t equals the rank of the map in homology from the sublevel complex at s to the one at t. Each pair carries the dimension and filtration value of its birth cell and death cell and the indices of those cells in the input complex, under every reduction option and both with and without the permuted-index form.",
  ["inputs", "configurations"], "every filtered simplicial, cubical or cell complex in any insertion order, with ties, over every field and option",
  "No stable test asserts a barcode; demo programs only have to exit normally.",
  [I+"persistence/filtration.hpp", I+"persistence/filtered_basis.hpp", I+"chain/filtered_chain_complex.hpp"], [("sort by filtration value and permute boundary matrices", I+"chain/filtered_chain_complex.hpp"), ("pair extraction from pivots", I+"persistence/filtered_basis.hpp persistence_pairs")],
  state=[("perm", "filtration order per dimension", I+"chain/filtered_chain_complex.hpp")])
p("A11", "Updating filtration values equals recomputing from scratch",
  "After any sequence of filtration-value updates applied to an already reduced filtered complex (homology or differential-graded form), its barcode, cell indices and internal factorisation are those of a filtered complex built and reduced afresh with the latest values. The updated decomposition still satisfies boundary times basis equals reduced matrix.",
  ["histories", "inputs"], "every sequence of value assignments (including order reversals and ties) on every filtered complex",
  "The update programs in tests print timings, are not among the stable tests or crash, and assert nothing on the barcode.",
  [I+"persistence/filtered_basis.hpp", I+"persistence/filtered_dgbasis.hpp", I+"homology/basis.hpp", I+"homology/dgbasis.hpp", I+"chain/filtered_chain_complex.hpp", I+"dgvs/filtered_dgvs.hpp"], [("permutation update with factorisation repair", I+"homology/basis.hpp permute_basis/update_reduction"), ("filtration re-sort", I+"chain/filtered_chain_complex.hpp update_filtration")])
p("A12", "Cohomology and differential-graded reductions agree with homology",
  "Building the differential-graded form of a complex in degree -1 or +1, with or without augmentation, gives differentials that square to zero and Betti numbers equal to those of the chain complex (reduced ones when augmented). Cochain complexes (in any listing of their basis) report the same Betti numbers under every option. Relisting the basis of a graded space or of its reduction, in either degree, gives the differentials of the relisted complex and keeps the factorisation and the Betti numbers; is_differential tells exactly whether consecutive maps compose to zero. Its persistent cohomology bars equal the persistent homology bars in every dimension and under every reduction option.",
  ["inputs", "configurations"], "every (filtered) complex, both degrees, augmented or not, every option",
  "No stable test constructs a differential-graded vector space.",
  [I+"dgvs/dgvs.hpp", I+"dgvs/filtered_dgvs.hpp", I+"homology/dgbasis.hpp", I+"persistence/filtered_dgbasis.hpp", I+"chain/cochain_complex.hpp", I+"homology/cohom_basis.hpp"], [("differential selection by degree", I+"dgvs/dgvs.hpp"), ("reversed filtration order for cohomology", I+"dgvs/filtered_dgvs.hpp"), ("pairing", I+"persistence/filtered_dgbasis.hpp persistence_pairs")])
p("A13", "General updates that add, remove and move cells equal recomputing",
  "After updating a reduced filtered complex from one filtration of simplicial complexes to another with the same maximum dimension that adds cells, removes cells and reorders the rest, its Betti numbers and barcode equal those computed afresh from the new filtration. This holds for any sequence of such updates, in homology and cohomology; the Update_info interface is documented for F2 coefficients only, UpdateInfo2 for every field.",
  ["histories", "inputs"], "every pair and sequence of filtrations on different complexes",
  "tests/update_general.cpp and tests/update_info.cpp crash at this commit and are not among the stable tests.",
  [I+"filtration/update_information.hpp", I+"homology/basis.hpp", I+"homology/dgbasis.hpp", I+"persistence/filtered_basis.hpp", I+"persistence/filtered_dgbasis.hpp"], [("difference of two filtrations", I+"filtration/update_information.hpp UpdateInfo2, Update_info"), ("delete, permute, insert on the factorisation", I+"homology/dgbasis.hpp update_basis")])
p("A14", "Union-find H0 barcodes equal the reduction's H0 barcode",
  "The zero-dimensional persistence pairs computed by union-find, from a filtered complex or directly from a Rips edge list, equal as a multiset of (birth, death) those computed by matrix reduction, with every component born at its oldest vertex and the elder component surviving each merge.",
  ["inputs"], "every filtered graph, in any insertion order, with ties and isolated vertices",
  "No stable test calls the union-find routines.",
  [I+"persistence/union_find.hpp"], [("elder-rule merge", I+"persistence/union_find.hpp union_find_pairs, rips_union_find_pairs")])
p("A15", "A simplicial complex is a face-closed set of simplices with stable indices",
  "After any history of additions to a simplicial complex (single, recursive, or as a union, in any vertex order), it contains exactly the simplices added successfully, each with a fixed index equal to its insertion order in its dimension; adding a simplex twice changes nothing, and a trie-based complex refuses a simplex whose faces are missing and adds no cell (the light form documents faces-first insertion as a precondition). Lookups by vertices and listings by dimension are mutually inverse, and union and intersection of complexes are the set-theoretic ones. The boundary of every simplex, in copies, unions and intersections too, lists exactly its faces.",
  ["histories", "inputs"], "every sequence of add/add_recursive/union/intersection calls on complexes of any dimension",
  "tests only build complexes on the way to printing; no assertion on indices, refusals or set operations.",
  [I+"complex/simplicial_complex.hpp", I+"util/trie.hpp", I+"complex/light_simplicial_complex.hpp"], [("trie from vertex sequence to index", I+"util/trie.hpp SparseTrie"), ("face check before insertion", I+"complex/simplicial_complex.hpp add, _add_unsafe, add_recursive")],
  state=[("trie / index lists", "simplex <-> index", I+"complex/simplicial_complex.hpp")])
p("A16", "Boundary operators square to zero and list exactly the faces",
  "For every simplicial (trie-based or light), cubical and cell complex, the boundary of each cell lists exactly its codimension-one faces with coefficients that make boundary composed with boundary zero over every field. The matrix of a dimension has one column per cell in index order, and the two simplicial representations and every way of building a chain complex agree up to the documented sign convention.",
  ["inputs", "programs"], "every complex of any dimension over every field",
  "No stable test multiplies consecutive boundary matrices or compares complex representations.",
  [I+"complex/simplicial_complex.hpp", I+"complex/light_simplicial_complex.hpp", I+"complex/cubical_complex.hpp", I+"complex/cell_complex.hpp", I+"chain/chain_complex.hpp"], [("boundary_csc per complex type", I+"complex/*_complex.hpp"), ("face iteration with alternating sign", I+"complex/light_simplicial_complex.hpp, simplicial_complex.hpp")])
p("A17", "A cubical complex is closed under faces with stable indices",
  "After any history of additions of cubes (single or recursive), file loads or cube-grid generation, a cubical complex contains exactly the cubes added successfully with stable per-dimension indices and refuses cubes whose faces are missing. Its skeleta contain exactly the cubes of lower dimension, lookups and listings are mutually inverse, and the boundary of every cube (in copies and skeleta too) lists exactly its faces.",
  ["histories", "inputs"], "every sequence of additions of cubes in any ambient dimension",
  "No stable test builds a cubical complex.",
  [I+"complex/cubical_complex.hpp", I+"util/trie.hpp"], [("cube key trie", I+"complex/cubical_complex.hpp"), ("face closure", I+"complex/cubical_complex.hpp add_recursive")])
p("A18", "A filtration has one value per cell and its sublevel sets are subcomplexes",
  "After any history of additions to a filtration (single, recursive with a value, on simplicial, light or cubical complexes), every cell has exactly one value, recorded at its index and never changed by adding its cofaces or other cells (only adding that same cell again may replace it), and faces created recursively take the value passed for the coface that created them. A refused cell gets no value. For any threshold the sublevel complex of a filtration (values monotone under faces) contains exactly the cells with value at most the threshold, and replacing the values affects values only.",
  ["histories", "inputs"], "every sequence of additions and value updates, every threshold",
  "tests/filtration.cpp adds three cells to one filtration and inspects one list.",
  [I+"filtration/filtration.hpp", I+"filtration/extension.hpp"], [("value vectors parallel to cell indices", I+"filtration/filtration.hpp add, add_recursive, sublevelset, update_filtration")])
p("A19", "Induced maps on homology are functorial and independent of representatives",
  "Inclusions and vertex maps of simplicial and cubical complexes give chain maps that commute with boundary, identity maps give identities, and the induced map of a composition is the product of the induced maps. The same holds for the provided diagram of subdivided triangles (an edge goes to its two halves, a filled triangle to a filled triangle). The induced matrix sends the class of each generator to the coordinates, in the target's generators, of the class of its image, in homology, in cohomology (where it is the dual map and generators are cocycles) and in differential-graded form.",
  ["inputs", "programs", "configurations"], "every map between complexes, every composable sequence, every dimension, field and option",
  "No stable test asserts on a chain map or an induced map.",
  [I+"chain/chain_map.hpp", I+"homology/induced_map.hpp", I+"complex/simplicial_map.hpp", I+"complex/cubical_map.hpp", I+"complex/cell_map.hpp", I+"dgvs/dgmap.hpp"], [("image simplex with orientation sign", I+"complex/simplicial_map.hpp"), ("push forward and reduce", I+"homology/induced_map.hpp")])
p("A20", "Quiver barcode algorithms compute the interval decomposition",
  "For every diagram of vector spaces on a line with arrows in either direction, each barcode algorithm (left-to-right, right-to-left, divide-and-conquer at any thread count) returns the interval decomposition: for every pair of nodes the number of bars spanning them equals the rank of the composed linear relation between them, and at each node the number of bars equals the dimension.",
  ["inputs", "programs", "schedules", "configurations"], "every type-A diagram of any length, orientation and dimensions (including zero), every field, every algorithm and thread count",
  "tests/quiver.cpp checks some squares of commuting factorisations on random maps; barcodes of general orientations are only compared for a few lengths.",
  [I+"quiver/sparse.hpp", I+"linalg/sparse_fact.hpp", I+"multigraph/diagram.hpp"], [("passing triangular factors through arrows", I+"quiver/sparse.hpp barcode_form_leftright, barcode_form_rightleft, barcode_form_divide_conquer"), ("bar extraction", I+"quiver/sparse.hpp barcode_from_barcode_form")])
p("A21", "Zigzag barcodes are the interval decomposition of the zigzag",
  "For every history in which cells enter and leave (possibly several times) while every intermediate set is a complex, the zigzag barcode in each dimension decomposes the zigzag homology: for any two critical times the number of bars spanning them equals the rank of the linear relation between the homologies at those times. Every bar carries the birth and death times, end types and cell indices of the events that created and destroyed it, under every option.",
  ["histories", "inputs", "configurations"], "every sequence of additions, removals and re-additions of cells; every option",
  "No stable test runs zigzag homology.",
  [I+"zigzag/zigzag_filtration.hpp", I+"zigzag/reduction.hpp", I+"zigzag/extension.hpp"], [("right/left filtration columns and deletion handling", I+"zigzag/reduction.hpp"), ("event ordering", I+"zigzag/zigzag_filtration.hpp")])
p("A22", "Flag and Rips complexes and filtrations are the clique complexes of the metric",
  "For every edge list or point set, the flag/Rips complex with a maximum dimension (and threshold) consists exactly of the cliques up to that dimension whose edges are all present (within the threshold), each once. In the filtered forms every vertex has value zero (or its given value) and each simplex the maximum length of its edges, for every metric and through every constructor.",
  ["inputs", "configurations"], "every graph with every edge order and weights (with ties), every point set and metric, every maximum dimension and threshold, every construction variant",
  "demo rips programs only have to exit normally; nothing compares against the clique definition.",
  [I+"filtration/flag.hpp", I+"filtration/rips.hpp", I+"topology/rips.hpp", I+"topology/flag.hpp", I+"topology/metric.hpp"], [("incremental neighbour-list intersection", I+"filtration/flag.hpp add_dimension_recursive_flag"), ("edge enumeration and sort", I+"filtration/rips.hpp, topology/rips.hpp")])
p("A23", "Nerve, Dowker and witness constructions follow their definitions",
  "The nerve of a cover has a vertex for each set and a simplex exactly for each non-empty common intersection of at most the allowed size. A Dowker edge has the smallest value at which some witness is related to both its ends (for witness complexes with the distances of a witness lowered by its nu-th smallest one, not below zero); Dowker and lazy witness complexes and filtrations are the flag constructions on these edges with vertices at zero, strict witness complexes the nerve of the witness neighbourhoods, and the witness complex has the simplices spanned by the nearest landmarks of some witness whose faces are present. Inclusion diagrams between covers, subsets and their unions or intersections send each vertex to the element it came from.",
  ["inputs"], "every cover, every matrix of distances, every pair of subsets",
  "No stable test builds any of these constructions.",
  [I+"topology/nerve.hpp", I+"topology/dowker.hpp", I+"topology/cover.hpp", I+"topology/inclusion.hpp"], [("common-intersection search", I+"topology/nerve.hpp"), ("witness parameter computation", I+"topology/dowker.hpp")])
p("A24", "Products, relative, sub- and tensor complexes have the right homology",
  "The triangulated product of two simplicial complexes, for any vertex labels, is a simplicial complex whose simplices are the staircase triangulation of the products of their simplices (all products of cells whose dimensions add up to at most the requested maximum) and whose homology satisfies the Kunneth formula; the tensor product of chain complexes with zero boundary in dimension 0 is a chain complex satisfying the same formula, and tensor products of vectors, matrices and homology classes have the Kronecker entries. The Eilenberg-Zilber map, absolute or relative to subcomplexes, is a chain map that is an isomorphism on homology. Relative and sub chain complexes are chain complexes whose Betti numbers satisfy the long exact sequence of the pair, and the Mayer-Vietoris boundary is the connecting map of a cover.",
  ["inputs"], "every pair of complexes, every complex and subcomplex, every field",
  "No stable test uses these constructions.",
  [I+"topology/eilenberg_zilber.hpp", I+"chain/chain_complex.hpp", I+"topology/mayer_vietoris.hpp"], [("product simplices", I+"topology/eilenberg_zilber.hpp TriangulatedProduct"), ("submatrix extraction", I+"chain/chain_complex.hpp relative_complex, subcomplex, tensor_product")])
p("A25", "Saved objects load back equal",
  "Writing any supported object (sparse vector, matrix, simplicial complex, cellular map, diagram) to a file or stream and reading it back yields an object equal to the original, with the same cells, indices, shape and entries, over every field; several objects written to one stream are read back one after another; the node and edge files of a saved diagram read back and its metadata lists the edges. Cubical complexes, point clouds and program arguments are read as the cells, coordinates and values their text contains. This also holds for empty and zero-dimensional objects (dimensions above the last non-empty one are not kept for a simplicial complex) and for labels and indices up to 64 bits.",
  ["inputs"], "every object of each serialisable type, including empty ones",
  "No stable test reads back a file it wrote, except column matrices.",
  [I+"linalg/col_matrix.hpp", I+"complex/simplicial_complex.hpp", I+"complex/cubical_complex.hpp", I+"complex/cell_map.hpp", I+"multigraph/diagram.hpp", I+"util/io.hpp"], [("text writers and parsers", I+"linalg/col_matrix.hpp write, save; complex/*.hpp save/load; util/io.hpp")])
p("A26", "Permutation and sorted-list utilities are exact",
  "Sorting permutations sort their input (stably where the function says so), and the first-k and top-k selections are the k smallest entries; applying, inverting, restricting, composing and extending permutations follow function composition; the Kendall-tau distance counts the pairs two permutations order differently and the sign is its parity; intersections (also below a bound), unions, complements and searches over sorted lists return the set-theoretic result in sorted order, and sum-reduction adds the values of equal indices and drops zeros. A prefix tree returns the last value stored under each key, and copies and moves of it are independent of the original.",
  ["inputs"], "every finite list, permutation and pair of strictly increasing lists, including empty ones and ties; every history of insertions, copies and moves of a prefix tree",
  "tests/util.cpp samples a few fixed lists.",
  [I+"util/permutation.hpp", I+"util/sorted.hpp", I+"util/set.hpp", I+"util/trie.hpp", I+"util/simplex.hpp"], [("permutation helpers", I+"util/permutation.hpp"), ("merge loops on sorted ranges", I+"util/sorted.hpp")])
p("A27", "Lower-star and level-set extensions follow their definitions",
  "Extending a function on vertices to a simplicial or cubical complex gives every cell the maximum over its vertices, the recorded extremal vertex attains it, and gradients of births and deaths are pulled back to exactly those vertices. Extending it to a zigzag with radius eps gives each cell the one interval [max - eps, min + eps] over its vertices (cells whose interval would be empty are an error or, for the cubical filtration, left out); the toplex extension of a voxel image gives each cube the range of the voxels that contain it. The level set between s0 and s1 contains exactly the cells with an interval that meets [s0, s1], and the zigzag of level sets has these as nodes, over its windows, joined by their inclusions.",
  ["inputs"], "every complex with any labels, every vertex function and image (negative values and ties included), every radius, window and level spacing",
  "tests/update_lower_star.cpp is not a stable test; zigzag extension is untested.",
  [I+"filtration/extension.hpp", I+"zigzag/extension.hpp", I+"zigzag/zigzag_filtration.hpp", I+"topology/levelset.hpp"], [("max over vertices", I+"filtration/extension.hpp lower_star_filtration"), ("extrema per simplex", I+"zigzag/extension.hpp")])
p("A34", "Grid complexes triangulate the box",
  "The Freudenthal triangulation of a grid in two or three dimensions, or of a sub-box of it or of a cubical complex, has as simplices exactly the chains of grid points (in the product order) that lie inside one unit cube, on the numbered grid points; the cubical grid has exactly the elementary cubes of the box. Both simplicial data structures agree and the complexes are closed under taking faces.",
  ["inputs"], "every grid size from two points per axis, every sub-box that extends in at least two directions, every two- or three-dimensional cubical complex",
  "Tests build two fixed grids and look at counts only.",
  [I+"topology/grid.hpp", I+"filtration/extension.hpp"], [("simplices of one cube", I+"topology/grid.hpp")])
p("A28", "Diagram functors preserve shape and commute with composition",
  "Applying the nerve, Rips, chain and homology functors to a diagram gives a diagram on the same graph in which node and edge i come from node and edge i of the input; every edge map is a map between its endpoint objects and the homology functor sends each edge to the map induced by that edge in the given dimension (all dimensions at once, and directly from point sets, too; the cohomological form reverses every arrow). Identities go to identities and composed edges to products. A Rips parameter that decreases along an edge is refused with an exception. Running the functor with any number of threads gives the same result.",
  ["inputs", "schedules"], "every diagram of sets, covers, complexes or chain complexes; every thread count",
  "No stable test builds a diagram through functors.",
  [I+"multigraph/functors.hpp", I+"multigraph/diagram.hpp", I+"multigraph/multigraph.hpp"], [("node and edge loops with OpenMP", I+"multigraph/functors.hpp")])
p("A33", "Compressed-column matrices compute matrix algebra",
  "A compressed-column matrix built from column pointers, row indices (listed in any order within a column) and values stands for that matrix: every lookup returns its entry, columns are kept sorted by row, and without an explicit size it has the smallest number of rows that holds its entries. Submatrices and block selections take exactly the chosen rows and columns in the order given, products, sums and scaled sums equal those of matrix algebra without explicit zeros, and the triangular solve returns the unique solution for any upper triangular matrix with invertible diagonal; none of them changes its operands.",
  ["inputs"], "every shape (empty ones included), every listing order of rows and columns, every coefficient field; input entries are non-zero and a row occurs once per column",
  "Tests print a few products and never compare them.",
  [I+"linalg/csc_matrix.hpp", I+"util/sorted.hpp"], [("sort and sum-reduce of a column", I+"linalg/csc_matrix.hpp gemm/sum"), ("back substitution", I+"linalg/csc_matrix.hpp trilu")])
p("A35", "Dense matrices, their LU factorisation, spans and similarities are exact",
  "Dense matrices in either storage order (include/future) compute exact matrix algebra: products, transposes, matrix-vector products, swaps, scalings and additions of rows and columns, appended and removed columns, and views and iterators over rows, columns and selections see exactly the entries they name. LU returns permutations P, Q, a unit lower triangular L and an upper triangular U with A = P L U Q for a matrix of any shape and rank; forward substitution returns the solution and the residual, and reports whether the system is consistent. A span reports for every vector whether it lies in it, grows exactly by vectors outside it, and a similarity transform keeps A0 = S A S^-1 under every elementary operation. Swaps composed in any way act in the order they were composed.",
  ["inputs", "programs"], "every shape (rectangular ones included), rank, storage order, coefficient field and sequence of operations",
  "No test includes these headers; one demo prints a few results.",
  [I+"future/dense.hpp", I+"future/lu.hpp", I+"future/span.hpp", I+"future/similarity.hpp", I+"future/permutation.hpp"], [("elimination with complete pivoting", I+"future/lu.hpp"), ("growing P^T L", I+"future/span.hpp"), ("strided iterators", I+"future/dense.hpp")])
p("A36", "Strided dense matrices, their shared views and factorisations are exact",
  "A dense matrix stored by rows or columns, forwards or backwards (linalg/naive_dense.hpp), reads and writes exactly the entry named, whichever way it is reached: entry access, row and column views and their iterators, and the transposed and half-turned matrices, which share its memory so that a write through one is seen through all. Row and column operations, products (in place ones included), triangular solves applied from either side, and comparison equal those of matrix algebra. The LEUP, PLEU, UELP and PUEL factorisations return permutation, unit triangular, triangular and echelon factors of the stated shapes whose product is the matrix, with as many pivots as its rank, for any shape and rank; commuting a triangular past an echelon factor preserves the product. None of them touches memory outside the matrices.",
  ["inputs", "programs"], "every shape with at least one row and column, rank, memory order, coefficient field and chain of views; in-place products take a square factor; commuted triangular factors have unit diagonal",
  "No stable test uses these dense matrices beyond reading point coordinates.",
  [I+"linalg/naive_dense.hpp"], [("memory orders and views", I+"linalg/naive_dense.hpp MemAcc"), ("elimination by find_pivot and the other three by change of view", I+"linalg/naive_dense.hpp LEUP_fact"), ("index map of an echelon factor", I+"linalg/naive_dense.hpp commute")])
p("A29", "Smith form, polynomial and rational canonical form algebra is exact",
  "Polynomial arithmetic over a field (sum, product, division with remainder, gcd, evaluation at scalars and matrices) is exact and keeps no leading zeros; the extended Euclidean algorithm returns x a + y b = g with g a greatest common divisor, and a / g and b / g; companion and characteristic matrices match their definitions (non-monic and non-square arguments are refused). The Smith form of a matrix over the integers or over polynomials is reached for every input, is diagonal with successive divisibility (monic over polynomials) and is the input up to the invertible factors returned; the rational canonical basis of a square matrix is invertible and turns the matrix into the block diagonal of the companion matrices of its invariant factors.",
  ["inputs"], "every polynomial and every matrix over the ring whose intermediate entries do not overflow int",
  "No stable test touches these headers.",
  [I+"linalg/polynomial.hpp", I+"linalg/pid.hpp", I+"linalg/rcf.hpp"], [("Euclidean division", I+"linalg/polynomial.hpp"), ("Smith elimination", I+"linalg/pid.hpp")])
p("A30", "Landmark selection, covers and neighbourhood queries follow their definitions",
  "Greedy landmarking returns, at each step, a point at maximal distance from those already chosen together with the correct Hausdorff distances; covers assign each point to the sets whose definition contains it and cover every point; nearest and neighbourhood queries return the exact k nearest or in-range points; and metrics are symmetric, vanish on equal points and match their formulas. Oscillating and discrete Morozov zigzags consist of the greedily growing sets with their Rips complexes at the stated radii; product spaces, intervals, circles and cylinders list the points they name, and seeded samples are reproducible and lie on the sphere or in the cube.",
  ["inputs"], "every finite point set, metric, seed point, k and radius",
  "No stable test calls these routines.",
  [I+"topology/landmark.hpp", I+"topology/cover.hpp", I+"topology/neighborhood.hpp", I+"topology/metric.hpp"], [("max-min selection", I+"topology/landmark.hpp"), ("interval and landmark covers", I+"topology/cover.hpp")])
p("A31", "Library calls are free of memory errors and data races",
  "No public call on valid arguments reads or writes outside its objects, uses uninitialised or freed memory, leaks, or contains conflicting unsynchronised accesses between threads.",
  ["inputs", "schedules"], "every valid call and every thread interleaving at the level of individual memory accesses",
  "Tests run without sanitizers on one schedule.",
  [I+"util/trie.hpp", I+"homology/parallel.hpp", I+"linalg/sparse_vector.hpp"], [("ownership in tries and vectors", I+"util/trie.hpp")])
p("A32", "Running time and memory follow the documented scaling",
  "Reductions with clearing, compression or updates take no more column operations than the plain reduction, and sparse operations run in time linear in the stored entries.",
  ["inputs"], "every input size",
  "Timing is printed by performance programs and compared with nothing.",
  [I+"homology/reduction.hpp", "performance/scaling.cpp"], [("early termination by clearing", I+"homology/reduction.hpp")])
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
