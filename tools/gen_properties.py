#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
I = ["inputs"]
p("C01", "Format conversions preserve the matrix",
  "Converting a matrix between CSR, CSC, coordinate, dictionary-of-keys and dense form, in either direction and through the public conversion kernels, yields the same matrix: same row and column counts, every stored entry at its own (row, column) with its own value. Entries that share a coordinate are added together where the target cannot hold duplicates, and nothing beyond the stored entries appears in the result.",
  I, "every matrix of every shape (rectangular, empty rows/columns, unsorted or duplicate entries, arrays longer than the entry count), every index and value type",
  "The suite converts one 4x4 matrix and one 2x3 matrix; CSC and DoK conversions have no tests; square inputs cannot reveal swapped dimensions.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/dok/dok.rs", "src/row.rs", "src/col.rs", "src/coord.rs"],
  [("counting sort csr_tocsc / coo_tocsr", "src/row.rs, src/coord.rs"), ("expandptr, csr_tocoo, csr_todense, coo_todense", "src/row.rs, src/coord.rs"), ("to_* / from_dense methods", "src/*/")])
p("C02", "Transposition swaps dimensions and coordinates and nothing else",
  "Transposing a coordinate, CSR or CSC matrix, by value or by reference, gives a matrix with row and column counts exchanged in which the entry formerly at (i, j) is at (j, i) with the same value.",
  I, "every matrix, including rectangular ones and ones with duplicates",
  "Only square coordinate and one 2x3 CSR matrix are transposed by the tests; CSC transposition is untested.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs"],
  [("transpose / t", "src/coo/coo.rs, src/csr/csr.rs, src/csc/csc.rs")])
p("C03", "Sorting and summing duplicates yields canonical form, losslessly",
  "Sorting a compressed matrix's indices orders each row (column) by index while keeping every index with its own value; summing duplicates leaves each row (column) strictly increasing, each surviving entry holding the total of its duplicates, and the arrays trimmed to the entry count. The sorted-format and canonical-format predicates answer true exactly when every row (column) is non-decreasing, respectively strictly increasing, and matrices converted from coordinate form are always canonical.",
  I, "every compressed matrix, including empty rows and fully duplicated rows",
  "Tests look at one matrix with one swapped pair; order, pairing and merging must hold for all permutations and multiplicities.",
  ["src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs"],
  [("csr_sort_indices, csr_sum_duplicates, csr_has_sorted_indices, csr_has_canonical_format", "src/row.rs"), ("sum_duplicates, prune", "src/csr/csr.rs, src/csc/csc.rs")])
p("C04", "Element-wise operations apply the named operation entry by entry",
  "An element-wise operation on two same-shaped matrices (addition, subtraction, multiplication, division, comparison, minimum, maximum) yields at every position where either operand stores an entry exactly the named operation applied to the left operand's value and the right operand's value in that order, a missing entry counting as zero and duplicates counting as their sum. This holds whether or not the operands are canonical, for matrix methods, operators (owned or borrowed) and kernels alike.",
  I, "all pairs of same-shaped matrices, sorted or not, with or without duplicates, any overlap of patterns",
  "Only one coordinate addition and one CSR addition of a matrix with its transpose are tested; subtraction, CSC, and all other kernels never run.",
  ["src/row.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/csc/csc.rs", "src/coo/std_ops.rs"],
  [("csr_binop_csr dispatch and its two kernels", "src/row.rs"), ("operator impls", "src/*/std_ops.rs")])
p("C05", "Matrix products are the linear-algebra products",
  "Matrix-vector and matrix-matrix products of CSR and CSC matrices (methods, operators, and the kernels for single and block vectors) accumulate, for every stored entry, its value times the operand element selected by the entry's column into the output selected by the entry's row, each entry exactly once. Products keep operand order and give a result with the left operand's row count and the right operand's column count.",
  I, "all conformable operands, rectangular included, with duplicates and unsorted rows",
  "One 2x3 by 3-vector and one 2x3 by 3x2 product are tested; CSC products and block-vector kernels are untested.",
  ["src/row.rs", "src/col.rs", "src/util.rs", "src/coord.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
  [("csr_matvec(s), csc_matvec(s), coo_matvec, axpy", "src/row.rs, src/col.rs, src/coord.rs, src/util.rs"), ("csr_matmat(_maxnnz), csc_matmat(_maxnnz)", "src/row.rs, src/col.rs")])
p("C06", "Mismatched or out-of-range arguments are rejected, never computed on",
  "Every operation combining two matrices, or a matrix and a vector, rejects operands whose shapes do not conform (an error from methods that return a result, a panic from operators) before computing anything. Selecting with a row or column index outside the matrix is an error, as are setting a dictionary entry outside its shape, analysing a non-square graph, and starting a graph traversal at a node that does not exist.",
  I, "all shape combinations and all index arguments, including equal row counts with differing column counts",
  "No test passes a mismatched shape or an out-of-range index anywhere.",
  ["src/coo/coo.rs", "src/coo/std_ops.rs", "src/csr/csr.rs", "src/csr/std_ops.rs", "src/csc/csc.rs", "src/csc/std_ops.rs", "src/dok/dok.rs", "src/graph.rs"],
  [("dimension comparisons at the head of each operation", "src/*/"), ("range loops in select, bounds checks in set", "src/csr/csr.rs, src/csc/csc.rs, src/dok/dok.rs")])
p("C07", "Selection and slicing pick exactly the requested rows and columns",
  "Selecting rows and columns (by lists in any order, by a rectangular window, by row list, by strided row range, or by column list) from a matrix without duplicates yields a matrix whose entry at (r, c) is the original entry at the r-th requested row and c-th requested column; omitting a list selects everything. Nothing is lost, duplicated or shifted, and the result has as many rows and columns as requested.",
  I, "all canonical matrices and all index lists (repeats and any order), windows, strides",
  "One 3x3 selection from a square matrix is tested; CSC selection and the slicing kernels are untested.",
  ["src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs"],
  [("csr_select, get_csr_submatrix, csr_row_index, csr_row_slice, csr_column_index1/2", "src/row.rs"), ("select", "src/csr/csr.rs, src/csc/csc.rs")])
p("C08", "Stacking and block assembly place every block at its offset",
  "Vertical stacking keeps the first operand in place and moves each later operand down by the total row count of those before it; horizontal stacking moves it right by their total column count; block assembly does both. The result's dimensions are the corresponding sums and it contains each operand's entries exactly once with unchanged values.",
  I, "all conformable blocks, including non-square blocks of different sizes",
  "The two stacking tests stack equal square matrices, for which row and column offsets coincide; three-way stacking and assembly are untested.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs"],
  [("v_stack, h_stack, v_stack3, h_stack3, compose, compose3", "src/coo/coo.rs"), ("CSR::h_stack, CSC::compose", "src/csr/csr.rs, src/csc/csc.rs")])
p("C09", "Operations that promise no explicit zeros store none",
  "Results of element-wise binary operations and of matrix products, matrices built from dense data, and matrices after zero elimination contain no stored zero, while every non-zero result is stored. A dictionary matrix never holds a zero entry.",
  I, "all operands, including ones whose sums cancel exactly",
  "No test produces a cancellation or looks for explicit zeros.",
  ["src/row.rs", "src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/dok/dok.rs", "src/traits.rs"],
  [("nonzero guards before each store", "src/row.rs"), ("v != zero guards", "src/*/from_dense, src/dok/dok.rs"), ("Nonzero::nonzero", "src/traits.rs")])
p("C10", "A dictionary matrix behaves as a map from position to value",
  "Reading a position of a dictionary matrix gives the value last set there and zero if none; setting zero removes the entry; adding and subtracting update the value already there; each touches only its own position. The entry count is the number of non-zero positions, and only setting can change the content.",
  ["inputs", "histories"], "all sequences of set/add/sub/get on in-range positions",
  "The dictionary format has no tests at all.",
  ["src/dok/dok.rs"],
  [("set / get / add / sub, Deref to a shared map", "src/dok/dok.rs")])
p("C11", "Storage arrays stay consistent and callers cannot break them",
  "Constructing a matrix from arrays fails unless the arrays' lengths fit each other and the shape (coordinate arrays of equal length; a pointer array of one more than the number of rows or columns, and index and value arrays at least as long as its last pointer); extending a coordinate matrix keeps its three arrays in step, refusing unequal lengths. No public operation hands out mutable access to index or pointer arrays, so only the values of a built matrix can be changed in place, and the reported entry count and shape are those of the stored arrays.",
  ["inputs", "histories"], "all constructor arguments and all sequences of public calls",
  "Tests construct valid matrices only; encapsulation is a property of the whole API surface, not of a call.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/dok/dok.rs"],
  [("length checks in new", "src/coo/coo.rs, src/csr/csr.rs, src/csc/csc.rs"), ("private or crate-private fields; values_mut only", "src/*/")])
p("C12", "Complex views act value by value on an unchanged structure",
  "Conjugation, real part, imaginary part and embedding of real data as real or imaginary part apply that function to every stored value and leave shape and coordinates unchanged. The conjugate transpose is the conjugate of the transpose.",
  I, "all complex matrices in all three formats",
  "The only complex test constructs a matrix with zero imaginary parts; none of these operations runs.",
  ["src/coo/ccoo.rs", "src/csr/ccsr.rs", "src/csc/ccsc.rs", "src/traits.rs"],
  [("CCoo, CCSR, CCSC impls", "src/coo/ccoo.rs, src/csr/ccsr.rs, src/csc/ccsc.rs"), ("Complex impls", "src/traits.rs")])
p("C13", "Depth-first traversal visits each reachable node once, along graph edges",
  "A depth-first ordering starts with the start node, lists every node at most once, and each listed node other than the start has as predecessor an already listed node joined to it by an edge (in that direction for directed traversal, in either direction otherwise); nodes not listed and the start node have no predecessor. Traversal does not leave a node while it has an unvisited neighbour.",
  I, "all square graphs, all start nodes, directed and undirected",
  "One 4-node directed example is tested; the undirected variant never runs.",
  ["src/graph.rs"],
  [("depth_first_order and its directed / undirected workers", "src/graph.rs")])
p("C14", "Connected-component labelling follows edges in both directions",
  "Weak or undirected component analysis labels every node, gives adjacent nodes the same label whichever way the edge points, starts a new label only at a node not reached from earlier ones, and returns the number of labels used. Strong analysis is used exactly when the graph is directed and strong connection is requested; analysing a symmetric graph through the matrix method numbers components from zero, marks isolated nodes negative, and succeeds also when there are no edges.",
  I, "all square graphs, all connection modes",
  "Five small graphs are tested; none is edgeless or empty.",
  ["src/graph.rs", "src/csr/csr.rs"],
  [("connected_components dispatch, undirected worker, cs_graph_components", "src/graph.rs"), ("CSR::connected_components", "src/csr/csr.rs")])
p("C15", "Eigenvalue sessions are exclusive and stay within their buffers",
  "A sparse eigenvalue computation holds one process-wide lock from its first to its last call into the native solver, so that concurrent computations never interleave inside it. Every buffer handed to the solver is at least as long as the size and leading dimension passed along with it require, and every solver request for a matrix-vector product, including the initial one, is answered.",
  ["schedules", "inputs"], "all matrix sizes and requested counts, all thread interleavings",
  "The feature has no test; interleavings and out-of-bounds writes in native code are not observable by a passing test.",
  ["src/eigen/real.rs"],
  [("MUTEX guard, buffer allocations, reverse-communication loop", "src/eigen/real.rs")])
p("C16", "Diagonals, element lookup and upper triangle agree with the matrix",
  "The diagonal of a matrix in any format, the k-th diagonal from the kernels, single-element lookup, and the upper triangular part (k-th superdiagonal and above) agree with the matrix they are taken from: each reported value is the sum of the entries stored at that position, zero if there are none, and the upper part keeps exactly the entries with column at least row plus k.",
  I, "all matrices in all formats, rectangular, with duplicates, all k",
  "Diagonals of one square matrix are tested; lookup, upper part, offsets, CSC and duplicates are not.",
  ["src/row.rs", "src/col.rs", "src/coo/coo.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/dok/dok.rs"],
  [("csr_diagonal, csc_diagonal", "src/row.rs, src/col.rs"), ("diagonal, get, upper", "src/*/")])
p("C17", "Degenerate shapes and empty rows never underflow or panic",
  "Empty matrices, matrices whose leading rows are empty, zero-sized graphs and entries below the diagonal are handled like any other input: no unsigned index arithmetic goes below zero, no element of an empty input is read and no such call panics or loops forever.",
  I, "all shapes including 0xN, Nx0, 0x0 and matrices with empty first rows, for unsigned index types",
  "No test uses an empty shape or an empty first row with the predicates involved.",
  ["src/row.rs", "src/csr/csr.rs", "src/csc/csc.rs", "src/graph.rs", "src/eigen/real.rs"],
  [("loop bounds and subtractions in the kernels", "src/row.rs, src/graph.rs"), ("from_dense", "src/csr/csr.rs, src/csc/csc.rs")])
p("C18", "Scaling and negation change values only, each by its own factor",
  "Multiplying a matrix by a scalar from either side and negating it apply exactly that operation to every stored value and leave shape and coordinates unchanged; row and column scaling multiply each entry by the factor of its own row, respectively column, exactly once.",
  I, "all matrices in all formats, owned and borrowed operands",
  "No test scales or negates a matrix.",
  ["src/row.rs", "src/coo/std_ops.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
  [("Neg and scalar Mul impls", "src/*/std_ops.rs"), ("csr_scale_rows, csr_scale_columns", "src/row.rs")])
p("C19", "Results depend only on arguments",
  "Apart from the eigenvalue module's lock and native solver state, every public operation is a function of its arguments: none reads or writes process-wide mutable state, time, randomness, environment, files or threads, and the unspecified iteration order of hash tables reaches no result except the listing order of a dictionary matrix's own triplets and text. Operations taking a shared matrix leave it unchanged.",
  ["inputs", "histories", "schedules"], "all call sequences and all hash seeds",
  "A test run sees one history and one hash seed.",
  ["src/"],
  [("absence of interior mutability, statics and unsafe code outside the eigenvalue module", "src/"), ("hash tables used for lookup only", "src/row.rs, src/csr/table.rs, src/dok/dok.rs")])
p("C20", "Entry counts never wrap silently in a narrow index type",
  "When a count or offset computed for a result does not fit the matrix's index type, the operation fails loudly (panic or error) rather than storing a wrapped pointer or index; this holds in release builds too, where integer arithmetic wraps.",
  ["inputs", "configurations"], "all index types (8-bit to 128-bit) and all result sizes, debug and release builds",
  "All tests use 64-bit indices in debug builds.",
  ["src/row.rs", "src/coord.rs"],
  [("counts kept in usize and converted with checked casts", "src/row.rs")])
p("C21", "Text renderings show each stored entry once at its coordinates",
  "The text listing of a matrix in any format has one line per stored entry giving row, then column, then value of that entry; the tabular rendering shows, row by row and column by column, the stored value or a dash where nothing is stored. Complex values print their sign exactly once.",
  I, "all matrices in all formats",
  "Renderings are printed by a doc-test but never compared.",
  ["src/coo/coo.rs", "src/csr/csr.rs", "src/csr/table.rs", "src/csc/csc.rs", "src/dok/dok.rs", "src/traits.rs"],
  [("to_string, to_table, csr_table, pretty_string", "src/*/, src/traits.rs")])
p("C22", "Strongly connected components are exactly the equivalence classes",
  "Strong connection analysis of a directed graph gives two nodes the same label exactly when each is reachable from the other along edges in their direction, labels every node, and returns the number of labels used; self-loops, repeated edges and the order of a row's entries make no difference to which nodes share a label.",
  I, "all directed square graphs", "Two small graphs are tested.",
  ["src/graph.rs"], [("iterative Pearce/Tarjan with shared stacks", "src/graph.rs")])
p("C23", "Eigenpairs are unpacked as the solver stores them; solver failure is an error",
  "The eigenvalues returned are exactly the converged ones the native solver reports, each with its imaginary part and in the solver's order, and row i of the returned vectors is the vector the solver's packed storage holds for eigenvalue i: a real eigenvalue's vector has zero imaginary part, a complex pair shares its two columns with opposite signs of the imaginary part. The solver is asked for the eigenvalues of largest magnitude. A negative status from the solver's iteration phase, or any status but success from its extraction phase, is an error, never a result.",
  I, "all matrices, requested counts, and conjugate-pair patterns the solver may report",
  "The feature has no test.",
  ["src/eigen/real.rs"], [("status checks and unpacking after dneupd", "src/eigen/real.rs")])
p("N01", "Eigenpairs returned by the eigen-solver satisfy A v = lambda v",
  "For a convergent computation, every returned eigenvalue and eigenvector pair satisfies the eigen-equation to solver tolerance.",
  I, "all square matrices for which the solver converges", "No test calls the solver.",
  ["src/eigen/real.rs"], [("ARPACK calls and unpacking", "src/eigen/real.rs")])
p("N03", "Floating-point results match a reference to rounding error",
  "Sums and products of floating-point matrices differ from the exactly rounded dense result by no more than the usual accumulation bound.",
  I, "all floating-point inputs, including NaN and infinities", "Tests use small integers stored as floats.",
  ["src/row.rs", "src/col.rs"], [("accumulation order in kernels", "src/row.rs")])
p("N04", "Kernels run in the documented time and memory",
  "Each kernel runs within its documented complexity, linear in entries plus dimensions for conversions and products with vectors.",
  I, "all inputs", "No benchmark or bound is asserted.",
  ["src/row.rs", "src/col.rs", "src/coord.rs"], [("loop structure", "src/row.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
