# Source of properties.jsonl (tools/gen.py writes it, and MANIFEST.json).
SPEC = []
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['hook_needed'] = None
    SPEC.append(d)

P('C01', 'Sparse products with vectors and dense matrices are the mathematical ones',
  "For every sparse matrix (any shape including zero rows or columns, any sparsity pattern, any storage order within a row, stored zeros included) the product with a vector or with a dense matrix, plain, transposed, or with the result transposed, has exactly the entries the mathematical product has. This holds for every way of calling it (returned value, caller's view, resized output vector or matrix, generic operator interface, x^T A y, integer or real entries), whatever the output held before. The matrix and the inputs are left unchanged, and nothing outside the output is written.",
  ['inputs', 'histories'], "all shapes x sparsity patterns x storage orders x values x overloads, and all sequences of products interleaved with changes of the matrix",
  "test_sparse multiplies a handful of fixed square matrices and mostly prints the result; rectangular, empty and unsorted matrices, prefilled outputs and the overload matrix are not reached.",
  ['include/sparsematrix.hpp', 'include/operator.hpp', 'src/operator.cpp'],
  [('sparse matrix-vector and matrix-dense kernels', 'include/sparsematrix.hpp SparseMatrix::Mult/MultAT/MultCT'), ('resizing and returning overloads', 'src/operator.cpp Operator::Mult/MultAT/InnerProduct')])

P('C02', 'Sparse-sparse products and transposes are exact and structurally valid',
  "The product of two conforming sparse matrices and the transpose of a sparse matrix represent exactly the mathematical result, as a valid compressed-row matrix (row pointer covering all entries, column indices in range, no position stored twice) of the right shape and entry type. The product with a caller-supplied workspace gives the same result whatever the workspace's size and contents, and however often it is reused for different shapes. Transposing twice gives back the original entries, and (AB)^T equals B^T A^T.",
  ['inputs', 'histories'], "all pairs of sparsity patterns, shapes and storage orders; all sequences of products sharing one workspace",
  "test_sparse computes a few fixed products of one 3x3 matrix; stale workspaces, rectangular chains, empty rows/columns and mixed entry types are never combined.",
  ['include/sparsematrix.hpp'],
  [('two-pass row merge with a column marker', 'include/sparsematrix.hpp SparseMatrix::Mult(const SparseMatrix<U>&, std::vector<int>&)'), ('counting-sort transpose', 'include/sparsematrix.hpp SparseMatrix::Transpose/TransposeDense')])

P('C03', 'In-place sparse edits do exactly what they say after any history of edits',
  "After any sequence of in-place edits (sorting a row's indices, scaling rows or columns and its inverse, scaling or dividing by a scalar, setting all stored entries, permuting columns, eliminating rows, columns or both, adding to stored diagonal entries, dropping entries at or below a tolerance) and submatrix extractions, a sparse matrix holds exactly the entries that applying the same edits to a table of numbers gives, and remains a valid compressed-row matrix. Entries an edit does not address keep their value and stay stored. The diagonal, sums, norms, row queries and dense conversion read off the same entries, and an extraction workspace is left reusable.",
  ['inputs', 'histories'], "all initial patterns and storage orders x all operation sequences up to a depth",
  "tests apply one edit to one fixed matrix and print it; unsorted rows, marked subsets, zeros, tolerance boundaries and sequences of edits are unreachable by samples.",
  ['include/sparsematrix.hpp'],
  [('edit operations on the three CSR arrays', 'include/sparsematrix.hpp SortIndices..EliminateZeros'), ('submatrix extraction with a column marker', 'include/sparsematrix.hpp GetSubMatrix')],
  state=[('indptr/indices/data', 'compressed rows', 'include/sparsematrix.hpp')])

P('C04', 'Assembled triplets and lists equal the sum of their contributions',
  "A matrix assembled entry by entry, by blocks, symmetrically or transposed, into the coordinate or the list-of-rows format, with duplicates in any order, converts to a compressed-row or dense matrix, and multiplies a vector plainly or transposed, as the matrix whose entries are the sums of all contributions so far. This stays true when sizes are declared up front, changed later, or left to be determined from the largest index, when indices are permuted, when entries at or below a tolerance are dropped, and when adding continues after a conversion or copy. The resulting compressed-row matrix is valid and has no duplicate position.",
  ['inputs', 'histories'], "all sequences of insertions (positions, values, block shapes, overloads), size changes, permutations, eliminations, conversions and copies up to a depth",
  "test_coo and test_lil insert one fixed list of entries; undeclared sizes, rectangular transposed products, conversions followed by more insertions and duplicate orders are not covered.",
  ['include/coomatrix.hpp', 'include/lilmatrix.hpp'],
  [('lazy duplicate merging in sorted order', 'include/coomatrix.hpp ToSparse, include/lilmatrix.hpp ToSparse'), ('block insertion', 'CooMatrix::Add/AddSym, LilMatrix::Add'), ('size determination', 'CooMatrix/LilMatrix FindSize')])

P('C05', 'Dense arithmetic and all four transposed products are exact',
  "For dense matrices of every conforming shape, including zero rows or columns, the products AB, A^T B, A B^T, A^T B^T, the matrix-vector products Ax and A^T x, sums, differences, scalar scaling and division, row/column scaling, traces and reductions have exactly the mathematical entries. Every calling form (returned value, output argument of any previous shape and content, operator, compound assignment) agrees, and the operands are unchanged. Equality of matrices holds exactly when shapes agree and entries are equal up to the documented tolerance.",
  ['inputs', 'histories'], "all shape triples (including 0 and rectangular), all value combinations of an alphabet, all overloads, sequences reusing one output",
  "test_dense uses a few fixed square-ish sizes; degenerate shapes, reused outputs of another shape, and most transposed combinations on rectangular inputs are not reached.",
  ['include/densematrix.hpp', 'src/densematrix.cpp'],
  [('BLAS calls with leading dimensions', 'src/densematrix.cpp dgemm/Mult*'), ('entrywise operators', 'include/densematrix.hpp')])

P('C06', 'Dense element, row, column and block access touches exactly what is addressed',
  "Reading or writing a dense matrix through elements, rows, columns, contiguous row/column ranges, submatrices (contiguous or by index list), views of columns, transposes, copies to and from flat arrays, horizontal or vertical stacking, and resizing moves exactly the addressed entries and leaves every other entry as it was. The result shapes are the requested ones, any previous content of an output is irrelevant, and accumulating into a submatrix adds precisely the given entries.",
  ['inputs', 'histories'], "all shapes x all ranges/index lists x all access operations, and sequences of them on one matrix",
  "test_dense reads a few fixed rows and blocks of one matrix; offsets, empty ranges, non-square blocks and sequences are not enumerated.",
  ['include/densematrix.hpp', 'src/densematrix.cpp'],
  [('column-major indexing and block copies', 'include/densematrix.hpp GetRow/GetCol/SetRow/SetCol/GetSubMatrix/SetSubMatrix/AddSubMatrix, src/densematrix.cpp')])

P('C07', 'SVD, QR and inversion satisfy their defining equations for every shape',
  "For every dense matrix, square, tall or wide, rank-deficient or full rank, the singular values returned are those of the matrix in non-increasing order and the returned vectors are orthonormal; the orthogonalisation returns orthonormal columns spanning the column space of a full-column-rank input, with at most min(rows, columns) columns. For every nonsingular matrix the inverse multiplied by the matrix is the identity up to rounding. The outcome does not depend on earlier decompositions.",
  ['inputs', 'histories'], "all small shapes with all entry combinations of an alphabet, structured families, repeated calls",
  "test_dense decomposes one or two fixed matrices and prints the factors; wide, rank-deficient, negative and permuted inputs are not checked.",
  ['src/densematrix.cpp', 'include/densematrix.hpp'],
  [('LAPACK dgesvd/dgeqp3/dorgqr/dgetrf/dgetri calls with workspaces', 'src/densematrix.cpp SVD/QR/Invert')])

P('C08', 'Symmetric eigensolver returns true, ordered eigenpairs, as many as requested',
  "For every symmetric dense matrix the eigensolver returns eigenvalues in ascending order with unit, mutually orthogonal eigenvectors that satisfy A v = lambda v up to rounding. The number returned is what the relative tolerance and the maximum count allow (at least one, never more than the dimension), being always the smallest ones. One solver object reused for matrices of any sequence of sizes gives the results a fresh one gives, and the input matrix is not changed.",
  ['inputs', 'histories'], "all small symmetric matrices over an alphabet x (tolerance, maximum count) grid, all sequences of sizes on one solver",
  "test_eigensolve solves one fixed matrix with fixed limits.",
  ['src/eigensolver.cpp', 'include/eigensolver.hpp'],
  [('tridiagonal reduction, Sturm count and inverse iteration with retained workspaces', 'src/eigensolver.cpp EigenSolver::Solve/Compute')])

P('C09', 'Vector arithmetic, reductions and comparisons are exact entrywise',
  "Entrywise and scaled additions, subtractions, products, quotients and assignments, linear combinations of several vectors, inner products, norms, sums, means, extrema, normalisation, mean removal and index gathers on vectors and vector views give exactly the values their definitions give for every length including zero (where defined). The target's previous contents are irrelevant wherever the definition does not read them, including not-a-number. Comparison is true exactly when lengths agree and entries differ by no more than the tolerance.",
  ['inputs', 'histories'], "all lengths up to a bound x all value combinations x all operations and operation sequences, on owning vectors, views into them and integer/real mixes",
  "test_vector exercises each operator on one fixed vector of size 10 and prints.",
  ['include/vectorview.hpp', 'include/vector.hpp', 'src/vectorview.cpp'],
  [('templated entrywise operators and reductions', 'include/vectorview.hpp')])

P('C10', 'Copies are independent, moves and swaps preserve values, views alias',
  "Copying any vector, matrix (sparse, dense, coordinate, list, block) or block vector yields an object equal to the source and sharing nothing with it: later changes to either never show in the other. Moving, move-assigning, swapping, self-assigning and returning from functions transfer the value unchanged and leave objects that can be assigned and destroyed safely. A view always reads and writes the storage it was made from, and assigning to a view copies entries without rebinding it.",
  ['histories'], "all sequences up to a depth of construct/copy/move/assign/swap/resize/mutate/destroy over a pool of objects of each type",
  "tests perform one copy or swap per type in a fixed order; sequences mixing moves, self-assignment, reuse of moved-from objects and views are not explored.",
  ['include/vector.hpp', 'include/vectorview.hpp', 'include/sparsematrix.hpp', 'include/densematrix.hpp', 'include/coomatrix.hpp', 'include/lilmatrix.hpp', 'include/blockmatrix.hpp', 'include/blockvector.hpp', 'src/densematrix.cpp'],
  [('copy/move constructors, by-value assignment and friend swaps', 'all container headers')])

P('C11', 'A block matrix behaves as the single matrix its blocks form',
  "A matrix assembled from sparse blocks on given row and column offsets, with any subset of blocks set, in any order and replaced at will, multiplies vectors (plainly and transposed), converts to one sparse matrix, and transposes as the single matrix obtained by placing each block at its offsets, unset blocks being zero. Shape and block queries agree with the offsets. The blocks given are not modified.",
  ['inputs', 'histories'], "all offset partitions with 1..3 block rows/columns (including empty blocks) x all subsets of set blocks x all operations and replacement sequences",
  "test_blockmatrix sets the same small square block everywhere on a 2x2 grid.",
  ['include/blockmatrix.hpp'],
  [('per-block loops over offset windows', 'include/blockmatrix.hpp Mult/MultAT/Combine/Transpose')])

P('C12', 'Block operators and block vectors act on the right windows',
  "An operator composed of other operators on row and column offsets computes, for every vector, exactly what the monolithic matrix with those blocks computes, plainly and transposed, whatever kinds of operators are mixed, whichever blocks are unset, and however often it is applied. A block vector's blocks are windows onto its one storage delimited by the offsets, so that writes through either are seen through the other, also after copies and assignments.",
  ['inputs', 'histories'], "all offset partitions x subsets of set blocks x operator kinds x application sequences",
  "test_blockoperator and test_blockvector use one 2x2 layout with identical square blocks.",
  ['include/blockoperator.hpp', 'src/blockoperator.cpp', 'include/blockvector.hpp'],
  [('temporary per-row buffers and windows', 'src/blockoperator.cpp Mult/MultAT'), ('offset windows', 'include/blockvector.hpp GetBlock')])

P('C13', 'Conjugate gradient solves every SPD system within its limits',
  "For every symmetric positive definite operator, right-hand side and starting guess, the conjugate gradient solver, with or without an SPD preconditioner, returns a solution whose residual, measured with the preconditioner, satisfies the requested relative or absolute tolerance whenever enough iterations are allowed (in exact arithmetic the dimension suffices), including zero right-hand sides and exact initial guesses, never producing not-a-number. It performs at most the allowed number of iterations, reports the number it performed, and with fewer iterations returns the iterate of that step. One solver object applied repeatedly gives the results a fresh one gives.",
  ['inputs', 'histories', 'configurations'], "all small SPD matrices over an alphabet x right-hand sides x starting guesses x iteration/tolerance limits x preconditioners x call sequences",
  "test_solvers solves one 5x5 system from one start with generous limits.",
  ['src/solvers.cpp', 'include/solvers.hpp'],
  [('PCG recurrence with stopping tests', 'src/solvers.cpp PCGSolver::Mult')])

P('C14', 'MINRES solves every symmetric nonsingular system, definite or not',
  "For every symmetric nonsingular operator (definite or indefinite), right-hand side and starting guess, the minimum residual solver, with or without an SPD preconditioner, returns a solution whose residual, measured with the preconditioner, satisfies the requested tolerance whenever enough iterations are allowed, including zero right-hand sides and exact initial guesses, never producing not-a-number. It performs and reports at most the allowed number of iterations, the residual is the smallest that many steps allow, and it never grows with more iterations. One solver object applied repeatedly gives the results a fresh one gives.",
  ['inputs', 'histories', 'configurations'], "all small symmetric nonsingular matrices over an alphabet x right-hand sides x starting guesses x limits x preconditioners x call sequences",
  "test_solvers solves one fixed system from one start with generous limits.",
  ['src/solvers.cpp', 'include/solvers.hpp'],
  [('Lanczos/Givens recurrence', 'src/solvers.cpp MINRESSolver::Mult, PMINRESSolver::Mult')])

P('C15', 'Solver objects keep their own settings through copies, moves and setters',
  "A solver object solves with the operator, preconditioner, iteration limit, tolerances and verbosity it was last given, through any sequence of construction, copying, assignment, moving, swapping, changing settings or operator and solving; copies are independent of their source. The iteration count it reports is that of its own last solve. Using one solver as preconditioner or operator of another gives the same result as the equivalent matrix.",
  ['histories', 'configurations'], "all sequences up to a depth of construct/copy/assign/move/set/solve over a pool of solvers of each kind",
  "test_solvers constructs each solver once and applies it once.",
  ['include/solvers.hpp', 'src/solvers.cpp'],
  [('solver base class and swap functions', 'include/solvers.hpp, src/solvers.cpp')])

P('C16', 'Text files round-trip every object they can express',
  "Writing a vector, table, coordinate list, adjacency list or sparse matrix as text and reading it back gives the same object: same shape (as far as the format records it), same positions, and values equal to at least the 16 significant digits the writers promise. This holds for integers and finite reals, empty rows, negative and tiny values, and symmetric storage where requested, and what is written is the documented format, readable by any other reader of it.",
  ['inputs'], "all small objects over an alphabet of values and shapes, for every writer/reader pair and option",
  "test_parser reads a few files shipped with the tests and writes one or two objects without comparing all formats.",
  ['include/parser.hpp'],
  [('stream-based readers and writers', 'include/parser.hpp')])

P('C17', 'Binary files round-trip bit-exactly and damaged files are rejected',
  "Writing a vector or sparse matrix in the binary format and reading it back reproduces it bit for bit, for every shape and value including empty ones. A file cut short at any byte is reported as an error instead of yielding data that was never written.",
  ['inputs', 'crash_points'], "all small objects; every truncation point of every file",
  "test_parser round-trips one matrix and never reads a damaged file.",
  ['include/parser.hpp'],
  [('raw block reads and writes', 'include/parser.hpp ReadBinaryMat/WriteBinaryMat/ReadBinaryVect/WriteBinaryVect')])

P('C18', 'A write that the storage refuses is reported, never silently lost',
  "If the storage accepts only part of the data (device full or file size limit reached at any byte, file not creatable), every writing function reports the failure to its caller; it never returns as if the file were complete. When it returns normally, reading the file back gives the whole object.",
  ['fault_sequences', 'crash_points'], "every writer x every object of a family x every byte at which the storage starts refusing data",
  "no test injects a write failure.",
  ['include/parser.hpp'],
  [('stream state checks after writing', 'include/parser.hpp Write*')])

P('C19', 'Readers interpret every well-formed file as its format says',
  "For every well-formed text file of a supported format (vectors, tables, coordinate lists with or without symmetric expansion, Matrix Market with its general, symmetric and skew-symmetric headers and comments, adjacency lists, graph edge lists), whatever the entry order, blank lines, trailing newline or whitespace, the reader returns exactly the object the file describes. A missing file is reported as an error by every reader.",
  ['inputs'], "all files generated from a grammar of small objects x layouts x options",
  "test_parser reads one shipped example per format.",
  ['include/parser.hpp'],
  [('line-based readers', 'include/parser.hpp ReadText/ReadTable/ReadCooList/ReadMTX/ReadAdjList/ReadGraphList')])

P('C20', 'Command lines set exactly the registered options they name',
  "For every command line of options and values, each registered option named on it receives the whole value that follows it (or, for a switch, is toggled), every other option keeps its default, and options nobody registers disturb nothing. The parse is reported good exactly when no option is given or registered twice, lacks a value or has one that is not of its type, no argument stands without an option and no help is requested; the errors shown name every offender. Help and option listings show every registered option once, with its description and current value.",
  ['inputs', 'configurations'], "all argument vectors up to a length over an alphabet of option names, values, flags, repeated, unknown and help arguments x option registrations",
  "test_argparser parses one fixed command line.",
  ['src/argparser.cpp', 'include/argparser.hpp'],
  [('option table and incremental parsing', 'include/argparser.hpp Parse, src/argparser.cpp')])

P('C21', 'Graph partitions are valid labelings of every vertex',
  "Partitioning any undirected graph (connected or not, with isolated vertices, any or no diagonal, weighted or not) into k parts gives every vertex exactly one label; the labels used are exactly 0..m-1 with m at most k, and they group the vertices as the underlying partitioner did, whatever it answers. That partitioner is given exactly the graph's off-diagonal entries (their absolute values when weighted) with the part count, imbalance and contiguity requested or documented as default. The graph is unchanged and the same call gives the same answer, whatever was called before.",
  ['inputs', 'configurations'], "all graphs up to a small number of vertices x all part counts x option combinations",
  "test_partition partitions one fixed graph and prints the labels.",
  ['modules/partition/include/partition.hpp'],
  [('METIS call with post-processing of labels', 'modules/partition/include/partition.hpp Partition/MakeAdjacencyInfo/RemoveEmpty')])

P('C22', 'Label compaction preserves groups and order',
  "Removing empty labels from any vector of labels renumbers it so that exactly the labels 0..m-1 occur, two positions get equal labels exactly when they had equal labels before, and the order of labels is preserved; the vector's length is unchanged and compacting again changes nothing. The largest label plus one equals the number of distinct groups afterwards.",
  ['inputs'], "all label vectors up to a length over an alphabet including gaps",
  "test_partition never inspects compaction results.",
  ['modules/partition/include/partition.hpp'],
  [('two-pass compaction', 'modules/partition/include/partition.hpp RemoveEmpty')])

P('C23', 'Direct sparse solver solves every nonsingular system through its life cycle',
  "For every nonsingular square sparse matrix the direct solver returns the solution of Ax=b, and of the transposed system when asked, for every right-hand side and through every call form, up to rounding, leaving the matrix given and the right-hand side unchanged. This holds after any sequence of copying, moving, assigning, swapping and destroying solver objects, each solving with the matrix it was built from. Factorisations are released exactly once.",
  ['inputs', 'histories'], "all nonsingular small matrices over an alphabet x storage orders x right-hand sides; all life-cycle sequences up to a depth",
  "test_sparsesolver solves two fixed systems with freshly built solvers.",
  ['modules/sparsesolver/src/sparsesolve.cpp', 'modules/sparsesolver/include/sparsesolve.hpp'],
  [('UMFPACK factor ownership', 'modules/sparsesolver/src/sparsesolve.cpp')])

P('C24', 'Timers report the clicked intervals',
  "For every sequence of clicks at arbitrary times, the interval reported for each step is the difference of the clock readings at its two clicks, and the total is the difference between the last and the first (zero with fewer than two). Timers are independent of each other and of how often they are queried, and a timer started at construction has its first click there.",
  ['histories', 'schedules'], "all sequences of click and query operations up to a depth x all clock readings between them, through a controlled clock",
  "test_timer clicks in real time and can only print durations.",
  ['src/timer.cpp', 'include/timer.hpp'],
  [('list of clock readings', 'src/timer.cpp')])

P('C25', 'Seeded random fills are reproducible and in range',
  "Filling a vector or vector view with random values from a non-negative seed gives the same values every time, whatever was generated before and whatever the target held; a longer fill begins with the shorter one's values, and different positive seeds give different real fills. With or without a seed, every entry is assigned a value within the requested bounds and nothing outside the vector is written; integer fills reach both bounds.",
  ['inputs', 'histories'], "all sizes up to a bound x seeds x ranges x call histories, for integer and real targets and the method and free-function forms",
  "tests only print random vectors.",
  ['src/vectorview.cpp', 'include/vectorview.hpp'],
  [('per-call engine seeded from the argument', 'src/vectorview.cpp Randomize')])

P('C26', 'Debug builds stop calls whose indices or sizes do not fit',
  "In a debug build every element, row, column, block or range access with an index outside the object, and every operation on operands whose sizes do not conform, is stopped by an assertion or exception before any memory outside the objects is read or written. Calls that are within bounds are never stopped.",
  ['inputs'], "all operations of all container types x all small shapes x all index/size arguments in and just outside the valid range, negative values included",
  "the tests only make valid calls.",
  ['include/vectorview.hpp', 'include/sparsematrix.hpp', 'include/densematrix.hpp', 'include/blockmatrix.hpp', 'include/blockvector.hpp', 'include/blockoperator.hpp', 'include/coomatrix.hpp', 'include/lilmatrix.hpp', 'src/densematrix.cpp', 'src/blockoperator.cpp'],
  [('precondition assertions', 'every public operation')])

P('C27', 'Distributed matrix operations equal their serial counterparts',
  "Distributed matrices and vectors give, for every distribution over processes and in every order in which messages arrive, what the serial operations on the gathered objects give: products with vectors and matrices, transposes, triple products, sums and differences, splits, scaling, norms and reductions, conjugate gradients, diagonal scaling and Jacobi smoothing, also on copied, moved and swapped objects. All processes return, none waits forever, and every piece of the result has the right starts, shape and column map.",
  ['inputs', 'schedules', 'histories'], "all distributions of all small matrices over one to three processes (structured ones over up to eight), all histories of two matrices up to a depth, all orders in which two processes run, three processes within a number of deviations",
  "the distributed module's tests need MPI and hypre and are not run here at all.",
  ['modules/parlinalgcpp/src/parmatrix.cpp', 'modules/parlinalgcpp/src/hypre_ops.cpp', 'modules/parlinalgcpp/src/parutilities.cpp', 'modules/parlinalgcpp/src/parvector.cpp', 'modules/parlinalgcpp/src/paroperator.cpp', 'modules/parlinalgcpp/src/parsolvers.cpp', 'modules/parlinalgcpp/src/parsmoother.cpp', 'modules/parlinalgcpp/src/parcommpkg.cpp'],
  [('hypre ParCSR wrappers', 'modules/parlinalgcpp/src/*.cpp'), ('matched collective calls', 'GenerateOffsets, ParSplit, ParMatrix::Mult, ParMatrix::Transpose')])

P('C28', 'Threads that do not write to common objects never interfere',
  "Threads using different objects, or the same vectors and matrices (sparse, dense, coordinate, list, block) only for reading and multiplying, never interfere: under every interleaving each thread gets the results it gets alone. This covers queries, products, conversions, decompositions, solvers, partitioning, printing, and files of their own. No operation keeps hidden state shared between threads.",
  ['schedules'], "all interleavings of two threads, for every pair of operations on their own or on shared objects",
  "every test runs one thread.",
  ['src/vectorview.cpp', 'src/densematrix.cpp', 'src/sparsematrix.cpp', 'include/sparsematrix.hpp', 'include/coomatrix.hpp', 'include/blockmatrix.hpp', 'modules/partition/include/partition.hpp'],
  [('no shared state behind const operations', 'every const operation and free function')])

P('C29', 'A file that cannot be read whole is reported, never half read',
  "If the storage fails while a file is being read (at any byte), or a text file has something other than a number where its format has one, ends inside an entry, or holds fewer entries than it declares (CSR, Matrix Market), the reader reports an error; it never returns an object made from the part it could read. However the storage splits the data, the object read is the same.",
  ['inputs', 'crash points'], "all readers x all small files x every byte at which the storage fails, every cut and every malformed entry",
  "the tests read only intact files from storage that never fails.",
  ['include/parser.hpp'],
  [('stream state after reading', 'include/parser.hpp Read*')])

P('C30', 'Every call depends on its arguments alone and leaves nothing behind',
  "The result of an operation, bit for bit, and its effect on its arguments depend only on the arguments' values: not on calls made before on other objects, on sizes used before, on what memory held before, or on how often it was called. Once the objects involved are destroyed, memory in use, open files and process-wide settings (standard stream formats, locale, rounding mode, working directory) are as before, also when the call failed.",
  ['histories', 'inputs'], "all ordered pairs of operations and failing calls x sizes x contents of fresh memory",
  "each test makes its calls once, in one order, in memory that happens to be fresh.",
  ['src', 'include', 'modules/sparsesolver', 'modules/partition'],
  [('work space initialised and owned per call or per object', 'every operation'), ('files closed and blocks freed on every path', 'include/parser.hpp, src/*.cpp'), ('stream formats restored', 'src/argparser.cpp, include/vectorview.hpp')])

P('C31', 'Running out of memory is survived at every allocation',
  "When memory runs out, at whichever allocation of the library, the call throws an exception or still gives its whole result; it never ends the process, crashes or returns a wrong result. Objects it only reads are unchanged, all objects remain usable and destructible, nothing leaks, and the call can be repeated. (Printing and option listings are excepted: streams swallow the failure.)",
  ['crash points'], "all operations and constructions x every allocation they make, refused once or from there on",
  "no test runs out of memory.",
  ['src', 'include', 'modules/sparsesolver', 'modules/partition'],
  [('copies may throw, moves and swaps do not allocate', 'every class'), ('owners for every block', 'src/densematrix.cpp, modules/partition/include/partition.hpp')])

P('C32', 'Release builds keep every guarantee',
  "In an optimised build with assertions compiled out, every guarantee above about valid calls, files and reported failures (C01-C25, C29) holds exactly as in a debug build. Nothing a result or an error report depends on happens only inside an assertion or only without optimisation.",
  ['configurations', 'inputs', 'histories'], "all explorations of the other properties x build configurations (compiler, optimisation, assertions)",
  "the tests are assertions themselves and exist only in debug builds.",
  ['src', 'include', 'modules/sparsesolver', 'modules/partition'],
  [('assertions without effects', 'every assert and linalgcpp_assert')])

P('C33', 'Printing shows exactly the object, readable, where it was asked to',
  "Printing an object writes the label line and then exactly its contents: every stored entry once with row, column and value for sparse, coordinate, list and (block by block) block matrices; every entry, row by row, for dense matrices and vectors; separated so that each number can be read back, in the format the stream (for dense matrices: the arguments) asks for. The text goes only to the stream given (the console by default), and object, stream format and later printing are unaffected.",
  ['inputs', 'histories'], "all small objects x values of all magnitudes in all places x stream formats x call forms",
  "the tests print, but nobody reads what was printed.",
  ['src/densematrix.cpp', 'include/sparsematrix.hpp', 'include/coomatrix.hpp', 'include/lilmatrix.hpp', 'include/blockmatrix.hpp', 'include/vectorview.hpp'],
  [('Print and operator<<', 'every container')])

P('C34', 'Errors raised by user operators reach the caller and leave solvers usable',
  "When an operator, preconditioner or inner product supplied by the user raises an error, at whichever application and at whichever moment of it, the same error reaches the caller of the solver, free function or composite operator, unchanged and through every layer (solver on block operator on operator, solver as preconditioner). Nothing is written outside the output, inputs keep their values, no memory is left behind, and the same objects (and their copies) afterwards give exactly what fresh ones give. An operator without a transpose raises an error when applied transposed, through every layer.",
  ['faults', 'histories'], "every call position of the user's code x every small configuration x every continuation",
  "the tests' operators never fail.",
  ['src/solvers.cpp', 'src/blockoperator.cpp', 'include/operator.hpp', 'src/operator.cpp'],
  [('Mult and MultAT', 'solvers and block operators'), ('CG, PCG, MINRES, PMINRES', 'free functions')])

P('C35', 'Files, command lines and printing do not depend on the global locale',
  "Whatever global C++ locale the program has set (decimal point, grouping of digits, names of true and false), and whenever it switches it: the files written are byte for byte those of the classic locale, every reader reads them (and any other file) as in the classic locale, command line values are accepted, rejected and shown as in the classic locale, and printed objects depend only on the locale of the stream they are printed to. The global locale and that of the stream are left as they were.",
  ['inputs', 'histories'], "all formats x objects x locales while writing, reading, parsing and printing",
  "the tests run in the classic locale only.",
  ['include/parser.hpp', 'include/argparser.hpp', 'src/argparser.cpp', 'src/densematrix.cpp', 'include/blockmatrix.hpp'],
  [('Read* and Write*', 'text formats'), ('ArgParser::Parse', 'values'), ('Print', 'own text buffers')])
