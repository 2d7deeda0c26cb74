PROPS = {
 'C01': dict(src=['harness/c01_sparse_products.cpp'],
   rule='every sparsity pattern of every shape up to 4x4 (4x5 thorough) x row order x every product overload; every cell value from a 6-letter alphabet on shapes up to 2x2; a grid of structured families at sizes around powers of two; every 4-step (5 thorough) history of products and edits on one object; entries scaled to 2^-200, 2^200, one unit in the 27th bit, and mixed magnitudes; products of matrices whose shape has more cells than an int can count. A state is one (matrix contents, storage order, inputs) configuration.',
   assume='values are small dyadic numbers so that sums are exact in any order; no duplicate entries within a row'),
}
PROPS['C02'] = dict(src=['harness/c02_sparse_sparse.cpp'],
   rule='every pair of sparsity patterns of shapes r,k,c in 0..3 with at most 15 cells in total (18 thorough) x storage orders x workspace contents; every transpose up to 12 cells (16); every 2x2 pair over an alphabet with zeros and cancellation in int/double mixes; every 4-step (5) sequence of products sharing one workspace; every 5-step (6) chain; a grid of family pairs at sizes around powers of two; operands of extreme magnitudes; products and transposes of matrices whose shape has more cells than an int can count. A state is one configuration of operands (and of the chain).',
   assume='values are small integers so that sums are exact; no duplicate positions in the operands')
PROPS['C03'] = dict(src=['harness/c03_sparse_edits.cpp'],
   rule='every edit with every parameter on every pattern of every shape up to 3x3 and on every 2x2 matrix over a 5-value alphabet (double and int); every 3-edit history (4 thorough) of 21 edit kinds with reduced parameters from 6 start matrices; every row list (length <= 3, repeats) x every list of distinct columns on 4 matrices with a shared workspace; a grid of families at sizes up to 100 (300); edits of entries of extreme magnitudes; edits of matrices of up to 4100 rows or 9000 columns at positions near the ends and around powers of two; edits of matrices whose shape has more cells than an int can count. A state is one matrix with its stored pattern.',
   assume='small dyadic values; an extraction workspace starts filled with -1 as documented and submatrix columns are distinct; no duplicate positions')
PROPS['C04'] = dict(src=['harness/c04_assembly.cpp'],
   rule='every 3-operation history (4 thorough) over 10-18 operation kinds (every insertion overload, symmetric and block insertion, SetSize, permutation, elimination, conversions, copies) from undeclared, 3x3 and 3x5 sizes, checked after every step or only at the end; every sequence of up to 5 (6) positions in a 2x3 matrix; a grid of families assembled with 0-2 duplicate passes; contributions of extreme and mixed magnitudes; assemblies of matrices of up to 4100 rows or 9000 columns; assemblies of matrices whose shape has more cells than an int can count. A state is the list of contributions.',
   assume='small dyadic values; elimination applies to individual contributions; an elimination that would change an undeclared size is outside the space')
PROPS['C05'] = dict(src=['harness/c05_dense_arith.cpp'],
   rule='all four transposed products for every shape triple 0..3 with every zero/nonzero pattern up to 12 cells (15 thorough), every full shape triple 0..6 (0..8) and a size grid up to 65 (130), each returned and into five kinds of previous output; matrix-vector products of every pattern up to 12 cells (16) in real and integer, view, resized and operator forms; every entrywise operation on every shape up to 4x4; every value combination of an alphabet on shapes up to 2x2; equality around the tolerance at every position; every 4-step (5) history over three matrices; entries of extreme magnitudes; products with dimensions up to 9000 and entrywise operations on up to 70000 entries. A state is one configuration of operands.',
   assume='small dyadic values so that sums are exact in any order; the output of a product is not one of its operands')
PROPS['C06'] = dict(src=['harness/c06_dense_access.cpp'],
   rule='every shape up to 5x5 (6x6 thorough) x every element, row, column and every contiguous range of rows, columns and blocks, read into five kinds of previous output and written; every index list up to length 3-4 with repeats for rows, blocks and accumulation; every resize between shapes up to 5x5; every stack of up to 4 matrices; every 4-operation history (5) of 12 operation kinds with their positions; all of it with and without zero entries and with extreme magnitudes; accesses to matrices of up to 9000 rows or 5000 columns. A state is one matrix and its access parameters.',
   assume='GetRow(list, output) is given an output of the right shape as its assertions demand')
PROPS['C07'] = dict(src=['harness/c07_decompositions.cpp'],
   rule='SVD, QR and inversion of every matrix of 13 shapes up to 3x3, 2x4, 4x2 over alphabets of 3-7 values, of every 0/1 matrix of shapes up to 4x4 (3x5, 2x6 thorough), of 12 structured families at sizes up to 33 (65) in three magnitudes, in place and into three kinds of previous output, and every 4-step (5) sequence of decompositions; decompositions of matrices growing from 1x1 to 90x90 in one process; singular values are compared with an extended-precision Jacobi iteration, factors with their defining equations; structured matrices of up to 600 rows or columns. A state is one (matrix, decomposition).',
   assume='equalities hold up to rounding (1e-12 times size and magnitude); inversion is required only for nonsingular matrices (exact integer determinant); LAPACK itself is trusted, its arguments are checked')
PROPS['C08'] = dict(src=['harness/c08_eigensolver.cpp'],
   rule='every symmetric matrix up to 3x3 over alphabets of 4-8 values x 5 relative tolerances x every maximum count from -1 past the dimension, every 4x4 over 2 (3 thorough) values and 5x5 over 2 (thorough); 8 structured families at sizes up to 33 (70) in three magnitudes x limits x dense/sparse forms; every 4-step (5) sequence of solves of 6 sizes on one solver with copies and moves, compared with a fresh solver; matrices of up to 257 rows with eigenvalues known in closed form. A state is one (matrix, tolerance, maximum).',
   assume='equalities hold up to rounding; an eigenvalue within rounding of the tolerance cut may fall on either side; LAPACK itself is trusted, its arguments are checked')
PROPS['C09'] = dict(src=['harness/c09_vector.cpp'],
   rule='36 operation kinds (entrywise, scaled, linear combinations, scalar, reductions, norms, gathers, comparison, operands aliasing each other) on owning vectors and on views inside guarded storage, integer and real: every value combination of an alphabet for lengths 0..3, every length 0..69 (139 thorough); one special entry at every position around the comparison tolerance; every index list; every 3-operation history (4) over three vectors; entries of extreme magnitudes; lengths around powers of two up to 65537. A state is one configuration of operands.',
   assume='small dyadic values so that results are exact (norms, means and normalisation up to rounding); divisors are nonzero; integer targets get integer coefficients')
PROPS['C11'] = dict(src=['harness/c11_blockmatrix.cpp'],
   rule='every layout of 1-2 block rows and columns with sizes from {0,1,3} (0..3 thorough) x every choice of unset/full/sparse/single-entry content per block; every layout of up to 3 block rows/columns with sizes 0..2 and at most 6 (9) blocks x every subset of set blocks; 9 layouts of 3x3 blocks; larger structured layouts; every 3-operation history (4) of setting, replacing, copying, moving, swapping and transposing two matrices; layouts of up to 65 block rows or columns; block matrices of more cells than an int can count. A state is one assembled block matrix.',
   assume='small integer entries')
PROPS['C12'] = dict(src=['harness/c12_blockoperator.cpp'],
   rule='every layout of 1-2 block rows and columns with zero and nonzero sizes x every assignment of operator kinds (unset, sparse, dense, user-defined, coordinate, block matrix, nested block operator, list) to the blocks; every layout of up to 3 block rows/columns with at most 6 (9 thorough) blocks x every subset; every 3-operation history (4) of applications, replacements, copies, moves and nesting of operators of equal and different layouts; block vectors of up to 4 blocks of size 0..3 and every 3-operation history (4) over three of them; layouts of up to 65 block rows or columns, vectors of up to 70 blocks. A state is one operator layout with its contents.',
   assume='small integer entries; the operators set outlive the block operator, as documented')
PROPS['C10'] = dict(src=['harness/c10_values.cpp'],
   rule='for each of 9 container types every 3-operation history over a pool of three objects (4 over two, thorough) of 12 life-cycle operations (copy, copy-construct, move, move-construct, swap, self-assignment, return by value, replacement by a temporary or an empty object, growth inside std::vector) and 3-5 mutations with all operand choices; every 3-operation history (4) of 11 operations over three views of three storages. After every step every object is compared with its own table and no two share storage; a shorter pool of objects of thousands of entries. A state is the contents of the pool.',
   assume='a moved-from object is only assigned, swapped or destroyed, except that moving into itself through another object restores it')
PROPS['C13'] = dict(src=['harness/c13_cg.cpp'],
   rule='every SPD matrix of order 1-3 over alphabets of 2-7 entries (order 4 thorough) x exact solutions over an alphabet x 4 starting guesses x no preconditioner or 4 SPD ones x 6 tolerance pairs x every iteration limit 0..n+1 and 1000; 7 families at orders up to 33 (100); every 3-solve history changing the operator, limit, right-hand side and start of one solver object, compared with fresh solvers; systems whose matrix, right-hand side, preconditioner and tolerances are scaled by powers of two from 2^-110 to 2^100; preconditioners that refine the guess they are given. Iterates are compared with the exact minimisers over the Krylov spaces in extended precision; orders 129, 300 and 1030. A state is one (matrix, right-hand side, start, preconditioner).',
   assume='equalities hold up to rounding; iterates are compared step by step for at most 4 steps beyond order 4, where rounding makes later steps incomparable; the tolerance applies to the residual measured with the preconditioner')
PROPS['C14'] = dict(src=['harness/c14_minres.cpp'],
   rule='every symmetric nonsingular matrix (definite or not, zero diagonals included) of order 1-3 over alphabets of 2-8 entries (order 4 thorough) x exact solutions x 4 starting guesses x no preconditioner or 4 SPD ones x 6 tolerance pairs x every iteration limit 0..n+1 and 1000; 9 families at orders up to 33 (100); every 3-solve history changing the operator, limit, right-hand side and start of one solver object, compared with fresh solvers; systems whose matrix, right-hand side, preconditioner and tolerances are scaled by powers of two; preconditioners that refine the guess they are given. Residuals are compared with the exact minima over the Krylov spaces in extended precision and must not grow with the limit; orders 129, 300 and 1030. A state is one (matrix, right-hand side, start, preconditioner).',
   assume='equalities hold up to rounding; residuals are compared with the minima for at most 4 steps beyond order 4; the tolerance applies to the residual measured with the preconditioner')
PROPS['C15'] = dict(src=['harness/c15_solver_objects.cpp'],
   rule='for each of the three solver classes every 3-operation history over a pool of three solvers (4 over two, thorough) of 14 operations (copy, copy-construct, move, move-construct, swap, replacement, every setter, new operator, new preconditioner, solves, changed copies) with their arguments, solving with every solver at the end; results, iteration counts and printed output are compared bit for bit with a solver freshly constructed from the recorded settings, in pools of equal and of different system sizes; every nesting of solver kinds. A state is the settings of the pool.',
   assume='a moved-from solver is only assigned, swapped or destroyed; SetOperator keeps the size, as documented; nested solvers agree up to the inner tolerance')
PROPS['C16'] = dict(src=['harness/c16_text.cpp'],
   rule='every vector up to length 3 (4 thorough) over 14 real and 7 integer values; every sparsity pattern of every shape up to 3x3 x 3 storage orders and every symmetric pattern up to 3x3 (4x4), real and integer, through the CSR, Matrix Market, coordinate, adjacency (general and symmetric) and table formats; every value combination on shapes up to 1x2 (2x2); structured families at sizes up to 101 (300); column indices up to seven digits; vectors up to 65536 entries; every sequence of 3 (4) writes to two files; matrices of more cells than an int can count. Every file is also read by an independent parser. A state is one object.',
   assume='finite values up to 1e300; no duplicate entries; lists record the shape only through their largest indices (at least 1x1), tables through their lines and largest index')
PROPS['C17'] = dict(src=['harness/c17_binary.cpp'],
   rule='every vector up to length 3 over 9 real (special values included) and 5 integer values, every sparsity pattern of shapes up to 3x3 with at most 6 (9 thorough) cells x 3 storage orders, special values, families at sizes up to 130, vectors up to 131072 and matrices up to 70000 entries long: written, compared byte for byte with the documented layout, read back bit for bit; then cut at every byte (large files: near both ends and a regular grid) and read again; matrices of more cells than an int can count. A state is one object; an operation is one cut.',
   assume='the same machine writes and reads; no duplicate entries')
PROPS['C18'] = dict(src=['harness/c18_faults.cpp'],
   rule='each of 14 writing forms x 7 objects (empty to several stream buffers) x every byte at which the storage stops accepting data (by a file size limit; files over 600 bytes: near both ends and around every buffer boundary) x new or existing file, a full device, and three kinds of uncreatable path. A state is one (writer, object, fault point).',
   assume='the storage reports the refusal to the writing process (EFBIG, ENOSPC); delayed write-back failures after close are outside the model')
PROPS['C19'] = dict(src=['harness/c19_readers.cpp'],
   rule='for each of the 10 readers (real and integer where it applies): every layout of a grammar of separators, leading/trailing blanks, line ends, blank lines, end of file and numeral spellings on 4 contents; every sequence of up to 3 listed entries (orders, repetitions where they mean a sum) of shapes up to 3x3 (4x4 thorough); every Matrix Market banner (general, symmetric, skew-symmetric in 4 spellings) x 9 comment blocks x layout; every numeral of 8 values in 5 spellings; structured files up to 40x40 in 4 entry orders; files of 20000 entries; every 2-read sequence of present and missing files; matrices of more cells than an int can count. The text is generated from the object, never by the library. A state is one described object.',
   assume='well-formed files only: real, integer or pattern coordinate files; graph lists contain each edge with its smaller vertex first (other orientations may also be listed) and once in that orientation')
PROPS['C20'] = dict(src=['harness/c20_argparser.cpp'],
   rule='every command line of up to 4 tokens (5 thorough) from an alphabet of 17 options and values x up to 7 registrations (orders, subsets, double registration); every line within two edits (remove, repeat, replace, insert) of a 9-token line; every registration sequence of up to 4 of 8 options; 24 value spellings x 5 options; parsers side by side and copied; up to 300 options with names and values of up to 700 characters. A state is one command line.',
   assume='options start with -- (or -, then followed by a value), values do not start with --, arguments are not empty, switches are not followed by a value')
PROPS['C21'] = dict(src=['harness/c21_partition.cpp'], modules=['partition'], link=['-Wl,--wrap=METIS_PartGraphKway', '-lmetis'],
   rule='every graph of up to 4 vertices (5 thorough) with three kinds of diagonal x every part count x contiguity x weights x 3 imbalances with the real METIS; 10 graph families of 6 to 100 (257) vertices; every call form with fewer arguments; every labeling METIS could answer for up to 5 (6) vertices, through a stand-in; the adjacency arrays of every graph of up to 4 vertices in four type combinations; every sequence of 3 (4) calls out of 6; graph families up to 2100 vertices. A state is one call.',
   assume='METIS itself is trusted for the parts it chooses (it returns non-contiguous parts of small trees although asked for contiguous ones); symmetric matrices with integer weights of at least 1')
PROPS['C22'] = dict(src=['harness/c22_compaction.cpp'], modules=['partition'], link=['-lmetis'],
   rule='every label vector up to length 5 over 7 labels and length 6 over 6 (7 over 5 thorough); every subset of 12 (14) labels in 4 arrangements; arithmetic label sequences with gaps up to 65536; every 4-operation history (5) of merging, splitting and compacting; 5000 labels. A state is one label vector.',
   assume='labels are non-negative, the vector is not empty')
PROPS['C24'] = dict(src=['harness/c24_timer.cpp'], link=['-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv', '-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv'],
   rule='every sequence of up to 5 clicks (6 thorough) of a timer of each construction over 7 clock advances (zero, one nanosecond, hours, backwards), with or without queries in between; every 5-operation history (6) of clicks, copies, moves, swaps and restarts of two timers; up to 500 clicks in 3 patterns. The clock is the one the explorer controls and jumps between any two operations; up to 70000 clicks. A state is one list of readings.',
   assume='the library reads time through std::chrono clocks; a moved-from timer is only assigned or destroyed')
PROPS['C23'] = dict(src=['harness/c23_sparsesolver.cpp'], modules=['sparsesolver'], inc=['-I/usr/include/suitesparse'], link=['-Wl,--wrap=umfpack_di_' + f for f in ('numeric', 'free_numeric', 'symbolic', 'free_symbolic')] + ['-lumfpack'],
   rule='every nonsingular matrix of order 1-2 over 8 cell values and order 3 over 3 (4 thorough), every nonsingular 0/1 matrix of order 4, 9 structured families at orders up to 100 (257) in three magnitudes, each in several storage orders, solved plainly and transposed through every call form for unit, mixed and zero solutions; every 3-operation history (4) of 11 life-cycle operations over three solvers of different sizes, all of them solving after every step; every interleaving of 5 solves of two solvers. Factorisations are counted where UMFPACK creates and frees them; orders 300 and 1030. A state is one matrix, or the matrices of the pool.',
   assume='equalities hold up to rounding; UMFPACK itself is trusted; a moved-from solver is only assigned, swapped or destroyed')
PROPS['C25'] = dict(src=['harness/c25_randomize.cpp'], link=['-Wl,--wrap=_ZNSt13random_device9_M_getvalEv'],
   rule='19 lengths up to 300 (every length up to 70, thorough) x 8 seeds x 7 ranges x integer/real x 4 call forms x 3 previous contents x 3 states of the entropy source, every fill compared with the first one of that seed and range; every sequence of 3 (4) fills out of 12; unseeded fills and default arguments under controlled entropy; every pair of seeds up to 120 (400); lengths up to 65539. A state is one call.',
   assume='seeds 0 and 1 may coincide, as they do for the standard engine; the member functions take integer bounds')

PROPS['C26'] = dict(src=['harness/c26_bounds.cpp'], modules=['sparsesolver', 'partition'], inc=['-I/usr/include/suitesparse'], link=['-lumfpack', '-lmetis'],
   rule='about 230 operations of vectors, views, block vectors, dense, sparse, coordinate, list and block matrices, operators, iterative, eigen- and direct solvers, timers and partitions on every shape up to 3x3 (4x4 thorough, zero sizes included) x every index from -1 to one past the end plus the two extreme integers, every range, every index list up to length 2-3, every operand size from 0 to past the right one; every construction of small sparse matrices from row starts, columns and values; bounds after every 3 (4) size-changing operations. A call is either valid by the model and must run, or invalid and must be stopped; the address sanitizer watches storage of exactly the right size. A state is one call.',
   assume='debug build (assertions on); block offsets are nondecreasing lists starting at 0; markers and workspaces may be larger than needed, and a source larger than the range set from it is accepted; an index that is never used because the other list or the matrix is empty may or may not be stopped')

UMF = ['-I/usr/include/suitesparse']
PROPS['C27'] = dict(src=['harness/c27_distributed.cpp', 'standin/ranks.cpp', 'standin/hypre.cpp'], modules=['parlinalgcpp'], standin=True,
   rule='the processes are fibers of one process and every communication is a scheduling point. Every pattern of every matrix up to 9 entries (12 thorough) x every division of its rows and columns among up to 3 processes x 3 storage orders x 3 schedules, with 13 operations each; every pair of matrices for products (up to 9, thorough 12 entries), sums in 7 forms, triple products; matrices from diagonal blocks by each constructor; every division of the vertices of every small matrix; vectors up to 5 (7) entries; every history of 3 (4) of 13 operations on two matrices; structured matrices up to 17 (64) rows over up to 5 (8) processes; every schedule of two processes for 4 operations, every schedule of three within 3 (4) deviations; solvers, smoothers and row norms. Results are gathered and compared with the serial table; deadlock, mismatched collective calls, unreceived messages and hypre objects still held are violations. A state is one (matrices, distribution, schedule).',
   assume='MPI and hypre are not installed: stand-ins in standin/ take their place, with the documented effects of the calls the module makes (hypre objects, communication packages, products, conjugate gradients, relaxation types 0, 1, -7); no process has an empty share; the values of BoomerAMG, ParaSails, LOBPCG and the other relaxation types are not looked at; conformance of the stand-ins with the real libraries cannot be tested here')
PROPS['C28'] = dict(src=['harness/c28_threads.cpp'], modules=['sparsesolver', 'partition'], inc=UMF, framework=['race.cpp'],
   base=['-std=gnu++17', '-O1', '-g1', '-fsanitize=thread', '-fno-pie', '-mstringop-strategy=libcall', '-fno-omit-frame-pointer', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w'], ld=['-no-pie'],
   link=['-Wl,--wrap=' + f for f in 'memcpy memmove memset memcmp rand srand random drand48 strtok pthread_mutex_lock pthread_mutex_unlock pthread_once __cxa_guard_acquire __cxa_guard_release _ZNSt8__detail15_List_node_base7_M_hookEPS0_ _ZNSt8__detail15_List_node_base9_M_unhookEv _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_ _ZNSt8__detail15_List_node_base10_M_reverseEv _ZNSt8__detail15_List_node_base4swapERS0_S1_ _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm umfpack_di_solve umfpack_di_symbolic umfpack_di_numeric METIS_PartGraphKway'.split()] + ['-lumfpack', '-lmetis'],
   rule='every pair of 129 operations (vectors, sparse, dense, coordinate, list and block matrices, operators, iterative, eigen- and direct solvers, partitioning, files, printing, timers, argument parsers) by two threads, in both orders, on objects made before, on objects made by the threads, and (operations that only read) on shared objects; every operation against itself in 16 size pairs. Each pair runs in a fresh process of the instrumented library under a vector-clock detector that knows locks, atomics, once-guards and thread-locals. Two accesses to one byte, one of them a write, that nothing orders are a violation; without any, all interleavings of the two are equivalent to the one executed. A state is one (pair, mode, size).',
   assume='two threads; objects with work space of their own (solvers, block operators, argument parsers) are not shared; the C++ library, LAPACK, UMFPACK and METIS are not instrumented (their memory operations, rand and allocation of shared buffers are intercepted, their use of the data passed is declared by the wrappers); no random fills without a seed')
PROPS['C29'] = dict(src=['harness/c29_damaged.cpp'],
   rule='every reader (17 forms) x 7 objects x every byte at which the storage starts to fail (files over 400 bytes: near both ends, around every buffer boundary and a regular grid) x the sizes in which the storage delivers; every file cut at every number; each of 6 non-numbers in place of or before every number. A state is one (reader, file, fault).',
   assume='the storage reports its failure to the reading process (EIO); text after the last number of a CSR file is not looked at; malformed files need not be diagnosed further than by an exception')
PROPS['C30'] = dict(src=['harness/c30_residue.cpp'], flags=['-ftrivial-auto-var-init=uninitialized'], modules=['sparsesolver', 'partition'], inc=UMF, link=['-lumfpack', '-lmetis'],
   rule='every ordered pair (A, B): A one of 129 operations or 46 failing or printing calls, B one of the operations, with 6 and 40 unknowns, A\'s objects destroyed before B or still alive; the same for operations that only read, on the same objects; every operation with fresh memory and the stack below the call filled with each of 5 bytes; every operation and failing call 9 times over with memory, files, threads and settings compared. Each run is compared, bit for bit, with the operation run alone in a fresh process. A state is one (A, sizes, mode).',
   assume='timers and unseeded random fills read the clock and are left out; memory held by the C++ library, LAPACK, UMFPACK or METIS for their whole life counts once only')
PROPS['C31'] = dict(src=['harness/c31_memory.cpp'], modules=['sparsesolver', 'partition'], inc=UMF, link=['-lumfpack', '-lmetis'],
   rule='every operation (129, with 6 and with 40 unknowns) and the construction of every kind of object x every allocation it makes, refused alone or together with all later ones; afterwards the objects are compared, used and destroyed and the call is repeated with enough memory. A state is one (operation, size, refused allocation).',
   assume='allocations made by operator new (all of the library\'s own); malloc inside UMFPACK, METIS and LAPACK is not refused')

# the explorations above in other build configurations; -O3 and another compiler in the thorough tier
PROPS['C32'] = dict(src=[], of=['C%02d' % k for k in range(1, 26)] + ['C29'],
   builds=dict(gcc=dict(base=['-std=gnu++17', '-O2', '-DNDEBUG', '-g1', '-w'], ld=['-g1']),
               clang=dict(cxx='clang++', base=['-std=gnu++17', '-O3', '-DNDEBUG', '-g1', '-w', '-ffp-contract=off'], ld=['-g1']),
               gcc3=dict(base=['-std=gnu++17', '-O3', '-DNDEBUG', '-g1', '-w'], ld=['-g1'])),
   configurations=dict(quick=[('gcc', 'quick')], thorough=[('gcc', 'quick'), ('clang', 'quick'), ('gcc3', 'quick')]),
   rule='every quick exploration of C01-C25 and C29 (the same inputs, operation histories, layouts and faults against the same models, see there) on the library built with -O2 -DNDEBUG by g++ (thorough: also -O3 by g++ and by clang++), without sanitizers, with freed and fresh memory filled by the allocator. A state is one state of one of those explorations.',
   assume='as for the properties explored; x86-64 with IEEE arithmetic, no fused or reordered floating point')

PROPS['C33'] = dict(src=['harness/c33_printing.cpp'],
   rule='every sparsity pattern of shapes up to 2x3 (3x3 thorough) in every sparse container and as dense matrix in every call form x 6 stream formats x 4 labels x stream or console; every pair (triple) of 16 values of all magnitudes in 3 arrangements x formats x containers; vectors of 6 lengths in 5 forms; every block layout of up to 2x2 blocks of sizes 0..2 x unset/full/sparse blocks; structured families up to 64x40; every 4-step (5) sequence of printing. The text is parsed and every number compared with the value formatted alone; matrices of up to 600 rows or 1100 columns. A state is one (object, format, form).',
   assume='entries of sparse containers may be listed in any order; stream formats without a sign or base prefix')
PROPS['C34'] = dict(src=['harness/c34_callbacks.cpp'], rule='every solver kind x size x system x limit x right-hand side x start, with the k-th application of the user operator, preconditioner or inner product raising for every k (before, half way through and after its output), then every form of copy/move/assignment/swap, an optional second failure, and a solve compared bit by bit with a fresh solver; the same for every free function, every block layout up to 2x2 (nested, transposed, both forms), stacks of solver on block operator preconditioned by a solver, and operators without a transpose. A state is one (configuration, k, continuation).',
   assume='the error raised is of a type the library does not know; contents of the output after an error are unspecified')
PROPS['C35'] = dict(src=['harness/c35_locale.cpp'],
   rule='16 file formats x 6 objects (indices and values of many digits, tiny and negative values) x 5 global locales while writing x 5 while reading (decimal comma, point or semicolon, grouping by one or three digits or none, other names of true and false); 9 text formats with 8 numbers in foreign notation x 4 locales; 6 options x 14 values x 3 lines x 5 locales set at construction, parsing or showing; 10 printing forms x 6 objects x 5 global x 5 stream locales; every 5-step history (6 thorough) of switching the locale and using files, command lines and printing. Everything is compared with the classic locale. A state is one (operation, object, locales).',
   assume='locales differ in their punctuation facets; white space is that of the classic locale')
