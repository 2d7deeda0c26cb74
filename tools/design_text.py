HEAD = r'''
# Model checking gelever/linalgcpp

## Approach

linalgcpp is a sequential library: its behaviours are the executions a client can produce by choosing
inputs, shapes, storage layouts, call sequences, environment answers (a device that stops accepting bytes, a
file cut short, a clock reading, what the partitioner answers) and configuration. Every check is a **stateless
model checker of the real code**: `framework/mc.hpp|mc.cpp` is a choice-tree explorer in the style of
CHESS/VeriSoft. A scenario calls `mc::choose(n)` at every open decision; the explorer executes the scenario once
for *every* choice sequence (depth first with prefix replay), running the real library and a boring reference
model (a table of numbers, a list, a map) in lock-step and comparing after every operation. So every model trace
*is* replayed against the implementation: conformance is not a separate step and the model cannot drift.

* The space is split over 8 forked workers by a hash of the first choices (disjoint sub-trees, together complete).
* Operations are counted as transitions, canonical configurations are hashed into a state set, complete
  executions are the traces validated against the implementation.
* The code is compiled from /repo's working tree with AddressSanitizer and selected UBSan checks, fresh heap
  memory filled with 0xff (NaN / -1) and stack variables with a pattern, assertions on. Memory errors, assertion
  failures on valid calls, illegal BLAS/LAPACK arguments (own `xerbla_`, argument checks in
  `framework/lapack_wrap.cpp`), escaped exceptions, a call that ends the process, non-termination
  and divergence on replay are all violations.
* Every violation is re-run in a fresh process before it is reported, and written to replays/*.replay, which
  `./check <ID> --replay FILE` re-executes. A failure which appears only after the preceding executions of the
  worker (state leaking between independent calls) is reported as such, with the history that leads to it.
* When the library compiles and a harness no longer does (an operation, an overload or an instantiation of the public
  interface is gone), the property is reported as violated with the compiler's messages as replay; when the library's own
  sources or the tools fail, there is no answer (exit 2).
* Hangs: a worker without progress for 60 s is killed, its execution re-run alone with 240 s.
* Values are small dyadic numbers so that results are exact and independent of summation order; where a legal
  refactoring may round differently (magnitude scenarios) comparison allows 4 ulp, and where an operation is
  inherently inexact the bound is derived from the size and magnitude of the operands.
* The checks drive the public API only, so they judge behaviour, not the way it is written. Environment
  stand-ins are put at the borders of the library (link-time wrapping of METIS, UMFPACK, the clock and the entropy
  source; RLIMIT_FSIZE and /dev/full for storage), never inside it.

Bounds: exhaustive tiny shapes (every pattern/value), exhaustive operation histories up to a depth, and exhaustive
grids of structured families at larger sizes around powers of two (catching size thresholds and block/unroll
boundaries). Other model-checking families (Spin, TLA+) were considered and left out: the library has no protocol and
starts no threads, so a separate model would only repeat the reference models while adding a conformance gap.

Threads (C28): the interleavings of two operations are decided by partial-order reduction taken to its end. Each pair
runs once in each order, compiled with gcc's thread instrumentation against an own runtime (`framework/race.cpp`) that
records every byte either thread touches and every synchronisation that orders them. If no byte is touched by both
(one of them writing) without an order, all interleavings are equivalent to the executed one, which the other
properties judge; if one is, some interleaving runs the two accesses at once and the pair is reported.

`tools/gen.py` writes properties.jsonl and MANIFEST.json from `tools/spec.py` and `props.py`; `tools/design.py` writes
this file; `tools/seeds.py`/`tools/mkseed.py` build and confirm the planted changes.

## Per property
'''
NOTES = {
'C01': ('a dense table of numbers and the triple loop; every output is surrounded by guard entries and pre-filled with zeros, ones, or not-a-number.', 'the tests multiply two fixed matrices; stale outputs, empty rows, single columns, unsorted rows, integer entries and sizes past an unrolling boundary never occur in them.', 'quick 8 s.'),
'C02': ('the table product and transpose, plus a structural validator of compressed-row storage (row pointer, ranges, no duplicates).', 'correctness of the marker workspace depends on what earlier calls of other shapes left in it: every sequence of shapes and contents is run.', 'quick 10 s.'),
'C03': ('a table of (value, stored?) cells edited by the same history; the structural validator after every edit.', 'the edits interact through the storage (sortedness, stored zeros, repeated rows, the extraction workspace); tests apply each once.', 'quick 20 s.'),
'C04': ('the list of contributions, summed.', 'duplicates merge while sorting, sizes are inferred, and every insertion overload takes its own path: the order of insertions and conversions matters.', 'quick 15 s.'),
'C05': ('the triple loop on tables; every calling form compared with every other.', 'the operations go through BLAS with leading dimensions and flags that only non-square, empty or resized operands tell apart.', 'quick 15 s.'),
'C06': ('a table and index arithmetic; the entries not addressed are compared too.', 'column-major offsets that coincide for square shapes, leftovers of earlier outputs, zero entries and repeated indices.', 'quick 20 s.'),
'C07': ('the defining equations (orthonormality, reconstruction, spanning) and singular values by an independent one-sided Jacobi iteration in extended precision; exact integer determinants decide whether an inverse is required.', 'shapes (tall, wide, rank-deficient) select different LAPACK branches and workspace sizes; state left by earlier calls.', 'quick 5 s.'),
'C08': ('the defining equations, eigenvalue counts by Jacobi iteration in extended precision, comparison with a fresh solver.', 'degenerate and decoupled spectra, relative tolerance cuts and workspaces shared by solves of different sizes.', 'quick 10 s.'),
'C09': ('elementwise definitions in the test loop, guards around every view.', 'aliasing operands, stale or not-a-number targets, every length around unrolling boundaries, the comparison tolerance at every position.', 'quick 15 s.'),
'C10': ('each object of the pool has its own table; storage addresses must be disjoint.', 'ownership errors need a history (copy, change, move, reuse) of several objects.', 'quick 25 s, thorough 420 s.'),
'C11': ('placement of the blocks into one table.', 'zero-sized block rows, unset blocks and replaced blocks.', 'quick 15 s.'),
'C12': ('the monolithic table of the same blocks.', 'internal work vectors persist between calls and are copied with the operator; windows of unset rows.', 'quick 10 s.'),
'C13': ('the minimiser of the energy norm over the Krylov space, by orthogonalisation in extended precision; a fresh solver for reuse; scaling invariance by powers of two.', 'the tests solve one system to convergence, which hides wrong steps, wrong counts, stale directions and tolerance semantics.', 'quick 20 s.'),
'C14': ('the least-squares minimum over the Krylov space in extended precision; monotonicity in the limit; a fresh solver for reuse; scaling invariance.', 'as C13, for indefinite operators, breakdowns and zero diagonals.', 'quick 20 s.'),
'C15': ('a record of the settings, and a solver freshly constructed from it, compared bit for bit.', 'settings and work vectors are copied and swapped member by member, each class for itself: every history over a pool shows a forgotten one.', 'quick 25 s.'),
'C16': ('the object itself and an independent parser of each format.', 'precision, signs, empty rows, order of entries and overwritten files.', 'quick 5 s.'),
'C17': ('the documented layout byte for byte; every cut of the file.', 'crash points: a cut may fall on any byte; tests never cut a file.', 'quick 5 s.'),
'C18': ('the function reported (exception), or the file reads back whole.', 'crash points: every byte at which the storage may refuse; buffered streams report only at flush or close.', 'quick 5 s.'),
'C19': ('the text is generated from the object by the harness.', 'readers are hand-written loops over lines and tokens; layouts interact (blank line, end of file, header words).', 'quick 10 s.'),
'C20': ('a model parser of the documented conventions.', 'tokens interact with their neighbours and with the registration order.', 'quick 30 s.'),
'C21': ('validity of the labeling, the adjacency arrays METIS is given (recorded by the stand-in), the same call again.', 'METIS answers with what it likes: the stand-in returns every possible labeling, including those the real one never gives on test graphs.', 'quick 10 s.'),
'C22': ('order statistics of the label vector.', 'gaps of every position and width.', 'quick 5 s.'),
'C23': ('residuals in extended precision; counting of factorisation handles created and freed at the UMFPACK border.', 'handles are owned through copies, moves and swaps: double frees and stale factorisations need a history.', 'quick 15 s.'),
'C24': ('differences of the readings handed out by the explored clock.', 'the clock is adversarial (zero steps, one nanosecond, backwards), which no test controls.', 'quick 3 s.'),
'C25': ('the first fill of that seed and range; bounds; a second fill.', 'hidden generator state shows only across calls, lengths and ranges.', 'quick 5 s.'),
'C26': ('an index/size model says valid or not; a stopped call must be stopped by assertion or exception with the sanitizer silent, a valid one must run.', 'about 230 entry points times every index at and past the boundary.', 'quick 5 s.'),
'C28': ('the own conflict detector (framework/race.cpp, an implementation of the thread-sanitizer interface): vector clocks over every byte the instrumented library touches.', 'tests have one thread; hidden shared state (static work space, lazily built caches, reference counts) shows only when two threads meet, and which pair meets is enumerated.', 'quick 60-90 s.'),
'C29': ('the object read from the intact file; anything else must be an exception.', 'needs storage that fails at a chosen byte and files that are wrong at a chosen place.', 'quick 3 s.'),
'C30': ('the operation run alone in a fresh process, bit for bit; counts of live bytes, descriptors, threads and a fingerprint of the settings.', 'hidden state (static work space, caches, uninitialised entries) shows only in a particular order of calls or with particular contents of memory.', 'quick 60-100 s.'),
'C31': ('the same call with enough memory; digests of the objects before; live bytes.', 'every single allocation is a fault point; no test refuses any.', 'quick 30 s.'),
'C32': ('the models of the properties explored.', 'the test suite cannot even be built without assertions; the same exhaustive explorations are.', 'quick 70 s and 60 s of compilation.'),
'C33': ('each value formatted alone by the standard library; positions from the model table.', 'wide, tiny and negative numbers next to each other, empty rows and blocks, other streams and formats.', 'quick 10 s.'),
'C34': ('the error object raised (identity), and bit-equal results of fresh objects.', 'every place a user operator is called can fail; afterwards every continuation is compared.', 'quick 17 s.'),
'C35': ('the same operation in the classic locale (files byte for byte).', 'a wrong locale changes every number of more than three digits or with a fraction.', 'quick 7 s.'),
'C27': ('the serial table of the gathered pieces; the starts, shapes and column maps the distribution asks for; the scheduler itself for deadlock and mismatched calls.', 'the module is neither built nor tested where MPI and hypre are missing, and its errors depend on the distribution and on who sends what to whom.', 'quick 60-110 s.'),
}
MISSES = {
'C32-partition-in-assert': 'a graph with edges must reach the partitioner', 'C31-qr-raw': 'memory compared with fault-free rounds',
'C04-coo-sparse-width': 'magnitude scenarios', 'C06-transpose-square': 'zero entries in every scenario', 'C12-copy-shares-shape': 'histories over differing layouts',
'C07-svd-static-workspace': 'growing sizes in one process', 'C13-scaled-breakdown': 'scaled systems', 'C15-swap-workspace': 'pools of different sizes', 'C17-chunked-write': 'long vectors and matrices',
'C20-listing-width': 'listing must separate value and description',
'C22-byte-counts': 'multiplicities up to 2^17', 'C13-tolerance-of-b': 'starting guesses close to the solution', 'C09-zero-alpha': 'fractional factors for integer vectors',
'C05-scale-by-zero': 'magnitudes up to 1000', 'C20-help-prefix': 'option names that begin like another', 'C10-coo-empty-sized': 'every shape, empty ones too, through every copy and conversion',
'C12-same-operator': 'one operator in several blocks', 'C30-rand': 'state of the C library generators', 'C23-sorted-first-row': 'further orders of the entries of each row',
}
TAIL = r'''
## False alarms met and corrected

* C21: contiguity of METIS's parts was demanded; METIS itself returns non-contiguous parts for small trees. The statement
  now asks that the request is passed on, which the stand-in observes.
* C24: a scenario on the real clock could fail under load; removed, the explored clock decides.
* C18: an integer matrix was built from 0.1 in the harness. C09: an out-of-range cast in the harness. Both corrected.
* Exact comparison of sums of values of mixed magnitude would alarm on a reordered loop; these compare within 4 ulp.
* C30's and C28's counting allocators lacked the nothrow forms of operator new, so a std::stable_sort in refactored code
  looked like mismatched memory. Found by running every check on rewritten (behaviour-preserving) versions of most of the
  library, twice; nothing else spoke up.
* C14's residual comparison and C13's iterates are limited to four steps beyond order 4, where rounding dominates.

## Observations kept out of the properties

BlockOperator::Transpose is declared and never defined; HStack of an empty list leaves its output unchanged; the METIS
status is ignored (a contiguous partition of a disconnected graph is one part); PCG tests `pAp > -1e12` (affects only
operators that are not SPD); DBL_MAX overflows in a 16-digit text round trip (domain: up to 1e300); an empty undeclared
Coo/Lil matrix is 1x1 by design; ReadGraphList ignores lists with i>j only; unknown options are ignored by design and the
documentation of "-flag" differs from "--"; SparseSolver's returning MultAT is only reachable through Operator&;
engine seeds 0 and 1 coincide; VectorView<double>::Randomize takes int bounds; SparseMatrix::operator=(0) is asserted
against; SparseMatrix::MaxNorm returns the sum of absolute values (checked as such); block offset lists are not
validated; a source larger than a SetSubMatrix range is truncated.

The distributed module (C27) is compiled against the stand-ins of `standin/`. Not looked at: BoomerAMG, ParaSails and LOBPCG
(their values are hypre's own); reading the code shows that copies of BoomerAMG and ParaSails are not set up, and that a
copied ParCG forgets its preconditioner (it solves the same system without one). The swapped roles of the work vectors
b_ and x_ of a rectangular operator, and a line printed by a ParVector constructor, have no effect on results. What MPI or
hypre would do differently from their documentation cannot be seen.

Candidates for planted changes that the existing tests exposed were dropped (C20 negative values and switch sets, C21
negative weights, C23 unsorted copy).
'''
