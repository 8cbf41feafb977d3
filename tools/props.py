prop("C01", "Failed memory and FFT-plan requests surface as the documented error",
     "Whichever memory requests or FFT-plan requests fail during a library call, the call returns: either it reports the documented out-of-memory or transform-initialisation error, or it reports success and its result is exactly the one it gives when nothing fails. "
     "It never crashes, touches memory it does not own, or reports success with a different result.",
     ["fault_sequences", "inputs"], "every choice of failing memory and plan requests, in every solver, transform set-up and helper call, for every argument set",
     "The tests never make an allocation or a plan fail; every error branch after one is unexecuted by them, and there are exponentially many subsets of failing requests.",
     ["src/l1c_memory.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "include/l1c.h"],
     [("NULL checks and error exits after each allocation", "src/l1qc_newton.c, src/nesta.c, src/bregman.c, src/dct*.c"), ("status codes", "include/l1c.h")],
     [part("A", "C01", 16000), part("B", "C01", 16000)],
     "one or two generated library calls (solver, set-up plus operators, JSON, 2-D arrays) in which seeded memory and plan requests fail (nth, from nth on, bursts, random, by size).",
     ("seeded failure of memory and plan requests, status and result compared with a fault-free run in a fresh process",
      "Exploration: tens of thousands of seeded fault sequences per run over all entry points. Trusts the simulated allocator, planner and status table."))

prop("C02", "Every library call gives back everything it took, on every path",
     "When a library call returns, successfully or with any error, every block of memory, FFT plan and file it acquired and did not hand to the caller has been released, exactly once. "
     "A transform set holds nothing once it has been destroyed, and a set-up that failed holds nothing.",
     ["fault_sequences", "histories", "inputs"], "every sequence of calls, every choice of failing requests",
     "Leaks and double releases on error paths need a failing request at one particular point; the tests inject none and do not count resources.",
     ["src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/cgsolve.c", "src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "src/l1c_memory.c", "src/json_utils.c"],
     [("cleanup labels", "src/*.c"), ("destroy functions of the transform sets", "src/dct1.c, src/dct2.c, src/dct_tv_transforms.c")],
     [part("A", "C02", 16000), part("B", "C02", 16000)],
     "one to three generated calls under failing requests; blocks, plans and files are counted around each, and every release is checked to be of something live.",
     ("resource balance as an invariant around every call under seeded failing requests",
      "Exploration of call sequences and fault sequences; the simulated heap, planner and file layer see every acquisition and release of the library."))

prop("C03", "A fault-free call after any history gives what a fresh process gives",
     "Whatever calls came before in the same process, including calls that failed or were rejected, a call during which nothing fails returns exactly the status and result it returns as the first call of a process.",
     ["histories", "fault_sequences", "inputs"], "every history of up to four earlier calls with any failing requests, every following call",
     "Module-level state (plans, buffers, counters) makes later calls depend on earlier ones; each test runs one fixed short sequence, without failures.",
     ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "src/nesta.c", "src/l1qc_newton.c", "src/l1qc_dct.c"],
     [("module state re-initialised by every set-up", "src/dct1.c, src/dct2.c, src/dct_tv_transforms.c, src/matrix_transforms.c")],
     [part("A", "C03", 9000), part("B", "C03", 9000)],
     "one to four generated calls under failing requests followed by one or two calls without faults, often of the same kind with other arguments; each fault-free call is compared bit for bit with the same call in a fresh process.",
     ("seeded histories with injected failures; refinement against a fresh process",
      "Exploration; equality is bitwise. Histories longer than four faulty calls plus two are not generated."))

prop("C04", "Results do not depend on team size or thread interleaving",
     "For every number of threads the runtime delivers and every interleaving of them, each solver, operator and kernel returns the status and, up to rounding of sums, the result of a single-threaded run. "
     "No two threads touch the same location without synchronisation when one of them writes, and no thread reaches outside the arrays of the call.",
     ["schedules", "inputs", "configurations"], "every interleaving at memory-access granularity of teams of 1 to 8 threads, every size including ones smaller than the team",
     "A test run sees one machine's thread count and a few operating-system schedules; a race shows up rarely or only with other sizes.",
     ["src/TV.c", "src/l1c_math.c", "src/l1qc_newton.c", "src/bregman.c", "src/nesta.c", "src/cgsolve.c", "src/dct1.c", "src/dct2.c"],
     [("data-sharing and reduction clauses of the parallel loops", "src/TV.c, src/l1c_math.c, src/bregman.c, src/l1qc_newton.c")],
     [part("A", "C04", 5000), part("B", "C04", 8000)],
     "one generated call on a simulated team of 1 to 8 threads, preempted at seeded memory accesses (build A) or synchronisation points (build B); result compared with one thread in a fresh process, happens-before race detection on every access.",
     ("seeded scheduler preempting at every memory access, vector-clock race detection, differential against one thread",
      "Exploration of interleavings. Numerically ill-conditioned cases (a relative input change of 1e-15 moves the result) are only checked for status and races."))

prop("C05", "Solver calls made concurrently by several threads do not interfere",
     "When several application threads call solvers and kernels at the same time, each with its own data and operators, every call returns exactly what it returns when it runs alone, whatever the interleaving and whichever memory requests fail in the others. "
     "The built-in transform sets are excepted only in that one set of a kind may be in use at a time.",
     ["schedules", "inputs", "fault_sequences"], "every interleaving of two to four calling threads, one or two calls each, with and without failing requests",
     "No test calls the library from two threads; hidden shared state in a solver would go unnoticed.",
     ["src/cgsolve.c", "src/linesearch.c", "src/bregman.c", "src/nesta.c", "src/l1qc_newton.c", "src/l1c_math.c", "src/TV.c"],
     [("all solver state on the stack or in per-call allocations", "src/cgsolve.c, src/bregman.c, src/nesta.c, src/l1qc_newton.c, src/linesearch.c")],
     [part("A", "C05", 16000), part("B", "C05", 12000)],
     "two to four simulated application threads with one or two generated calls each, preempted at seeded memory accesses, sometimes with failing memory requests; each result compared with the call alone in a fresh process, races reported.",
     ("seeded interleavings of concurrent callers, refinement against the call alone",
      "Exploration; comparison is bitwise when the calls themselves are single threaded."))

prop("C06", "Transform operators always apply their documented matrix and keep their input",
     "While a transform set (1-D DCT, 2-D DCT, DCT with total variation, explicit matrix) is in use, each of its operators returns the product with its documented matrix and leaves the input vector unchanged, no matter which operators, sets, failed set-ups, destructions and solver calls came before. "
     "Forward and transposed operators stay exact transposes of each other, and the stated norm is a bound for the analysis operator.",
     ["histories", "inputs", "fault_sequences", "configurations"], "every interleaving of set-ups, operator calls, destructions, failed set-ups and other calls, every size, sampling set and weight",
     "Tests apply each operator once to fixed data right after set-up; stale work arrays, overwritten inputs and cross-talk between modules need longer histories.",
     ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/dct_transforms.c", "src/matrix_transforms.c", "src/TV.c"],
     [("work arrays zeroed off the sampling set", "src/dct1.c, src/dct2.c"), ("assembly of sampling, DCT and difference operators", "src/dct_tv_transforms.c")],
     [part("A", "C06", 60000), part("B", "C06", 60000)],
     "four to twenty-two steps over up to four live transform sets: set-up (which may fail), operator call checked against a dense matrix model, destruction, unrelated call.",
     ("seeded histories over live transform sets, refinement against a dense matrix model",
      "Exploration; sizes up to about 120, tolerance 1e-9 relative. FFTW is the simulator's DCT, so FFTW's own accuracy is not decided."))

prop("C07", "A call rejected for its arguments returns its code and changes nothing",
     "A call whose arguments violate the documented conditions returns the documented error code, leaves every output untouched, acquires nothing, and has no effect on transform sets in use or on later calls.",
     ["inputs", "histories", "fault_sequences"], "every documented argument violation, alone or with failing memory requests, with any transform sets live",
     "Tests check a few rejected calls in isolation, never with another set live or a failing request, and do not look for side effects.",
     ["src/dct_transforms.c", "src/dct_tv_transforms.c", "src/nesta.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/bregman.c"],
     [("argument checks before any state is written", "src/dct_transforms.c, src/dct_tv_transforms.c, src/nesta.c, src/bregman.c")],
     [part("A", "C07", 80000), part("B", "C07", 40000)],
     "up to three live transform sets, then one to five calls with invalid arguments, sometimes under failing memory requests; afterwards the live sets are checked against their matrix model.",
     ("seeded rejected calls among live transform sets, effects and status as invariants",
      "Exploration over the argument conditions documented in the public header."))

prop("C08", "Loading a JSON file gives exactly the file's contents or an error",
     "Whatever file operations fail, return short, or find the file changed in between, and whichever memory requests fail, loading a file or extracting a value either yields exactly what the file contains or reports an error. "
     "An error leaves nothing open or allocated, malformed documents are errors, and absent or wrongly typed keys never produce a value.",
     ["fault_sequences", "inputs"], "every sequence of open, seek, tell, read and close outcomes and failing memory requests, every document",
     "Tests read good files from a good disk.",
     ["src/json_utils.c", "include/json_utils.h"],
     [("return values of the file operations checked", "src/json_utils.c")],
     [part("A", "C08", 80000), part("B", "C08", 40000)],
     "one to three generated documents, valid or malformed, loaded through a simulated file layer with seeded failing, short and stale operations; values extracted and compared.",
     ("simulated disk with seeded read, seek, open errors, short reads and concurrent truncation",
      "Exploration. The JSON parser itself is the installed library; text after a complete value is accepted by it and not claimed malformed, and integer extraction from a fraction truncates as it does."))

prop("C09", "User-visible output goes only to the print hook and never changes results",
     "Once a print hook is installed, all output of the library goes to it and none to standard output, in success and failure alike, and the hook's return value, verbosity level or identity never changes a status or result. "
     "At verbosity zero a successful call reports nothing, and installing a hook returns the one it replaces.",
     ["inputs", "fault_sequences", "configurations"], "every call, verbosity, hook behaviour and failing request",
     "Tests look at results, not at where text goes, and never fail the hook.",
     ["src/l1c_logging.c", "src/cgsolve.c", "src/l1qc_newton.c", "src/nesta.c", "src/l1qc_dct.c", "src/bregman.c"],
     [("replaceable print function", "src/l1c_logging.c")],
     [part("A", "C09", 20000), part("B", "C09", 16000)],
     "one generated call with verbosity 0 to 3, a print hook that returns errors at seeded calls, sometimes failing requests; standard output is watched, result compared with the silent call in a fresh process.",
     ("simulated print hook and standard output, differential over verbosity",
      "Exploration. Text on standard error is not judged."))

prop("C10", "Time never influences a result",
     "Whatever values the clock returns, including standing still, jumping forwards or backwards, and failing, every call returns the status and result it returns with a steady clock.",
     ["inputs", "fault_sequences"], "every sequence of clock readings, every call",
     "The wall clock cannot be steered by a test.",
     ["src/l1qc_dct.c", "include/l1c_timing.h", "src/nesta.c"],
     [("timing used for reports only", "src/l1qc_dct.c, include/l1c_timing.h")],
     [part("A", "C10", 20000), part("B", "C10", 16000)],
     "one generated call, once or twice, while the simulated clock jumps, stalls, runs backwards or fails at seeded readings; compared bit for bit with a steady clock in a fresh process.",
     ("simulated clock with skew, jumps and failures, differential against a steady clock",
      "Exploration; all clock functions the library links are simulated."))

prop("C11", "Every call ends within the work its iteration limits allow",
     "Whatever the operators, objective functions and data return, including NaN, infinities and garbage, every solver ends, having applied the operators at most as often as its iteration limits allow. "
     "Conjugate gradients applies the matrix at most once per allowed iteration plus once for the start, the line search evaluates at most 32 trial points, the iteration totals the l1 solver reports are those it performed, and the total-variation solver stops at the first iterate that changed by less than its tolerance.",
     ["inputs", "fault_sequences"], "every behaviour of caller-supplied operators and objectives, every option set",
     "Termination for all inputs cannot be sampled; tests use well-behaved operators.",
     ["src/cgsolve.c", "src/linesearch.c", "src/l1qc_newton.c", "src/nesta.c", "src/bregman.c"],
     [("iteration limits", "src/cgsolve.c, src/linesearch.c, src/l1qc_newton.c, src/nesta.c, src/bregman.c")],
     [part("A", "C11", 50000), part("B", "C11", 50000)],
     "one solver call with operators that return NaN, infinities, zeros, stale or scaled values at seeded calls; operator calls and simulated steps counted against the bounds its options imply; total-variation calls compared with the iterates the same solver gives without a tolerance.",
     ("misbehaving simulated operators, operator calls counted against the bound, bounded progress",
      "Exploration; the step bound for the TV solver is 400 accesses per pixel and inner iteration."))

prop("C12", "Conjugate gradients returns its best iterate with an honest residual",
     "However the matrix product misbehaves, both conjugate-gradient solvers return the iterate with the smallest residual they saw, report exactly that residual and their iteration count, and stop at the first residual below the tolerance or at the iteration limit. "
     "They leave the right-hand side unchanged and never return an iterate worse than the start.",
     ["inputs", "fault_sequences"], "every sequence of matrix products, including indefinite, noisy and non-finite ones, every size, tolerance and limit",
     "Tests solve a few positive-definite systems to convergence; the best-iterate bookkeeping only matters when the iteration goes wrong.",
     ["src/cgsolve.c"],
     [("best-solution bookkeeping and final status", "src/cgsolve.c")],
     [part("A", "C12", 120000), part("B", "C12", 80000)],
     "one conjugate-gradient call on a matrix whose products are corrupted at seeded calls; an executable model follows the recorded products and predicts the returned iterate, residual, count and status.",
     ("misbehaving simulated operator, refinement against an executable model of the iteration",
      "Exploration; where rounding alone decides a comparison only the inequality is required."))

prop("C13", "Constrained solvers return feasible points",
     "From a feasible start, the l1 solver returns a point that satisfies the measurement constraint, its true l1 norm, and success, even when the transposed operators are wrong; an infeasible start is rejected with its error code and the start unchanged. "
     "The smoothed solver returns a point within its noise bound for operators with orthonormal rows even when the analysis operator is wrong.",
     ["inputs", "fault_sequences", "configurations"], "every start, data, option set and every misbehaviour of the operators that do not define the constraint",
     "Tests compare a few solutions with stored ones; that no step ever leaves the feasible set is not visible there.",
     ["src/l1qc_newton.c", "src/linesearch.c", "src/nesta.c", "src/l1qc_dct.c"],
     [("feasibility-limited step length and line search", "src/l1qc_newton.c, src/linesearch.c"), ("projection steps", "src/nesta.c"), ("feasibility test of the start", "src/l1qc_newton.c")],
     [part("A", "C13", 60000), part("B", "C13", 60000)],
     "one solver call with operators that lie at seeded calls where the constraint does not depend on them, checked against the exact operators of the harness; infeasible starts; packaged DCT problems.",
     ("misbehaving simulated operators, feasibility of the returned point against exact operators",
      "Exploration; tolerance 1e-9 (l1 solver), and 1e-6 of the noise bound plus rounding of the vectors projected (smoothed solver); noise bounds down to 1e-10."))

prop("C14", "Line search accepts only sufficient decrease, otherwise changes nothing",
     "For every objective, both line searches try exactly the points reached by shrinking the step geometrically, accept the first whose value satisfies the sufficient-decrease condition, and return that point, its value, step and trial count. "
     "If none of the 32 allowed trials qualifies they report failure and the number of trials, and leave the iterate and objective value unchanged; the direction is never changed.",
     ["inputs", "fault_sequences"], "every sequence of objective values including NaN and infinities, every step, shrink factor and slope",
     "Tests run two objectives; exhaustion and non-finite values are not reached.",
     ["src/linesearch.c"],
     [("backtracking loop", "src/linesearch.c")],
     [part("A", "C14", 120000), part("B", "C14", 80000)],
     "one line search on an objective whose values are corrupted at seeded evaluations; the recorded evaluations are replayed through the acceptance rule.",
     ("misbehaving simulated objective, recorded evaluations checked against the rule",
      "Exploration; a trial within rounding of the threshold is not judged."))

prop("C15", "Results do not depend on uninitialised or stale memory",
     "Whatever the memory handed to the library contains and wherever it lies, whatever output arrays held before, and whatever an earlier call left in reused memory, each call returns exactly the status and result it returns with zeroed memory.",
     ["inputs", "histories", "configurations"], "every content, placement and reuse pattern of memory, every call",
     "A test's allocator mostly hands out fresh zero pages; the dependence only shows with particular contents.",
     ["src/l1c_memory.c", "src/nesta.c", "src/l1qc_newton.c", "src/bregman.c", "src/cgsolve.c", "src/dct1.c", "src/dct2.c", "src/TV.c"],
     [("explicit initialisation of work arrays", "src/*.c")],
     [part("A", "C15", 9000), part("B", "C15", 9000)],
     "one generated call while the simulated heap fills new blocks with NaN, garbage or stale data, reuses blocks and misaligns them; compared bit for bit with zeroed memory in a fresh process.",
     ("simulated heap with hostile contents, differential against zeroed memory", "Exploration; equality is bitwise."))

prop("C16", "Inputs are preserved and outputs are all or nothing",
     "No call changes an array, index list or option it is only given to read, whether it succeeds or fails. "
     "A call that fails because a memory or plan request failed leaves its output array exactly as it was, and no call writes outside the arrays it was given.",
     ["inputs", "fault_sequences"], "every call, argument set and choice of failing requests",
     "Tests do not compare inputs before and after, and never make a call fail half-way.",
     ["src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/cgsolve.c", "src/dct1.c", "src/dct2.c", "src/TV.c"],
     [("private copies of data", "src/l1qc_dct.c, src/nesta.c, src/bregman.c"), ("allocation before the first write", "src/*.c")],
     [part("A", "C16", 20000), part("B", "C16", 16000)],
     "one or two generated calls under failing requests; inputs compared bit for bit afterwards, outputs compared with their prior contents on failure, red zones checked.",
     ("seeded failing requests, inputs and outputs compared before and after each call", "Exploration; comparison is bitwise."))

prop("C19", "Allocated arrays are aligned, disjoint, complete and zeroed when promised",
     "For every sequence of allocations and releases and every choice of failing requests, an allocation returns either no array and keeps nothing, or arrays that start on a 64-byte boundary, have their full length, are disjoint from every other live array, and are all zero if the zeroing variant was called. "
     "Releasing gives everything back, and releasing nothing is harmless.",
     ["histories", "fault_sequences", "inputs"], "every sequence of one- and two-dimensional allocations and releases, every failing request",
     "Tests allocate a handful of arrays and never run out of memory.",
     ["src/l1c_memory.c"],
     [("aligned allocation and clean-up of partially built arrays", "src/l1c_memory.c")],
     [part("A", "C19", 100000), part("B", "C19", 60000)],
     "four to twenty-four allocations and releases under failing requests, on a heap that misaligns, reuses and dirties blocks; every live array is verified after each step.",
     ("simulated heap with failing, skewed and dirty blocks; live arrays checked as an invariant", "Exploration."))

prop("C17", "Each Python call either raises or returns the library's result",
     "Every call of the Python module either raises an exception or returns new arrays and values equal to what the C library computes for the same data, never both and never neither. "
     "Arguments of the wrong type, length, dimension or index range raise; the arguments are not modified; and in success and failure alike, whichever memory, plan or interpreter requests fail, every reference count is balanced and nothing stays allocated.",
     ["inputs", "fault_sequences", "histories"], "every sequence of calls of l1qc_dct, nesta_dctTV and breg_anistropic_TV, every argument form (type, layout, default or keyword), every choice of failing requests",
     "The Python tests make one good call per function; reference counts, error paths and unusual array layouts are not looked at.",
     ["interfaces/python/l1cPy.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/dct_tv_transforms.c"],
     [("argument conversion, owned references and clean-up labels", "interfaces/python/l1cPy.c")],
     [part("P", "C17", 24000)],
     "one to three calls of the real extension module inside an embedded interpreter with real numpy: valid and invalid arguments in several array forms, failing memory, plan, numpy-conversion and value-building requests; references, blocks, arrays and results compared with the C library in a fresh process.",
     ("embedded CPython with simulated memory, plans and failing interpreter requests; result refinement against the C library",
      "Exploration. CPython and numpy are real; their own allocations are not failed, only the conversion, array and value-building calls the binding makes."), [A_ASSUME])

prop("C18", "Each MEX call either raises an error or sets correct outputs",
     "Every call of a MATLAB/Octave gateway either raises an error through the host or sets every requested output, equal to what the C library computes for the same data in column-major order. "
     "Invalid arguments (count, class, shape, options, index range, mode) and failed memory or plan requests are reported, by an error or by the status output; the arguments are not modified, nothing stays allocated, and text goes to the host's print function.",
     ["inputs", "fault_sequences", "histories"], "every sequence of calls of the three gateways, every argument shape and option set, every choice of failing requests",
     "The repository's MEX tests need a MATLAB host and are not run; none makes a request fail.",
     ["interfaces/mex/l1qc_dct_mex.c", "interfaces/mex/nesta_dctTV_mex.c", "interfaces/mex/breg_anistropic_TV_mex.c", "interfaces/mex/l1c_mex_utils.c"],
     [("argument checks, conversion of indices, clean-up before raising", "interfaces/mex/*.c")],
     [part("M", "C18", 24000)],
     "one to three calls of the real gateways against a simulated mx/mex host whose error call never returns: valid and invalid arguments, failing memory and plan requests; outputs, arguments and blocks checked.",
     ("simulated MATLAB host with failing requests; result refinement against the C library",
      "Exploration. The mx/mex host API is a stand-in written from its documentation."), [A_ASSUME])

prop("C20", "Vector kernels and difference operators equal their definition",
     "For every length, image size from two rows and two columns on, data, thread count and interleaving, each vector kernel (scaled sums, products, norms, sums, logarithm sums, maxima, soft threshold), each difference operator with its transpose and normal product, and each linear-solver sweep of the TV solver returns what its documented formula gives, to rounding, and writes nothing but its output.",
     ["inputs", "schedules", "configurations"], "every kernel, length, image shape, coefficient and data, on teams of 1 to 8 threads under every interleaving",
     "Tests use one or two sizes per kernel and one thread count; remainders of vector loops, team sizes that do not divide the length and borders of thin images are not reached.",
     ["src/l1c_math.c", "src/TV.c", "src/bregman.c", "src/vcl/vcl_math.cpp", "include/l1c_math.h"],
     [("parallel element loops and reductions", "src/l1c_math.c, src/TV.c"), ("vectorised loops with a scalar remainder", "src/vcl/vcl_math.cpp"), ("sweeps of the TV solver", "src/bregman.c")],
     [part("A", "C20", 60000), part("B", "C20", 120000)],
     "one to three kernel calls on a simulated team of 1 to 8 threads under seeded preemption and hostile memory contents; results compared entry by entry with the formula, evaluated sequentially by the harness.",
     ("seeded scheduler over simulated teams, refinement against sequential reference formulas",
      "Exploration; tolerance is a small multiple of rounding. BLAS calls inside kernels are the simulator's reference loops."))

prop("C21", "Solvers return near-minimisers of the stated problem",
     "With converging options and measurement operators with orthonormal rows, a solver that reports success returns a feasible point that no other feasible point beats by more than the accuracy asked for: a small multiple of the barrier tolerance for the l1 solvers, the smoothing bound for the smoothed solver, almost nothing for the TV denoiser. "
     "This holds for every team, interleaving, memory content and whatever calls failed before.",
     ["inputs", "schedules", "histories", "fault_sequences"], "every planted signal, noise, sampling set, operator set (caller's own, DCT, DCT with total variation, matrix), accuracy, team, interleaving and failed earlier call",
     "Tests compare a few solutions with stored ones at one accuracy; a solver that stops short or follows a wrong direction on other data passes them.",
     ["src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/cgsolve.c", "src/linesearch.c", "src/dct_tv_transforms.c"],
     [("log-barrier Newton iteration", "src/l1qc_newton.c"), ("accelerated projected gradient with continuation", "src/nesta.c"), ("split Bregman iteration", "src/bregman.c")],
     [part("A", "C21", 24000), part("B", "C21", 60000)],
     "one solver call on a random planted problem on a simulated team, after a call in which requests failed; its objective compared with the best feasible point of an independent primal-dual iteration in the harness and with the planted signal.",
     ("seeded schedules and earlier failures, minimality against independently computed feasible competitors",
      "Exploration; a competitor is only ever a feasible point, so the check is sound whatever the quality of the harness' own solver. Allowed: 20 lbtol + 1 % (l1), mu p + 10 % (smoothed), 1e-6 (TV)."))

na("N01", "Every supported build configuration computes the same results",
   "Whichever libraries and instruction sets the library was configured with (FFTW or MKL transforms, OpenBLAS, ATLAS or MKL kernels, vector width, with or without the vector class library), every call returns the same result up to rounding.",
   ["configurations"], "every build configuration",
   "One configuration is built and tested.",
   ["CMakeLists.txt", "src/CMakeLists.txt", "l1c_config.h.in", "include/cblas_wrapper.h"],
   [("configuration switches", "l1c_config.h.in, src/CMakeLists.txt")],
   "It compares deterministic binaries that differ at compile time; there is no schedule, time, I/O or fault for a simulator to choose, and MKL and ATLAS are not installed. Only the transform and BLAS semantics the library relies on are simulated.")
na("N02", "Option builders of the MATLAB and Python scripts yield valid defaults",
   "The option-building scripts (l1qc_dct_opts.m, nesta_opts.m, the ctypes wrapper L1c.py) give, for every choice of name-value pairs, a complete option set that the gateway accepts with the documented defaults.",
   ["inputs"], "every set of name-value pairs",
   "Only the defaults are exercised.",
   ["interfaces/mex/l1qc_dct_opts.m", "interfaces/mex/nesta_opts.m", "interfaces/python/L1c.py"],
   [("inputParser defaults", "interfaces/mex/l1qc_dct_opts.m, interfaces/mex/nesta_opts.m")],
   "Sequential scripts without state, time, I/O or faults, interpreted by MATLAB or Octave; nothing in them depends on anything a simulator controls. What the gateways do with any option set is C18.")
