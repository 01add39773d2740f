"""What each check runs: harness sources, build variant and number of cases."""
import build as B


def leg(src, quick, thorough, name="asan", variant="asan", **kw):
    d = dict(name=name, variant=variant, src=src if isinstance(src, list) else [src],
             cases=dict(quick=quick, thorough=thorough))
    d.update(kw)
    return d


CHECKS = {
    "C01": dict(
        legs=[leg("c01", 36000, 1200000)],
        rule="random square systems over 12 pattern families x 11 value kinds x scales x right-hand sides x options, "
             "solved by the one-call solver, the three-step sequence, or with a user column order; non-trivial: "
             "nonsingular, order >= 2, at least one right-hand side; distinct by matrix digest, route, ordering, pivot rule",
        technique="randomized API workload under ASan/UBSan with an independent modular/rational residual monitor",
        note="Exploration: every returned entry is checked, a wrong entry escapes the two 61-bit primes with probability "
             "< 2^-100; inputs are sampled. Trusts GMP read-only arithmetic and the sanitizers."),
    "C02": dict(
        legs=[leg("c02", 60000, 1500000)],
        rule="random nonsingular systems solved as exact, FP64 and MPFR (random precision and rounding mode), plus entries "
             "constructed to be at representable values, midpoints and neighbours; non-trivial: at least one entry not "
             "representable exactly; distinct by matrix digest, precision and rounding mode",
        technique="randomized API workload under ASan/UBSan with an integer-arithmetic rounding monitor",
        note="Exploration: each rounded entry is compared with an independent rounding of the exact solution. Inputs are "
             "sampled. Doubles outside the normal range are not judged."),
    "C03": dict(
        legs=[leg("c03", 80000, 2000000)],
        rule="random square matrices factorized with all orderings and pivot rules; non-trivial: nonsingular of order >= 2; "
             "distinct by matrix digest, ordering, pivot rule",
        technique="randomized API workload under ASan/UBSan with a structural and modular-determinant monitor of the factors",
        note="Exploration: every entry of L, U and rhos is compared with the subdeterminant it must equal, modulo 61-bit "
             "primes; structure is checked exactly. Inputs are sampled."),
    "C04": dict(
        legs=[leg("c04", 120000, 3000000)],
        rule="random matrices, half of them made singular by construction (empty/duplicate/dependent rows and columns, "
             "structural deficiency, cancellation to zero at the last pivot) and near misses; distinct by matrix digest, "
             "ordering, pivot rule",
        technique="randomized API workload under ASan/UBSan with a modular-rank monitor",
        note="Exploration: singularity is decided by rank modulo several 61-bit primes (full rank modulo one prime is a "
             "proof of nonsingularity; deficiency in all of them is taken as singularity). Inputs are sampled."),
    "C05": dict(
        legs=[leg("c05", 150000, 4000000)],
        rule="random matrices with entries of comparable size, ties, negative and huge values, all six pivot rules and random "
             "tolerances; non-trivial: at least one step with two or more candidates; distinct by matrix digest and rule",
        technique="randomized API workload under ASan/UBSan with an exact replay of the pivot rule as monitor",
        note="Exploration: at every step the chosen pivot row is checked against the documented rule on the exact candidate "
             "values recovered from L. Inputs are sampled."),
    "C06": dict(
        legs=[leg("c06", 250000, 6000000)],
        rule="random square CSC patterns (13 families, dense/empty rows and columns, unsorted) of all value types, all orderings, "
             "NULL options, and failures injected into the ordering method; non-trivial: n >= 2 and at least 2 entries; distinct "
             "by pattern and ordering",
        technique="randomized API workload under ASan/UBSan with a permutation/estimate monitor and reference calls of AMD and COLAMD",
        note="Exploration: every analysis is checked for a valid permutation, equality with a direct call of the ordering method, "
             "and estimates in [n, n^2]. The ordering methods themselves are checked by C14-C16. Inputs are sampled."),
    "C10": dict(
        legs=[leg("c10", 300000, 8000000)],
        rule="all 225 ordered pairs of formats in turn with random dimensions, patterns, values (including extreme, infinite and NaN "
             "where convertible), scales, precisions and rounding modes; non-trivial: at least one entry; distinct by digest of the copy",
        technique="randomized API workload under ASan/UBSan with an exact rational conversion monitor",
        note="Exploration: every entry of every copy is compared with an independent rational computation of the documented conversion. "
             "int64 results obtained through a double may be either correctly truncated value. Inputs are sampled."),
    "C13": dict(
        legs=[leg("c13", 150000, 4000000)],
        rule="random programs of 40 wrapper calls over 4 mpz, 4 mpq and 4 mpfr variables with aliased operands; distinct by trace",
        technique="shadow-execution monitor: every wrapper call is compared with the direct GMP/MPFR call, under ASan/UBSan",
        note="Exploration: after each call all 12 variables, the returned scalar and the status are compared with the shadow. "
             "Trusts GMP/MPFR themselves. Operands are sampled."),
    "C07": dict(
        legs=[leg("c07", 16000, 800000),
              leg("c07", 1200, 40000, name="memcheck", variant="plain", slow=20,
                  wrap=["valgrind", "--error-exitcode=97", "--exit-on-first-error=yes", "--leak-check=no", "--quiet"])],
        rule="random programs of 15-70 calls over the whole API (matrices of every format incl. shallow and empty ones, analyses, "
             "factorizations, solves, conversions, wrappers, memory blocks, AMD/COLAMD/SYMAMD in int and long); distinct by the "
             "sequence of calls",
        technique="sanitizers as oracle: random API programs under ASan+UBSan+float-cast-overflow and, separately, valgrind memcheck (uninitialised values)",
        note="Exploration: every execution is watched by the sanitizers; code not reached by the programs is not judged. GMP/MPFR "
             "are not instrumented (memcheck sees into them). Inputs are sampled."),
    "C09": dict(
        legs=[leg("c09", 36000, 2000000)],
        rule="random API programs with an allocator that records every block, freeing everything through the documented calls in "
             "random order; distinct by sequence of calls",
        technique="conservation monitor over recorded allocation/free events (balanced, no bad free), under ASan/UBSan",
        note="Exploration: a leak, double free or free of a foreign block is seen by the recorder in any explored program. Inputs are sampled."),
    "C18": dict(
        legs=[leg("c18", 34000, 1200000)],
        rule="random API programs of 2-3 sessions with failing calls in between; every live object is digested around every call and "
             "every (call, inputs) pair is compared with its earlier occurrences; distinct by sequence of calls with at least one repeat",
        technique="history monitor: object digests around each call and a memo of (call, inputs) -> outputs over sessions, under ASan/UBSan",
        note="Exploration: a change of an input object, or a result that depends on earlier calls, is seen in any explored history. Inputs are sampled."),
    "C22": dict(
        legs=[leg("c22", 34000, 1200000)],
        rule="random histories of initializations (plain, with user functions, repeated), finalizations (also repeated), calls outside a "
             "session on null arguments and on live objects of an earlier session, and work inside; non-trivial: two or more sessions; "
             "distinct by history",
        technique="online protocol monitor: a two-state model predicts every status; digests of objects, configuration and allocator events around every call, under ASan/UBSan",
        note="Exploration: every status is compared with the model and every object, function pointer and counter with its value before. "
             "Histories are sampled."),
    "C08": dict(
        legs=[leg("c08", 70000, 1500000)],
        rule="one call (solves, factorizations, analyses, copies, checks, allocations, memory functions, orderings, 55 big-number wrappers) on "
             "random valid inputs, first without failures, then once per failing allocation index (40 sampled indices when there are more, "
             "400 in the thorough tier), single and persistent, then again without; non-trivial: the call allocates; distinct by call and inputs",
        technique="fault injection at every allocation with a monitor of status, results, inputs and allocator balance, under ASan/UBSan",
        note="Exploration: failure points are enumerated per input up to the bound; inputs are sampled. Failures inside GMP/MPFR are "
             "injected through the same memory functions."),
    "C11": dict(
        legs=[leg("c11", 60000, 2500000)],
        rule="random valid matrices of all 15 formats with 0-3 of 28 corruptions of dimensions, counts, kind, type, pointers and arrays, "
             "each checked at every print level and with NULL options, all arrays in exactly sized blocks; non-trivial: an invalid matrix "
             "or one with entries; distinct by digest of the (corrupted) matrix",
        technique="corruption workload under ASan/UBSan with an independent validity predicate as monitor",
        note="Exploration: verdicts are compared with an independently written predicate; any access outside the arrays is seen by the "
             "sanitizer. Matrices and corruptions are sampled."),
    "C12": dict(
        legs=[leg("c12", 36000, 1500000)],
        rule="1-4 calls per case of the eight matrix-level functions with one or two of their arguments replaced by an invalid one (null, wrong "
             "kind, wrong type, rectangular, of another system, out-of-range enum, negative dimension), the handles null or pre-set; every "
             "case is non-trivial; distinct by the sequence of calls and substitutions",
        technique="negative-argument workload under ASan/UBSan with a monitor of status, handles, argument digests, allocator balance and output",
        note="Exploration: every rejected call is judged on all its arguments; a valid solve afterwards is compared with the one before. "
             "Combinations of arguments are sampled."),
    "C14": dict(
        legs=[leg("c14", 90000, 3000000)],
        rule="random n-by-n patterns (banded, grid, arrow, dense rows, disconnected, empty, n=0) sorted, jumbled or with duplicates, invalid "
             "inputs of every documented kind, random control settings and failing allocations; all arrays exactly sized; non-trivial: an "
             "off-diagonal entry, an invalid input or a failed allocation; distinct by digest of input and settings",
        technique="differential and metamorphic monitor (int vs long, diagonal, arrangement, duplicates) plus permutation and status oracle under ASan/UBSan",
        note="Exploration: every returned ordering and status is judged; inputs and settings are sampled."),
    "C15": dict(
        legs=[leg("c15", 20000, 1500000)],
        rule="batches of 12 random patterns with random control settings; the statistics are compared with an independent symbolic "
             "factorization under the returned ordering; distinct by digest of input and settings",
        technique="offline checker: recorded statistics against an independent symbolic factorization of A+A' under the returned ordering",
        note="Exploration: equality for the counts that are exact, lower bound per matrix and 5% + 60 upper margin per batch for the fill "
             "and operation counts (they are upper bounds by design). Inputs are sampled."),
    "C16": dict(
        legs=[leg("c16", 100000, 4000000)],
        rule="random patterns (rectangular and square, sorted or with unsorted and duplicate entries), knobs, workspace lengths from too small to "
             "generous, and invalid inputs of each documented kind, given to colamd, colamd_l, symamd, symamd_l and the recommended functions; "
             "distinct by digest of input and settings",
        technique="differential (32/64 bit, entry arrangement) and reference-count oracle for permutation, statistics and error codes, with sized "
                  "workspace buffers, failing allocators and ASan/UBSan watching the accesses",
        note="Exploration: every returned ordering, statistics array and error is judged; inputs and settings are sampled."),
    "C17": dict(
        legs=[leg("c17", 720, 60000)],
        rule="batches of 16 matrices (8 random ones and permuted copies, whole or partly stored, with or without the diagonal, optionally with "
             "duplicates) of one of 18 families (grids, bands, arrows, random, trees, cliques, geometric and power-law graphs, dense rows; for COLAMD "
             "elements, staircase, incidence and others), n up to 1500; distinct by digest of the batch",
        technique="quality monitor: symbolic fill of each returned ordering against exact greedy minimum degree and random orderings, with margins "
                  "calibrated per family, for AMD, SYMAMD, COLAMD, SLIP_LU_analyze and the sizes of actual SLIP_LU factors",
        note="Exploration, statistical: a degradation below the margins (2.5-5% per batch, 32-40% per matrix; none on forests) is not seen."),
    "C19": dict(
        legs=[leg("c19", 40000, 2500000)],
        rule="(1) random matrices of all 15 formats, valid and damaged, through SLIP_matrix_check at 7 print levels, the text parsed back; (2) workloads "
             "(with errors, singular systems and injected allocation failures) run at level 0 and repeated at levels 1-4 with the print function "
             "captured, disabled or the default; (3) random API programs; (4) the report functions of the orderings; distinct by digest of matrix or program",
        technique="trace monitor: every call of the print function and every byte reaching file descriptors 1 and 2 is recorded and judged against "
                  "the print level; an independent parser compares the printed numbers with the matrix",
        note="Exploration: all output of the calls made is observed; inputs are sampled. The wording is not judged, only the numbers, the names of "
             "kind and type, and the number of lines."),
    "C26": dict(
        legs=[leg("c26", 40000, 3000000)],
        rule="pairs and quadruples of doubles over the whole range (extremes, subnormals, Pythagorean, equal, nearly equal, zero of both signs); 20 per "
             "case, each in all sign and order variants; distinct by the bits of the arguments",
        technique="differential oracle: MPFR at 300-2000 bits, with an error budget of 3 ulp (hypot) and 5 eps normwise (division), under UBSan",
        note="Exploration. The quotient is judged for components of magnitude 2^-400..2^400 or zero; outside only the reported zero denominator is."),
    "C20": dict(
        legs=[leg("c20", 100000, 5000000)],
        rule="random sequences of the allocation functions (SLIP_* and SuiteSparse_*) over sizes from zero to overflowing products, with failures "
             "injected anywhere and custom or default allocators, inside and outside sessions; distinct by digest of the calls",
        technique="online monitor: every underlying allocator call is recorded and judged against the contract; block contents are compared with a "
                  "model, under ASan (exact block bounds) and UBSan",
        note="Exploration: every call made is judged; sizes, histories and failures are sampled."),
    "C21": dict(
        legs=[leg("c21", 60000, 900000)],
        rule="random nonsingular systems, scaled, with 0-6 right-hand sides, solved with intact factors or with one thing replaced (entry of A, L, U, "
             "a pivot, a permutation, factors of another matrix); distinct by digest of matrix, damage and number of right-hand sides",
        technique="differential oracle: the unchecked solution is judged independently modulo two primes of about 61 bits and compared with the verdict "
                  "of the checked solve",
        note="Exploration: every verdict is judged both ways; inputs and damage are sampled. A wrong solution is mistaken for an exact one by the "
             "oracle with probability below 2^-100 for unrelated primes."),
    "C23": dict(
        legs=[leg("c23", 12000, 200000, name="tsan", variant="tsan", jobs=4)],
        rule="2-8 threads making 1-4 calls each of AMD, COLAMD and SYMAMD (both integer sizes, valid, invalid and out-of-memory calls, reports) on "
             "separate data and on shared read-only inputs and settings, with delays injected at every allocation, print and call boundary; distinct "
             "by the observed interleaving of these events",
        technique="ThreadSanitizer race detection over concurrent calls with injected delays, and comparison of every concurrent result with the "
                  "sequential one",
        note="Exploration: races are reported for the executions made (happens-before, so largely independent of the timing); schedules are sampled."),
    "C25": dict(
        legs=[leg("c25", 1200, 120000, name="fortran", builder=B.build_fortran)],
        rule="batches of 12 symmetric graphs of 10 families (or one with rows whose indices sum beyond the integer range) given to AMD and AMDBAR "
             "with ample, minimal, intermediate and exactly sufficient workspace, rows in any order and with gaps; distinct by digest of the batch",
        technique="sanitizers and Fortran array bounds checks over randomized calls, with an offline checker of permutations, assembly tree and "
                  "workspace reports and a symbolic fill comparison with the C version",
        note="Exploration: every output is judged; inputs are sampled. Fill margins: 8% + 60 per batch, 30% + 20 per graph against the C version. "
             "Gaps between rows hold non-negative values (the code relies on it when it compresses)."),
    "C30": dict(
        legs=[leg("c30", 2200, 200000)],
        rule="batches of 12 symmetric graphs of 12 families, each given to amd_2 and amd_l2 in the recommended, the minimal, a random and an ample workspace, "
             "with and without Info, rows in any order and with gaps, random control settings; distinct by digest of the batch",
        technique="sanitizers over exactly sized arrays, with an offline checker of permutation, assembly tree, degrees and statistics against each other "
                  "and against a symbolic factorization",
        note="Exploration: every output is judged; inputs are sampled. Fill margins: 8% + 60 per batch, 35% + 30 per graph against amd_order; "
             "degrees at most 5% + 60 per batch above the true ones. Gaps between rows hold non-negative values (garbage collection relies on it)."),
    "C31": dict(
        legs=[leg("c31", 50000, 1000000)],
        rule="batches of 20 reports: amd_info, amd_control, colamd_report and symamd_report in both integer types, on the statistics of real runs (valid, jumbled, "
             "invalid, out of memory) and on made-up ones of any size, on settings of any kind, and the report SLIP_LU_analyze shows; distinct by digest of what is reported",
        technique="trace monitor: the text passed to the print function is parsed back and compared number by number, and by key words, with the array reported",
        note="Exploration. Numbers, their sequence, the verdict and a key word per status are judged, not the wording."),
    "C24": dict(
        legs=[leg("c24", 2600, 150000, name="sliplu", builder=B.build_sliplu)],
        rule="the program run in a child process on generated matrix and right-hand side files (order 1-12, 0-4 right-hand sides, big entries, varied "
             "layout; one in four damaged: cut, empty, tokens or bytes replaced, dropped, added or swapped, bad indices and headers, missing files) with "
             "random options, valid and invalid, and on the bundled system; distinct by digest of command line and files",
        technique="black-box monitor under ASan/UBSan: exit, output and the solution seen at the library boundary are judged against a strict parser of "
                  "the files, an exact singularity test and a modular check of the solution",
        note="Exploration: every run is judged; files and options are sampled. Files whose meaning is not documented (duplicates, text after the last "
             "number) are only watched for crashes."),
    "C27": dict(
        legs=[leg("c27", 16000, 800000, name="mex", builder=B.build_mex)],
        rule="1-3 calls per case of the gateways SLIP_mex_soln, amd, colamd and symamd inside a stand-in for MATLAB: random systems of doubles "
             "(integers, fractions, extremes), option structs with valid and invalid fields, invalid arguments of each kind, calls ended by MATLAB for "
             "lack of memory, full and sparse patterns, knobs; distinct by digest of the arguments",
        technique="runtime monitor in the host: every array access function, allocation, error and print is observed and judged, under ASan/UBSan, with "
                  "a modular oracle for the solution and the C routines as reference for the orderings",
        note="Exploration. The host implements the 35 functions the gateways use after their documentation; MATLAB itself, the .m files and the vpa "
             "conversion are not run."),
    "C28": dict(
        legs=[leg("c28", 14000, 800000, name="steps", variant="steps", builder=B.build_steps)],
        rule="random square systems as for C01 and, 6% of them, sparse ones of order 300-3000 whose factors stay sparse; distinct by matrix digest, ordering and pivot rule",
        technique="resource monitor: basic blocks entered, arithmetic calls, block sizes and peak memory of every factorization and solve against a symbolic elimination",
        note="Exploration: the structure of the factors is compared exactly with the structural fill; the other bounds are a constant factor above the reference, so only a change of "
             "order of magnitude or growth with the size is seen. Inputs are sampled."),
    "C29": dict(
        legs=[leg("c29", 14000, 400000, name="steps", variant="steps", builder=B.build_steps)],
        rule="half: copies between all kinds and types of matrices with up to 6000 entries (tall, wide, one heavy row or column), checked and freed; half: AMD, COLAMD and SYMAMD "
             "in both integer sizes on 16 families of sparse patterns of order 20-3000; distinct by digest of the input",
        technique="resource monitor: basic blocks entered, bytes allocated and peak memory of every call against the size of its input and the documented memory",
        note="Exploration: the bounds are a constant factor above the size of the input (documented amounts are exact), so only growth with the size is seen. Inputs are sampled."),
}
