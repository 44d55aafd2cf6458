#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
S = "SLIP_LU/Source/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Solutions are exact",
 "For every nonsingular square matrix A and every right-hand side b, with any number of columns and any scale factors, the matrix X that the solver returns satisfies A*X = b exactly in rational arithmetic, each matrix standing for its stored integers divided by its scale. This holds for every column ordering, every pivoting scheme and tolerance, and for every reuse of one analysis and factorization with further right-hand sides.",
 ["inputs", "configurations"], "all nonsingular A, all b (zero columns, many columns, any scale), all orderings x pivot schemes x tolerances",
 "Tests solve a handful of fixed systems, mostly with the default COLAMD ordering and one right-hand side; values, patterns with fill-in/cancellation, scale factors and combinations of options are not enumerable by tests.",
 [S+"SLIP_LU_solve.c", S+"slip_forward_sub.c", S+"slip_back_sub.c", S+"slip_matrix_mul.c", S+"slip_matrix_div.c", S+"slip_permute_b.c", S+"slip_permute_x.c"],
 [("REF forward substitution with history", S+"slip_forward_sub.c"), ("scaled back substitution", S+"slip_back_sub.c"), ("row/column permutation of b and x", S+"slip_permute_b.c, "+S+"slip_permute_x.c"), ("final rescale by A->scale/b->scale", S+"SLIP_LU_solve.c")],
 ["return of SLIP_LU_solve", "return of SLIP_backslash"])

prop("C02", "Singular is reported exactly when the determinant is zero",
 "Factorizing a square integer matrix (or solving with it) reports singularity if and only if its determinant is zero, whatever the ordering, the pivoting scheme or the tolerance. When it reports singularity it returns no factors and no solution; when it does not, it returns them.",
 ["inputs", "configurations"], "all square A, singular structurally or only numerically (cancellation, empty row/column, duplicated columns), every ordering and pivot scheme",
 "Tests contain one singular matrix under default options; numerically singular matrices whose zero pivot appears only after exact cancellation are unbounded.",
 [S+"SLIP_LU_factorize.c", S+"slip_get_pivot.c", S+"slip_get_smallest_pivot.c", S+"slip_get_largest_pivot.c", S+"slip_get_nonzero_pivot.c", S+"SLIP_backslash.c"],
 [("no eligible nonzero pivot => SLIP_SINGULAR", S+"slip_get_smallest_pivot.c"), ("numerical zero test after exact cancellation", S+"slip_get_pivot.c")],
 ["return of SLIP_LU_factorize", "return of SLIP_backslash"])

prop("C03", "The factorization is the exact integer-preserving LU of PAQ",
 "For a nonsingular A the factorization returns integer matrices with P*A*Q = L*inv(D)*U exactly, L lower triangular and U upper triangular, both with the pivots rhos on their diagonal, where every entry is a minor of the permuted matrix (the k-th pivot is its leading k-by-k minor), the row permutation is a permutation, and every row index is within the matrix and not repeated in its column. In particular the last pivot is the determinant of P*A*Q, and L, U and rhos have scale one.",
 ["inputs", "configurations"], "all nonsingular A including fill-in, explicit zeros, unsorted columns, large entries, sizes that force the storage of L and U to grow",
 "Tests only compare final solutions on a few matrices; nothing looks at L, U, rhos or the permutation.",
 [S+"SLIP_LU_factorize.c", S+"slip_ref_triangular_solve.c", S+"slip_reach.c", S+"slip_dfs.c", S+"slip_sparse_realloc.c", S+"slip_sparse_collapse.c"],
 [("sparse REF triangular solve with history vector", S+"slip_ref_triangular_solve.c"), ("nonzero pattern by depth-first search", S+"slip_reach.c, "+S+"slip_dfs.c"), ("growth of L and U", S+"slip_sparse_realloc.c"), ("row permutation bookkeeping", S+"slip_get_pivot.c")],
 ["return of SLIP_LU_factorize"],
 [dict(name="h", meaning="history: last elimination step applied to x[i]", where=S+"slip_ref_triangular_solve.c"), dict(name="rhos", meaning="pivot sequence", where=S+"SLIP_LU_factorize.c")])

prop("C04", "Every pivot obeys the requested pivoting rule",
 "In every column the chosen pivot is a nonzero candidate that the requested scheme permits: one of smallest magnitude; one of largest magnitude; the diagonal whenever it is an eligible nonzero and otherwise one of smallest magnitude; any nonzero; or, for the two tolerance schemes, the diagonal exactly when it is eligible and |smallest|/|diagonal| (respectively |diagonal|/|largest|) is at least the tolerance, and otherwise one of smallest (respectively largest) magnitude. The comparison with the tolerance is exact, and which of several candidates of equal magnitude wins is unspecified.",
 ["inputs", "configurations"], "all columns of all matrices, negative and equal-magnitude candidates, every scheme and every tolerance in (0,1]",
 "A wrong pivot still gives the right solution, so no test of solutions can see it.",
 [S+"slip_get_pivot.c", S+"slip_get_smallest_pivot.c", S+"slip_get_largest_pivot.c", S+"slip_get_nonzero_pivot.c"],
 [("scheme dispatch and tolerance test", S+"slip_get_pivot.c"), ("smallest / largest / first nonzero search", S+"slip_get_smallest_pivot.c, "+S+"slip_get_largest_pivot.c")],
 ["pinv and rhos returned by SLIP_LU_factorize"])

prop("C05", "Symbolic analysis returns a usable column permutation and estimates",
 "For every valid square sparse matrix of any value type, analysis succeeds and returns an object whose first n column indices are a permutation of 0..n-1 (the identity when no ordering is requested) and whose estimates for L and U lie between n and n*n for n >= 1. If the ordering method reports failure (invalid matrix or lack of memory) the analysis reports it too and returns no object.",
 ["inputs", "configurations", "fault_sequences"], "all patterns (empty, dense, unsorted, with dense rows, diagonal), every ordering, every allocation failure",
 "Tests use COLAMD on a few patterns; orderings only affect fill, so a bad permutation or ignored failure may not show up in a solution.",
 [S+"SLIP_LU_analyze.c", S+"SLIP_LU_analysis_free.c", "AMD/Source/amd_order.c", "COLAMD/Source/colamd.c"],
 [("ordering dispatch", S+"SLIP_LU_analyze.c"), ("clamping of lnz and unz", S+"SLIP_LU_analyze.c")],
 ["return of SLIP_LU_analyze"])

prop("C06", "Backslash returns the exact solution converted to the requested type",
 "Solving in one call gives the exact rational solution when rationals are requested; when doubles are requested each entry is the exact solution entry truncated toward zero to a double, and when multiprecision floats are requested it is the exact entry rounded once, in the requested rounding mode, to the requested precision. The result is a dense matrix of the requested type with as many rows as A has columns and as many columns as b, and with scale one.",
 ["inputs", "configurations"], "all solvable systems, three output types, all rounding modes, precisions from 2 bits up, values beyond double range",
 "Tests print or compare a few doubles; rounding mode, precision, truncation at halfway points, overflow and negative values are not examined.",
 [S+"SLIP_backslash.c", S+"SLIP_matrix_copy.c", S+"slip_cast_array.c", S+"slip_create_mpfr_array.c"],
 [("final conversion of the rational solution", S+"SLIP_backslash.c"), ("MPQ to FP64/MPFR casts", S+"slip_cast_array.c")],
 ["return of SLIP_backslash"])

prop("C07", "Copying a matrix preserves pattern, dimensions and value",
 "Copying a matrix to any storage kind, within one value type or between types where the conversion is exact, gives a fully owned matrix of the requested kind and type with the same dimensions that represents the same rational matrix (stored integers divided by scale), with neither entries lost nor invented; sparse-to-sparse copies keep every stored entry including explicit zeros, dense-to-sparse copies store exactly the nonzeros. The source is left untouched and the result does not share memory with it.",
 ["inputs"], "3 kinds x 3 kinds x all exact type pairs x shapes (0xn, rectangular, empty, unsorted, explicit zeros) x scales x shallow sources",
 "Tests cover the 75 kind/type pairs once, on one small matrix with scale one, and mostly check only the status.",
 [S+"SLIP_matrix_copy.c", S+"slip_cast_matrix.c", S+"slip_cast_array.c", S+"slip_cumsum.c"],
 [("kind conversion", S+"SLIP_matrix_copy.c"), ("value conversion", S+"slip_cast_array.c, "+S+"slip_cast_matrix.c")],
 ["return of SLIP_matrix_copy"])

prop("C08", "Conversion to integers keeps values up to the documented scaling",
 "Converting a matrix to the integer type yields integers and one nonzero scale such that integer/scale equals the source value exactly for integer and rational sources, equals the source double rounded, in the option's rounding mode, to a multiple of 10^-17, and equals the source multiprecision value rounded, in that mode, to a multiple of 2^-prec (arithmetic being carried out with prec-bit significands). This includes matrices that are empty or entirely zero, for which the scale is still nonzero.",
 ["inputs", "configurations"], "all finite source values (tiny, huge, negative, zero), all storage kinds, precisions and rounding modes",
 "Tests convert fixed small values and check only that solving still works.",
 [S+"slip_expand_double_array.c", S+"slip_expand_mpfr_array.c", S+"slip_expand_mpq_array.c", S+"slip_cast_array.c"],
 [("scale by 10^17, reduce by gcd", S+"slip_expand_double_array.c"), ("scale by 2^prec, reduce by gcd", S+"slip_expand_mpfr_array.c"), ("scale by lcm of denominators", S+"slip_expand_mpq_array.c")],
 ["return of SLIP_matrix_copy with an MPZ target"])

prop("C09", "Inexact conversions round or saturate as documented",
 "Converting to a type that cannot hold the value follows fixed rules: to double, integers and rationals (after dividing by the scale) are truncated toward zero, 64-bit integers and multiprecision floats are rounded to nearest and in the option's mode respectively; to multiprecision floats, everything is rounded once in the option's mode to the option's precision; to 64-bit integers, doubles, rationals and scaled integers are truncated toward zero (rationals and scaled integers after truncation to a double) and saturate at the ends of the range with NaN giving zero, multiprecision floats are rounded in the option's mode and saturate, and unscaled integers that fit are kept. Infinities and NaN have no conversion to rationals or integers.",
 ["inputs", "configurations"], "all source values including +-2^63, +-2^53 neighbourhoods, NaN and infinities, all rounding modes and precisions",
 "Tests use small integers for which every conversion is exact.",
 [S+"slip_cast_array.c", S+"slip_internal.h"],
 [("value conversion", S+"slip_cast_array.c"), ("saturating double to int64", S+"slip_internal.h slip_cast_double_to_int64")],
 ["return of SLIP_matrix_copy"])

prop("C10", "The validity check accepts exactly the valid matrices",
 "The validity check returns success exactly when the matrix satisfies its format: nonnegative dimensions, legal kind and type, required arrays present (index and value arrays whenever space is reserved for entries), column pointers starting at zero, nondecreasing and within the allocated size, every index in range, no position stored twice, and no more entries than space. The verdict does not depend on the print level, it never reads outside the matrix's arrays, and it leaves the matrix unchanged.",
 ["inputs", "configurations"], "all matrices of the three kinds and five types, valid and with every single and combined format violation, at every print level",
 "Tests try a few broken matrices at one print level.",
 [S+"SLIP_matrix_check.c", S+"SLIP_matrix_nnz.c"],
 [("format checks per kind", S+"SLIP_matrix_check.c"), ("duplicate detection by marks / sorting", S+"SLIP_matrix_check.c")],
 ["return of SLIP_matrix_check"])

prop("C11", "Allocating and querying matrices gives what was asked for",
 "Allocating a matrix of any kind, type, shape and requested space gives a valid matrix of those properties with no entries (or all zero entries when dense), scale one, the arrays its kind requires and no others, all owned, or, when a shallow matrix is requested, no arrays and all marked as not owned; floating-point entries get the option's precision. The entry count reported for a matrix is the number of stored entries for its kind, or -1 when it cannot be determined, and freeing a matrix clears the caller's handle, releases exactly the owned parts and is harmless on an empty handle.",
 ["inputs", "histories"], "kinds x types x shapes including zero dimensions x space requests (zero, negative, large) x shallow/initialized flags",
 "Tests allocate through one path with the space they need.",
 [S+"SLIP_matrix_allocate.c", S+"SLIP_matrix_nnz.c", S+"SLIP_matrix_free.c", S+"slip_create_mpz_array.c", S+"slip_create_mpq_array.c", S+"slip_create_mpfr_array.c"],
 [("allocation by kind and type", S+"SLIP_matrix_allocate.c"), ("entry count", S+"SLIP_matrix_nnz.c"), ("ownership flags", S+"SLIP_matrix_free.c")],
 ["return of SLIP_matrix_allocate / _nnz / _free"])

prop("C12", "Nothing works outside an initialize / finalize pair",
 "Before initialization and after finalization every matrix, analysis, factorization and solve call refuses with the panic status, memory and default-option requests return nothing, releases are ignored and the entry count is -1, and none of these refused calls allocates, frees, writes outputs or changes any object; initializing twice or finalizing twice is refused the same way without disturbing the library or its installed memory functions. After finalization the library can be initialized and used again any number of times with identical behaviour.",
 ["histories"], "all sequences of initialize, expert initialize, finalize and every other call",
 "Tests follow one initialize...finalize path.",
 [S+"SLIP_initialize.c", S+"SLIP_initialize_expert.c", S+"SLIP_finalize.c", S+"SLIP_malloc.c", S+"SLIP_calloc.c", S+"SLIP_realloc.c", S+"SLIP_free.c", S+"SLIP_gmp.h"],
 [("initialized flag checked at each entry", S+"SLIP_initialize.c"), ("GMP wrapper entry check", S+"SLIP_gmp.h")],
 ["return of every public call"],
 [dict(name="initialized flag", meaning="library usable", where=S+"SLIP_initialize.c")])

prop("C13", "Invalid arguments are rejected cleanly",
 "Every call given a missing required argument, a matrix of the wrong kind or type, mismatched or non-square dimensions, or an illegal matrix kind or value type returns the incorrect-input status without crashing or reading outside its inputs. No output object is returned (every output handle that was given comes back empty), no memory is leaked, the inputs are unchanged, and the library stays usable.",
 ["inputs", "histories"], "every public call x every single argument defect, at any point of a session",
 "Tests exercise a handful of defective calls.",
 [S+"SLIP_LU_analyze.c", S+"SLIP_LU_factorize.c", S+"SLIP_LU_solve.c", S+"SLIP_backslash.c", S+"SLIP_matrix_copy.c", S+"SLIP_matrix_allocate.c", S+"slip_internal.h"],
 [("argument checks", S+"slip_internal.h SLIP_REQUIRE"), ("per-call checks", S+"SLIP_LU_solve.c")],
 ["return of every public call"])

prop("C14", "Any allocation failure is survived and reported",
 "If any single memory allocation made during a call fails, or all allocations from some point on fail, the call returns the out-of-memory status (or completes correctly if it can do without that memory), returns no output objects, leaves every input as it was, and frees everything it had allocated. The library remains usable: repeating the call with memory available gives the same result as if nothing had happened.",
 ["fault_sequences", "inputs"], "every allocation point of every call, single and persistent failure, in any session state",
 "The malloc tests fail allocations by a global countdown in one fixed scenario and look only for the absence of crashes in a default-options solve.",
 [S+"SLIP_gmp.c", S+"SLIP_gmp.h", S+"SLIP_matrix_copy.c", S+"SLIP_matrix_allocate.c", S+"SLIP_LU_factorize.c", S+"SLIP_LU_solve.c", S+"SLIP_LU_analyze.c", S+"SLIP_backslash.c"],
 [("setjmp/longjmp recovery of GMP allocations", S+"SLIP_gmp.c"), ("SLIP_FREE_ALL on every error path", S+"*.c"), ("archive of the object being operated on", S+"SLIP_gmp.h")],
 ["return of every public call under fault injection", "user memory functions"],
 [dict(name="slip_gmp_list", meaning="blocks allocated by the current GMP call", where=S+"SLIP_gmp.c")])

prop("C15", "Memory is balanced through the user's memory functions",
 "Every block the library, GMP or MPFR obtains through the installed memory functions is released exactly once, through the matching release function, by the time all objects are freed and the library is finalized, whatever sequence of calls succeeded or failed in between. The library never writes outside a block it obtained and never uses a block after releasing it.",
 ["histories", "inputs"], "all call sequences",
 "Tests run under the C library's allocator without accounting.",
 [S+"SLIP_gmp.c", S+"SLIP_matrix_free.c", S+"SLIP_LU_analysis_free.c", S+"SLIP_finalize.c", "SuiteSparse_config/SuiteSparse_config.c"],
 [("frees on all paths", S+"*.c"), ("MPFR cache and GMP list release", S+"SLIP_finalize.c")],
 ["user memory functions", "after SLIP_finalize"])

prop("C16", "Inputs are read-only and results do not depend on history",
 "No call modifies any object it is given as input (matrices, analysis, factors, permutation, options), and a call's results depend only on its inputs and options, not on what was computed before, so that the same sequence repeated later in the session, or in another session, gives identical results. A solution survives freeing everything it was computed from.",
 ["histories", "inputs"], "all interleavings of calls on several independent problems, repeated",
 "Tests run one problem per process and never look at the inputs again.",
 [S+"SLIP_LU_factorize.c", S+"SLIP_LU_solve.c", S+"SLIP_backslash.c", S+"SLIP_matrix_copy.c", S+"SLIP_gmp.c", S+"slip_reach.c"],
 [("marking and unmarking of the columns of L during the search", S+"slip_reach.c"), ("no static state except the GMP list", S+"SLIP_gmp.c")],
 ["contents of all objects after every public call"])

prop("C17", "Omitted options mean the documented defaults",
 "Passing no options behaves exactly as passing freshly created default options, whose values are the documented ones (COLAMD ordering, smallest pivot with diagonal preference at tolerance 1, print level 0, 128-bit precision, round to nearest, no checking). Turning on solution checking or printing never changes any status or result of a correct computation.",
 ["configurations", "inputs"], "all calls x {no options, defaults, defaults with check and every print level}",
 "Tests always pass options and compare against nothing.",
 [S+"SLIP_create_default_options.c", S+"slip_internal.h", S+"slip_check_solution.c", S+"SLIP_LU_analyze.c"],
 [("defaults", S+"SLIP_create_default_options.c"), ("NULL handling", S+"slip_internal.h SLIP_OPTION"), ("exact residual check", S+"slip_check_solution.c")],
 ["return of every public call taking options"])

prop("C18", "The safe GMP/MPFR layer computes exactly what GMP/MPFR would",
 "Each safe arithmetic call returns success and stores the exact (or correctly rounded, for floats) result of the operation it names, including when output and input are the same object and when operands are zero, negative or large, and leaves its other operands unchanged. Under an allocation failure it returns the out-of-memory status, releases what it had allocated during the call, and remains callable.",
 ["inputs", "fault_sequences"], "all operations x operand values and aliasing x allocation failures",
 "Tests call the wrappers only through the solver.",
 [S+"SLIP_gmp.c", S+"SLIP_gmp.h"],
 [("wrapper per operation", S+"SLIP_gmp.c"), ("setjmp/longjmp", S+"SLIP_gmp.h")],
 ["return of every SLIP_mpz_*, SLIP_mpq_*, SLIP_mpfr_* call"])

prop("C19", "AMD returns a permutation and truthful statistics",
 "For every valid square pattern AMD returns a permutation of 0..n-1, and reports the size, entry count, diagonal entries, pattern symmetry, entries of A+A' and dense rows as they are, and an entry count for L that is at least the true count for that permutation (exact when the pattern is a forest or a union of cliques, where the ordering is also fill-free). Dense rows are ordered last, the operation counts and the largest front agree with that entry count, and the assembly forest, the inverse permutation and the front sizes of the unchecked interface (amd_2) describe the same ordering whatever the elbow room. A pattern with unsorted or repeated indices gives the same kind of result with a warning status, an invalid one is rejected as invalid, a failed allocation is reported as lack of memory, and the input is never modified.",
 ["inputs", "fault_sequences"], "all patterns and control settings, both integer sizes, all allocation failures",
 "The AMD demos run a few fixed matrices and compare printed output.",
 ["AMD/Source/amd_order.c", "AMD/Source/amd_1.c", "AMD/Source/amd_2.c", "AMD/Source/amd_aat.c", "AMD/Source/amd_valid.c", "AMD/Source/amd_preprocess.c", "AMD/Source/amd_postorder.c", "AMD/Source/amd_post_tree.c"],
 [("pattern validation", "AMD/Source/amd_valid.c"), ("A+A' counts", "AMD/Source/amd_aat.c"), ("minimum degree ordering", "AMD/Source/amd_2.c")],
 ["return of amd_order / amd_l_order / amd_valid, Info[]"])

prop("C20", "COLAMD returns a column permutation or a precise error",
 "For every valid rectangular pattern and sufficient workspace COLAMD succeeds and returns a permutation of the columns, in which ignored columns come last, with statistics counting the ignored empty or dense rows and columns; unsorted or repeated row indices are tolerated with a warning that counts them. Every invalid input (missing array, negative or inconsistent dimension, bad column pointers, row index out of range, too little workspace) fails with the status naming that defect and its position, and the recommended workspace is always sufficient and is zero when it would overflow.",
 ["inputs"], "all patterns, all defects, all knob settings, both integer sizes",
 "The COLAMD demos run two fixed matrices.",
 ["COLAMD/Source/colamd.c"],
 [("init and validation of rows and columns", "COLAMD/Source/colamd.c init_rows_cols"), ("dense/empty removal", "COLAMD/Source/colamd.c init_scoring"), ("ordering", "COLAMD/Source/colamd.c find_ordering")],
 ["return of colamd / colamd_l, stats[]"])

prop("C21", "SYMAMD orders symmetric patterns and reports precisely",
 "For every valid square pattern SYMAMD, reading only the entries below the diagonal or the whole symmetric pattern, succeeds and returns a permutation with truthful statistics, in which ignored rows and columns come last, without modifying its input; invalid input fails with the status naming the defect, and a failed allocation is reported as lack of memory with everything released. The upper triangular part of the input does not influence the result of an already symmetric pattern.",
 ["inputs", "fault_sequences"], "all symmetric patterns, all defects, all allocation failures, both integer sizes",
 "One fixed matrix in the demo.",
 ["COLAMD/Source/colamd.c"],
 [("construction of the row-pair matrix", "COLAMD/Source/colamd.c symamd")],
 ["return of symamd / symamd_l, stats[]"])

prop("C22", "The memory layer honours its contract for all sizes",
 "Allocation requests of zero items or zero size give a usable block, requests whose byte size overflows fail without reaching the user's functions, and zeroing allocation gives zeroed memory. Resizing keeps the common prefix, returns the original block untouched with a failure flag when memory for growth is lacking, reports success with the original block when shrinking cannot be done, acts as allocation on no block, and does nothing when the size is unchanged; releasing nothing is harmless, and every request goes to the user's installed functions.",
 ["inputs", "fault_sequences", "histories"], "all sequences of allocate / resize / release with all sizes including overflow, with and without failures",
 "No test calls the memory layer directly.",
 ["SuiteSparse_config/SuiteSparse_config.c", S+"SLIP_malloc.c", S+"SLIP_calloc.c", S+"SLIP_realloc.c", S+"SLIP_free.c"],
 [("overflow test, minimum sizes", "SuiteSparse_config/SuiteSparse_config.c"), ("SLIP wrappers", S+"SLIP_realloc.c")],
 ["return of SuiteSparse_malloc/calloc/realloc/free and SLIP_malloc/calloc/realloc/free"])

prop("C23", "Printing is confined to the requested level and channel",
 "At print level 0 no call prints anything; at level 1 only errors, ordering information and the outcome of a requested solution check are printed; at every level all output goes through the installed print function, nothing is written to standard output directly, and having no print function installed suppresses output without affecting any result. Printing a matrix at level 3 shows every stored entry with its position and value, and level 2 shows a bounded excerpt. The AMD and COLAMD reports show the figures they are given, through the same print function.",
 ["configurations", "inputs"], "all calls x print levels x matrices x print function installed / absent",
 "Tests discard the output.",
 [S+"SLIP_matrix_check.c", S+"SLIP_LU_analyze.c", S+"slip_check_solution.c", S+"slip_internal.h"],
 [("SLIP_PR1/2/3, SLIP_PR_LIMIT, SLIP_PRINTF", S+"slip_internal.h, "+S+"SLIP_matrix_check.c")],
 ["installed print function", "standard output"])

prop("C24", "Shared numeric utilities are accurate and report division by zero",
 "For all finite doubles the length of a complex number is accurate to a few units in the last place without overflow or underflow in between (infinite exactly when the length exceeds the doubles), and the quotient of two complex numbers is accurate relative to its length whenever it and the ratios of the parts are representable, also when the result overwrites an operand; division by zero, and only that, is reported. The functions installed by default in the configuration, and by starting the suite, are these and the standard memory and print functions. The elapsed time reported between two readings of the clock is the time that passed, and the version is that of the header.",
 ["inputs"], "all doubles, including zeros, subnormals, huge and special values",
 "No test calls them.",
 ["SuiteSparse_config/SuiteSparse_config.c", "SuiteSparse_config/SuiteSparse_config.h"],
 [("scaled square root", "SuiteSparse_config/SuiteSparse_config.c SuiteSparse_hypot"), ("Smith's division", "SuiteSparse_config/SuiteSparse_config.c SuiteSparse_divcomplex")],
 ["return of SuiteSparse_hypot, SuiteSparse_divcomplex, SuiteSparse_tic/toc/time, SuiteSparse_version"])

prop("C25", "Checking a solution gives the true verdict",
 "When the solver is asked to check its solution, it reports the solution as incorrect, and returns none, exactly when the vector it computed does not satisfy A*x = b for the matrices it was given, in any equation and any right-hand side, whatever values are zero and whatever the scale factors; otherwise it succeeds. The verdict it prints is the one it returns. Without the check the vector is returned as it is: the one the given factors determine, scaled by the given matrices.",
 ["inputs", "configurations"], "all factors, all matrices and right-hand sides of the same size, including factors of another matrix than the one given",
 "The solver's own solutions are correct, so tests only ever see the positive verdict.",
 [S+"slip_check_solution.c", S+"SLIP_LU_solve.c", S+"SLIP_backslash.c"],
 [("exact residual before scaling", S+"slip_check_solution.c"), ("status and release of the solution", S+"SLIP_LU_solve.c")],
 ["return of SLIP_LU_solve and SLIP_backslash with option->check", "printed verdict"])

prop("C26", "AMD eliminates a row of least approximate degree in every step",
 "For every symmetric pattern the ordering routine (amd_2 for both integer sizes, and the Fortran versions AMD and AMDBAR) is the approximate minimum degree method: in every step a row is eliminated whose approximate external degree, by the published bound (the former bound plus the new front, the sizes of the fronts it belongs to, the rows left), is least; rows that have become indistinguishable are merged, rows that only touch the new front are eliminated with it, and a front that lies inside the new one is absorbed when aggressive absorption is asked for, and only then. The assembly forest, the pivots of each front and the sizes of the fronts that are returned are those of this elimination, they cover the fill it causes, and the result is the same whatever workspace beyond the minimum is given and however the rows lie in it.",
 ["inputs", "configurations"], "all symmetric patterns, all amounts of workspace, aggressive absorption on and off, all dense row thresholds, three implementations",
 "The tests order a few fixed matrices and only use the resulting permutation; a wrong degree still gives a valid permutation, only a worse one.",
 ["AMD/Source/amd_2.c", "AMD/Source/amd.f", "AMD/Source/amdbar.f"],
 [("selection, degree update, absorption, supervariables, compression", "AMD/Source/amd_2.c, amd.f, amdbar.f")],
 ["amd_2 / amd_l2: Pe, Nv, Elen, Last, Next, Info", "AMD / AMDBAR: PE, NV, ELEN, LAST, PFREE, NCMPA"])

prop("C27", "COLAMD eliminates columns of least score in every step",
 "For every pattern, every setting of the knobs and every sufficient amount of workspace, COLAMD (and SYMAMD, which orders the matrix with one row per entry below the diagonal) is the column approximate minimum degree method: rows with too many entries are ignored, columns that are empty, dense or left without rows come last in the documented order; in every step a class of columns with the least score (approximate external degree: the size of the new row plus what the other rows have outside it, at most the columns left) is eliminated, its rows are replaced by their union, columns that have become alike are kept together, columns that are in no other row are eliminated along with it, and rows inside the new one are absorbed when aggressive absorption is asked for, and only then. The analysis phase returns exactly such an ordering, with the default knobs, when COLAMD is chosen.",
 ["inputs", "configurations"], "all rectangular patterns, all knobs, all amounts of workspace; all symmetric patterns for SYMAMD",
 "The tests only use the permutation; a wrong score still gives a valid permutation, only one with more fill.",
 ["COLAMD/Source/colamd.c", S+"SLIP_LU_analyze.c"],
 [("init_scoring, find_ordering, detect_super_cols, garbage_collection, order_children", "COLAMD/Source/colamd.c"), ("choice of the ordering", S+"SLIP_LU_analyze.c")],
 ["colamd, colamd_l, symamd, symamd_l: permutation", "S->q of SLIP_LU_analyze"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
