"""Property statements and check descriptions (source of properties.jsonl and MANIFEST.json)."""
NOTE = ('Sound up to the stated abstraction on the code that was resolved (clang front end with the build\'s flags, whole-library SSA, '
        'interprocedural summaries); shapes the rule does not recognise are listed as undecided in the evidence, never alarmed. ')

PROPS = [
dict(id='C01', title='Set/get round trip: every getter returns what was configured',
     statement='After a setter or constructor stores a configuration value in an object, the matching getter returns exactly that value '
               '(or the documented clamped/derived value), for every value and every object type of the public API. '
               'Each parameter given to a constructor is the one its getter reports.',
     quant='all setter arguments, all constructor arguments, any earlier history of the object', over=['inputs', 'histories'],
     why='tests set two or three options of a few objects; a setter that stores into the wrong member or narrows the value is only visible for the option and value tried',
     files=['vl/kmeans.h', 'vl/gmm.c', 'vl/svm.c', 'vl/sift.h', 'vl/dsift.h', 'vl/covdet.c', 'vl/hog.c', 'vl/liop.c', 'vl/mser.h', 'vl/quickshift.c', 'vl/kdtree.c', 'vl/ikmeans.c', 'vl/hikmeans.c', 'vl/slic.c'],
     mech=[('one member per option, written by its setter and read by its getter', 'vl/*.h accessor groups')],
     technique='value-flow analysis of setter/constructor stores against getter loads',
     note=NOTE + 'Pairs are discovered by public API name.'),
dict(id='C02', title='Options are isolated and are honoured by the algorithm they configure',
     statement='A configuration option of an object is changed only by its own setter, the constructor or a documented reset, never as a side effect of another '
               'setter or of running an algorithm. Every algorithm entry point that documents an option actually consults it.',
     quant='every public function, every path through it, every option', over=['inputs', 'histories'],
     why='tests never check that unrelated options survive a call, and an ignored option looks like a plausible result',
     files=['vl/kmeans.c', 'vl/gmm.c', 'vl/svm.c', 'vl/sift.c', 'vl/dsift.c', 'vl/covdet.c', 'vl/hog.c', 'vl/liop.c', 'vl/mser.c', 'vl/quickshift.c', 'vl/kdtree.c', 'vl/ikmeans.c', 'vl/hikmeans.c'],
     mech=[('options are written only by their setters', 'vl/*.c, vl/*.h'), ('algorithms read options from the object', 'vl/*.c')],
     technique='interprocedural mod/ref effect analysis against a table of options',
     note=NOTE + 'The option table is frozen by public API name.'),
dict(id='C03', title='Deleting an object releases everything it owns, exactly once',
     statement='Every piece of memory that the library allocates on behalf of an object is released by that object\'s delete function on every path, '
               'together with the object itself; borrowed memory is left alone, nothing is released twice or used after release, and memory held by an object '
               'is released before it is replaced.',
     quant='every object type, every path of its delete/reset functions, every history of allocations', over=['histories', 'inputs'],
     why='the tests do not run under a leak checker and never re-use an object after its buffers were replaced',
     files=['vl/kmeans.c', 'vl/gmm.c', 'vl/svm.c', 'vl/sift.c', 'vl/dsift.c', 'vl/covdet.c', 'vl/hog.c', 'vl/liop.c', 'vl/mser.c', 'vl/quickshift.c', 'vl/kdtree.c', 'vl/ikmeans.c', 'vl/hikmeans.c', 'vl/aib.c', 'vl/array.c', 'vl/lbp.c', 'vl/scalespace.c', 'vl/homkermap.c', 'vl/svmdataset.c'],
     mech=[('vl_*_delete frees each owned member', 'vl/*.c'), ('reset/replace functions free before overwriting', 'vl/*.c')],
     technique='ownership discovery from allocation flow; must-release path analysis; member typestate',
     note=NOTE + 'Array elements of one member are one location.'),
dict(id='C04', title='Temporaries, files and helper objects are released on every way out',
     statement='Every buffer, file or helper object that a library function or command line driver acquires for its own use is released, or handed over '
               '(returned, stored in an object or given to the caller), on every path out of the function, including every error path.',
     quant='every function of vl/ and of the drivers, every path including early returns', over=['inputs', 'crash_points'],
     why='error paths and rare branches are not reached by the tests, and the tests do not count allocations',
     files=['vl/covdet.c', 'vl/imopv.c', 'vl/gmm.c', 'vl/kmeans.c', 'vl/svm.c', 'vl/aib.c', 'vl/ikmeans_elkan.tc', 'vl/hikmeans.c', 'vl/pgm.c', 'vl/slic.c', 'vl/scalespace.c', 'src/sift.c', 'src/mser.c', 'src/aib.c'],
     mech=[('work buffers freed before every return', 'vl/*.c'), ('done: labels of the drivers', 'src/*.c')],
     technique='acquire/release path analysis (typestate) with escape summaries',
     note=NOTE + 'MEX files are outside: MATLAB reclaims what a MEX call allocates.'),
dict(id='C06', title='Copies are complete and independent',
     statement='A copy constructor (vl_kmeans_new_copy, vl_gmm_new_copy, vl_scalespace_new_copy, vl_scalespace_new_shallow_copy) yields an object with the same configuration and the same learned data, every element of '
               'every buffer included, and sharing no memory with the original (the shallow scale-space copy: the same geometry with buffers of its own).',
     quant='every object state, every dimension and number of elements', over=['inputs', 'histories'],
     why='no test copies an object',
     files=['vl/kmeans.c', 'vl/gmm.c', 'vl/scalespace.c'],
     mech=[('vl_*_new_copy copies every member and buffer', 'vl/kmeans.c, vl/gmm.c, vl/scalespace.c')],
     technique='member-wise value-flow comparison of source and copy; polynomial comparison of copied and allocated extents',
     note=NOTE + 'Extents are compared as polynomials over member names.'),
dict(id='C07', title='Inputs are left alone, nothing is borrowed silently, queries change no model',
     statement='No public function modifies or frees data reached through a const pointer parameter (or one documented as input). A caller\'s pointer is kept after the call '
               'only by the functions documented to do so. Getters and query functions (quantize, push, query, extract, per-keypoint computations) change nothing in the object but its documented scratch and result buffers.',
     quant='every public function, every input, every path', over=['inputs', 'histories'],
     why='tests compare outputs, not that inputs, caller buffers and the model are unchanged afterwards',
     files=['vl/kmeans.c', 'vl/gmm.c', 'vl/svm.c', 'vl/hikmeans.c', 'vl/ikmeans.c', 'vl/kdtree.c', 'vl/sift.c', 'vl/hog.c', 'vl/covdet.c', 'vl/lbp.c', 'vl/imopv.c', 'vl/fisher.c', 'vl/vlad.c'],
     mech=[('const qualified parameters', 'vl/*.h'), ('private copies of input arrays', 'vl/*.c')],
     technique='interprocedural mod/ref, free and pointer-retention summaries against the const-qualified public signatures',
     note=NOTE + 'The tables of documented borrowers and queries are frozen by public API name.'),
dict(id='C10', title='All heap traffic goes through the registered allocation functions',
     statement='vl_malloc, vl_realloc, vl_calloc and vl_free forward their arguments unchanged to the function the user registered for that purpose with vl_set_alloc_func. '
               'Library code uses no other allocator (documented exceptions: the per-thread state and the per-thread scratch of vl_kmeans_quantize, both malloc/free), '
               'and every block is released by the family that allocated it: vl_free never receives a malloc block, a stack or static object, or a pointer into the middle of a block.',
     quant='every allocation and release of the library, every registered set of allocation functions', over=['inputs', 'histories'],
     why='tests run with the default functions, where every family is the C allocator and a mismatch is invisible',
     files=['vl/generic.c', 'vl/generic.h', 'vl/host.c', 'vl/kmeans.c', 'vl/svm.c', 'vl/covdet.c'],
     mech=[('vl_set_alloc_func and the vl_malloc family', 'vl/generic.c, vl/generic.h')],
     technique='call-graph query, allocation-origin value-flow analysis of every release, forwarding check of the wrappers',
     note=NOTE + 'Documented users of malloc/free are frozen by function name.'),
dict(id='C11', title='Silent by default, prints via the registered function, verbosity changes nothing',
     statement='The library writes text only through the function registered with vl_set_printf_func, and no progress message is printed unless a positive verbosity '
               'was requested. Code that runs only with a positive verbosity has no effect besides printing and timing, so results do not depend on the verbosity.',
     quant='every message of the library, every path from a public function to it, every verbosity', over=['inputs', 'histories'],
     why='tests run at one verbosity and do not capture the output',
     files=['vl/kmeans.c', 'vl/gmm.c', 'vl/svm.c', 'vl/aib.c', 'vl/ikmeans.c', 'vl/hikmeans.c', 'vl/quickshift.c', 'vl/generic.c', 'vl/covdet.c'],
     mech=[('if (verbosity) VL_PRINTF(...)', 'vl/*.c'), ('vl_set_printf_func', 'vl/generic.c')],
     technique='interprocedural guard (control-dependence) analysis and mod/ref effects of verbosity-only regions',
     note=NOTE + 'Messages that precede abort() are exempt.'),
dict(id='C13', title='Results are a function of the inputs and of the seeded generator',
     statement='No library result depends on anything but the arguments, the object, and the VLFeat random generator: no clock, environment, address or C-library random '
               'source reaches a result, the library keeps no hidden state between calls, and the shared generator is advanced only by the documented randomised functions. '
               'The vl_rand_* functions depend on and modify only the generator they are given.',
     quant='every library function, every call history', over=['histories', 'inputs', 'schedules'],
     why='a test cannot observe the absence of hidden state or of an entropy source',
     files=['vl/random.c', 'vl/kmeans.c', 'vl/gmm.c', 'vl/svm.c', 'vl/kdtree.c', 'vl/ikmeans_init.tc', 'vl/hikmeans.c', 'vl/mathop.c', 'vl/generic.c'],
     mech=[('vl_get_rand', 'vl/generic.c'), ('VlRand', 'vl/random.h, vl/random.c')],
     technique='source/sink taint analysis, call-graph query, interprocedural mod/ref summaries',
     note=NOTE + 'The tables of randomised functions and of by-design statics are frozen by name.'),
dict(id='C28', title='Formats match their arguments',
     statement='Every formatted message or scan in the library, the command line drivers and the MEX files has a literal format whose conversions match the arguments in number and kind '
               '(integer, floating, string, pointer; the exact object size when scanning). Text from outside (names, options, error messages) is never interpreted as a format, and %n and unbounded %s scans are not used.',
     quant='every formatting call, every text that can reach it', over=['inputs'],
     why='most messages are printed only on rare paths or high verbosity, never during the tests; the project does not annotate its wrappers, so the compiler does not check them',
     files=['vl/kmeans.c', 'vl/svm.c', 'vl/generic.c', 'vl/pgm.c', 'src/sift.c', 'src/mser.c', 'src/generic-driver.h', 'toolbox/mexutils.h', 'toolbox/sift/vl_sift.c'],
     mech=[('VL_PRINTF, vl_set_last_error, vlmxError', 'vl/generic.h, vl/generic.c, toolbox/mexutils.h')],
     technique='query over every variadic formatting call of the typed IR',
     note=NOTE + 'A 64 bit integer printed with an int conversion is tolerated.'),
dict(id='C15', title='Vector distances and kernels equal their formula for every length and alignment',
     statement='For every VlVectorComparisonType (L1, L2, Chi2, Hellinger, JS, Mahalanobis; distances and kernels) and both element types, whichever implementation '
               'vl_get_vector_comparison_function_f/_d or vl_get_vector_3_comparison_function_f/_d returns (scalar, SSE2 or AVX) computes the same documented formula '
               'as a sum over all elements: every element is consumed exactly once, in lockstep across the inputs, none past the end is read, whatever the length and alignment; '
               'aligned SIMD loads are executed only on pointers tested for that alignment. The SIMD weighted mean and sigma updates used by the GMM likewise update every element by their formula.',
     quant='every comparison type, implementation, vector length, alignment and content', over=['inputs'],
     why='tests compare a few aligned vectors of a few lengths on one CPU; tails, unaligned inputs and zero elements take other code paths',
     files=['vl/mathop.c', 'vl/float.th', 'vl/mathop_sse2.c', 'vl/mathop_avx.c', 'vl/mathop.h'],
     mech=[('vl_get_vector_comparison_function_f/_d, vl_get_vector_3_comparison_function_f/_d', 'vl/mathop.c'), ('_vl_*_sse2_*, _vl_*_avx_*', 'vl/mathop_sse2.c, vl/mathop_avx.c')],
     technique='algebraic value-graph normalisation of each loop of each kernel (SSA form), identity with the documented term, stream-consumption invariants',
     note=NOTE + 'Identity is decided over the reals; rounding is not modelled. The Hellinger kernel is sqrt(xy), as the code and the kernel definition have it.'),
dict(id='C14', title='SIMD code runs only when available and enabled, and equals the portable code',
     statement='Code compiled for SSE2 or AVX is reached only when vl_get_simd_enabled() is true and the CPU reports the feature (vl_cpu_has_sse2, vl_cpu_has_avx; these report the CPUID bit of that very feature). '
               'When SIMD is disabled with vl_set_simd_enabled or missing, every dispatcher falls back to the portable implementation. A SIMD call is given the operands of the portable code it replaces, and the replaced code is not run as well.',
     quant='every use of a SIMD function, every CPU, every setting of the SIMD switch', over=['inputs', 'histories'],
     why='tests run on one CPU with SIMD always enabled, so a wrong guard or a wrong operand on the other path is never executed',
     files=['vl/mathop.c', 'vl/gmm.c', 'vl/imopv.c', 'vl/generic.c', 'vl/host.c'],
     mech=[('vl_get_simd_enabled, vl_cpu_has_sse2, vl_cpu_has_avx', 'vl/generic.c'), ('_vl_x86cpu_info_init', 'vl/host.c'), ('SIMD dispatch', 'vl/mathop.c, vl/gmm.c, vl/imopv.c')],
     technique='control-dependence query over every use of a SIMD function, value-graph identity of operands and feature bits',
     note=NOTE + 'SIMD functions are recognised by the naming convention (_sse2, _avx).'),
dict(id='C22', title='Parallel computations are free of data races and respect the thread limit',
     statement='In the OpenMP configuration no parallel region of the library has a data race: every write goes to memory private to the thread, is inside a critical section, reduction or atomic update, '
               'or touches only the elements owned by the current loop iteration, and shared data a region modifies are read under the same protection. The registered allocation functions are never called '
               'concurrently by a region. Every region uses at most vl_get_max_threads() threads (as set by vl_set_num_threads, 0 meaning the OpenMP maximum), and the application\'s OpenMP settings are never changed.',
     quant='every parallel region, number of threads and schedule', over=['schedules', 'inputs'],
     why='the tested build has OpenMP disabled, and races show only under particular schedules',
     files=['vl/kmeans.c', 'vl/gmm.c', 'vl/kdtree.c', 'vl/fisher.c', 'vl/vlad.c', 'vl/generic.c'],
     mech=[('#pragma omp parallel/for/critical, reduction and private clauses', 'vl/kmeans.c, vl/gmm.c, vl/kdtree.c, vl/fisher.c, vl/vlad.c'), ('vl_set_num_threads, vl_get_max_threads', 'vl/generic.c')],
     technique='race analysis of compiler-outlined regions: escape and ownership of memory, lock sets, affine partition of array accesses, call effects',
     note=NOTE + 'Distinct pointer variables are assumed to be distinct arrays; a cluster index read from data is assumed to be a valid index.'),
dict(id='C21', title='Library state is thread-safe; per-thread state is private and created once',
     statement='The library state lock is a correct recursive lock: it is owned by at most one thread, every public function that takes it releases it on every path, waiters are woken when it becomes free, and no thread '
               'waits for a lock it owns. Each thread has exactly one private state (last error, random generator, timer), created on first use with no error, an empty message and an initialised generator, and released when the thread ends. '
               'vl_set_last_error always records the code and replaces the message (truncated to VL_ERR_MSG_LEN), and the getters return the calling thread\'s values. Library-wide settings (allocation and print functions, SIMD switch, thread limit) '
               'change only through their setters, start at their documented defaults, and the wrappers use the function registered for them.',
     quant='every public function, every path, number of threads, schedule and call history', over=['schedules', 'histories', 'inputs'],
     why='the tests are single threaded and never re-register functions; a lock error needs two threads at a precise point',
     files=['vl/generic.c', 'vl/generic.h', 'vl/random.c'],
     mech=[('vl_lock_state, vl_unlock_state, vl_get_thread_specific_state', 'vl/generic.c'), ('vl_set_last_error, vl_get_rand, vl_tic, vl_toc', 'vl/generic.c'), ('vl_constructor, vl_destructor', 'vl/generic.c')],
     technique='typestate fixpoint over a finite lock domain, dominance and path-coverage queries on the inlined public functions',
     note=NOTE + 'POSIX threads configuration; the thread limit is decided on the OpenMP configuration.'),
dict(id='C32', title='SVM losses, updates, solver steps and statistics equal their definitions',
     statement='For every score and label (+1/-1 for hinge, squared hinge and logistic, any label for l1 and l2) the SVM loss functions, their derivatives (a subgradient at kinks), conjugates and dual coordinate updates equal their documented definitions, '
               'the logistic loss does not overflow for large margins, and vl_svm_set_loss installs the four functions of the requested loss. The SDCA and SGD solvers visit samples in permuted epochs, give the callbacks the score (including the bias) and label of the visited sample, '
               'and update dual variables, model and bias by the documented step with sample weights (ignoring non-positive weights) and the bias multiplier. The reported regulariser, loss, dual loss, objectives and duality gap '
               'are those of the current model over all positively weighted samples; convergence is reported exactly when the criterion is below epsilon, and training stops at the iteration limit. vl_svm_set_bias and vl_svm_get_bias agree.',
     quant='every score, label, weight, regularisation, data abstraction and solver history', over=['inputs', 'histories'],
     why='the tests train one or two data sets to a tolerance and compare end results, which a wrong weight, bias or statistic barely moves',
     files=['vl/svm.c'],
     mech=[('loss, derivative, conjugate and update functions', 'vl/svm.c'), ('_vl_svm_sdca_train, _vl_svm_sgd_train', 'vl/svm.c'), ('_vl_svm_update_statistics, vl_svm_set_loss', 'vl/svm.c')],
     technique='algebraic value graphs: piecewise polynomial identity of returned values, stored values and callback arguments under the conditions of their control path',
     note=NOTE + 'Identities are over the reals; floating-point rounding and convergence speed are not decided.'),
dict(id='C33', title='The random generator is MT19937 and all numbers and permutations follow from it',
     statement='For every 32-bit seed, every seed array and the unseeded default (5489) vl_rand_uint32 produces the MT19937 stream: seeding, seeding by an array of any length >= 1, regeneration of the 624 words and tempering are those of the reference generator. '
               'vl_rand_uint64, int31, int63, real1, real2, real3, res53 and uindex are the documented functions of that stream (real2, real3 and res53 never return 1; uindex can return every index of its range). '
               'vl_rand_permute_indexes is the Knuth shuffle: it only exchanges elements and gives every permutation the same weight. The vl_twister MEX function returns the whole generator state and accepts back every state it can return.',
     quant='every seed, seed array, generator state and range', over=['inputs', 'histories'],
     why='the tests compare a few numbers of a few seeds; an error in one of the 624 words, in long keys or in the end of a range does not show',
     files=['vl/random.c', 'vl/random.h', 'toolbox/misc/vl_twister.c'],
     mech=[('vl_rand_uint32, vl_rand_seed, vl_rand_seed_by_array', 'vl/random.c'), ('derived numbers', 'vl/random.h'), ('vl_rand_permute_indexes', 'vl/random.c'), ("vl_twister('state')", 'toolbox/misc/vl_twister.c')],
     technique='GF(2)-linear normal forms of the bit operations, polynomial identity modulo 2^32 of the recurrences, value graphs of the derived numbers',
     note=NOTE + 'Modulo bias of uindex is part of its definition.'),
dict(id='C16', title='Math helpers, type tables, byte order and all-pairs comparison are as defined',
     statement='For every argument of the float and the double variant: vl_floor, vl_ceil, vl_round (half away from zero), vl_abs, vl_sqrt, vl_log2, vl_is_nan and vl_is_inf return what their names say for the full range of the argument type; '
               'vl_mod_2pi returns the argument plus a multiple of 2 pi inside [0, 2 pi], however large the angle; vl_fast_atan2 is the documented piecewise cubic in all quadrants; vl_fast_resqrt is the bit-level guess refined by two Newton steps and vl_fast_sqrt is x times it (0 below 1e-8); '
               'vl_fast_sqrt_ui8/16/32/64 return the largest integer whose square does not exceed the argument. vl_get_type_size, vl_get_type_name and vl_get_vector_comparison_type_name are right for every enumerator, vl_swap_host_big_endianness_2/4/8 reverse the bytes, '
               'and vl_eval_vector_comparison_on_all_pairs_f/_d stores the comparison of X_i and Y_j (X_i and X_j without a second set) at element i + numX j for all pairs.',
     quant='every argument value, every enumerator, every number and dimension of vectors', over=['inputs'],
     why='the tests sample some arguments of a few helpers; large angles, wide integers, rare enumerators and asymmetric or one-set comparisons are not among them',
     files=['vl/mathop.h', 'vl/mathop.c', 'vl/generic.h', 'vl/host.h'],
     mech=[('inline helpers', 'vl/mathop.h'), ('vl_eval_vector_comparison_on_all_pairs_f/_d', 'vl/mathop.c'), ('vl_get_type_size, vl_get_type_name', 'vl/generic.h'), ('vl_swap_host_big_endianness_*', 'vl/host.h')],
     technique='value graphs compared with the definition as piecewise rational identities; digit recurrence of the integer square root; closed forms (scalar evolution) of addresses in loops',
     note=NOTE + 'Identities are over the reals; the accuracy of the approximations themselves is part of their definition.'),
dict(id='C34', title='Linear systems and the 2x2 SVD are computed as documented',
     statement='For every matrix and every size, vl_gaussian_elimination searches rows j.. of column j for the element of largest modulus, returns an error instead of dividing when it vanishes, exchanges the whole rows, divides the pivot row by the pivot, '
               'subtracts its multiples from all rows below, and substitutes backwards into all columns from numRows on, so that [A, b] becomes [., x] with A x = b. vl_solve_linear_system_2 and _3 build [A, b] from their column-major arguments, return x and the error of the elimination. '
               'vl_lapack_dlasv2 follows LAPACK dlasv2 in every case (exchange, diagonal, very large g, regular) and vl_svd2 combines it with the rotation that makes M triangular: M = U diag(S) V\', S in decreasing modulus, a zero first column included.',
     quant='every matrix, number of rows and of columns', over=['inputs'],
     why='the tests solve no system and decompose no matrix directly; pivoting, singular input, extra right-hand sides and the rare cases of dlasv2 are reached by particular matrices only',
     files=['vl/mathop.c'],
     mech=[('vl_gaussian_elimination', 'vl/mathop.c'), ('vl_solve_linear_system_2/3', 'vl/mathop.c'), ('vl_svd2, vl_lapack_dlasv2', 'vl/mathop.c')],
     technique='scalar-evolution closed forms of every store (address, value, iteration space), loop-carried recurrence of the pivot search, value graphs cut at merge points',
     note=NOTE + 'Identities are over the reals; the orthogonality of the dlasv2 factors follows from LAPACK\'s formulas, which are compared, not re-proved.'),
dict(id='C35', title='Convolution, gradients, integral images, distance transforms are as documented',
     statement='For every image size, stride, filter support, step and flag: vl_imconvcol_vf/_vd (scalar and SIMD) store at row y/step of column x the sum over p of filt[p] image[x, y-p], rows outside the image being zero or the nearest row as the flags say, transposed if asked, and never touch columns that do not exist; '
               'vl_imconvcoltri_f/_d is the same with the triangular filter of the given size; vl_imsmooth_f/_d convolves rows and columns with normalised Gaussians of radius ceil(3 sigma); vl_imgradient_f/_d and vl_imgradient_polar_f/_d use central differences inside and one-sided differences at the borders, with modulus and angle in [0, 2 pi]; '
               'vl_imintegral_* stores the sum of all pixels above and to the left; vl_image_distance_transform_f/_d keeps the lower envelope of the parabolas image(u) + coeff (x - u - offset)^2 and reads its value and index at every pixel.',
     quant='every image, size, stride, step, filter support, sigma and flag', over=['inputs'],
     why='the tests convolve a few images with centred filters in Matlab layout; one-sided supports, steps that do not divide the height, tails of SIMD rows, offsets and flat parabolas are not among them',
     files=['vl/imopv.c', 'vl/imopv_sse2.c', 'vl/imopv.h'],
     mech=[('vl_imconvcol_v*', 'vl/imopv.c'), ('_vl_imconvcol_v*_sse2', 'vl/imopv_sse2.c'), ('vl_imconvcoltri_*', 'vl/imopv.c'), ('vl_imgradient_*, vl_imintegral_*, vl_imsmooth_*, vl_image_distance_transform_*', 'vl/imopv.c')],
     technique='inductive loop invariants and scalar-evolution closed forms of address, value, iteration space and condition of every store',
     note=NOTE + 'Identities are over the reals.'),
dict(id='C36', title='VLAD, Fisher vectors and the homogeneous kernel map compute their definitions',
     statement='vl_vlad_encode and vl_fisher_encode, for float and double data: the encoding is cleared, then accumulates over the data exactly the assignment-weighted residuals (VLAD: sum_i q_ik (x_i - mu_k), divided by the mass with VL_VLAD_FLAG_NORMALIZE_MASS; Fisher: first and second order terms weighted by the posteriors, scaled by 1/(n sqrt(pi_k)) and 1/(n sqrt(2 pi_k))), '
               'then the signed square root, the component normalisation and the global l2 normalisation are applied in this order exactly when their flags ask for them; VL_FISHER_FLAG_FAST assigns every vector to its largest posterior; the Fisher encoder returns the number of averaging operations. '
               'vl_homogeneouskernelmap_new tabulates sqrt(L x^gamma k_0), sqrt(2 L x^gamma k_j) cos/sin(f_j L log x) for the spectrum of the chosen kernel and window, with the published default period when the period is negative or null; vl_homogeneouskernelmap_evaluate_f/_d interpolate linearly between the two table rows enclosing |x|, odd in x, and give zero for values outside [2^-20, 2^8).',
     quant='every data set, dimension, number of clusters, assignment, prior, covariance, flag, kernel, order, gamma, period, window and value', over=['inputs'],
     why='no unit test covers the encodings or compares the kernel map; degenerate clusters, empty data, null periods, negative values, octave borders and every combination of flags must be right',
     files=['vl/vlad.c', 'vl/fisher.c', 'vl/homkermap.c'],
     mech=[('vl_vlad_encode', 'vl/vlad.c'), ('vl_fisher_encode', 'vl/fisher.c'), ('vl_homogeneouskernelmap_new, _evaluate_f, _evaluate_d', 'vl/homkermap.c')],
     technique='scalar-evolution closed forms of address, value, iteration space and condition of every store, recognition of search loops, pass order over the control-flow graph',
     note=NOTE + 'Identities are over the reals; priors and posteriors up to 1e-5 may be left out as negligible; the correctness of the posteriors themselves is another property.'),
dict(id='C37', title='K-means: initialisation, quantisation and refinement take the documented steps',
     statement='For float and double data, every data set, number of centers and distance (l1, l2): vl_kmeans_quantize assigns every point to a nearest center and reports its distance, vl_kmeans_quantize_ann the neighbour found by the forest built on the present centers with the object\'s number of trees and comparisons. '
               'Every Lloyd/ANN refinement iteration assigns the points, takes as energy the sum of their distances, stops exactly at the maximum number of iterations, on an unchanged energy or when the relative energy variation falls below the set value, and otherwise moves every non-empty cluster to the mean (l2) or a componentwise median (l1) of its points and every empty one to a random point; the last energy is returned. '
               'The Elkan refinement makes the same moves while its upper bounds never fall below and its lower bounds never exceed the distances they stand for (initialisation, triangle inequality under movement of the centers, strictness flags), leaves out only distances these bounds make unnecessary, stops only at the maximum number of iterations or when no assignment changed, and returns the energy of the final assignment. '
               'Random selection takes distinct points of a random permutation and leaves out duplicates as long as enough points remain; k-means++ draws the next center with probability proportional to the distance to the nearest center so far; vl_kmeans_cluster runs the selected initialisation and refinement the set number of times and keeps the centers and the energy of the best run.',
     quant='every data set, dimension, number of points and centers, distance, algorithm, initialisation, number of repetitions, iterations and trees', over=['inputs', 'histories'],
     why='the tests cluster nothing in C; empty clusters, duplicates, ties, bounds that are loose for particular movements of the centers and later repetitions that are worse occur only for particular data',
     files=['vl/kmeans.c', 'vl/kmeans.h'],
     mech=[('vl_kmeans_refine_centers (Lloyd, Elkan, ANN)', 'vl/kmeans.c'), ('vl_kmeans_quantize, vl_kmeans_quantize_ann', 'vl/kmeans.c'), ('vl_kmeans_init_centers_with_rand_data, vl_kmeans_init_centers_plus_plus, vl_kmeans_set_centers', 'vl/kmeans.c'), ('vl_kmeans_cluster', 'vl/kmeans.c')],
     technique='scalar-evolution closed forms of address, value, iteration space and condition of every store under the facts of an algorithm/distance, recognition of search loops, loop-carried recurrences, pass order over the control-flow graph',
     note=NOTE + 'Identities are over the reals; that the energy never increases and that the sort of the l1 medians sorts are not part of this property.'),
dict(id='C31', title='Heap and quicksort templates keep their order for every type, comparison, size',
     statement='vl/heap-def.h: starting from a heap, push, pop and update leave a heap (no element compares larger than its children) with the same elements; pop removes a smallest element, moves it to the first position after the heap and returns that position; no operation compares or exchanges elements outside the heap. '
               'vl/qsort-def.h: sort leaves the same elements in non-decreasing order of the comparison function, touching only the elements of the array. '
               'The comparison functions of the library\'s quicksorts (k-means medians, LIOP permutations) are the difference of the keys of the two elements, and the exchange functions exchange the two elements without loss.',
     quant='every element type, comparison function, number of elements, content and order of operations', over=['inputs', 'histories'],
     why='the templates are only exercised through the kd-tree and LIOP tests on a few random inputs; heaps whose last inner node has one child, ties, and sides of zero, one or two elements must be right for all contents',
     files=['vl/heap-def.h', 'vl/qsort-def.h', 'vl/liop.c', 'vl/kmeans.c'],
     mech=[('VL_HEAP_push, VL_HEAP_pop, VL_HEAP_update, VL_HEAP_up, VL_HEAP_down', 'vl/heap-def.h'), ('VL_QSORT_sort', 'vl/qsort-def.h'), ('patch_cmp, patch_swap, neigh_cmp, neigh_swap', 'vl/liop.c'), ('_vl_kmeans_*_qsort_cmp, _qsort_swap', 'vl/kmeans.c')],
     technique='closed forms of the calls of template operations under a finite partition of sizes and orderings; closed forms of comparison and exchange functions',
     note=NOTE + 'The templates are instantiated with opaque comparison and exchange operations (stubs/containers.c, compiled and analysed, not run). The induction from one step to the whole operation is the textbook one and is not mechanised.'),
dict(id='C40', title='The kd-tree forest partitions all data; its search drops only hopeless cells',
     statement='Construction (vl_kdforest_build, both data types, both thresholding methods, any number of trees): every tree starts from all points once and has memory for a full binary tree; a node with one point, or whose points vary in no dimension, is a leaf recording exactly its range of points, every other node is split; '
               'the split dimension is one of the (at most splitHeapSize) dimensions kept, the kept ones being those of largest estimated variance; the points of the node and no others are sorted along it; the two parts are non-empty, disjoint and cover the node, and the threshold lies between them (median, or mean with the median as fall-back); children are the next free nodes, the depth of a tree is that of its deepest leaf; '
               'each node records the bounds of its cell along its split dimension; the search queue and the marks of every searcher, also of those made before a rebuild, fit the forest. '
               'Search (vl_kdforest_query, vl_kdforestsearcher_query, l1 and l2): the roots of all trees are searched with bound zero; the descent goes to the side of the query and keeps the other child with the bound increased by exactly what the query coordinate adds to the distance from the cell, leaving it out only when the list is full and no neighbor can be in it; a leaf compares each of its points once per query, counts it, and puts it into the result list when there is room or when it is nearer than the farthest result, which it then replaces; '
               'the search goes on until the queue is empty, the limit of comparisons is reached, or the list is full and the next bound exceeds the farthest result; places not used get index -1 and distance NaN, results are put in increasing order, and the number of comparisons is returned. vl_kdforest_query_with_array stores the results of query i at row i, in the type of the data.',
     quant='every data set, dimension, number of points, trees and neighbors, type, distance, thresholding method, limit of comparisons and query', over=['inputs', 'histories'],
     why='the tests query one random data set with the l2 distance; coinciding points, means outside the range of the data, the l1 distance, rebuilding with live searchers, limits inside a leaf and queries for more neighbors than points are never tried',
     files=['vl/kdtree.c', 'vl/kdtree.h'],
     mech=[('vl_kdtree_build_recursively, vl_kdtree_calc_bounds_recursively, vl_kdforest_build', 'vl/kdtree.c'), ('vl_kdforest_query_recursively, vl_kdforestsearcher_query', 'vl/kdtree.c'), ('vl_kdforest_query_with_array, vl_kdforest_new_searcher, vl_kdforest_new', 'vl/kdtree.c')],
     technique='conditional constant propagation of one step of every recursion and loop over closed forms, in each case of a finite partition (type, distance, method, region of the query coordinate, room in the result list)',
     note=NOTE + 'Identities are over the reals. That the steps together give an exact search is the usual argument and is not itself checked; the heaps are property C31, the distance functions C15.'),
dict(id='C38', title='Gaussian mixtures: each step of EM computes the quantity the model defines',
     statement='For both data types and every data set, dimension and number of modes. Expectation (vl_get_gmm_data_posteriors_f/d): the posterior of mode k for point i is the normalised exponential of log prior_k (minus infinity below the smallest prior) - D/2 log(2 pi) - 1/2 sum_j log sigma2_kj - 1/2 Mahalanobis distance, shifted by the largest of the log-densities of the point over all modes, and the value returned is the log-likelihood of all points. '
               'Maximization: each point counts for a mode, in scalar and in vector code alike, when its posterior is at least 0.01 / number of modes; mass, mean, variance (about the new mean) and prior of every mode are the weighted averages of the data, modes without mass excepted; variances are at least the lower bound of their dimension, also before the first iteration; priors sum to one. '
               'Loop (vl_gmm_em): expectation, then stop when the iterations are used up or, after the first, the relative variation of the log-likelihood since the previous iteration is below 1e-5, then from the third iteration on restart of empty modes (the mode with the largest prior * (entropy - log prior) is split along its dimension of largest variance at its mean, no posterior mass being lost), then maximization; posteriors and log-likelihood returned are those of the final model. '
               'Initialisation from k-means takes the model of the hard assignments; random initialisation takes priors 1/K, the sample variance of the data for every mode, and means picked from the data. '
               'vl_gmm_cluster keeps priors, means, covariances, posteriors and log-likelihood of the repetition with the largest log-likelihood, and a model given by the user is fitted from that model; the setters copy all values.',
     quant='every data set, type, dimension, number of modes, points, iterations and repetitions', over=['inputs', 'histories'],
     why='the tests run no Gaussian mixture at all; unlikely points, modes without mass, several repetitions and the scalar against the vector code need particular data',
     files=['vl/gmm.c'],
     mech=[('vl_get_gmm_data_posteriors_f/d', 'vl/gmm.c'), ('_vl_gmm_maximization_, _vl_gmm_restart_empty_modes_, _vl_gmm_em_, _vl_gmm_apply_bounds_', 'vl/gmm.c'), ('vl_gmm_init_with_kmeans, vl_gmm_init_with_rand_data, vl_gmm_cluster', 'vl/gmm.c')],
     technique='closed forms of all stores over symbolic iteration spaces, guards and order of the phases; temporaries identified by what is accumulated into them',
     note=NOTE + 'Identities are over the reals. That EM increases the likelihood follows from the steps mathematically and is not checked; the distance functions are property C15.'),
dict(id='C42', title='Dense SIFT computes the documented descriptor for every image and geometry',
     statement='vl_dsift_process: sizes are brought up to date and every orientation channel is cleared over its whole extent, for every image anew. At each pixel the gradient is central inside and one-sided at the first and last row and column, its modulus is split between the two nearest of numBinT orientations in proportion to nearness. '
               'With the Gaussian window each channel is smoothed, columns then rows, with the kernel (1 - |x| / binSize) times the Gaussian window of the bin (vertical size and bin for columns, horizontal ones for rows); with the flat window with the triangular kernel, the bin weighted by the mean of the window and the bin sizes. '
               'Bin (x, y, t) of frame (i, j) is the smoothed channel t at boundMin + (i stepX + x binSizeX, j stepY + y binSizeY), stored at t + numBinT (x + numBinX y) of descriptor i + j * frames per row. The keypoint is the centre of the descriptor and its norm the sum of the unnormalised descriptor over the covered area; each descriptor is then divided by its norm, clamped at 0.2 and divided by its norm again. '
               'The number of frames and the descriptor size follow every change of steps, bounds and geometry: floor(range / step) + 1 frames in each direction, none when the descriptor does not fit. vl_dsift_transpose_descriptor moves bin (x, y, t) to (y, x, numBinT/4 - t modulo numBinT). The constructors set the documented defaults.',
     quant='every image of at least three rows and columns, geometry, steps, bounds and window', over=['inputs', 'configurations'],
     why='the tests only check that dense SIFT runs; unequal bin sizes or steps, image borders, the flat window and repeated calls need particular configurations',
     files=['vl/dsift.c', 'vl/dsift.h'],
     mech=[('vl_dsift_process, _vl_dsift_with_gaussian_window, _vl_dsift_with_flat_window', 'vl/dsift.c'), ('_vl_dsift_new_kernel, _vl_dsift_update_buffers', 'vl/dsift.c'), ('vl_dsift_set_*, vl_dsift_transpose_descriptor', 'vl/dsift.h')],
     technique='closed forms of all stores and convolution arguments over symbolic iteration spaces, image regions apart; order of the phases',
     note=NOTE + 'Identities are over the reals and read vl_fast_sqrt, vl_fast_atan2 and vl_mod_2pi as the functions they approximate (their accuracy is property C16); the convolutions themselves are property C32.'),
dict(id='C43', title='Local binary patterns: codes, patterns, interpolation and norms are as defined',
     statement='vl_lbp_new: of the 256 patterns the two constant ones have code 56, the 56 patterns with one circular run of ones that starts at neighbor i (E, SE, S, SW, W, NW, N, NE) and has length j have code 7 i + j - 1, all others 57; with transposed storage the code of a pattern is that of the pattern seen in the transposed image. '
               'vl_lbp_process: the pattern of a pixel has bit k set exactly when neighbor k is strictly greater than the pixel; every inner pixel adds to the four nearest cells that exist, and to no other, the bilinear weight of its position (x + 1/2)/cellSize - 1/2 in the channel of its code; the output is cleared first, over its whole extent; '
               'finally each entry of a cell becomes the square root of the entry over the square root of the sum of the cell (plus 1e-10).',
     quant='every image, size and cell size; all 256 patterns and all ties; both storage orders', over=['inputs'],
     why='the tests look at a few images; ties, images that are not a multiple of the cell size and single table entries are not sampled',
     files=['vl/lbp.c'],
     mech=[('vl_lbp_new, _vl_lbp_init_uniform', 'vl/lbp.c'), ('vl_lbp_process', 'vl/lbp.c')],
     technique='closed forms of the table and of all contributions; complete enumeration of the patterns and of the positions relative to the grid on the closed form',
     note=NOTE + 'Identities are over the reals.'),
dict(id='C44', title='HOG features are the documented ones for every image, variant and history',
     statement=('vl_hog_new: the dimension is 3 n + 4 (Uoctti) or 4 n (DalalTriggs), the n directions are at angles k pi/n (transposed images: axes exchanged), the flip permutation maps each dimension to that of the mirrored image, and each glyph is the bar perpendicular to its gradient. '
      'vl_hog_put_image: the grid has (size + cellSize/2) / cellSize cells; it starts from zero whatever was extracted before, a buffer is reused only for the same grid. At every inner pixel the gradient is the central difference of the channel where its squared modulus is largest; it goes to the direction with the largest absolute projection (opposite ones told apart by the sign), or with bilinear assignment to the two nearest with linear weights, and bilinearly to the cells around the pixel that exist. '
      'vl_hog_put_polar_field does the same with the given modulus and angle for pixels of positive modulus, angles of any size being wrapped at 2 pi (directed) or pi. vl_hog_extract: each cell is divided by the norm of the four 2x2 blocks it is in (border cells repeated), entries are clamped at 0.2 and the four versions averaged (Uoctti: 2 n directed, n undirected, 4 texture sums) or listed (DalalTriggs), independently of earlier extractions. '
      'vl_hog_render draws for each cell every glyph with the weight of its orientation, summed over the versions.'),
     quant='every image, number of channels and orientations, cell size, variant, layout and sequence of calls on one object', over=['inputs', 'histories', 'configurations'],
     why='the tests look at one image; ties of channels, transposed layout, borders, angles out of range and repeated use need particular inputs and histories',
     files=['vl/hog.c'],
     mech=[('vl_hog_new', 'vl/hog.c'), ('vl_hog_prepare_buffers, vl_hog_put_image, vl_hog_put_polar_field', 'vl/hog.c'), ('vl_hog_extract, vl_hog_render', 'vl/hog.c')],
     technique='closed forms of all stores over symbolic iteration spaces; the bins and the permutation enumerated on the closed form; order of the phases',
     note=NOTE + 'Identities are over the reals. That projecting on the directions finds the nearest of them is geometry and is not checked.'),
dict(id='C41', title='SIFT follows the documented method for every image, keypoint and history',
     statement=('Scale space: vl_sift_new derives the nominal smoothing, step and level range from its arguments; the first octave is the image doubled (linear interpolation) or subsampled |o_min| times in both directions whatever its shape, smoothed by the missing part of the nominal scale; the next level is the previous one smoothed by the difference of the scales; the next octave is the level S above subsampled by two; no octave is left exactly at the end, and the keypoints and gradients of an earlier image or octave are never used. '
      'Detection: level s of the difference of Gaussians is level s+1 minus level s; a point is a candidate exactly when it is beyond 0.8 times the peak threshold and strictly beyond all 26 neighbors. Refinement: derivatives by central differences, the 3x3 system solved with the largest pivot, up to five steps of one pixel when the displacement exceeds 0.6, and the keypoint kept exactly when peak, edge, displacement and range tests hold; its octave, position, scale and sigma are stored in image units. '
      'Gradients are central inside and one-sided at borders. Orientations: votes of the circular Gaussian window (1.5 sigma) in 36 bins between which each is shared linearly, six rounds of circular three-bin averaging, each bin above both neighbors and 0.8 of the maximum gives the vertex of the parabola, at most four. Descriptors (and raw descriptors): each gradient of the window votes for its eight nearest bins in the frame of the keypoint with linear and Gaussian weights; normalised, zero when below the norm threshold, clamped at 0.2 and normalised again. '
      'Keypoints of other octaves or out of range are ignored. vl_sift_keypoint_init finds octave and level from sigma.'),
     quant='every image, size, number of octaves and levels, first octave, threshold, keypoint and sequence of images processed with one filter', over=['inputs', 'histories', 'configurations'],
     why='the tests run SIFT on one image with default octaves; several images with one filter, negative first octaves, borders, ties and single neighbors or bins need particular inputs and histories',
     files=['vl/sift.c', 'vl/sift.h'],
     mech=[('vl_sift_new, vl_sift_process_first_octave, vl_sift_process_next_octave, _vl_sift_smooth, copy_and_upsample_rows, copy_and_downsample', 'vl/sift.c'), ('vl_sift_detect', 'vl/sift.c'),
           ('update_gradient, vl_sift_calc_keypoint_orientations, vl_sift_calc_keypoint_descriptor, vl_sift_calc_raw_descriptor, fast_expn', 'vl/sift.c'), ('vl_sift_keypoint_init', 'vl/sift.c')],
     technique='closed forms of all stores over symbolic iteration spaces, compared as expressions or, where large, by evaluating both closed forms at sample points; decisions read off the branch conditions',
     note=NOTE + 'Identities are over the reals. Gradients, votes, smoothing and the solution of the linear system are compared with the definition at chosen assignments of the atoms of the closed form, not for all of them. The convolutions are property C32; that extrema of the sampled scale space are features of the scene is not checked.'),
dict(id='C39', title='Quick shift: density, links and medoid shift follow their definition',
     statement=('For each pixel vl_quickshift_process stores the Parzen density: the sum over the window of ceil(3 sigma) pixels in each direction, clipped to the image, of exp(-D/(2 sigma^2)), D the squared distance of position and channels together; densities start from zero each time an object processes an image. '
      'Each pixel is linked to the nearest pixel of strictly greater density within the maximum distance (it looks at all of them), with the distance as link distance; a pixel without one is its own parent at infinite distance, so links cannot form cycles. In medoid mode each pixel is linked to the pixel of the window of greatest score, computed from the squared norms and the weighted sums of the window. '
      'Links are searched after all densities are known; pixels are indexed by row + height * column + height * width * channel throughout, and buffers have one entry per pixel.'),
     quant='every image, shape, number of channels, kernel size, maximum distance and sequence of calls on one object', over=['inputs', 'histories', 'configurations'],
     why='the tests segment one image; windows at borders of non-square images, ties of density, fractional kernel sizes and a second call need particular inputs and histories',
     files=['vl/quickshift.c', 'vl/quickshift.h'],
     mech=[('vl_quickshift_process, vl_quickshift_distance, vl_quickshift_inner', 'vl/quickshift.c'), ('vl_quickshift_new', 'vl/quickshift.c')],
     technique='closed forms of all stores and of one step of the searches over symbolic iteration spaces, compared with the definition at sample points; decisions read off the branch conditions',
     note=NOTE + 'The closed forms are compared with the definition for sample sizes, kernels and assignments of the image, not for all of them. That a search which keeps the better of best and candidate in every step ends with the best is an induction outside the machinery; rounding is not considered.'),
dict(id='C45', title='Integer k-means: nearest centers, means, bounds and end of training are right',
     statement=('vl_ikm_push and vl_ikm_push_one assign each datum to the first of its nearest centers. vl_ikm_train with Lloyd assigns each datum to the first of its nearest centers; with Elkan the first assignment does the same, and in each later round a datum goes to another center exactly when that is nearer than its current one, whatever upper and lower bounds the pruning uses, also right after it has moved. '
      'Sums and counts start from zero in each round and cover all data; a center with data becomes the integer quotient of sum and count, a center without is never divided. When centers move, the lower and upper bounds kept for each datum still bound its squared distances; the distances between centers used for pruning are a quarter of the squared distances and those to the nearest other center do not exceed them. '
      'Training goes on until no assignment changes or the number of iterations is reached, never reads an assignment that has not been made, and each temporary has room for what is stored in it for every number of data and centers.'),
     quant='every set of data and centers, dimension, number of data and centers, number of iterations and algorithm', over=['inputs', 'configurations'],
     why='the tests cluster a few random sets with one algorithm; ties, more centers than data, bounds that are loose or centers without data need particular inputs',
     files=['vl/ikmeans.c', 'vl/ikmeans_lloyd.tc', 'vl/ikmeans_elkan.tc'],
     mech=[('vl_ikm_push, vl_ikm_push_one, vl_ikm_train, vl_ikm_init', 'vl/ikmeans.c'), ('vl_ikm_train_lloyd', 'vl/ikmeans_lloyd.tc'), ('vl_ikm_train_elkan, vl_ikm_elkan_update_inter_dist', 'vl/ikmeans_elkan.tc')],
     technique='closed forms of all stores and of one step of the searches over symbolic iteration spaces, compared with the definition at sample points; decisions read off the branch conditions',
     note=NOTE + 'The closed forms are compared with the definition for sample data, centers and bounds, from each state one step can reach, not for all of them. Integer overflow for millions of data per center is not considered, nor how near the result is to an optimal clustering.'),
dict(id='C46', title='Hierarchical integer k-means: nodes cluster exactly their data; paths are right',
     statement=('Each node of the tree chooses its centers among its data, is trained with and assigns all of them, and each of its children is built from exactly the data assigned to the corresponding center, one after the other and counted, with no more centers than data, with the options of the tree and one level less; nodes of the last level and only they have no children. '
      'vl_hikm_train builds the tree from all data, as deep as asked for. '
      'vl_hikm_push takes each datum from the root to the child of its nearest center in each node, and stores the indexes of these centers in the row of the datum, one entry per level.'),
     quant='every data set, dimension, number of centers, depth and datum pushed', over=['inputs', 'configurations'],
     why='the tests build one tree from random data in the toolbox only; nodes with few data, deeper levels and other strides need particular trees',
     files=['vl/hikmeans.c', 'vl/hikmeans.h'],
     mech=[('xmeans, vl_hikm_copy_subset, vl_hikm_train, vl_hikm_init', 'vl/hikmeans.c'), ('vl_hikm_push', 'vl/hikmeans.c')],
     technique='closed forms of all stores and call arguments over symbolic iteration spaces, compared with the definition at sample sizes; decisions read off the branch conditions; dominance of phases',
     note=NOTE + 'The closed forms are compared for sample sizes. The quantisers of the nodes are property C45.'),
dict(id='C50', title='SIFT keypoints and descriptors are stable under changes of the image',
     statement='Keypoints detected in an image are detected at the transformed position, scale and orientation in a rotated, scaled, brighter or slightly noisy version of it, and their descriptors remain close to each other.',
     quant='every natural image and every transformation of the class', over=['inputs'],
     why='the tests compare one image; the statement is about all images and tolerances',
     files=['vl/sift.c', 'vl/dsift.c'], mech=[('vl_sift_detect, vl_sift_calc_keypoint_descriptor', 'vl/sift.c')],
     technique='none', note='',
     na='repeatability is a statistical statement about images and interpolation error; no property of the source bounds it. The steps of the method, which can be decided from the source, are C41 and C42.'),
dict(id='C51', title='Clustering and mixture learning never worsen their objective',
     statement='The energy of k-means with l2 distance never grows, and the log-likelihood of a Gaussian mixture never decreases from one iteration to the next, up to rounding.',
     quant='every data set, number of components and initialisation', over=['inputs', 'histories'],
     why='the tests look at a few runs; the statement quantifies over all data and iterations',
     files=['vl/kmeans.c', 'vl/gmm.c'], mech=[('VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)', 'vl/kmeans.c'), ('VL_XCAT(_vl_gmm_em_, SFX)', 'vl/gmm.c')],
     technique='none', note='',
     na='follows from the exactness of the single steps (C37, C38) by Jensen and mean-is-minimiser arguments over real numbers, and fails by rounding and variance floors by amounts that depend on the data; neither is decided by a static analysis of the source.'),
dict(id='C52', title='SVM training converges to the optimum within the requested tolerance',
     statement='When training reports convergence, the objective is within epsilon of the optimum for every strongly convex problem, and SGD approaches it as iterations grow.',
     quant='every training set, loss, regulariser and random order of samples', over=['inputs', 'histories'],
     why='the tests train on one or two data sets',
     files=['vl/svm.c'], mech=[('vl_svm_train', 'vl/svm.c')],
     technique='none', note='',
     na='a convergence statement about an unbounded randomised iteration; only the exactness of each step, of the reported statistics and of the stopping rule can be read off the source (C32).'),
dict(id='C53', title='Maximally stable extremal regions are those of the image for every image',
     statement='The regions returned for an image of any number of dimensions are exactly the connected extremal regions whose area variation is a local minimum and which pass the area, variation and diversity tests, with the moments of their pixels as ellipsoids.',
     quant='every image, number of dimensions and set of parameters', over=['inputs'],
     why='the tests run one image; equal pixels, borders and nested regions need particular images',
     files=['vl/mser.c'], mech=[('vl_mser_process', 'vl/mser.c'), ('vl_mser_ell_fit', 'vl/mser.c')],
     technique='none', note='',
     na='the forest is built by union-find with path compression over pixels in the order of a counting sort; that it represents the component tree is a heap invariant over unbounded pointer chains with data-dependent order, out of reach of the closed forms used here (single stores could be compared, but they do not settle the statement).'),
dict(id='C54', title='SLIC superpixels are connected, cover the image and have the minimum size',
     statement='Each pixel gets exactly one label, pixels of one label are connected, and regions smaller than the minimum size are merged into a neighbor.',
     quant='every image, size, region size, regulariser and minimum region size', over=['inputs'],
     why='the tests segment two images; connectivity depends on the assignment of every pixel',
     files=['vl/slic.c'], mech=[('vl_slic_segment', 'vl/slic.c')],
     technique='none', note='',
     na='connectivity is established by a flood fill whose frontier is a run-time queue; the reachability invariant over the pixel graph is not expressible in the analyses used here.'),
dict(id='C55', title='Affine covariant detection: frames adapt to the local shape of the image',
     statement='The affine adaptation ends with a frame whose second moment matrix is isotropic within tolerance or drops the feature, and detected frames follow affine transformations of the image.',
     quant='every image, detector, frame and affine transformation', over=['inputs'],
     why='the tests detect features of one image',
     files=['vl/covdet.c'], mech=[('vl_covdet_extract_affine_shape', 'vl/covdet.c'), ('vl_covdet_detect', 'vl/covdet.c')],
     technique='none', note='',
     na='a fixpoint of a numerical iteration over interpolated image data; whether and where it converges depends on the image and on rounding.'),
dict(id='C56', title='Floating point results stay within rounding error of the exact ones',
     statement='Sums, distances, kernels, convolutions and decompositions differ from the exact real result by no more than the rounding error of a reasonable summation order, and vectorised and scalar code agree within it.',
     quant='every input of every length', over=['inputs', 'configurations'],
     why='the tests compare a few vectors within a fixed tolerance',
     files=['vl/mathop.c', 'vl/mathop_sse2.c', 'vl/mathop_avx.c', 'vl/imopv.c'], mech=[('vl_eval_vector_comparison_on_all_pairs', 'vl/mathop.c')],
     technique='none', note='',
     na='the error depends on magnitudes and lengths that no static argument bounds for unrestricted input; equality over the reals is decided by C15, C16, C34 and C35.'),
dict(id='C47', title='AIB clustering: least loss of information is merged; probabilities are kept',
     statement=('vl_aib_new normalises the joint table to sum one before it computes the marginals, and starts with all entries to be updated, unknown parents and room for all results. '
      'Each round of vl_aib_process brings the least merging cost and closest entry of each marked entry up to date, where the cost of merging two different entries of nonzero probability is exactly the mutual information lost, merges the pair of least cost, adds the probabilities of the pair in one entry, moves the last entry to the free place with all its data, marks exactly the entries whose closest entry was merged and renames the moved one in the others. '
      'The parents of the two merged nodes are the new node, costs holds the mutual information before the first and after each merge, and merging ends after all merges or when only entries of zero probability remain, with the remaining costs not a number.'),
     quant='every joint table of values and labels and every history of merges', over=['inputs', 'histories'],
     why='the tests cluster two small tables; wrong indexes show only after particular merges, with rare labels or equal costs',
     files=['vl/aib.c', 'vl/aib.h'],
     mech=[('vl_aib_update_beta, vl_aib_min_beta, vl_aib_merge_nodes', 'vl/aib.c'), ('vl_aib_process, vl_aib_calculate_information, vl_aib_new', 'vl/aib.c')],
     technique='closed forms of all stores, sums and call arguments over symbolic iteration spaces, compared with the definition at sample sizes; decisions read off the branch conditions; dominance of phases',
     note=NOTE + 'The closed forms are compared for sample tables and pairs; equality is over the reals.'),
]
NA = []
