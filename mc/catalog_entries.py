prop("C01", "Cache returns exactly what was stored and honours its memory limit",
     "After any sequence of lookups and insertions, a cached value is the value last stored under that key, a key is reported as cached "
     "exactly when reading it succeeds, and a key that was never stored is never reported as cached. Entries are only dropped when the "
     "memory limit is exceeded, and then only entries that were used at most once; the values being added are never dropped by their own "
     "insertion. A cache without a positive limit is not created.",
     ["histories"], "all sequences of lookups and insertions (single and batched) over a small key set and several limits",
     "No unit test touches the cache; the guarantee is over histories that interleave usage counts and evictions.",
     ["include/k52/common/cache.h", "include/k52/common/stored_value.h"],
     "eviction of little-used entries before each insertion; usage counts kept per entry",
     SEQ, "Every operation sequence up to the stated length over 3 keys, 4 batches and 4 limits is executed on the real template and compared "
          "with a reference map after each operation. Bounded by length and alphabet.")
prop("C02", "Random quantities stay in range for every answer of the generator",
     "For every value the underlying generator may return: the base quantity lies in [0,1], continuous quantities and every component of a "
     "random vector lie in the requested closed interval, and discrete quantities lie in the closed integer range and can take each value "
     "of it. An event of probability 0 never happens, one of probability 1 always happens, a more probable event happens whenever a less "
     "probable one would with the same draw, and an invalid probability is refused. Every random boolean is decided by generator bits that "
     "no other boolean uses and can take both values.",
     ["inputs", "histories"], "all generator answers at both ends, both halves, all residues and bits; all probabilities and intervals of an alphabet",
     "The unit tests draw samples from the real generator, so the rare answers (0, RAND_MAX, particular bits) that break ranges never occur.",
     ["src/common/random.cpp", "include/k52/common/random.h"],
     "scaling of the generator's answer; refilling of a word of random bits",
     ENV, "The generator (rand) is replaced at link time and each of its answers enumerated from an alphabet containing the extreme values; "
          "exhaustive over that alphabet.")
prop("C03", "Settings read back what was set, parsed or merged",
     "A setting read by its path is the value last put there, or given last on the command line as --path=value, or found in the "
     "configuration file; a setting nobody gave yields the default or, without default, an error. Merging two configurations keeps every "
     "setting of either, and where both define a setting the left one wins; names that contain dots are kept as names.",
     ["inputs", "histories"], "all command lines and put sequences up to a length, all pairs of small configuration trees",
     "The tests read a handful of fixed settings; conflicts, nesting, repeated names and dotted names are a product space.",
     ["include/k52/common/settings_manager.h", "include/k52/common/settings_manager.inl"],
     "property tree with path addressing; recursive left-biased merge",
     SEQ, "Exhaustive over the stated command lines, put sequences and tree pairs, against a map from paths to values.")

prop("C04", "Comparisons with a tolerance, conjugation and printing are as defined",
     "Two numbers are equal if and only if they differ by less than 1e-10, a number is zero if it equals zero in this sense, vectors are equal if they have the same "
     "length and equal elements; the result does not depend on order or sign, and nothing equals not-a-number. The conjugate of a sequence has "
     "exactly the conjugates of its elements, and its conjugate is the sequence. A vector is printed with 15 significant digits and the "
     "precision of the output stream is the same afterwards.",
     ["inputs"], "all pairs of numbers around the tolerance at several magnitudes, all pairs of short vectors, all short sequences",
     "Tests compare six pairs, all far from the tolerance; vectors have one element.",
     ["src/common/floating_point.cpp", "src/common/helpers.cpp", "src/common/constants.cpp"],
     "absolute difference against a constant; loops over elements",
     SEQ, "Exhaustive over the stated menus.")
prop("C05", "An exception of the user's code reaches the caller and has no lasting effect",
     "When a function, parameter, mutator, callback, wavelet, scale, transform, task or optimizer written by the user throws at any of its "
     "calls, the operation of the library ends with this very exception, the library's objects that took part (apart from parameters "
     "being optimized, individuals being changed, and counters of tasks) then do exactly what they would do had the failing operation "
     "not been called, and nothing that it created is left undestroyed.",
     ["inputs", "fault_sequences", "histories"], "every call of the user's code in each of about 47 uses of the library fails, each followed by the same use without failures",
     "No test has a function that throws, although the interfaces are implemented by users and every call may fail.",
     ["src/optimization/", "src/dsp/", "src/parallel/sequential_worker_pool.cpp", "include/k52/common/cache.h"],
     "smart pointers and local objects; results are stored after they were calculated",
     ENV, "Exhaustive over the failing call (thorough: pairs of failing calls one after another); random draws are fixed. State is compared through what the objects do next.")
prop("C06", "Running out of memory is reported and leaves the objects usable",
     "When any allocation in an operation of the library fails (or FFTW makes no plan), the operation ends with an exception instead of a crash; splines, sampled wavelets and "
     "arrays of parameters are as before or as after it; doing the operation again with enough memory gives the "
     "right result; and all memory and FFTW plans that were acquired are given back.",
     ["inputs", "fault_sequences", "histories"], "every allocation in each of about 47 uses of the library fails, each followed by the same use with enough memory",
     "Tests never fail an allocation; the paths taken then are not executed at all.",
     ["src/dsp/akima_spline.cpp", "src/dsp/transform/fast_fourier_transform.cpp", "src/dsp/transform/", "src/optimization/params/", "src/optimization/"],
     "the standard library's exceptions; smart pointers; swap",
     ENV, "Exhaustive over the failing allocation (operator new, fftw_malloc, plan creation; thorough: pairs one after another); blocks and plans are counted.")
prop("C07", "A refused call has no effect",
     "When the library refuses a call with an exception because of its arguments or of the state of the object (splines, wavelets, "
     "transforms, convolutions, caches, settings, parameters, individuals, optimizers, pools), the objects concerned do afterwards exactly "
     "what they would do had that call not been made, whatever was done before and is done after it, and no memory is lost.",
     ["inputs", "histories"], "every sequence of operations, valid and refused ones, up to a length on objects of about 25 kinds",
     "Tests check that a wrong call throws, not what the object does afterwards, and not in every state it can be in.",
     ["src/dsp/akima_spline.cpp", "src/dsp/wavelet.cpp", "src/dsp/transform/", "include/k52/common/cache.h", "include/k52/common/settings_manager.inl",
      "src/optimization/params/", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"],
     "arguments and state are validated before anything is changed",
     SEQ, "Two objects are driven by the same history, one without the refused operations, and everything observable of both is compared after each operation; blocks of memory are counted.")
prop("C08", "A copy works like the original and independently of it",
     "An object of the library that can be copied or assigned (splines, inverse transforms, individuals, mutators, settings, statistics) "
     "equals the original as it was at that moment, and from then on each of the two does what it would do if there were no other, "
     "whatever is done to the other, including its destruction; assigning an object to itself changes nothing and no memory is lost or freed twice.",
     ["histories"], "every sequence of operations on two objects, of assignments between them and of copies made of either",
     "Tests make at most one copy and do not go on using both; sharing shows only in certain orders of operations.",
     ["src/optimization/genetic_algorithm/individual.cpp", "include/k52/dsp/akima_spline.h", "include/k52/dsp/transform/inverse_fourier_transform.h",
      "include/k52/common/settings_manager.h", "include/k52/common/disallow_copy_and_assign.h"],
     "copy constructor and assignment of Individual; members with value semantics; classes that own resources forbid copying",
     SEQ, "Each object is compared after each step with one that was never copied and has the same history; address sanitizer and a count of blocks. "
          "Classes that cannot be copied at present are driven too as soon as they can.")
prop("C09", "Results do not depend on what memory contained before",
     "What any operation of the library returns, refuses or leaves in its objects is the same whatever the memory contained that the program "
     "or the operating system gave it: nothing is read before the library has written it, also by objects that were just made and not told anything yet.",
     ["inputs", "histories", "configurations"], "every use and every short history of operations on about 30 kinds of objects, times contents of the heap and of the stack",
     "In a test memory is mostly fresh from the system and zero, so reading something never initialized goes unnoticed there and fails in a long-lived program.",
     ["src/optimization/genetic_algorithm/gen_mutator_base.cpp", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/", "src/dsp/", "src/parallel/"],
     "constructors initialize every field",
     ENV, "operator new and the stack below the call contain each of 6 patterns (thorough: also each single allocated block differs from all others); everything returned and observed is compared with memory of zeros.")
prop("P01", "A batch on the thread pool performs each task once and aligns results",
     "Whatever the operating system's scheduling, when a batch given to the thread pool returns, every task of it has been performed exactly "
     "once, by one worker, and the result at each position is the one returned by the task at that position. This holds for consecutive "
     "batches on the same pool, for empty batches and for batches larger or smaller than the number of workers; no schedule deadlocks, and "
     "nothing is accessed by two threads without synchronisation.",
     ["schedules"], "all schedules with a bounded number of preemptions, spurious wakeups and out-of-order notifications",
     "The tests never run the thread pool under a controlled schedule; an ordinary run sees a handful of interleavings.",
     ["src/parallel/thread/thread_worker_pool.cpp", "src/parallel/thread/thread_worker_pool_templated.h",
      "src/parallel/thread/worker.h", "src/parallel/thread/thread_safe_queue.h"],
     "two blocking queues (tasks to do, done tasks); the caller waits for as many done tasks as it pushed",
     SCHED, "Real threads and the real boost synchronisation; every schedule of each driver (2-3 workers, 0-3 tasks, 1-3 batches) with at most "
            "the stated deviations. Sequentially consistent memory; data races are reported by a vector-clock detector on the instrumented code.")
prop("P02", "A failing task is reported to the caller and leaves the pool usable",
     "When tasks of a batch throw, handing out the batch ends with the exception of one of the failing tasks (the first one in the "
     "sequential pool) instead of hanging, terminating the program or returning results. The pool can be used for further batches "
     "afterwards, and the other tasks of the batch on the thread pool are still performed exactly once.",
     ["schedules", "fault_sequences"], "all subsets of failing tasks, kinds of exception and schedules within the bound",
     "No test makes a task fail; the outcome depends on which worker fails when.",
     ["src/parallel/thread/worker.h", "src/parallel/thread/thread_worker_pool_task.cpp", "src/parallel/thread/thread_worker_pool.cpp",
      "src/parallel/sequential_worker_pool.cpp"],
     "failures are stored per task and rethrown by the thread that waits for the batch",
     SCHED, "Every subset of failing tasks (batches of 1-3) x 3 kinds of exception x every schedule with at most the stated preemptions.")
prop("P03", "Pools start and stop cleanly under every schedule",
     "Destroying a thread pool at any moment after its creation (unused, after batches, after a failed batch, with another pool alive) "
     "ends: all its workers have finished when the destructor returns, or when the creation of the pool fails because a thread cannot be created. "
     "A pool with fewer than two workers says that it is not valid and "
     "refuses batches without performing any task, and the best pool for the machine is always valid and working.",
     ["schedules", "configurations", "fault_sequences"], "all schedules within the bound; machines with 0 (unknown), 1, 2 and 3 processors; each creation of a thread failing",
     "Shutdown races need a particular interleaving of interruption, waiting and notification, which tests cannot force.",
     ["src/parallel/thread/worker.h", "src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/worker_pool_factory.cpp"],
     "workers are interrupted while waiting for tasks, then joined before the queues are destroyed",
     SCHED, "Interposed thread creation/join/interruption; deadlock, leaked thread and use-after-destruction detection on every explored schedule.")
prop("P04", "The pool's blocking queue is a linearizable FIFO without lost wakeups",
     "Concurrent pushes, blocking pops and non-blocking pops on the pool's queue behave as if performed one after another on a FIFO queue: "
     "no element is lost, duplicated or reordered, and a non-blocking pop fails only if the queue was empty at some moment of the call. A "
     "blocked consumer always gets an element when enough have been pushed.",
     ["schedules", "histories"], "all interleavings of 2-4 threads with 1-3 calls, with a bounded number of preemptions and spurious wakeups",
     "There are no tests of the queue; lost wakeups need a notification to fall between a consumer's check and its wait.",
     ["src/parallel/thread/thread_safe_queue.h"],
     "mutex and condition variable; one notification per push",
     SCHED, "Every call/return history of every explored schedule is checked for linearizability by brute force.")

prop("P05", "Sequential pool, statistics and factory behave as specified",
     "The sequential pool performs the tasks of a batch in order, each exactly once, up to the first that throws; it returns the results by position, "
     "the same task given twice gives two results, and no result is kept alive by the pool. Its statistics count the tasks done since its "
     "creation; statistics of several workers count for each exactly what was registered for it. The factory makes sequential pools and best pools, a "
     "new one for each request, and refuses kinds that were not built with logic_error.",
     ["histories"], "all sequences of batches on two pools, of registrations for four workers, of requests to the factory, up to a length",
     "No test uses the sequential pool, its statistics or the factory directly.",
     ["src/parallel/sequential_worker_pool.cpp", "src/parallel/statistics_aggregator.cpp", "src/parallel/worker_statistics.cpp",
      "src/parallel/worker_pool_factory.cpp"],
     "a loop over the tasks; a map of counters by rank; a switch over kinds of pools",
     SEQ, "Exhaustive over sequences of 3 batches of up to 3 tasks (2 of up to 4; thorough: 6) with each failing position, compared with a model.")
prop("P06", "Batches on MPI workers give each task its own result",
     "When a batch given to the MPI pool returns, each task has been performed exactly once, by one worker, and the result at each position "
     "is that of the task at this position, in whatever order results arrive and whether or not sends wait for receivers; as many workers take part as there are tasks for; nothing deadlocks, and no message is left over. "
     "A batch with a task that is not an MPI task is refused without effect, as is any batch without workers; when the pool is destroyed all "
     "workers end. The genetic algorithm and random search find on workers what they find without.",
     ["schedules", "histories"], "all orders of arrival with each message late a bounded number of times, 1-3 workers, 1-3 batches",
     "The build of the tests has no MPI; the order of arrival is up to the network.",
     ["src/parallel/mpi/mpi_worker_pool.cpp", "src/parallel/mpi/identifyable_objects_manager.cpp", "src/parallel/worker_pool_factory.cpp",
      "src/optimization/random_search.cpp", "src/optimization/genetic_algorithm/genetic_algorithm.cpp"],
     "one outstanding task per worker; chains of asynchronous receives polled in a loop",
     "explicit-state exploration of the real code, one process per rank, on a simulated MPI: exhaustive enumeration of message arrival orders within bounds",
     "The real MpiWorkerPool is compiled against a simulated boost::mpi (non-overtaking, buffered or synchronous sends); each rank is a process, all completion orders within the bound.")
prop("P07", "Objects sent to another rank arrive as they were",
     "Every continuous optimizer received from another rank works as the one that was sent, whatever its settings were before; continuous "
     "and discrete parameters received have the values sent, bit by bit. Sending changes nothing. The registry of objects "
     "returns for an identifier a copy of the object registered last for its type, refuses unknown identifiers, and types have different identifiers.",
     ["inputs", "histories"], "all pairs of settings (sender, receiver), all chromosomes of small parameters, special values, all histories of the registry",
     "The build of the tests has no MPI.",
     ["src/optimization/steepest_descent_method.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/optimization/hooke_jeeves_method.cpp",
      "src/optimization/hleborodov_rosenbrock_method.cpp", "src/optimization/bounded_nelder_mead.cpp", "src/optimization/params/continuous_parameters_array.cpp",
      "src/optimization/params/discrete_parameters.cpp", "src/parallel/mpi/identifyable_objects_manager.cpp"],
     "members sent and received one by one in the same order; a map of clones by type name",
     SEQ, "Exhaustive over the stated menus; two processes on a simulated MPI, both kinds of sends; each setting varied alone.")
prop("P08", "Optimization on the thread pool gives the result of the sequential one",
     "The genetic algorithm and random search (with each continuous optimizer inside), given the same random draws, return on the thread pool the result they return "
     "on the sequential pool and evaluate the same points, under every schedule of the workers; nothing is accessed by two threads without synchronisation; an "
     "exception of the objective function reaches the caller and the next run is not affected.",
     ["schedules"], "all schedules within a bounded number of preemptions",
     "Tests are built without threads; the outcome depends on schedules.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/random_search.cpp", "src/optimization/count_objective_function_task.cpp",
      "src/optimization/optimization_task.cpp", "src/parallel/thread/thread_worker_pool.cpp"],
     "tasks hold clones of functions, parameters and optimizers",
     SCHED, "2-3 workers, populations of 2-4, 2-3 starting points; all schedules with at most 1 (thorough: 2) preemptions; race detection by happens-before.")

prop("P09", "Interrupting a thread that uses a pool loses neither tasks nor the program",
     "When the thread that creates a thread pool, waits for a batch or destroys a pool is interrupted at any moment (boost::thread::interrupt), "
     "the program is not terminated, and once the call has ended, with results or an exception, no task of the batch is being performed "
     "or will be later. Every later batch on the pool returns the results of its own tasks, and no worker outlives its pool.",
     ["schedules", "fault_sequences"], "an interruption at every moment of the call, under all schedules with a bounded number of preemptions",
     "No test interrupts a thread; what happens depends on where the interrupted thread waits at that moment.",
     ["src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/thread_safe_queue.h", "src/parallel/thread/worker.h"],
     "the blocking queue and join are interruption points of the caller too; interruption is disabled around them",
     SCHED, "One thread creates, uses and destroys the pool while another interrupts it (the schedule decides when), then a further batch; "
            "batches of 0-3 tasks, a failing task, a thread that cannot be created.")
prop("P10", "Threads with objects of their own do not disturb each other",
     "When several threads at the same time use splines, wavelets, transforms, caches, settings, discrete or continuous parameters, "
     "deterministic optimizers or sequential pools, each its own objects, every call does and returns what it does alone, and nothing is "
     "accessed by two threads without synchronisation, also when an object is used for the first time in the program. "
     "The wavelet functions that are given by formulas, scales and direct transforms may even be shared.",
     ["schedules"], "all pairs of uses of 21 kinds, all schedules with a bounded number of preemptions between and inside of calls",
     "No test uses threads; hidden shared state (static buffers, tables made on first use) is invisible to one thread.",
     ["src/dsp/", "include/k52/common/cache.h", "include/k52/common/settings_manager.h", "src/optimization/", "src/parallel/sequential_worker_pool.cpp"],
     "no global state but Random and the registry of objects",
     SCHED, "Two threads with every pair of 21 uses, at most 3 (thorough: 5) preemptions; three threads with the same use. Race detection by happens-before, "
            "results compared with the same use alone. What draws random numbers is not included: Random is one object for all.")
prop("P11", "A thread pool survives lack of memory in any thread",
     "When an allocation fails in the calling thread or in a worker while a thread pool is created, performs batches or is destroyed, each call either succeeds fully or "
     "ends with an exception; tasks of a batch are performed at most once and none of them after the call for that batch has ended; "
     "nothing deadlocks, and the pool performs the next batch correctly.",
     ["schedules", "fault_sequences"], "each allocation of each thread fails, under all schedules with a bounded number of preemptions",
     "Neither failing allocations nor schedules are controlled by any test.",
     ["src/parallel/thread/thread_worker_pool.cpp", "src/parallel/thread/thread_worker_pool_templated.h",
      "src/parallel/thread/worker.h", "src/parallel/thread/thread_safe_queue.h"],
     "the caller waits for what it has queued also if it cannot queue more; a worker repeats to report a task it has done",
     SCHED, "Failing allocations and preemptions share a bound of 1-2 (thorough 2-3) per execution; 2 workers, batches of 1-45 tasks, so that the queues grow.")
prop("P12", "As many tasks of a batch as the pool has workers run at the same time",
     "On a thread pool with W workers, also when it was chosen as the best pool, tasks of a batch that wait until as many tasks as there are "
     "workers (or all, if they are fewer) have begun come to an end, whatever the scheduling: no worker stays idle or is lost while tasks wait, "
     "whatever batches were performed before and whether or not tasks of them failed. The fitness evaluations of the genetic algorithm and the "
     "searches of random search with an optimizer run at the same time, too.",
     ["schedules", "histories"], "all schedules with a bounded number of preemptions",
     "Tests compare results, which are the same if one thread does all the work.",
     ["src/parallel/thread/worker.h", "src/parallel/thread/thread_worker_pool_templated.h", "src/parallel/thread/thread_safe_queue.h",
      "src/parallel/worker_pool_factory.cpp", "src/optimization/objective_function_counter.cpp", "src/optimization/optimization_parameters_processor.cpp"],
     "each worker takes the next task when it is done with one; one notification per pushed task",
     SCHED, "Tasks meet at a barrier that needs all workers, so a batch on fewer of them is a deadlock, which the scheduler detects. 2-4 workers, 2-4 tasks, up to two batches.")
prop("D01", "Fourier transforms compute the defining sum and keep no history",
     "The direct transform, for a sequence of any length, and the fast transform, for sequences of the length it was created for, return "
     "X[k] = sum over n of x[n] exp(-2 pi i k n / N) within rounding, whatever was transformed before with the same object and whichever "
     "other transforms exist, were destroyed or refused their input; the argument is not changed. The fast transform refuses length 0 and "
     "any sequence of a different length with invalid_argument and stays usable.",
     ["inputs", "histories"], "all impulses and dense vectors of each length up to a bound, all small vectors over an alphabet, all operation histories",
     "The tests transform one fixed vector with a fresh object; a linear map is determined by all impulses, and state leaks need histories.",
     ["src/dsp/transform/fourier_transform.cpp", "src/dsp/transform/fast_fourier_transform.cpp", "include/k52/dsp/transform/i_fourier_transform.h"],
     "defining double sum; FFTW plan over buffers owned by the object",
     SEQ, "Exhaustive over the stated vectors and histories (depth 4/5) on the real code with the real FFTW; FFTW's planner is wrapped so that it "
          "overwrites the planning arrays, as it may. Comparison with an extended-precision reference, tolerance 1e-11 relative to the 1-norm.")
prop("D02", "The inverse Fourier transform undoes the forward transform",
     "Over either forward transform, the inverse transform returns x[n] = 1/N sum over k of X[k] exp(2 pi i k n / N) within rounding; inverse "
     "after forward and forward after inverse return the original sequence, for every length and whatever was done before with the shared "
     "forward transform; the argument is not changed.",
     ["inputs", "histories"], "all impulses and dense vectors of each length up to a bound, all small vectors over an alphabet, all operation histories",
     "The tests invert one fixed vector; sharing one forward transform between several users needs histories.",
     ["src/dsp/transform/inverse_fourier_transform.cpp"], "conjugation before and after a forward transform, scaling by N",
     SEQ, "Exhaustive over the stated vectors and histories against an extended-precision reference.")
prop("D03", "All circular convolutions compute the definition",
     "The direct convolution and the Fourier based one, over either Fourier transform, return c[n] = sum over m of a[m] b[(n-m) mod N] within "
     "rounding for two sequences of the same length, also when both are the same sequence; sequences of different lengths are refused with "
     "runtime_error without effect on later evaluations.",
     ["inputs", "histories"], "all pairs of impulses of each length up to a bound, all pairs of small vectors over an alphabet, all operation histories",
     "The tests convolve a fixed pair; a bilinear map is determined by all pairs of impulses.",
     ["src/dsp/transform/circular_convolution.cpp", "src/dsp/transform/fourier_based_circular_convolution.cpp"],
     "direct double sum; product of transforms followed by the inverse transform",
     SEQ, "Exhaustive over the stated pairs and histories against an extended-precision reference.")
prop("D04", "The fast wavelet transform is the wavelet sum and its cache is invisible",
     "For each scale s of its scale set, in order, row n of the fast wavelet transform of a signal f of even length N is the sum over m of "
     "f[m] conj(psi((m-n)/s)) / sqrt(s), with m-n taken modulo N; for every length it is linear and commutes with cyclic shifts. With any "
     "cache limit, results are those of an uncached transform for every history of wavelets, scales and signals, including a wavelet replaced "
     "by another one at the same address; a cache that cannot get below its limit may only end in an explicit runtime_error. Scales that are "
     "not > 0 and signals of a wrong length are refused.",
     ["inputs", "histories"], "all impulses, wavelets and scale sets within bounds; all operation histories on one transform for several cache limits",
     "No test covers the fast wavelet transform; the cache can only be wrong after a history of different wavelets and scales.",
     ["src/dsp/transform/wavelet/fast_wavelet_transform.cpp", "include/k52/common/cache.h"],
     "cached wavelet samples keyed by wavelet, scale and length; Fourier based convolution; rotation by N/2",
     SEQ, "Exhaustive over the stated signals and all histories up to depth 5 (6 thorough) of 8 operations, 4 cache limits.")
prop("D05", "Fourier transforms may be created, used and destroyed by several threads",
     "Threads may create, use and destroy their own fast Fourier transforms at the same time, also while another creation is refused: FFTW's "
     "planner, which is not thread-safe, is never entered by two threads at once, nothing deadlocks, there is no data race and every result "
     "is that of the definition. The direct transform and convolution have no state and may be shared.",
     ["schedules"], "all schedules of 2-3 threads with a bounded number of preemptions, also inside the planner",
     "No test uses transforms from several threads; overlap inside the planner needs a particular interleaving.",
     ["src/dsp/transform/fast_fourier_transform.cpp"], "one static mutex around planning and destroying of plans",
     SCHED, "Real threads under the controlled scheduler; planner calls are wrapped to detect overlap and to allow a preemption inside.")
prop("D06", "The Akima spline interpolates as defined and refuses what it cannot answer",
     "Within its knots the spline is Akima's: it passes through every knot, its derivative is continuous and, at a knot, is the mean of the "
     "neighbouring secants weighted by the changes of the secants on the opposite sides; straight lines are reproduced. Outside of the knots, "
     "for NaN and before training, a value is refused with out_of_range; training data that is too short or inconsistent is refused and the "
     "spline stays as trained before; splines do not influence each other.",
     ["inputs", "histories"], "all values and gaps over small alphabets for 5-7 knots, all positions of a bend, all histories of trainings",
     "The tests evaluate two fixed data sets; interval resolution and degenerate slopes depend on the position and equality of neighbours.",
     ["src/dsp/akima_spline.cpp", "include/k52/dsp/akima_spline.h"], "slopes from extrapolated secants; binary search for the interval",
     SEQ, "Exhaustive over the stated knots, 5 evaluation points per interval, against an extended-precision reference of the definition.")
prop("D07", "Wavelets, scales and the continuous transform follow their definitions",
     "Haar, Morlet and Mexican hat wavelets have their defining values everywhere; linear and logarithmic scales contain exactly the values "
     "asked for and refuse invalid ranges (also NaN); a wavelet made from samples takes them at equidistant places of [-4,4), is zero outside and has a "
     "value everywhere, and is refused for too few samples. The continuous transform of a signal has, per step and scale, the modulus of the "
     "inner product of the zero-extended signal with the stretched wavelet (even lengths), with or without progress reports, and a wavelet "
     "that is changed and built again equals a new one.",
     ["inputs", "histories"], "grids of arguments, all numbers of samples, all combinations of lengths, counts, types, steps and impulses, all rebuild histories",
     "No unit test covers these functions except two fixed scales.",
     ["src/dsp/wavelet.cpp", "src/dsp/cwt.cpp", "include/k52/dsp/wavelet.h", "include/k52/dsp/cwt.h", "src/dsp/spline_based_wavelet_function.cpp",
      "src/dsp/haar_wavelet_function.cpp", "src/dsp/morlet_wavelet_function.cpp", "src/dsp/mhat_wavelet_function.cpp",
      "src/dsp/transform/wavelet/linear_scale.cpp", "src/dsp/transform/wavelet/logarithmic_scale.cpp"],
     "closed formulas; tables of stretched wavelet samples rebuilt on request",
     SEQ, "Exhaustive over the stated grids and histories against an extended-precision reference. Linear wavelet scale only for divisible lengths.")

# ---- optimization ------------------------------------------------------------
prop("O01", "Discrete parameters and chromosomes: a faithful encoding within the bounds",
     "Integer, real, array and composite parameters: every value in [min, max] that can be set (integers: all; reals: within the precision "
     "asked for) survives the way through its chromosome, min and max are reachable, each chromosome of a real parameter decodes into its "
     "interval and satisfies the constraints, and those of an integer that do not fit its range decode to a value which CheckConstraints "
     "rejects. Chromosomes are written and read exactly in the given range of genes, those of another size are refused with invalid_argument, "
     "values outside the bounds are refused without effect, composites concatenate the genes of their parts in order and satisfy their "
     "constraints if all parts do.",
     ["inputs"], "all ranges up to a bound at several offsets, all precisions from a grid, every value and every code of each; nested composites",
     "No test covers the parameters; wrong sizes and roundings appear only for particular ranges and precisions.",
     ["src/optimization/params/int_parameter.cpp", "src/optimization/params/double_parameter.cpp", "src/optimization/params/double_parameters_array.cpp",
      "src/optimization/params/composite_discrete_parameters.cpp", "src/optimization/params/const_chromosome_size_paremeters.cpp"],
     "number of genes from the range and precision; binary digits of the offset from the minimum",
     SEQ, "Exhaustive over the stated ranges and codes; integers up to the full int range at powers of two.")
prop("O02", "Clones and copies are equal and independent; uninitialized objects refuse",
     "A clone of integer, real, array, composite or continuous parameters and a copy of an Individual equal their original and share nothing "
     "with it: after every history of modifications (through chromosomes or directly), clonings and destructions each object has the value "
     "last given to itself. HasSameMetaParameters is symmetric and true exactly for equal ranges, precisions and sizes, and then chromosomes "
     "mean the same. Composites and individuals which were not initialized, or are initialized twice, refuse with logic_error.",
     ["histories"], "all histories of operations on three slots up to a depth, for each kind of parameters; all pairs of meta-parameters from a grid",
     "Sharing between clones shows only after a particular order of modifications.",
     ["src/optimization/params/", "src/optimization/genetic_algorithm/individual.cpp", "src/optimization/initialization_checker.cpp"],
     "Clone() of every kind of parameters; copy constructor and assignment of Individual",
     SEQ, "Exhaustive to the stated depth, against a model that keeps one plain value per object.")

# ---- genetic algorithm -------------------------------------------------------
prop("O03", "The genetic algorithm evaluates and returns only feasible individuals",
     "Whatever the random draws, mutations, population sizes, elitism and constraints: the genetic algorithm gives its objective function "
     "only parameters that satisfy their constraints, completes exactly population_size individuals per generation, starts from the given "
     "initial parameters when they are given, and leaves in the optimized parameters a feasible value within its ranges.",
     ["inputs", "histories"], "all draws of the random generator, all feasible sets and all mutations, up to a number of generations and deviations",
     "The examples run one seeded search; an infeasible child or a short population needs particular draws.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/individual.cpp"],
     "rejection loops around random generation, crossover and mutation",
     ENV, "Exhaustive over the answers of the random generator, as far as the stated limits of deviations and generations go.")
prop("O04", "The genetic algorithm returns the best individual it has ever evaluated",
     "After Optimize, also after several runs of one object, the parameters are one of the individuals evaluated with the greatest fitness of the whole run, which ends with the first "
     "generation that reaches the stop value, or after the maximal number. The mutator is told (generation, maximum) once before every new "
     "generation, whose individuals are those it left; without mutation they are one-point crossovers of previous ones, and the elite "
     "survives. Minimisation and initial parameters of a wrong number, type or size are refused with invalid_argument, values that "
     "are negative or NaN end it with logic_error.",
     ["inputs", "histories"], "all draws, all fitness functions over a menu and all mutations for small populations; consecutive runs",
     "The examples check one seeded run; losing the best individual depends on the fitness values and draws.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp"],
     "best individual kept next to the population; elitist selection; stop criterion",
     ENV, "Exhaustive over random answers and lazily chosen fitness values within the stated limits.")
prop("O05", "The genetic algorithm's fitness cache changes nothing but the cost",
     "With any cache limit, and the same random draws, the genetic algorithm produces the same generations' best and average fitness and the "
     "same result; an individual whose fitness is cached is not evaluated again within a run, and the cache hits reported are the individuals "
     "that were not evaluated. A limit that is too small may only end in runtime_error. Consecutive runs with other objective functions do "
     "not see each other's values.",
     ["inputs", "histories"], "all draws and fitness functions within limits, run with every cache limit; all histories of runs with different functions",
     "No test compares cached with uncached runs; stale values appear only in a second run or after an eviction.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "include/k52/common/cache.h", "src/optimization/objective_function_counter.cpp"],
     "cache from chromosome to fitness that is cleaned below its limit; Individual keeps its own fitness",
     ENV, "Exhaustive over random answers within the stated limits; the uncached run is the oracle.")
prop("O06", "A saved population is read back as it was",
     "The population saved while a generation is reported, read back as initial population with the same settings, makes generation 0 of the "
     "next run consist of exactly these individuals, and saving it again gives the same file. Files with a wrong number of individuals, wrong "
     "size, other characters or infeasible individuals end in logic_error, missing ones in runtime_error, before anything is evaluated and "
     "with unchanged parameters.",
     ["inputs", "crash_points"], "all populations of a small size, all draws before saving, and all truncations and single-character changes of the file",
     "No test saves or reads a population.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp"],
     "text file of genes, one individual per line",
     ENV, "Exhaustive over populations and the stated damages of the file.")
prop("O08", "Reports of the genetic algorithm describe the generation they claim to",
     "The callback is called exactly once per generation, in order, also in a second run: with its number, the average fitness of its "
     "individuals, the best value and parameters so far, the cache hits, a number of invalid chromosomes that is between half of all and all "
     "rejected ones, and one statistic per individual of the preceding generation with its fitness, ordered by how often it was chosen for "
     "reproduction: together twice per pair of children made, also for rejected ones.",
     ["inputs", "histories"], "all draws and fitness functions within limits, with and without cache, several runs",
     "No test looks at the statistics.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp", "src/optimization/genetic_algorithm/generation_statistics.cpp",
      "include/k52/optimization/individual_statistics.h"],
     "statistics collected while the population reproduces",
     ENV, "Exhaustive over random answers within the stated limits, against a record of all evaluations and checks.")
prop("O07", "Individuals are crossed, generated and mutated by their definition",
     "Crossover turns two individuals into the two one-point crossovers at the same point, every cut can be reached, it tells whether both are "
     "feasible and refuses different sizes with invalid_argument. A random chromosome is feasible, every feasible one can be reached and the number "
     "of rejected ones is returned; mutation applies the mutator until the individual is feasible and returns how often it was not. Parameters always "
     "correspond to the chromosome, no changed individual keeps a fitness, and an individual written and read as text is the same, while damaged text is refused.",
     ["inputs", "histories"], "all pairs of short chromosomes, all feasible sets, all mutants, all sequences of draws from covering sets",
     "No test covers the operators; wrong edges appear for particular draws only.",
     ["src/optimization/genetic_algorithm/individual.cpp", "include/k52/optimization/individual.h"],
     "random cut point; rejection loops; text format of individuals",
     ENV, "Exhaustive over the stated chromosomes, feasible sets and draws.")
prop("O17", "Mutators flip genes at the rates they were made for",
     "The flip bit mutator of probability p leaves 0 to floor(1/p)-1 genes between mutations, also across chromosomes, all gaps can be reached. "
     "The linear mutator flips each gene independently with the probability on the line from its start to its end over the generations, exactly never for 0 "
     "and always for 1. Chromosomes keep their length, and probabilities that are negative or too large are refused with invalid_argument.",
     ["inputs", "histories"], "all sequences of draws from covering sets, all short divisions of genes into chromosomes, all generations of short runs",
     "No test covers the mutators; wrong edges appear for particular draws and generations only.",
     ["src/optimization/genetic_algorithm/flip_bit_mutator.cpp", "src/optimization/genetic_algorithm/linear_mutator.cpp",
      "src/optimization/genetic_algorithm/gen_mutator_base.cpp"],
     "counters of skipped genes; linear interpolation between two probabilities",
     ENV, "Exhaustive over the stated draws. Flip probabilities in (0, 0.5] or clearly invalid (negative, above 0.5).")

# ---- continuous optimizers -----------------------------------------------------
prop("O09", "Bounded Nelder-Mead stays in its bounds and returns the best point it has seen",
     "For every objective function, direction, starting point (also outside the bounds), simplex size and bounds: every point that is evaluated "
     "lies within the bounds, and the result is an evaluated point with the best value of all. For linear functions no start that is not optimal "
     "is returned as it is, also in corners of the bounds.",
     ["inputs", "histories"], "all answers of the function from a menu at the first points, 1-4 dimensions, bounds, starts and sizes enumerated",
     "The tests optimize one smooth function; leaving the bounds or losing the best vertex needs particular values in a particular order.",
     ["src/optimization/bounded_nelder_mead.cpp"], "projection to the bounds; best vertex of the final polygon",
     ENV, "Exhaustive over the function's answers at the first 7-10 (thorough: up to 13) distinct points.")
prop("O10", "Hooke-Jeeves returns a minimum of its final grid, the best point it has seen",
     "For every objective function: the result is an evaluated point, not worse than the start and the best of all evaluated. Unless the limit "
     "of iterations is reached (and for a first step above the precision), the result is not improved by any step along a coordinate of a size s "
     "whose successor s / divider is within the precision, and all these points were evaluated.",
     ["inputs", "histories"], "all answers of the function from a menu at the first points, 1-3 dimensions, 6 settings, both directions",
     "The tests optimize smooth functions with one setting; lost improvements need particular answers.",
     ["src/optimization/hooke_jeeves_method.cpp"], "coordinatewise search, pattern moves, steps divided after failures",
     ENV, "Exhaustive over the function's answers at the first 4-12 (thorough: up to 15) distinct points.")
prop("O11", "Maximizing a function is minimizing its negation, for every optimizer",
     "Every continuous optimizer, with the same random draws, evaluates the same points in the same order and returns the same result when it "
     "maximizes f and when it minimizes -f (random search: a result of the same value), and does the same through the general interface of "
     "optimizers.",
     ["inputs", "histories"], "all answers of the function from a menu at the first points, 8 optimizers with 2 settings",
     "The tests use each direction for one function; a comparison that forgets the direction shows for particular values.",
     ["src/optimization/continuous_optimizer.cpp", "src/optimization/simple_parameters_processor.cpp", "src/optimization/optimization_parameters_processor.cpp"],
     "sign of the objective function by direction",
     ENV, "Exhaustive over the function's answers at the first 6 (thorough: 8) points; runs are cut off after 120 evaluations.")
prop("O12", "Continuous optimizers remember nothing and clones are equal",
     "An optimizer that has made any other runs before (of other functions, dimensions, directions, also runs ended by an exception of the "
     "function), or that is a clone of one made at any time, evaluates the same points and returns the same result as a new one, given the same "
     "random draws.",
     ["histories"], "all histories of 1 (thorough: 2) runs for 8 optimizers, clones made at every place",
     "Tests use a new optimizer for each run.",
     ["src/optimization/", "include/k52/optimization/"], "members that carry state: polygons, basis, steps, counters",
     SEQ, "Exhaustive over the stated histories; compared with a new object in every evaluated point. Annealing and random search cannot be cloned by design.")
prop("O13", "Random search returns the best of the points it drew",
     "Random search tries exactly the number of points it was made for, drawn uniformly and separately for each coordinate within its bounds (both "
     "included), and returns a best one of them; with an optimizer, one is run from each point in the same direction and the best of their results is returned. "
     "A search among no points is refused with invalid_argument.",
     ["inputs"], "all draws from a covering set, all values of the function, all results of an inner optimizer, for few points",
     "The tests check one seeded search; the last point or a tie being lost depends on the values.",
     ["src/optimization/random_search.cpp", "src/optimization/simple_parameters_processor.cpp", "src/optimization/optimization_parameters_processor.cpp"],
     "points evaluated by the worker pool; linear search for the best",
     ENV, "Exhaustive over draws, values and inner results for 1-4 points.")
prop("O14", "Simulated annealing accepts by its definition",
     "In iteration i of n, simulated annealing proposes the current point with one parameter, any of them, replaced by a value drawn from the bounds; an improvement is "
     "accepted, a change for the worse by d with probability exp(-d n / (n - i)), never in the last iteration; the result is the current point after n "
     "iterations, in both directions.",
     ["inputs", "histories"], "all draws from a covering set and all values of the function from a menu for 1-3 iterations; deviations from a stream for 8 and 20",
     "Tests check a seeded run; a wrong temperature or comparison is visible only for particular draws.",
     ["src/optimization/simulated_annealing.cpp"], "linear temperature; acceptance by an event of a given probability",
     ENV, "Exhaustive over draws and values within the stated limits, against the definition.")
prop("O15", "The continuous optimizers find the optimum of quadratic functions",
     "Steepest descent, conjugate gradients, Hooke-Jeeves, Hleborodov-Rosenbrock and bounded Nelder-Mead, with the settings of the "
     "tests or similar ones, find the optimum of convex quadratic functions of 1 to 4 variables within 0.005 from every start on a grid, "
     "also when started at the optimum, minimizing and maximizing (Nelder-Mead in one dimension: if its simplex is not symmetric to the optimum).",
     ["inputs"], "a grid of coefficients, optima and starts for 5 methods in both directions",
     "Tests use one function and start per method.",
     ["src/optimization/steepest_descent_method.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/optimization/hooke_jeeves_method.cpp",
      "src/optimization/hleborodov_rosenbrock_method.cpp", "src/optimization/bounded_nelder_mead.cpp"], "descent with line search; pattern search; simplex",
     SEQ, "Exhaustive over the stated grid only; quadratics with moderate condition numbers.")
prop("O16", "Optimizers evaluate only admissible parameters and refuse other kinds",
     "No continuous optimizer evaluates its function at parameters whose CheckConstraints is false: it ends in logic_error (random search draws "
     "another point), and without such a point it does not. Continuous optimizers refuse discrete parameters and functions, the genetic algorithm "
     "continuous ones, functions refuse parameters of the other kind, all without effect; value vectors of another size are refused with invalid_argument.",
     ["inputs", "histories"], "all answers of the constraints at the first points, or at one later point, for 8 optimizers; all combinations of kinds",
     "No test has constraints on continuous parameters or mixes kinds.",
     ["src/optimization/continuous_optimizer.cpp", "src/optimization/discrete_optimizer.cpp", "src/optimization/continuous_objective_function.cpp",
      "src/optimization/discrete_objective_function.cpp", "src/optimization/params/continuous_parameters_array.cpp", "src/optimization/random_search.cpp"],
     "constraints checked before each evaluation; dynamic casts",
     ENV, "Exhaustive over the constraint's answers at the first 7 (thorough: 10) points.")
prop("O20", "The settings of the continuous optimizers mean what they say",
     "With a smaller limit of iterations (steepest descent, conjugate gradients, Hooke-Jeeves, Hleborodov-Rosenbrock) or a larger precision "
     "(Hooke-Jeeves, Hleborodov-Rosenbrock, bounded Nelder-Mead) a run evaluates the first points of the run that may do more; the limit, from 1 on, "
     "ends runs that have no other end, after every iteration it allows. Gradient methods take their gradient with the increment they are given and end before "
     "the limit only where it is within the precision. First and accelerated steps have the sizes given, Hleborodov-Rosenbrock makes none beyond its "
     "greatest step, and Nelder-Mead begins with a regular simplex of the given edge that contains the start.",
     ["inputs", "configurations"], "pairs of runs that differ in one setting, with all values of the function at the first points and with functions of four kinds",
     "Tests give each method one group of settings and look at the result only.",
     ["src/optimization/steepest_descent_method.cpp", "src/optimization/conjugate_gradient_method.cpp", "src/optimization/hooke_jeeves_method.cpp",
      "src/optimization/hleborodov_rosenbrock_method.cpp", "src/optimization/bounded_nelder_mead.cpp"],
     "loops with exit criteria on iterations, steps and gradients; first steps; regular simplex",
     ENV, "Exhaustive over the function's values at the first 5 (thorough: 7) points and over the stated settings; limits up to 8.")
prop("O19", "Parents are chosen in proportion to their fitness",
     "The genetic algorithm fills each generation with its elites and with children of couples; each parent is drawn with a probability equal to its share "
     "of the population's total fitness, whatever the order of the individuals and however many are elites. Individuals of fitness 0 are not chosen while "
     "others have fitness, and the two parents of a couple are drawn independently of each other.",
     ["inputs", "configurations"], "all tuples of fitness values from a menu, all values of an even grid of draws, all combinations of quarters for the draws of a couple",
     "A wrong roulette still improves on the tests' functions; the proportions are visible only over all draws.",
     ["src/optimization/genetic_algorithm/genetic_algorithm.cpp"],
     "roulette over cumulated fitness; statistics of parents",
     ENV, "Exhaustive over the stated fitness values and draws; parents are counted through the statistics reported to the callback.")
prop("O18", "Grid search evaluates every grid point once and returns a best one",
     "For bounds and precision that give m values per variable, grid search over n variables evaluates exactly the m to the n points of the "
     "grid, each once, and sets the parameters to one with the greatest value. Bounds or precisions without points are refused with "
     "invalid_argument, more points than can be counted with length_error, other kinds of parameters with runtime_error, without an evaluation. Searches with one object do not influence each other.",
     ["inputs", "histories"], "all values from a menu of three at all points of small grids, all places of the best point in larger ones, pairs of searches",
     "No test uses grid search.",
     ["src/optimization/grid_search.cpp", "src/optimization/objective_function_counter.cpp"],
     "points by mixed radix numbers; evaluation in one batch; greatest element",
     ENV, "Exhaustive over the function's values; bounds and precisions for which the number of points is exact. The class is abstract, so a derived class is used.")
