prop('C01', 'A stored fitness always belongs to the stored chromosome',
     'Whenever a candidate held by the algorithm is marked as evaluated, its fitness is the value of the fitness function for exactly the chromosome it holds. '
     'Crossover, mutation, repair, cached evaluation and replacement may keep a fitness only for an unchanged chromosome (or copy it from a candidate with an equal one), and after the evaluation step every candidate is evaluated.',
     ['inputs', 'histories', 'configurations'], 'all parents, random decisions, operators, repair functions, cache contents and run histories',
     'The unit tests evaluate a few fixed candidates; a stale fitness needs a particular random outcome of an operator (e.g. a child equal to one parent) and is silently absorbed by the search.',
     ['src/core/ga_base.impl.hpp', 'src/crossover/crossover_base.impl.hpp', 'src/mutation/mutation_base.impl.hpp', 'src/core/candidate.hpp'],
     [('evaluation', 'GA<T>::evaluate'), ('crossover wrapper', 'Crossover<T>::operator()'), ('mutation wrapper', 'Mutation<T>::operator()'), ('repair', 'GA<T>::repair')],
     'interprocedural typestate / symbolic token analysis over CFGs',
     'Path-sensitive over every path of every function that assigns candidates or their parts; equality of candidates is taken as equality of the encoded solution; user operators are opaque.')
prop('C11', 'Every generation runs the same fixed protocol',
     'A run starts at generation 0 with an initial population that is evaluated, recorded by the metrics once and reported to the end-of-generation callback once; every further generation selects, breeds, evaluates and replaces, then advances the generation counter by one, then updates the optimal solutions, the metrics and calls the callback exactly once each, in that order. '
     'The stop condition is consulted exactly once before each generation and no generation is run after it has been met.',
     ['histories', 'configurations', 'inputs'], 'all runs, callbacks, stop conditions and settings',
     'Tests check end results of short runs with one configuration; ordering and exactly-once facts must hold on every path of the run loop.',
     ['src/core/ga_base.impl.hpp', 'src/core/ga_info.hpp'],
     [('run loop', 'GA<T>::solve'), ('initialisation', 'GA<T>::initializeAlgorithm'), ('one generation', 'GA<T>::advance')],
     'interprocedural automaton over the run loop (all CFG paths, virtual calls resolved)',
     'Every normal path of every solve overload is run through the protocol automaton; events are identified by the fields behind the public getters/setters, not by private names.')
prop('C02', 'A run does not depend on previous runs of the same object',
     'Solving with an object that has been used before behaves exactly like solving with a fresh object of the same configuration: nothing that a run changes in the solver, its algorithm, selection and replacement methods, operators, stop conditions or metrics can be read by a later run before it has been set anew. '
     'This includes defaults that are deduced from the problem, cached fitness values, counters, recorded metrics, the order in which worker threads are given work, and scratch variables that persist between calls (only the random generator state carries over).',
     ['histories', 'configurations'], 'all sequences of runs, problems and settings',
     'Tests run one solve per object; state leaking between runs needs a particular sequence of two runs that differ in the problem, its size or number of objectives, and only changes numbers silently.',
     ['src/core/ga_base.impl.hpp', 'src/core/ga_info.hpp', 'src/stop_condition/stop_condition.cpp', 'src/algorithm/nsga3.cpp', 'src/metrics/distribution_metrics.cpp'],
     [('per-run reset', 'GA<T>::initializeAlgorithm'), ('participant initialisation', 'initialize / initializeImpl hooks')],
     'interprocedural must-kill and upward-exposed-read dataflow',
     'Every field a per-generation hook may write is checked against the per-run initialisation on all paths, per dynamic class (virtual calls resolved) and per configuration flag; library containers are single pieces of state, an element-wise store loop is assumed to cover its container; user callables are assumed stateless.')
prop('C03', 'A run leaves the settings of the solver as they were',
     'A generation limit given for one run applies to that run only: after the run ends, normally or by an exception from anything it calls, every setting of the solver (generation limit, population size, operators, stop condition, caching, flags for deduced defaults) has the value it had before, apart from defaults that are deduced for each run.',
     ['inputs', 'fault_sequences', 'configurations'], 'all exits of every solve overload, including exceptions thrown by any user callback at any point',
     'Tests do not throw from every point of a run and then inspect the settings.',
     ['src/core/ga_base.impl.hpp', 'src/utility/scope_exit.hpp', 'src/core/ga_info.hpp'],
     [('run entry', 'GA<T>::solve'), ('scope guard', 'detail::restore_on_exit')],
     'interprocedural automaton over normal and exceptional paths',
     'Settings are the fields stored by public setters; the guard class itself is verified to write the saved value back on every path of its destructor.')
prop('C06', 'Concurrent work inside a run is free of data races',
     'Whatever a run executes in parallel (evaluating, crossing, mutating and repairing candidates, selecting parents, merging pareto sets, associating solutions with reference directions, non-dominated sorting, hypervolume) never lets two concurrent iterations access the same memory when one of the accesses is an unsynchronised write. '
     'Each iteration writes only its own element, its own local or thread-local data, or shared data through atomic operations or under a lock.',
     ['schedules', 'inputs', 'configurations'], 'all interleavings, thread counts, problems and library operators',
     'A race shows only under particular interleavings; the tests run few iterations on one schedule and do not detect torn or lost updates.',
     ['src/core/ga_base.impl.hpp', 'src/core/population.hpp', 'src/algorithm/nd_sort.cpp', 'src/algorithm/nsga3.cpp', 'src/metrics/pop_stats.cpp', 'src/utility/rng.hpp', 'src/mutation/mutation_base.impl.hpp'],
     [('parallel loops of a run', 'GA<T>::advance'), ('pareto set merge', 'detail::mergeParetoSets'), ('dominance matrix', 'constructDominanceMatrix'), ('hypervolume', 'detail::hypervolume')],
     'interprocedural effect analysis with iteration-indexed access paths, locksets and thread-locality',
     'All accesses reachable from every parallel loop body (all overriders of virtual calls) are paired; loop elements are assumed distinct, user callables are assumed thread safe as documented; the synchronisation primitives themselves are covered by their own checks.')
prop('C08', 'A parallel loop waits for all of its work and loses no exception',
     'A parallel loop (fitness evaluation, crossover, mutation, sorting) returns, normally or by an exception, only after every piece of work it handed to other threads has finished, and it never waits for work that was not accepted or that only the waiting thread itself could run (loops may be nested). '
     'An exception thrown by any iteration, on any thread, reaches the caller of the loop after all other work has stopped; it is never lost and never terminates the program.',
     ['schedules', 'fault_sequences', 'inputs'], 'all interleavings, thread counts, nesting of loops, iterations that throw, refused submissions',
     'Returning early only shows as a use of a dead stack frame under an unlucky schedule, and only when an iteration on the calling thread throws while workers are busy.',
     ['src/utility/thread_pool.hpp', 'src/utility/latch.hpp', 'src/utility/concurrent_queue.hpp'],
     [('parallel loop', 'thread_pool::execute_loop'), ('worker thread', 'thread_pool::worker_t')],
     'interprocedural typestate analysis (abstract interpretation over all normal and exceptional CFG paths)',
     'Every path of the submitting functions, including exceptional edges, is followed with the submitted task itself run at the join; the count given to the completion counter is not compared with the number of submissions.')
prop('C12', 'Methods assembled from parts drive every part identically',
     'A combination of stop conditions, an algorithm assembled from a selection and a replacement method, and a set of metrics drive each of their parts through its complete life cycle: every part is initialised once per run and evaluated or updated exactly once whenever the whole is, with the same solver and data, no matter what the other parts answer. '
     'The answer of a combined stop condition is the conjunction, disjunction or negation of the answers of its parts, its parts may themselves be combined stop conditions, and the generation limit applies whatever a stop condition answers.',
     ['configurations', 'histories'], 'all combinations of stop conditions (nested to any depth), selection and replacement methods and metrics, all answers of the parts',
     'Parts that keep state (stall counters, recorded metrics) only misbehave in particular combinations, when one part is skipped because of what another one answered.',
     ['src/stop_condition/composite.hpp', 'src/stop_condition/stop_condition_base.cpp', 'src/algorithm/single_objective.cpp', 'src/metrics/metric_set.cpp', 'src/algorithm/algorithm_base.impl.hpp'],
     [('combined stop conditions', 'stop::operator&&, ||, !'), ('assembled algorithm', 'algorithm::SingleObjective'), ('set of metrics', 'detail::MetricSet')],
     'abstract interpretation of every composite hook over all CFG paths, counting what reaches each part; instantiation witnesses for nesting',
     'Parts are opaque and may answer anything; the composites are found from the types (hooks that hold other participants). Nested combinations are checked by compiling them.')
prop('C25', 'Metrics record exactly one entry per generation',
     'Every metric starts a run with an empty record and each update appends exactly one entry to it (and to every container it keeps in step with the record), on every path; nothing else adds, removes or reorders entries. '
     'So entry i always belongs to generation i of the last run.',
     ['histories', 'inputs'], 'all metrics, runs and fitness values, including runs that follow an aborted run',
     'Tests read the metrics of one run with one kind of fitness values; a skipped or repeated entry needs particular values (no improvement, no evaluation, worse nadir).',
     ['src/metrics/monitor.hpp', 'src/metrics/distribution_metrics.cpp', 'src/metrics/misc_metrics.cpp', 'src/metrics/fitness_metrics.cpp'],
     [('record', 'metrics::Monitor'), ('auto-referenced hypervolume', 'metrics::AutoHypervolume')],
     'abstract interpretation of initialize/update of every metric class, counting appends over all CFG paths',
     'Metric classes are found from the class hierarchy; the values of the entries are not judged.')
prop('C19', 'Caching never changes results and every evaluation is counted',
     'A fitness that is taken from the cache is only ever used for a solution equal to the one it was computed for in the same run, and a solution that is not in the cache is evaluated by the fitness function; with a dynamic fitness function every solution is evaluated anew and the cache has no effect whatever its size, with a static one a solution that has its fitness or is found in the cache is not evaluated again. '
     'The cache holds the solutions of the configured number of generations, removes exactly the oldest entry to make room and never refers to an entry it has removed. '
     'The evaluation counter starts every run at zero and advances by exactly one for each evaluation of a candidate, also for concurrent evaluations.',
     ['inputs', 'histories', 'schedules', 'configurations'], 'all solutions, cache sizes, static and dynamic fitness functions, cache contents and interleavings',
     'Whether a solution is found in the cache depends on the random history of a run, a wrong fitness or count is silently absorbed by the search.',
     ['src/core/ga_base.impl.hpp', 'src/utility/cache.hpp', 'src/core/ga_info.cpp'],
     [('evaluation', 'GA<T>::evaluate'), ('cache', 'detail::fifo_cache'), ('what is stored', 'GA<T>::updatePopulation'), ('per-run reset', 'GA<T>::initializeAlgorithm')],
     'abstract interpretation of the evaluation step and of every cache operation over all CFG paths (typestate of entries and insertion order)',
     'The library map, the circular buffer (its own check) and the hash of solutions are taken at face value; the extra call of the fitness function that finds the number of objectives is not a candidate evaluation.')
prop('C13', 'The settings and arguments that were given are what a run uses',
     'Every value given to a constructor or a setter is what the getter of that setting returns afterwards, whatever was set before, and every setting influences the runs; the fitness function, bounds, generation limit and initial population passed to a run are the ones it uses, and without a limit the configured one is used. '
     'The algorithm is deduced from the problem exactly when none was given and the mutation rate exactly when none was given explicitly or through a mutation operator object, where the last call decides, whichever constructor or setter was used.',
     ['histories', 'configurations'], 'all sequences of constructors and setters, all values of the settings, all overloads that start a run',
     'A setting that is dropped in one overload or after a particular earlier call changes only how well the search works; no test compares all the overloads.',
     ['src/core/ga_base.impl.hpp', 'src/core/ga_info.cpp', 'src/core/ga_info.hpp', 'src/algorithm/soga_selection.cpp', 'src/algorithm/single_objective.cpp'],
     [('setters and getters', 'GaInfo, GA<T>, operators'), ('deduced defaults', 'GA<T>::GA, GaInfo::algorithm, GA<T>::mutation_method'), ('arguments of a run', 'GA<T>::solve')],
     'abstract interpretation of setter followed by getter, of every constructor and of every run overload up to its first stop check; def-use analysis of the configured fields',
     'Values are tracked as origins (which parameter), not as numbers; a setting counts as used when its field is read by code other than its accessors.')
prop('C07', 'Shared internal data is only touched under its lock',
     'Data that an internal lock protects (the task queues, the lists of the per-thread random generators and readers, the global random generator) is read and modified only while that lock of the same object is held, exclusively for modifications, and no reference to it leaves the locked region. '
     'Every acquired lock is released on every path, locks cannot deadlock by being acquired twice or in conflicting orders, and the spinning locks make everything done before a release visible to the next holder.',
     ['schedules', 'fault_sequences'], 'all interleavings of all threads that use the queues, generators and locks, all paths including exceptional ones',
     'A missing lock or memory order only fails under particular interleavings, on particular processors.',
     ['src/utility/concurrent_queue.hpp', 'src/utility/rng.hpp', 'src/utility/rcu.hpp', 'src/utility/spinlock.hpp', 'src/utility/shared_spinlock.hpp'],
     [('task queue', 'detail::concurrent_queue'), ('generator registry', 'rng::ConcurrentXoroshiro128p'), ('locks', 'detail::spinlock, detail::shared_spinlock')],
     'guarded-by inference with must-held lock sets (interprocedural for private helpers and in-place lambdas), acquisition-order graph, memory-order dataflow of the lock implementations',
     'Protected data is inferred: what is accessed under the lock somewhere outside construction and destruction. Data that is never locked is the subject of the data-race check.')
prop('C26', 'Work given to the worker threads is run exactly once',
     'Work that a queue accepts is taken out exactly once, in the order it was added, and wakes a waiting worker; work is refused exactly when the queue is closed, a worker sleeps only while its queue is open and empty, and closing a queue wakes all of its waiters. '
     'A worker thread runs each piece of work it takes exactly once and stops only when its queue is closed and drained; every queue is closed before its worker is joined and outlives it, so changing the number of threads or ending the program neither loses work nor waits forever.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of inserting, taking and closing threads, any number of waiters, shutdown at any moment',
     'A lost wake-up or an element dropped at shutdown needs a particular interleaving and shows up as a hang of one run in thousands.',
     ['src/utility/concurrent_queue.hpp', 'src/utility/thread_pool.hpp'],
     [('task queue', 'detail::concurrent_queue'), ('worker thread', 'thread_pool::worker_t'), ('shutdown', 'thread_pool::stop, thread_pool::thread_count')],
     'abstract interpretation of every queue operation, of the worker main function and of the shutdown over all CFG paths (emptiness and closed flag symbolic, forgotten while waiting)',
     'Mutual exclusion inside the operations is decided by the lock discipline check, waiting for the completion of a loop by the parallel loop check.')

prop('C14', 'Illegal arguments are diagnosed where they are given',
     'Every documented restriction of an argument (a closed interval, a lower bound, a non-negative or finite value, two values in order, a mandatory callable or method that may not be null) is enforced when the argument is given: with assertions enabled no offending value gets past the constructor, setter or run that takes it. '
     'Conforming values are never refused. The bounded number types (probability, normalized, positive, non-negative, negative, bounded) accept exactly the values of their interval, which never includes NaN.',
     ['inputs'], 'all constructors and setters of the library with a documented restriction, all values of the bounded types around their bounds',
     'Tests give legal arguments; an unchecked illegal one is stored silently and only shows much later, as a crash or as nonsense results.',
     ['src/utility/bounded_value.hpp', 'src/core/ga_base.impl.hpp', 'src/algorithm/single_objective.cpp', 'src/algorithm/soga_selection.cpp', 'src/crossover/lambda.hpp', 'src/mutation/lambda.hpp', 'src/problems/many_objective.cpp'],
     [('bounded numbers', 'detail::BoundedValue'), ('mandatory methods', 'GA<T>::crossover_method, mutation_method, solve'), ('selection and replacement', 'algorithm::SingleObjective')],
     'documentation-derived obligations, constant propagation over all paths, compile-time witnesses',
     'The documentation comments of the current headers are the oracle; every restricted parameter is propagated as an offending and as a conforming constant through the function and what it delegates to; bounded types are decided by the constant evaluator of the compiler.')

prop('C20', 'No reference outlives the storage it points into',
     'A reference, pointer, iterator, span or running loop into a growable container is never used after an operation, here or in a function called meanwhile, that may reallocate, shift, replace or free what it points into. '
     'Objects that were moved from are not read until they are assigned again. '
     'Nothing that is returned or stored refers to local objects or to temporaries that are gone.',
     ['inputs', 'histories', 'configurations'], 'all control flow paths of all library functions, all sizes of the containers involved',
     'Whether a container reallocates depends on sizes and capacities the tests do not reach; reads of freed memory usually still return the old bytes.',
     ['src/utility/cone_tree.cpp', 'src/algorithm/nsga3.cpp', 'src/algorithm/nd_sort.cpp', 'src/core/ga_base.impl.hpp', 'src/core/population.hpp', 'src/algorithm/algorithm_base.impl.hpp', 'src/crossover/crossover_impl.hpp', 'src/utility/cache.hpp'],
     [('tree construction', 'ConeTree::buildTree'), ('population update', 'GA<T>::updatePopulation, Algorithm::nextPopulation'), ('merging solutions', 'detail::mergeParetoSets')],
     'forward may-dataflow of references and moved-from objects over CFGs with interprocedural container-restructuring summaries',
     'The container classes themselves are taken at face value, and elements of nested containers that differ only in their index are assumed to be different; maps and lists are not tracked.')

prop('C09', 'All randomness comes from the one seeded generator',
     'Every random decision of the library is drawn from its own generator, whose streams (one per thread, each advanced to a separate part of the sequence) derive only from a seed that is a constant by default; nothing uses another engine, a random device, the time or a fixed private seed. '
     'Seeding again puts the stream of every thread and every piece of state that survives a draw (distributions, buffered bits) into a state that depends on the seed only, so that equal seeds give equal numbers. '
     'A thread that starts gets its own stream and is reached by later seeding until it ends.',
     ['histories', 'schedules', 'inputs'], 'all functions of the library, all sequences of draws before seeding, any number of threads',
     'The tests compare a few sequences from fresh generators; state that survives seeding needs a particular draw before it, and equal streams in two threads only weaken the search silently.',
     ['src/utility/rng.hpp', 'src/utility/distribution.hpp', 'src/mutation/permutation.cpp', 'src/encoding/permutation.cpp'],
     [('seeding', 'ConcurrentXoroshiro128p::seed'), ('thread streams', 'ConcurrentXoroshiro128p::RegisteredGenerator'), ('draws', 'rng::random*, rng::sample*')],
     'whole-program enumeration of engine and distribution uses; must-pass path analysis of seeding and thread registration; must-kill analysis of retained state',
     'The numeric quality of the streams and the distribution of the samples are out of scope, and so is the order in which threads are assigned their streams.')

prop('C04', 'Genes stay within their bounds',
     'Every candidate the solver creates, and every candidate a built-in crossover (the edge crossover aside) or mutation returns, satisfies the invariant of its encoding when the operator was given candidates that do. '
     'Real and integer genes lie between the lower and the upper bound of their own position, binary genes are 0 or 1, and the entries of a permutation are valid positions of the chromosome. '
     'This holds for every chromosome length, all bounds, every operator parameter and every outcome of the random numbers.',
     ['inputs', 'histories'], 'all chromosome lengths, bounds, parents, operator parameters and random outcomes',
     'A clamp that is missing for one child, one operator or one branch only matters for rare draws near the bounds; the sampled runs of the tests do not reach them.',
     ['src/mutation/real.cpp', 'src/mutation/integer.cpp', 'src/mutation/binary.cpp', 'src/mutation/permutation.cpp', 'src/crossover/real.cpp', 'src/crossover/crossover_impl.hpp', 'src/encoding/real.cpp', 'src/encoding/integer.cpp', 'src/encoding/permutation.cpp', 'src/encoding/binary.cpp'],
     [('operators', 'the mutate and crossover overrides of the built-in operators'), ('initialisation', 'generateCandidate of the encodings')],
     'interprocedural abstract interpretation over linear inequalities (exact rational simplex) with templates for container elements',
     'Reals are exact: rounding and NaN are outside the model. The edge crossover is left out (its genes come from a search through neighbour lists), as is the ordering requirement that a permutation has no repeated entries.')

prop('C16', 'Operators never reach outside of their containers',
     'The built-in candidate generators, crossovers (the edge crossover aside) and mutations only access elements that exist (accesses at positions a permutation crossover looks up aside), only hand ordered ranges inside their containers to algorithms, and only call helper functions whose stated preconditions hold. '
     'They never ask the random number functions for something impossible, such as an integer interval whose ends are swapped or more different numbers than a range has, and a random integer, index or element is always one of the requested range. '
     'This holds for every chromosome length (including very short ones), every operator parameter and every outcome of the random numbers.',
     ['inputs', 'histories'], 'all chromosome lengths, operator parameters and random outcomes allowed by the stated preconditions',
     'An off-by-one at the end of a range shows for one random outcome among many, or for a parameter at the end of its range; tests sample a few lengths.',
     ['src/mutation/permutation.cpp', 'src/mutation/real.cpp', 'src/mutation/binary.cpp', 'src/mutation/integer.cpp', 'src/crossover/binary.cpp', 'src/crossover/integer.cpp', 'src/crossover/real.cpp', 'src/crossover/permutation.cpp', 'src/crossover/crossover_impl.hpp', 'src/encoding/real.cpp'],
     [('operators', 'the mutate and crossover overrides of the built-in operators'), ('helpers', 'crossover::dtl'), ('random numbers', 'rng::randomInt, sampleUnique, randomBinomial')],
     'interprocedural abstract interpretation over linear inequalities (exact rational simplex): every access, range and request is an obligation; the contracts assumed for the random number functions are shown for their bodies',
     'Element accesses inside the permutation crossovers (legal only because the parents are permutations) and the order of computed real interval ends are left out; the edge crossover is left out.')

prop('C18', 'Data kept per solution belongs to that solution',
     'Whatever an algorithm remembers about the solutions of the population (ranks, crowding distances, associated reference directions) describes, in every selection and every query of the optimal solutions, the very solution at that position of the current population, not another candidate. '
     'The candidates an algorithm chooses from are the parents followed by the children, and the candidates with the chosen indices are the ones that make up the next population. '
     'The same holds for the fitness matrix: its row i is the fitness of solution i of the population it is passed along with.',
     ['inputs', 'histories'], 'all populations, fronts and generations; all per-solution arrays of all algorithms',
     'Misplaced data has the right size and plausible values: the search merely favours the wrong solutions, which no test of a few runs can tell from chance.',
     ['src/algorithm/nsga2.cpp', 'src/algorithm/nsga3.cpp', 'src/algorithm/nd_sort.cpp', 'src/algorithm/algorithm_base.impl.hpp', 'src/core/population.hpp', 'src/utility/algorithm.hpp'],
     [('NSGA-II', 'NSGA2::initializeImpl, nextPopulationImpl'), ('NSGA-III', 'NSGA3::nextPopulationImpl, Impl::createPopulation'), ('hand-over', 'Algorithm::select, nextPopulation, optimalSolutions')],
     'index-space inference (candidate index / position) with container versions over CFG paths, interprocedural',
     'Values computed from the right solution may still be numerically wrong; arrays whose order the analysis cannot determine are listed as undecided in the evidence, not reported.')

prop('C22', 'Internal checks never influence a run',
     'The conditions of the internal checks (assertions) have no side effects: evaluating them changes no data of the solver, its methods or the user, draws no random number, evaluates no fitness and runs no other code supplied by the user. '
     'So a build with the checks and a build without them compute the same results from the same seed.',
     ['inputs', 'configurations'], 'all internal checks of the library and everything they call',
     'Every test runs with the checks either on or off; a check with a side effect passes both ways and only makes the two builds differ.',
     ['src/core/ga_base.impl.hpp', 'src/core/ga_info.cpp', 'src/algorithm/algorithm_base.impl.hpp', 'src/crossover/crossover_base.impl.hpp', 'src/mutation/mutation_base.impl.hpp', 'src/algorithm/nd_sort.cpp', 'src/utility/small_vector.hpp'],
     [('run checks', 'GA<T>::hasValidChromosome, fitnessMatrixIsSynced, isValidEvaluatedPopulation'), ('method checks', 'GAPP_ASSERT in the operators and algorithms')],
     'interprocedural effect analysis of all expressions expanded from the assertion macro',
     'Code that other conditional compilation selects is not compared; a check may allocate and free temporary memory.')

prop('C15', 'Exceptions of user code reach the caller of the run',
     'An exception thrown by anything the user supplies (fitness function, operators, algorithms, selection and replacement callables, stop conditions, metrics, callbacks) is never swallowed and never ends the program: it leaves every function of the library it passes through. '
     'So no function that promises not to throw runs such code unprotected, and every handler passes on what it catches.',
     ['inputs', 'histories'], 'all functions of the library that promise not to throw, all exception handlers, all kinds of user code',
     'An exception of user code is an exceptional event; tests throw from one or two places at most, and a wrong promise only shows when that very place throws.',
     ['src/core/ga_base.impl.hpp', 'src/utility/thread_pool.hpp', 'src/algorithm/soga_selection.cpp', 'src/metrics/metric_set.cpp', 'src/stop_condition/composite.hpp', 'src/utility/scope_exit.hpp'],
     [('generation loop', 'GA<T>::advance, evaluate, repair, stopCondition'), ('parallel loops', 'thread_pool::execute_loop'), ('callables', 'the Lambda wrappers')],
     'call-graph reachability of user code below non-throwing functions; handler exit analysis',
     'Exceptions of the standard library (allocation failure) are out of scope, as are promises the user makes in own overrides.')

prop('C10', 'Orderings used for sorting and selecting are consistent',
     'Every comparison the library sorts, searches or picks an extreme element by is a strict weak ordering: no element comes before itself, no two elements come before each other, and both the order and the equality that it implies are transitive. '
     'Predicates that decide which neighbouring elements are duplicates are equivalences. '
     'This holds for all values that are compared, including ties, infinities and values that differ by less than the tolerance of floating-point comparisons.',
     ['inputs'], 'all triples of elements, all orders of all their keys',
     'An inconsistent comparison works for distinct values and for most ties; it needs particular ties, or chains of nearly equal values, in a particular order to return a wrong result or to leave the sorted range.',
     ['src/algorithm/nsga2.cpp', 'src/algorithm/nsga3.cpp', 'src/algorithm/soga_selection.cpp', 'src/algorithm/soga_replacement.cpp', 'src/algorithm/nd_sort.cpp', 'src/core/population.cpp', 'src/core/ga_base.impl.hpp', 'src/utility/algorithm.hpp'],
     [('sorting of candidates', 'NSGA2::nextPopulationImpl, crowdingDistances'), ('selection', 'selection::Tournament, selection::Rank, replacement::Elitism, KeepBest'), ('helpers', 'detail::argsort, partial_argsort')],
     'abstract evaluation of every comparator over three elements in all orders of their keys (finite relation models)',
     'Keys are compared as totally ordered values (NaN aside); comparators that compute a new key from both elements in a way the evaluation does not know are listed as undecided in the evidence.')

prop('C21', 'Components that do not belong together are refused by the compiler',
     'A solver accepts, in its constructors, setters and runs, exactly the crossovers, mutations, fitness functions, initial populations and bounds of its own gene type and exactly the kinds of components each place is meant for; gene bounds are required by solvers with bounded genes and refused by the others. '
     'Selection and replacement methods only fit their own places, metrics can only be tracked and asked for when they are metrics, and stop conditions combine with stop conditions into stop conditions. '
     'Solvers cannot be copied but can be moved, scoped guards cannot be duplicated, and read access (constant solvers, the view given to callbacks, the getters) allows no change; everything documented as possible compiles.',
     ['configurations'], 'all pairs of the built-in solvers and components, all places that take components',
     'Tests only contain code that compiles; a constraint that got too weak lets a wrong combination through to undefined or meaningless behaviour, and one that got too strict is noticed by the first user of an untested combination.',
     ['src/core/ga_base.decl.hpp', 'src/core/ga_info.hpp', 'src/algorithm/single_objective.hpp', 'src/stop_condition/composite.hpp', 'src/metrics/metric_set.hpp', 'src/encoding/gene_types.hpp'],
     [('solver interface', 'GA<T>'), ('solver base', 'GaInfo'), ('single-objective algorithm', 'algorithm::SingleObjective')],
     'exhaustive compile-time witnesses generated from the class hierarchy (static assertions over the constraints of the current headers)',
     'Decides what the compiler accepts, not what the accepted code does.')

# ---------------------------------------------------------------- not decided here
prop('C30', 'Permutation crossovers produce permutations',
     'Every built-in permutation crossover, given two permutations of the same items, produces two children that contain every one of these items exactly once.',
     ['inputs'], 'all pairs of permutations, all cut points',
     'A sample of lengths and parents exercises few of the coincidences (cycles, repeated edges, neighbouring cut points) that break a crossover.',
     ['src/crossover/crossover_impl.hpp', 'src/crossover/permutation.cpp'], [('crossovers', 'crossover::dtl')],
     '', 'Bounds of the entries (C04) and of the accesses (C16) are decided; that no entry repeats is not.',
     na='whether the entries of the result are pairwise different depends on relations between the positions and the values of all genes (inverse permutations, cycles); no static domain in reach expresses this invariant of the filling loops')
prop('C31', 'Ranks agree with Pareto dominance',
     'The fronts of the non-dominated sorting contain every candidate exactly once, no candidate of a front dominates another one of the same front, and every candidate outside of the first front is dominated by one of the front before it.',
     ['inputs'], 'all fitness matrices', 'Wrong ranks still give plausible runs; the sorting algorithms differ only for particular arrangements of equal and incomparable solutions.',
     ['src/algorithm/nd_sort.cpp', 'src/core/population.cpp'], [('sorting', 'nonDominatedSort')],
     '', '', na='a statement about the values of all pairs of fitness vectors: the loops carry a quantified invariant over runtime numbers that dataflow or abstract interpretation cannot bound; the orderings used are decided by C10 and the placement of the results by C18')
prop('C32', 'The reported solutions are the non-dominated ones',
     'A run returns candidates of which none dominates another one, and every candidate that could have been returned is dominated by or equal to a returned one.',
     ['inputs', 'histories'], 'all runs', 'A lost or dominated solution is indistinguishable from an unlucky search.',
     ['src/core/population.hpp', 'src/core/population.cpp', 'src/core/ga_base.impl.hpp'], [('front', 'findParetoFront, mergeParetoSets')],
     '', '', na='quantifies over dominance between runtime fitness values; that the set is updated in every generation is decided by C11 and the ordering used for duplicates by C10')
prop('C33', 'Metrics have the values they are defined as',
     'The minimum, maximum, mean, deviation, nadir point, hypervolume and inverted generational distance recorded for a generation equal their mathematical definitions for the fitness matrix of that generation.',
     ['inputs'], 'all fitness matrices', 'The hypervolume algorithms are recursive and only differ for particular arrangements of the points.',
     ['src/metrics/fitness_metrics.cpp', 'src/metrics/pop_stats.cpp', 'src/metrics/distribution_metrics.cpp'], [('hypervolume', 'detail::hypervolume')],
     '', '', na='numerical results of floating-point algorithms; there is no static specification to compare them with other than another implementation. That one entry is recorded per generation is decided by C25')
prop('C34', 'Random numbers follow the documented distributions',
     'Every sampling function draws from the distribution it documents, and crossover and mutation happen with the configured probabilities.',
     ['inputs'], 'all parameters', 'Frequencies of rare outcomes need large samples.',
     ['src/utility/rng.hpp', 'src/utility/distribution.hpp', 'src/utility/rcu.hpp'], [('sampling', 'rng::')],
     '', '', na='probabilistic statement: static analysis bounds the possible values (C04, C16) and the source of the randomness (C09), not their frequencies')
prop('C35', 'The reference directions of NSGA-III are spread and associated correctly',
     'Reference directions are unit vectors spread over the positive orthant, every candidate is associated with its closest direction, and niching fills the least crowded directions first.',
     ['inputs'], 'all numbers of objectives and populations', 'A wrong association only lowers the diversity of the result.',
     ['src/algorithm/reference_lines.cpp', 'src/algorithm/nsga3.cpp', 'src/utility/cone_tree.cpp'], [('association', 'NSGA3::Impl')],
     '', '', na='geometric relations between computed real vectors; the tree search returns the same result as a full search only by floating-point inequalities that the linear domain cannot express. Memory safety of the tree is decided by C20, placement of the data by C18')
prop('C36', 'Benchmark problems have the documented optima',
     'The optimal solutions, ideal and nadir points that the benchmark problems report are those of their fitness functions.',
     ['inputs'], 'all benchmark problems and dimensions', 'Needs the values of the functions at and around the optimum for every dimension.',
     ['src/problems/single_objective.cpp', 'src/problems/multi_objective.cpp', 'src/problems/many_objective.cpp'], [('problems', 'gapp::problems')],
     '', '', na='values of transcendental functions at computed points: evaluation, not static analysis')
prop('C37', 'Every run ends',
     'A run with terminating user code ends after at most the maximum number of generations, and no sampling loop, lock or parallel loop waits forever.',
     ['inputs', 'schedules'], 'all runs and schedules', 'Endless waiting needs a particular schedule or degenerate argument.',
     ['src/core/ga_base.impl.hpp', 'src/utility/rng.hpp', 'src/utility/thread_pool.hpp', 'src/mutation/integer.cpp'], [('loops', 'GA<T>::solve, thread_pool')],
     '', '', na='rejection loops terminate only with probability one and the parallel loops only under a fair schedule; there is no static ranking argument for either. The generation limit is part of C11, the waiting of loops part of C08')
prop('C38', 'The internal containers behave like the standard ones',
     'The small vector, circular buffer, matrix, bit set and cache give the same results as their standard counterparts for every sequence of operations, for values inside of the container as arguments and for throwing elements.',
     ['inputs', 'histories'], 'all sequences of operations', 'Sequences, capacities and aliasing arguments multiply; tests try a few.',
     ['src/utility/small_vector.hpp', 'src/utility/circular_buffer.hpp', 'src/utility/matrix.hpp', 'src/utility/dynamic_bitset.hpp'], [('containers', 'gapp::small_vector, detail::circular_buffer')],
     '', '', na='equivalence with a model over unbounded operation histories and raw element lifetimes; the analyses here treat containers by their contracts (C16, C20), a proof of the implementations needs a different technique')
