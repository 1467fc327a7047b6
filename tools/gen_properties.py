#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the file stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)))

DOC = "The existing tests are six single-threaded selection-frequency tests and doc examples that solve one OneMax instance; "

p("C01", "Populations stay non-empty, sorted and duplicate-free",
  "Every population a user can observe - given to the progress callback or to the model's per-generation hook, built directly from a vector, updated with a new generation, or returned - is non-empty, in ascending order of fitness, and contains no two equal individuals (provided equal individuals have equal fitness). No distinct individual is lost when a population is built or updated, and after an update the vector that was passed in holds the previous population. This holds for every fitness landscape including ties and plateaus, every size, worker count and schedule.",
  ["inputs", "schedules", "histories"], "all landscapes (ties, plateaus, negative), sizes, worker counts, schedules, and sequences of updates",
  DOC + "none looks at duplicates among equally fit individuals, at parallel sorting, or at a population after an update.",
  ["src/population.rs", "src/operators.rs"], [("sort, dedup and statistics on every (re)build", "src/population.rs sort_dedup_and_collect_stats"), ("fitness comparison", "src/operators.rs compare_fitness")],
  ["progress callback", "pre_generation hook", "Population::new / replace / TryFrom / Into<Vec>", "return value of evolve_population"])
p("C02", "Each generation is exactly the elites plus the configured number of breedings",
  "Every generation after the initial one consists of exactly the carried-over elites and the results of exactly (population size - number of elites) breedings; every bred individual is used exactly once and none is lost or invented, only duplicates are dropped. So no such generation exceeds the configured population size. This holds for every population size from 1 upwards, every elite count (also when a single slot is left), worker count, work-stealing schedule and model.",
  ["configurations", "schedules", "inputs"], "all population sizes from 1, elite counts, algorithms (GA, adaptive GA, user-written), worker counts and schedules",
  DOC + "none counts breedings or compares a generation with what was bred; a population of one, or one free slot, is never run.",
  ["src/algorithms.rs", "src/algorithms/ga.rs", "src/algorithms/aga.rs", "src/evolution.rs"], [("parallel breeding into the offspring vector", "src/algorithms.rs generate_new_population"), ("offspring vector reset per generation", "src/evolution.rs evolve_population")],
  ["breed calls of a model that overrides breed", "progress callback"])
p("C03", "Fitness is never stale: each individual is evaluated once, after its last change",
  "Every individual in any observed population carries the fitness the model's evaluation gave to exactly its current genome, and never changes once it is in a population. Every initial individual and every bred offspring is evaluated exactly once; an offspring is first crossed over and/or mutated, then locally improved exactly once, then evaluated, and nothing modifies it afterwards.",
  ["schedules", "inputs", "fault_sequences"], "all models (also noisy or transiently failing evaluations and models with local search), worker counts and schedules",
  DOC + "the only model used has no local search, and no test relates a stored fitness to a genome or counts evaluations.",
  ["src/model.rs", "src/algorithms.rs"], [("crossover, mutate, improve, evaluate order", "src/model.rs breed"), ("parallel evaluation of the initial population", "src/algorithms.rs initialize_population")],
  ["model callbacks", "progress callback"])
p("C04", "Invalid individuals never enter a population; an all-invalid start is refused",
  "An individual that is invalid after evaluation (non-finite fitness by default, or by the individual's own rule) never appears in an observed or returned population: invalid initial individuals are removed while every valid one is kept, and an invalid offspring is replaced by the fittest of its parents. If no initial individual is valid the run panics before the progress callback is ever called.",
  ["fault_sequences", "inputs", "schedules"], "all patterns of failing evaluations (NaN, +inf, -inf, custom rule; at any individual, any generation, transient or permanent), all schedules",
  DOC + "no test ever produces an invalid individual.",
  ["src/individual.rs", "src/algorithms.rs", "src/model.rs"], [("validity rule", "src/individual.rs is_valid"), ("retain valid", "src/algorithms.rs initialize_population"), ("offspring validity check", "src/model.rs breed")],
  ["progress callback", "return values", "model callbacks"])
p("C05", "Elites survive unchanged into the next generation",
  "With elitism rate r and population size n, the floor(n*r) fittest individuals of each generation (all of them if there are fewer) are present, unchanged, in the next generation, for the standard and the adaptive algorithm; an algorithm that keeps the default elite selection carries over its fittest individual. Consequently the best fitness never drops from one generation to the next while at least one elite is kept.",
  ["configurations", "histories", "schedules"], "all elitism rates in [0,1), population sizes, shrinking populations, selection strategies, survival rules and schedules",
  DOC + "none compares two successive generations.",
  ["src/algorithms/ga.rs", "src/algorithms/aga.rs", "src/algorithms.rs", "src/evolution.rs"], [("elite slice of the sorted population", "select_elites in src/algorithms/ga.rs and aga.rs"), ("default elite", "src/algorithms.rs select_elites")],
  ["progress callback"])
p("C06", "The returned individual is the best one found during the whole run",
  "Running from random individuals or from one given individual returns an individual whose fitness is at least that of every individual of every population the progress callback saw, even when a later generation lost it, and it is one of those individuals, unchanged. In particular, evolving a valid given individual never returns a worse one.",
  ["histories", "schedules", "configurations"], "all runs: any elitism (including none), survival rule that accepts worse offspring, strategy, schedule and stopping generation",
  DOC + "both runs solve an easy problem with an elite, so the last population always holds the best.",
  ["src/evolution.rs", "src/population.rs"], [("result of run and evolve_individual", "src/evolution.rs"), ("fittest by position of the maximum", "src/population.rs fittest / take_fittest")],
  ["return value against the recorded history of populations"])
p("C07", "Family competition: an offspring replaces its parents only by the survival rule",
  "Parents are always members of the current population, and crossover combines two unequal ones. A bred offspring takes its place in the next generation exactly if it is valid and passes the survival rule - by default fitness not lower than its fittest parent's, otherwise the model's own decision, asked once with that fittest parent and the current population; if not, the fittest parent takes the place. So under the default rule no place is ever filled by an individual worse than its parents.",
  ["inputs", "schedules", "fault_sequences"], "all breedings in all runs: any landscape (with ties), rates, survival decisions, failing evaluations and schedules",
  DOC + "no test observes a single breeding step.",
  ["src/model.rs", "src/operators/selection.rs"], [("parent choice, competition and fallback", "src/model.rs breed / can_survive"), ("distinct second parent", "src/operators/selection.rs select_distinct")],
  ["crossover, can_survive and evaluate callbacks", "next generation's population"])
p("C08", "Generation protocol: progress, hook, counters and stop",
  "The progress callback sees the initial population as generation 0 and then every generation exactly once, numbered consecutively; stagnation is 0 initially and whenever the best fitness exceeds the previous generation's, and otherwise one more than before. Before each breeding round the model's per-generation hook runs exactly once, with the population progress saw last. When progress returns false nothing further is bred, mutated or evaluated, and that last population is the outcome.",
  ["histories", "schedules"], "all runs: stopping generation (including 0), best-fitness histories that rise, stall or fall, worker counts and schedules",
  DOC + "they only use generation() as an upper bound, never stagnation, the hook or the call order.",
  ["src/evolution.rs", "src/population.rs", "src/algorithms/ga.rs", "src/algorithms/aga.rs"], [("main loop", "src/evolution.rs evolve_population"), ("counters", "src/population.rs replace")],
  ["progress callback", "pre_generation hook", "every model callback after the stop"],
  [("generation", "number of replacements so far", "src/population.rs"), ("stagnation", "generations since the best improved", "src/population.rs")])
p("C09", "Population statistics always describe the current individuals",
  "In every generation the population's statistics (count, minimum, maximum, their positions, mean, sample variance, standard deviation) are those of the fitness values of exactly the individuals it contains, and its fittest individual is one with the maximum fitness.",
  ["histories", "inputs", "schedules"], "all generations of all runs, after shrinking, growing and degenerate (single, all-equal, huge, tiny, negative) populations",
  DOC + "the statistics doc examples use five fixed numbers and never a population.",
  ["src/population.rs", "src/stats.rs"], [("one-pass statistics over the sorted population", "src/stats.rs FromIterator"), ("fittest", "src/population.rs")],
  ["progress callback", "direct population updates"])
p("C10", "A panic in user code reaches the caller and leaves the evolution usable",
  "If any user callback (evaluation, crossover, mutation, improvement, survival, random creation, generator creation, hook, progress, or an individual's clone, comparison or fitness) panics at any moment on any worker, the run unwinds to its caller with that panic - it neither hangs, aborts nor swallows it - and no progress callback follows. The same evolution object can then be run again and behaves correctly.",
  ["crash_points", "fault_sequences", "schedules"], "every callback kind, every call number, every worker and schedule, one or several panics, followed by further runs on the same object and worker pool",
  DOC + "no callback in the tests ever panics.",
  ["src/evolution.rs", "src/algorithms.rs", "src/model.rs"], [("short-lived interior borrows", "src/evolution.rs RefCell"), ("generators returned to the pool on unwind", "src/algorithms.rs rng_pool.pull")],
  ["unwind payload at the caller", "following runs"])
p("C11", "Runs on one evolution object do not influence each other",
  "A run's behaviour depends only on its own inputs, parameters and random generators, not on earlier runs of the same evolution object - completed, stopped, panicked or refused, with other parameters, sizes or strategies: with one worker and the same generators it goes through exactly the generations a fresh object goes through and returns the same result.",
  ["histories", "crash_points", "configurations"], "all sequences of runs on one object with varying parameters and outcomes",
  DOC + "each builds an evolution and runs it once.",
  ["src/evolution.rs", "src/algorithms/ga.rs", "src/algorithms/aga.rs", "src/operators/selection.rs"], [("every run configures all state anew", "configure in src/algorithms/ga.rs, aga.rs"), ("adaptive state re-based at generation 0", "src/algorithms/aga.rs prepare_for_next_population")],
  ["history of populations of a reused object against that of a fresh one"],
  [("breeding, reference_std, elite_size, population_size", "state that outlives a run", "src/algorithms/ga.rs, aga.rs")])
p("C12", "Every run makes progress on any worker pool under any schedule",
  "Whenever user callbacks return, every generation completes in bounded work: no deadlock, livelock or internal panic, for any number of workers from one, inside or outside a worker pool, with slow or starved workers, and with models that themselves run parallel work in the same pool, so that a worker may start another breeding while one of its own is unfinished and more generators than workers are in use. Runs on separate evolution objects may execute concurrently in one pool without disturbing each other.",
  ["schedules", "configurations"], "all worker counts, stall patterns and steal orders, nested parallel callbacks, concurrent runs",
  DOC + "they run on an idle machine with the default pool and no nested parallelism.",
  ["src/algorithms.rs", "src/model.rs", "src/evolution.rs", "src/population.rs"], [("pool with fallback generator", "src/algorithms.rs rng_pool.pull(M::rng)"), ("rayon parallel iterators", "src/algorithms.rs, src/model.rs, src/population.rs, src/operators/selection.rs")],
  ["completion within the step bound", "panics"])
p("C13", "Breeding generators come from the model, one per worker, and are kept",
  "All randomness in a run is drawn from generators obtained from the model's factory. Breeding uses no more generators than there are workers (unless callbacks run nested parallel work), no two simultaneous breedings share one, and they keep their state from one generation to the next: once every worker has one the factory is not asked again for the rest of that evolution.",
  ["schedules", "histories"], "all worker counts, steal orders and generation counts",
  DOC + "they cannot see which generator a breeding uses.",
  ["src/evolution.rs", "src/algorithms.rs", "src/model.rs"], [("generator pool made once per evolution", "src/evolution.rs evolve_population"), ("pull and automatic return", "src/algorithms.rs generate_new_population")],
  ["model's generator factory", "generators passed to callbacks"])
p("C14", "A run on one worker is reproducible from the model's generators alone",
  "With a single worker, two runs with the same inputs and the same generators produce identical histories and results, whatever the hash seeds, clock, entropy, addresses or thread timing of the process (edge recombination crossover, documented to follow hash order, excepted). When evolving a given population, the initial evaluated population is the same with any number of workers.",
  ["schedules", "configurations", "inputs"], "all hash seeds and thread timings, all configurations of algorithm, strategy and operators except edge recombination",
  DOC + "the algorithm examples seed from entropy and never repeat a run.",
  ["src/evolution.rs", "src/algorithms.rs", "src/operators.rs", "src/population.rs", "src/model.rs"], [("no randomness except model generators", "src/model.rs, src/operators/*"), ("ordered parallel collection", "src/algorithms.rs par_extend"), ("hash sets only used for membership", "src/operators.rs common_partitions")],
  ["recorded histories of two runs"])
p("C15", "The adaptive algorithm's rates stay in range and follow diversity",
  "In generation 0 the adaptive algorithm uses the upper end of the crossover range and the lower end of the mutation range; afterwards rates change only in generations divisible by the adjustment interval (never if it is 0), and are then interpolated linearly by diversity - the fitness deviation relative to generation 0's, limited to [0,1] - from lower to upper for crossover and from upper to lower for mutation. Rates are always numbers inside the configured ranges, also when generation 0 or the current generation has no fitness spread (diversity then counts as low when the current spread is zero).",
  ["histories", "configurations", "inputs"], "all fitness histories including zero and vanishing spread, intervals, and ranges (also empty and reversed)",
  DOC + "none reads the rates; a degenerate generation 0 never occurs.",
  ["src/algorithms/aga.rs", "src/lib.rs"], [("adaptation", "src/algorithms/aga.rs prepare_for_next_population"), ("interpolation", "src/lib.rs interpolate_f64")],
  ["reproduction parameters given to pre_generation"],
  [("reference_std", "generation 0's fitness deviation", "src/algorithms/aga.rs")])
p("C16", "Crossover and mutation are applied with the configured probabilities",
  "The standard algorithm presents the configured crossover and mutation rates unchanged to the model hook in every generation, and changes the model makes there take effect for that generation's breeding. A rate of 0 never applies the operator and a mutation rate of 1 always does; crossover at rate 1 is applied whenever a distinct second parent is found; in between, each breeding applies each operator independently with that probability.",
  ["schedules", "configurations", "histories"], "all rates in [0,1], random streams (also extreme draws), worker counts and schedules",
  DOC + "none counts operator applications.",
  ["src/model.rs", "src/algorithms/ga.rs"], [("draws against the rates", "src/model.rs breed"), ("configured rates", "src/algorithms/ga.rs configure")],
  ["crossover and mutate callbacks per breeding", "pre_generation hook"])
p("C17", "Selection: prepared once per generation, always a member, documented pressure",
  "The selector is prepared exactly once per generation, with the population that is then bred from, and shared by all workers. Every built-in strategy returns an index and the individual at that index for every random stream and valid parameter, and picks with its documented distribution: tournament and rank by position, uniform above the elitist bound, linear in rank by the bias (uniform at bias 1), proportional to fitness (roulette, non-negative fitness with positive sum), proportional to exp(fitness/temperature) with the temperature multiplied by the cooling rate at each preparation (Boltzmann, also when exponentials over- or underflow). Selection excluding an individual tries as often as it may and returns the first pick that is not equal to it, if any.",
  ["inputs", "schedules", "histories", "configurations"], "all populations, strategy parameters, generation counts (long cooling), random streams including extreme draws, concurrent selections",
  DOC + "one fixed population of ten evenly spaced values, one parameter value per strategy, one stream.",
  ["src/operators/selection.rs", "src/algorithms/ga.rs", "src/algorithms/aga.rs"], [("strategies", "src/operators/selection.rs"), ("preparation", "prepare_for_next_population in src/algorithms/ga.rs, aga.rs")],
  ["select / select_distinct results", "a probe selector installed by the model hook"])
p("C18", "Permutation crossovers always yield a permutation",
  "For two parents that are permutations of the same genes, every permutation crossover (GPX2, SCX, ERX, PMX, OX, CX) terminates without panic and returns each gene exactly once, for every random stream, cut range (also empty or full), pivot, partition choice and hash seed, on any worker. Parents of different length are always refused by a panic, through the strategy interface and by every operator function documented to refuse them (all but GPX2's).",
  ["inputs", "schedules", "configurations"], "all pairs of permutations of all lengths, random streams, cut points, hash seeds",
  DOC + "one pair of ten-gene parents with fixed cut points each.",
  ["src/operators/crossover.rs", "src/operators.rs"], [("crossover operators", "src/operators/crossover.rs"), ("random ranges", "src/operators.rs random_range")],
  ["offspring inside a simulated evolution's crossover callback"])
p("C19", "Crossover offspring inherit from their parents as documented",
  "Every gene comes from a parent in the documented way: single-point takes the first parent before the point and the second from it on; PMX and OX keep the first parent's genes in the cut range at their positions (PMX fills the rest from the second parent, following the mapping of the cut range for genes already placed; OX in the second parent's cyclic order starting after the range); CX takes every position's gene from one of the parents at that position, whole cycles at a time in the order of their first positions, alternating between the parents and beginning with the first; SCX and ERX start at the pivot; GPX2 keeps all adjacencies common to both parents except at most one. ERX moves to a parental neighbour with the fewest unvisited neighbours whenever one is unvisited, and SCX to a parental successor whenever one is unvisited.",
  ["inputs", "schedules", "configurations"], "all parents, cut points, pivots, random streams and hash seeds",
  DOC + "one pair of parents per operator; ERX is only checked for being a permutation.",
  ["src/operators/crossover.rs", "src/operators.rs"], [("crossover operators", "src/operators/crossover.rs"), ("common partitions", "src/operators.rs common_partitions")],
  ["offspring against parents and the drawn cut points"])
p("C20", "Mutations change a genome only in their documented way",
  "For every genome (also empty or single-gene, which stay as they are) and every random stream, swap exchanges exactly two positions; inversion reverses one contiguous range of at least two genes; scramble permutes genes inside one contiguous range; insertion moves one gene to another position, shifting those between; duplicate overwrites one position with a copy of another's gene. All but duplicate preserve the multiset of genes, every position can be affected, and none panics.",
  ["inputs", "schedules"], "all genomes and lengths, random streams including extreme draws, concurrent use",
  DOC + "one ten-gene genome and one seed each.",
  ["src/operators/mutation.rs", "src/operators.rs"], [("mutation operators", "src/operators/mutation.rs"), ("index and range draws", "src/operators.rs random_pair, bounded_random_range")],
  ["genome before and after, inside a simulated evolution's mutate callback"])
p("C21", "The initial population has exactly the requested make-up",
  "A run from random individuals creates exactly the configured number of them, each from the given arguments and a generator of the model; evolving one individual starts from that individual unchanged plus (size - 1) copies of it each mutated exactly once; evolving a given population starts from exactly the given individuals. Individuals already in an extended vector are kept, and nothing is created, lost, mutated twice or left unmutated, for any size from 1, worker count and schedule.",
  ["schedules", "configurations", "inputs"], "all sizes, worker counts and schedules",
  DOC + "only one run at size 100 from random individuals.",
  ["src/model.rs", "src/evolution.rs", "src/algorithms.rs"], [("parallel creation", "src/model.rs extend_population / extend_population_with"), ("entry points", "src/evolution.rs")],
  ["new_random, mutate and clone callbacks", "generation 0 at the progress callback", "direct calls of extend_population*"])
p("C22", "Invalid parameters are refused before any evolution work",
  "A run with an invalid parameter (population size 0; elitism rate outside [0,1); a crossover or mutation rate or range end outside [0,1] or not a number; an empty tournament, an elitist ratio outside [0,1), or a zero cooling rate) panics before any individual is evaluated and before progress is called, and valid boundary values are accepted. The object remains usable with valid parameters afterwards.",
  ["configurations", "histories"], "all parameter combinations, between and after other runs of the same object",
  DOC + "only default-like valid parameters are used.",
  ["src/algorithms/ga.rs", "src/algorithms/aga.rs", "src/operators/selection.rs", "src/evolution.rs"], [("validate", "src/algorithms/ga.rs, aga.rs"), ("selector constructors", "src/operators/selection.rs"), ("configure before initialize", "src/evolution.rs evolve_population")],
  ["panic before the first evaluate or progress call"])
p("C23", "Stand-alone statistics agree with their definition for every sample sequence",
  "Statistics recorded sample by sample, collected from an iterator, or snapshotted at any point equal the definitions (count, extremes with first positions, mean, sample variance) of the samples so far; a snapshot is not affected by later samples.",
  ["inputs"], "all finite sample sequences", DOC + "five fixed numbers.",
  ["src/stats.rs"], [("Welford's algorithm", "src/stats.rs record / from_iter")], ["Stats and PopulatedStats accessors"])
p("C24", "Interpolation helpers stay between their bounds",
  "For a ratio in [0,1] interpolation returns a value between the bounds, equal to them at 0 and 1, and never panics for min <= max.",
  ["inputs"], "all bounds and ratios", DOC + "one value each.", ["src/lib.rs"], [("interpolation", "src/lib.rs interpolate_f64 / interpolate_usize")], ["return values"])
p("C25", "Common neighbours and partitions are exactly those shared by both genomes",
  "For any two permutations of the same three or more genes, the common neighbours are exactly the unordered pairs of genes that are adjacent in both (the last and the first gene are adjacent too), each once; and the common partitions hold every gene exactly once, in sequences whose consecutive genes are such neighbours and that are only ended when the last gene has no common neighbour outside the partitions found so far. This holds whatever the hash seeds of the process and whichever worker computes it.",
  ["inputs", "schedules", "configurations"], "all pairs of permutations, hash seeds and workers", DOC + "one pair of five-gene genomes, in one process.", ["src/operators.rs"],
  [("neighbour sets held in hash sets", "src/operators.rs common_neighbors / common_partitions")], ["return values on the workers of a simulated pool"])
p("C26", "Wrapped individuals order by fitness",
  "Wrapped individuals compare, order and equal each other exactly as their (finite) fitness values do, and unwrapping returns the same individual.",
  ["inputs"], "all pairs of individuals", DOC + "the wrapper is never used.", ["src/individual.rs"], [("Ord by fitness", "src/individual.rs IndividualWrapper")], ["Ord, Eq, take"])
p("C27", "The bundled OneMax model behaves as documented end to end",
  "With the bundled OneMax model and either algorithm: random individuals have the requested length and are drawn independently, so that generators of different workers and runs, seeded from entropy, do not repeat each other; every observed individual keeps that length and its fitness is the share of set bits; every new individual is a member of the previous generation, a single-point crossover of two or a copy of one, changed in at most one bit and not worse than its parents; the best fitness never drops while an elite is kept; the returned individual is the best seen; and small instances are solved within a bounded number of generations.",
  ["inputs", "schedules", "histories", "configurations"], "all genome lengths from 1, population sizes, rates, strategies, entropy, worker counts and schedules",
  DOC + "they only wait until one easy instance is solved with one configuration.",
  ["src/lib.rs", "src/evolution.rs", "src/model.rs", "src/algorithms/ga.rs", "src/algorithms/aga.rs"], [("OneMax model", "src/lib.rs one_max"), ("generators from entropy", "src/lib.rs OneMaxEvolutionModel::rng")],
  ["progress callback", "return value"])
p("C28", "A run holds on to nothing: memory stays bounded and is released",
  "However long a run goes on, the individuals alive at the same time never exceed a fixed small multiple (four) of the largest population involved, plus a small constant; and once a run has ended - returned, panicked at any callback, or refused its parameters - and its result is dropped, none of its individuals and none of its random generators is still alive, although the evolution object is.",
  ["histories", "crash_points", "schedules"], "all run lengths, sizes, outcomes (including panics at any callback on any worker) and schedules",
  DOC + "runs end after a few generations and nobody counts what is left.",
  ["src/evolution.rs", "src/population.rs", "src/algorithms.rs"], [("two generations of individuals, exchanged", "src/evolution.rs evolve_population, src/population.rs replace"), ("generator pool local to the run", "src/evolution.rs evolve_population")],
  ["creation, clone and drop of individuals and generators"])
p("C29", "Creation, evaluation and breeding use all workers of the pool",
  "With w workers and many more individuals than workers (16 w), random individuals are created, given individuals copied and mutated, initial individuals evaluated and offspring bred on all workers: w such callbacks can be in progress at the same time, so that callbacks that wait for each other all complete and a worker held up in one callback does not hold up the others.",
  ["schedules", "configurations"], "all worker counts from 2, schedules, entry points, algorithms and generations",
  DOC + "they pass as well when everything runs on one worker.",
  ["src/model.rs", "src/algorithms.rs"], [("parallel creation", "src/model.rs extend_population / extend_population_with"), ("parallel evaluation and breeding", "src/algorithms.rs initialize_population / generate_new_population")],
  ["callbacks that wait until w of them are in progress"])
p("C30", "User-written algorithms are driven by the documented protocol",
  "An algorithm that overrides every step is configured exactly once per run with the given parameters and gets exactly the individuals the model created (or was given) to initialize; progress sees exactly the population it returned; then for every generation progress says yes to, it is asked once each, in this order and with that population, to prepare, to add elites to an empty vector, to breed into the vector of elites it left - with a pool holding generators of this run - and to replace the population with the vector breeding left, whatever a step leaves behind; progress then sees the population as it was left. After progress says no nothing more is called and that population, or the best individual progress saw, is the result. A panic in any step reaches the caller and the next run starts afresh.",
  ["histories", "crash_points", "configurations"], "all algorithms (any number of elites and offspring, populations kept, leftovers), entry points, sequences of runs, and panics at any step",
  DOC + "no test implements an algorithm.",
  ["src/evolution.rs", "src/algorithms.rs"], [("main loop", "src/evolution.rs evolve_population")],
  ["every overridable method of a user-written algorithm"])
p("C31", "Random pairs and ranges are within their bounds, and each one is equally likely",
  "For every n from 2, a random pair consists of two different numbers below n, every ordered pair equally likely; a random range is a non-empty part of 0..n, and a bounded one has a length from the least to the greatest requested, both included: every permitted length is equally likely, and so is every start that fits it. This holds for every random stream, on any worker, and for very large n; the same stream gives the same result. A pair of fewer than two numbers, a range of n = 0 and a least length above the greatest are refused by a panic.",
  ["inputs", "schedules"], "all bounds up to 2^52, random streams including extreme draws, concurrent use",
  DOC + "one stream for each function.",
  ["src/operators.rs"], [("pairs", "src/operators.rs random_pair"), ("ranges", "src/operators.rs random_range, bounded_random_range")],
  ["direct calls on simulated workers with chosen random streams"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
