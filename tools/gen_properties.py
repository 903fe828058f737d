#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


APIS = ["baumeva/binary_ga.py", "baumeva/combinatory_ga.py", "baumeva/categorical_ga.py",
        "baumeva/vega.py", "baumeva/ffga.py", "baumeva/collector_ga.py"]
G = "baumeva/ga/"
NOASSERT = ("The six test scripts only run a handful of fixed configurations and assert nothing; ")

prop("C01", "A seeded run is exactly reproducible",
     "When the library-wide random seed is set to an integer (any integer, zero included), repeating a run with the "
     "same parameters and a deterministic objective gives identical populations, histories and best solution, whatever "
     "the process did before (earlier runs, draws from or reseeding of the standard random generator), whatever the "
     "clock, the operating-system entropy, the string-hash seed and memory layout are. With the seed left unset, runs "
     "started from different entropy explore different populations. Within one run the random stream is started only "
     "once: different generations do not replay the same random choices.",
     ["inputs", "histories", "schedules", "configurations"],
     "all entry points and component combinations, all integer seeds, all prior histories of the process and all "
     "values of the environment's nondeterminism (clock, entropy, hash seed, addresses, previous generator state)",
     NOASSERT + "two of them set a seed but each runs once per process, so nothing compares two executions or varies "
     "the environment between them.",
     [G + "populations/base_population.py", "baumeva/global_generator.py", G + "crossovers/base_crossover.py",
      G + "selections/base_selection.py"] + APIS,
     [("seeding of the shared generator when a population is created", G + "populations/base_population.py"),
      ("all random draws taken from the seeded generator", "baumeva/ga/**")],
     [("generator.rnd_seed", "the seed the user asked for", "baumeva/global_generator.py")],
     ["returned run data", "objective calls"])

prop("C02", "Optimisers running concurrently do not influence one another",
     "Several optimisers running at the same time in different threads of one process, each with its own component "
     "objects but free to share read-only arguments (gene declarations, condition lists, starting populations, input "
     "data, objective function), each evaluate the same candidates and end with the same populations, histories and "
     "best solution as when run alone on the same random stream. This holds for every interleaving, and also when one "
     "of them dies from an exception.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of two to four runs at source-line granularity, all entry points, any subset of them failing "
     "at any evaluation",
     "The tests run one optimiser per process (at most two, one after the other); no schedule is ever explored.",
     APIS + [G + "ga_data.py", G + "multi_ga_data.py", G + "populations/base_population.py",
             G + "fitness/base_fitness.py"],
     [("all run state lives in per-run objects created by the run", "baumeva/*_ga.py optimize"),
      ("class-level defaults are never mutated in place", G + "ga_data.py, populations, selections")],
     [], ["objective calls per thread", "returned run data"])

prop("C03", "Optimisers are reusable and leave the caller's arguments untouched",
     "Starting an optimiser object again after an earlier run of it finished, or was aborted by an exception from the "
     "objective or by an interrupt at any point inside the library, behaves exactly as a newly constructed optimiser with the same arguments would on the same random "
     "stream, and the same holds for an assembled optimiser whose components are reused on a newly set population. No "
     "run, completed or aborted, modifies the arguments it was given (gene declarations, conditions, starting "
     "population, input data, target value, penalty tables), so they can be passed to another optimiser.",
     ["histories", "crash_points", "configurations"],
     "all sequences of runs on one object or on shared arguments, with aborts at any evaluation or source line of any earlier run",
     NOASSERT + "every test starts each optimiser once and never inspects its arguments afterwards.",
     APIS + [G + "fitness/base_fitness.py", G + "fitness/multi_fitness.py", G + "mutations/bin_string_mutation.py",
             G + "mutations/categorical_mutation.py", G + "selections/balanced_selection.py"],
     [("each start builds fresh run data, population and components", "baumeva/*_ga.py optimize"),
      ("components recompute what they derive from the current population", "baumeva/ga/**")],
     [], ["caller's argument objects", "returned run data"])

prop("C04", "A failing objective surfaces intact and the step can be retried",
     "An exception raised by the objective function during any evaluation reaches the caller as that very exception "
     "object, at once: no further candidate is evaluated. The run data stay consistent - every individual keeps its "
     "own encoding and decoded values, nothing already evaluated is lost - and repeating the interrupted evaluation "
     "step (or starting an assembled optimiser again) goes on to the same result as if the failure had never happened, in single-objective runs evaluating only the candidates not yet evaluated.",
     ["fault_sequences", "crash_points", "configurations"],
     "every evaluation of the run as failure point, repeated failures of the same step, ordinary exceptions and "
     "interrupts (KeyboardInterrupt, MemoryError), all fitness classes and population kinds",
     "No test objective ever raises.",
     [G + "fitness/base_fitness.py", G + "fitness/multi_fitness.py", G + "populations/binary_population.py",
      "baumeva/collector_ga.py"],
     [("scoring only individuals that have no score yet", G + "fitness/base_fitness.py execute"),
      ("restoring encodings after evaluation", G + "fitness/base_fitness.py execute")],
     [], ["exception at the caller", "objective calls", "run data after the failure and after the retry"])

prop("C05", "The reported best is the best ever evaluated and never regresses",
     "After every generation of a single-objective run the reported best solution has the highest fitness of all "
     "individuals evaluated so far in the run, and is marked with the index of the first generation that reached that "
     "fitness. The best individual is always still present in the current generation, so the per-generation best "
     "fitness never decreases; the reported best is a snapshot that later steps do not alter.",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences, objectives (ties, plateaus, constant, negative, huge values, noisy), survivor "
     "strategies, child percentages and component combinations",
     NOASSERT + "elitism could be lost on any survivor branch without a script failing.",
     [G + "ga_data.py", G + "new_generation.py", "baumeva/binary_ga.py", "baumeva/combinatory_ga.py",
      "baumeva/categorical_ga.py", "baumeva/collector_ga.py"],
     [("strict-improvement update with a deep copy", G + "ga_data.py update"),
      ("the best individual is always carried over", G + "new_generation.py")],
     [("best_solution", "best individual so far", G + "ga_data.py"),
      ("historical_best", "best fitness per generation", G + "ga_data.py")],
     ["run data after each generation", "objective calls"])

prop("C06", "Every recorded individual is truthful",
     "At the end of every generation each individual of the population, and the reported best solution (every member of the "
     "reported non-dominated set), shows the "
     "objective value or values the objective function really returned for exactly the values it shows, a fitness computed from "
     "that value, and - for binary encodings - decoded values that match its bit string. With a target value t and no "
     "constraints the fitness is 1/(1+|t-value|), without a target it is the negated value (VEGA: one such fitness per objective).",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences, all entry points and component combinations, all objectives",
     NOASSERT + "a stale score, a mutated survivor or a wrong decode would go unnoticed.",
     [G + "fitness/base_fitness.py", G + "fitness/hyperbola_fitness.py", G + "populations/binary_population.py",
      G + "populations/binary_gray_population.py", G + "new_generation.py", G + "crossovers/base_crossover.py"],
     [("offspring start unscored and undecoded", G + "populations/base_population.py get_empty_individ"),
      ("mutation touches only offspring", G + "mutations/**"),
      ("evaluation on decoded values", G + "fitness/base_fitness.py execute")],
     [], ["run data after each generation", "objective calls"])

prop("C07", "Every candidate stays inside the declared search space",
     "Every candidate handed to the objective function is a list with one value per declared gene that lies in the "
     "declared space: for numeric genes one of the 2^k evenly spaced points from min to max, both included, with k the smallest number of bits for which 2^k - 1 is at least the number of whole requested steps in the range, for "
     "categorical genes one of that gene's values, for orderings the declared number of pairwise different elements "
     "of the declared range (or of the supplied starting individuals). This holds for the initial population and after any sequence of "
     "recombinations and mutations. The random initial population can reach every point of the space, both ends of each range included.",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences including extreme draws, all gene declarations (several genes of different widths, "
     "negative and fractional bounds, steps that do not divide the range), all recombination and mutation operators",
     NOASSERT + "most operators (inversion, movement, shift, two-point) are never executed, and objectives do not "
     "check what they are given.",
     [G + "populations/binary_population.py", G + "populations/binary_gray_population.py",
      G + "populations/cat_population.py", G + "populations/order_cat_population.py", G + "crossovers/order_crossover.py",
      G + "mutations/shift_mutation.py", G + "mutations/movement_mutation.py", G + "mutations/inversion_mutation.py",
      G + "mutations/swap_mutation.py", G + "mutations/categorical_mutation.py", "baumeva/vega.py"],
     [("grid computation", G + "populations/binary_population.py get_gens_params"),
      ("closed operators", G + "crossovers/**, mutations/**")],
     [], ["arguments of the objective function"])

prop("C08", "Each candidate is evaluated exactly once",
     "In a single-objective run the objective function is called exactly once for each individual of the first "
     "generation and once for each offspring created afterwards, and never again for an individual that survives into "
     "later generations. The objective receives one argument (the candidate values), or two (the input data object "
     "itself, then the values) whenever input data other than None was supplied, falsy objects included.",
     ["histories", "configurations", "inputs"],
     "all random-draw sequences, survivor strategies, child percentages, run lengths and input data objects",
     NOASSERT + "call counts are never observed.",
     [G + "fitness/base_fitness.py", G + "new_generation.py", G + "crossovers/base_crossover.py"],
     [("only individuals without a score are evaluated", G + "fitness/base_fitness.py execute"),
      ("survivors keep their score", G + "new_generation.py")],
     [], ["objective calls"])

prop("C09", "Run length, early stop and history bookkeeping are exact",
     "A run makes generation 0 and then one generation after the other until either the requested number of "
     "generations exists or the number of consecutive generations without improvement exceeds the early-stop limit "
     "(no limit given: never early), neither sooner nor later; improvement means strictly higher best fitness, or, for "
     "several objectives, a changed set of non-dominated solutions. The histories hold exactly one entry per "
     "generation, in order: for one objective the best, middle-ranked and worst fitness of that generation, for "
     "several its non-dominated individuals. Recorded history entries never change afterwards, and the average fitness the run data report (one fitness per individual) is that of the current generation.",
     ["histories", "configurations", "inputs"],
     "all random-draw sequences, run lengths from one generation up, early-stop limits from zero up, objectives with plateaus and "
     "late improvements, all entry points",
     NOASSERT + "most run with early stopping disabled and never look at the histories.",
     APIS + [G + "ga_data.py", G + "multi_ga_data.py"],
     [("generation loop and early-stop test", "baumeva/*_ga.py optimize"),
      ("per-generation update", G + "ga_data.py update, multi_ga_data.py update")],
     [("num_generation_no_improve", "consecutive generations without improvement", G + "ga_data.py"),
      ("idx_generation", "index of the next generation", G + "ga_data.py"),
      ("historical_best/mediocre/worst", "per-generation history", G + "ga_data.py")],
     ["returned run data", "objective calls"])

prop("C10", "Every documented configuration completes for every random outcome",
     "Every entry point with default or documented arguments, and every documented combination of population, "
     "fitness, selection, recombination, mutation and survivor components, runs to completion - no internal error and "
     "no endless loop - for every sequence of random draws, including extreme draws, and for every finite objective, "
     "including constant ones, ties and values of very different magnitude. Once draws are fair, each step ends after a bounded number of draws.",
     ["configurations", "inputs", "histories"],
     "all documented component combinations and argument values within their documented domains (at least two genes "
     "positions where an operator needs two, three where it needs three), all random-draw sequences, all finite objectives",
     NOASSERT + "about ten component classes are never executed at all, and a failure needing a one-in-2^53 draw or a "
     "degenerate fitness distribution cannot be hit by unseeded scripts.",
     APIS + [G + "selections/balanced_selection.py", G + "selections/ranked_selection.py",
             G + "selections/tournament_selection.py", G + "selections/vega_balanced_selection.py",
             G + "selections/vega_ranked_selection.py", G + "mutations/categorical_mutation.py",
             G + "new_generation.py", G + "multi_new_generation.py"],
     [("retry loops of the selections", G + "selections/**"), ("survivor sampling", G + "new_generation.py")],
     [], ["outcome of the run", "number of random draws per generation"])

prop("C11", "Constrained runs score and flag individuals correctly",
     "In a constrained run each individual's objective value is the returned value at the 'optimize' position (in "
     "returned order for several), it is marked feasible exactly if every '<=' value is at most zero and every '!=' value equals zero, and its "
     "fitness is the unconstrained formula with a penalty added to the distance or value. The penalty is zero for feasible individuals, "
     "and otherwise: static - sum of squares of violation times the coefficient of the interval containing the violation; dynamic - delta*(c*t)^alpha times the sum of violations to the power betta, "
     "t being the zero-based generation of the evaluation; adaptive - delta*w times that sum, w being 0 in generation 0, later 10/betta_1 if the best "
     "solution so far is feasible, else 10*betta_2; a penalty class of the user's own - whatever it computes from the conditions and constraint values. A penalty without any constraint changes nothing.",
     ["histories", "inputs", "configurations"],
     "all run histories (generation index, feasibility of the best so far), condition lists in any order, violation "
     "patterns including exact zeros and interval borders, all three penalty kinds, one or several objectives",
     NOASSERT + "only the dynamic penalty is executed and nothing checks a score, a flag or which value was optimised.",
     [G + "fitness/base_fitness.py", G + "fitness/multi_fitness.py", G + "fitness/hyperbola_fitness.py",
      G + "fitness/vega_hyperbola_fitness.py", G + "penalties/base_penalty.py", G + "penalties/dynamic_penalty.py",
      G + "penalties/adaptive_penalty.py", G + "penalties/static_penalty.py"],
     [("extraction of the optimised value and feasibility flag", G + "fitness/base_fitness.py execute"),
      ("penalty computation", G + "penalties/**")],
     [], ["run data after each generation", "objective calls"])

prop("C12", "Pareto ranks and the reported non-dominated set are exact",
     "After every generation of an unconstrained multi-objective run each individual's rank is one plus the number of "
     "individuals of that generation dominating it (every returned value to be minimised), the reported solution set "
     "consists of exactly the non-dominated individuals of the current generation, and each shows the objective values "
     "really returned for its decoded values, in the order returned. In rank-based (FFGA) runs every individual's fitness is 1/(1+rank) "
     "for its current rank; in vector-evaluated (VEGA) runs it is the list of per-objective fitnesses.",
     ["histories", "inputs", "configurations"],
     "all random-draw sequences, numbers of objectives, objective vectors with ties, duplicates and chains, both "
     "multi-objective algorithms and every documented selection for them",
     NOASSERT + "the rank-based algorithm is never executed and no script looks at ranks or the reported set.",
     ["baumeva/vega.py", "baumeva/ffga.py", G + "fitness/multi_fitness.py", G + "fitness/ffga_fitness.py",
      G + "fitness/vega_hyperbola_fitness.py", G + "multi_ga_data.py"],
     [("pairwise dominance count", G + "fitness/multi_fitness.py assign_ranks"),
      ("collection of rank-one individuals", G + "multi_ga_data.py update")],
     [("rank", "1 + number of dominators", G + "fitness/multi_fitness.py"),
      ("best_solution['pareto_set']", "reported set", G + "multi_ga_data.py")],
     ["run data after each generation", "objective calls"])

prop("C13", "Rank-based runs never lose a non-dominated solution",
     "In an unconstrained rank-based (FFGA) run that carries over the best parents, after every generation no "
     "individual ever evaluated in the run dominates a reported solution, and every objective vector ever evaluated "
     "is either reported or dominated by a reported one. So the reported front only ever improves.",
     ["histories", "inputs", "configurations"],
     "all random-draw sequences and objectives, through the ready-made optimiser and assembled from components with "
     "every selection documented for it",
     "The rank-based algorithm is never executed by the tests.",
     ["baumeva/ffga.py", G + "multi_new_generation.py", G + "multi_ga_data.py", G + "fitness/ffga_fitness.py"],
     [("all rank-one individuals are carried over", G + "multi_new_generation.py add_best")],
     [], ["run data after each generation", "objective calls"])

prop("C14", "Selection picks proper parents with the promised pressure",
     "Selection leaves the generation's individuals unchanged and yields int(child percentage x population size) parent "
     "pairs (for VEGA the same number divided by the number of objectives, rounded down, for each objective in turn), each pair two different "
     "individuals of the current generation with their data intact. A tournament's participants are drawn uniformly without repetition and its winner is the fittest of them, so at least as fit as (tournament size - 1) other individuals (all others but one, if the generation is smaller than that); the first parent of a pair is drawn in proportion to fitness in balanced selection (never "
     "favouring a less fit individual when fitness is negative) and to the fitness rank, ties sharing their average rank, in ranked selection, and the second by the same rule among the others. VEGA applies this per objective to that objective's fitness.",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences for the structural part, fair draw sequences for the proportions, all generations "
     "reached by a run, ties and negative fitness included",
     NOASSERT + "ranked selections are never executed and no script observes who was selected.",
     [G + "selections/" + f for f in ("base_selection.py", "tournament_selection.py", "balanced_selection.py",
                                      "ranked_selection.py", "vega_tournament_selection.py",
                                      "vega_balanced_selection.py", "vega_ranked_selection.py")] + ["baumeva/vega.py"],
     [("tournament and roulette loops", G + "selections/**")],
     [("parents", "selected pairs in order", G + "ga_data.py")],
     ["selected parents after each selection step"])

prop("C15", "Mutation honours its requested level and touches only offspring",
     "Level 0.0 leaves every offspring as recombination produced it, level 1.0 changes every bit, every gene that has "
     "an alternative value, or every ordering, and in between each is changed independently with the requested probability "
     "(to a precision of 1/1000); the named levels mean 0.3, 1 and 3 changes per expected binary or categorical individual, and 3%, 10% "
     "and 30% of orderings, for the individuals at hand even if the mutation object was used on others before. A "
     "changed categorical gene takes any other value of its pool and a changed ordering is any swap, move, reversal or chain shift its operator stands for; only the offspring are altered, never survivors or parents.",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences for the extreme levels, fair ones for rates; all mutation operators, "
     "reuse of one mutation object across populations",
     NOASSERT + "rates are never measured and four of the six operators are never executed.",
     [G + "mutations/" + f for f in ("base_combinatory_mutation.py", "bin_string_mutation.py",
                                     "categorical_mutation.py", "inversion_mutation.py", "movement_mutation.py",
                                     "shift_mutation.py", "swap_mutation.py")],
     [("per-bit / per-individual coin", G + "mutations/** determines_mutation"),
      ("mapping of named levels", G + "mutations/**")],
     [("children", "offspring of the current generation", G + "ga_data.py")],
     ["offspring before and after each mutation step"])

prop("C16", "Offspring recombine exactly their two parents",
     "Each selected pair yields one offspring, unscored and undecoded: for one- and two-point recombination the parents' "
     "genes at unchanged positions with one or two switches of parent, for uniform recombination at each position a gene "
     "of either parent at that position, for order recombination an inner segment of one parent in place and the "
     "remaining positions filled, starting after the segment, with the other parent's remaining genes in their order. "
     "Every switch position inside the individual and both parent roles can occur, and parents are not altered.",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences, all four operators, all parent pairs reached by runs, individuals of minimal and "
     "larger length",
     NOASSERT + "two-point recombination is never executed and no script compares offspring with parents.",
     [G + "crossovers/" + f for f in ("base_crossover.py", "one_point_crossover.py", "two_point_crossover.py",
                                      "uniform_crossover.py", "order_crossover.py")],
     [("slice recombination", G + "crossovers/**")],
     [("children", "offspring of the current generation", G + "ga_data.py")],
     ["parents and offspring around each recombination step"])

prop("C17", "Each new generation is all offspring plus carried-over parents",
     "A new generation consists of every offspring just created plus individuals of the previous generation with their "
     "recorded data intact, each a separate individual. In single-objective and VEGA runs it has the requested population "
     "size plus one and always keeps the best of the previous generation (VEGA: a member with the best first-objective fitness); in single-objective runs with the 'best' strategy the carried-over are the "
     "fittest of the previous generation, except that further copies of an identical encoding among them may be "
     "replaced by other members, and with 'random' they are distinct members. In rank-based "
     "runs with 'best' exactly all rank-one individuals are carried over.",
     ["inputs", "histories", "configurations"],
     "all random-draw sequences, child percentages up to 1.0, both strategies, generations with many identical "
     "individuals, both survivor components",
     NOASSERT + "all use the 'best' strategy with the default percentage and never look at the composition.",
     [G + "new_generation.py", G + "multi_new_generation.py", G + "populations/base_population.py"],
     [("survivor choice", G + "new_generation.py add_best, add_parents, execute"),
      ("rank-one carry-over", G + "multi_new_generation.py")],
     [], ["population before and after each survivor step"])

prop("C18", "Supplied starting individuals are honoured",
     "When a starting population is supplied, generation 0 contains every supplied individual - exactly for categorical "
     "and ordering encodings, at the nearest grid point for binary and Gray encodings - and is filled up to the "
     "requested size with random ones. The supplied lists are copied, never altered, at any point of the run, and a single-objective run never reports a best worse than the "
     "best supplied individual as encoded.",
     ["inputs", "histories", "configurations"],
     "all starting populations from one individual up to the full size (boundary values included), all encodings, all random-draw sequences",
     NOASSERT + "one script supplies a starting population, of exactly full size, and never looks for it again.",
     [G + "populations/binary_population.py", G + "populations/binary_gray_population.py",
      G + "populations/cat_population.py", G + "populations/order_cat_population.py"],
     [("encoding of supplied individuals and filling", G + "populations/** fill")],
     [], ["first-generation candidates at the objective", "caller's lists", "run data"])

prop("C19", "The printed report is optional, faithful and harmless",
     "With printing switched off a ready-made optimiser writes nothing to standard output; otherwise it writes one "
     "report, only after the last generation, that shows the best solution (or every solution of the non-dominated set) "
     "of the run data. A write error of the output stream surfaces to the caller and leaves an assembled optimiser's "
     "run data complete and unaltered, so the report can be printed again.",
     ["fault_sequences", "histories", "configurations"],
     "every write of the report as failure point, all entry points, both settings",
     "Standard output is redirected to a log nobody compares; it never fails.",
     APIS + [G + "ga_data.py", G + "multi_ga_data.py"],
     [("report after the loop", "baumeva/*_ga.py optimize"), ("print_best_solution", G + "ga_data.py, multi_ga_data.py")],
     [], ["bytes written to standard output", "run data"])

prop("C20", "Binary and Gray encodings round-trip",
     "Encoding a grid value to bits and decoding it again gives that value, for plain binary and Gray code, and "
     "neighbouring grid values differ in exactly one bit under Gray code.",
     ["inputs"], "all gene declarations and grid indices",
     "The test scripts never encode and decode the same value.",
     [G + "populations/binary_population.py", G + "populations/binary_gray_population.py"],
     [("encode/decode functions", G + "populations/binary_gray_population.py")])

prop("C21", "Invalid parameters are rejected with a clear error",
     "A mutation level outside [0,1] or an unknown name, an unknown survivor strategy, a tournament size below two or "
     "not below the population size, a starting population larger than the population, and out-of-range starting values are refused with "
     "an exception before any wrong result is produced.",
     ["inputs"], "all invalid parameter values",
     "No script passes an invalid parameter.",
     [G + "mutations/base_combinatory_mutation.py", G + "mutations/bin_string_mutation.py",
      G + "mutations/categorical_mutation.py", G + "new_generation.py",
      G + "selections/tournament_selection.py", G + "populations/binary_population.py",
      G + "fitness/base_fitness.py"],
     [("argument checks", "constructors and check_* methods")])

prop("C22", "A ready-made optimiser is exactly its documented assembly",
     "A run of a ready-made optimiser (binary, combinatorial, categorical, VEGA, FFGA) goes through the same generations, "
     "evaluates the same candidates and returns the same run data as the assembly of components its documentation names "
     "(tournament selection, one-point crossover, simple mutation and so on) run on the same random stream, every "
     "parameter passed on and every documented default (95% children, tournaments of three, 'normal' mutation, 'best' "
     "transfer, early stop after 10) in force. The collector class likewise runs exactly the documented hand-written "
     "loop over its components.",
     ["inputs", "histories", "configurations"],
     "all parameter subsets left to their defaults, all draw sequences, all objectives including failing ones",
     NOASSERT + "each runs one entry point once and compares it with nothing.",
     APIS, [("construction of the components and main loop", "baumeva/*_ga.py, vega.py, ffga.py optimize"),
            ("main loop", "baumeva/collector_ga.py optimize")],
     [], ["objective calls", "generations", "returned run data"])

prop("C23", "A run interrupted between steps resumes exactly from its saved run data",
     "All state of a hand-written run lives in its run data and the standard random generator. If the process ends at any "
     "boundary between two steps, or during an evaluation that fails, a new process that unpickles the run data, restores the "
     "state of the random generator and goes on with newly constructed components of the same parameters goes through the "
     "same generations and ends with the same histories and best solution as the uninterrupted run, and single-objective "
     "runs repeat no finished evaluation.",
     ["crash_points", "fault_sequences", "configurations"],
     "every step boundary and every evaluation as crash point, repeated crashes, all components and encodings, all draw "
     "sequences",
     "No test saves or restores anything, or uses two sets of components in one run.",
     [G + "ga_data.py", G + "multi_ga_data.py", G + "populations/base_population.py", "baumeva/ga/**"],
     [("run state kept in the run data", G + "ga_data.py"), ("components derive what they need from the run data",
                                                             "baumeva/ga/**")],
     [("run data", "population, parents, children, histories, counters, best", G + "ga_data.py")],
     ["generations after the restart", "objective calls", "final run data"])

prop("C24", "A malformed objective result is refused and leaves no trace",
     "When at any evaluation the objective returns no value, or in single-objective runs a wrong number of values (more or less "
     "than one without conditions, other than one per entry of the condition list with them), an exception reaches the "
     "caller before any further candidate is evaluated, and the candidate is not scored. Repeating the step (or starting an "
     "assembled optimiser again) with a well-formed result goes on as if the malformed one had never been returned.",
     ["fault_sequences", "histories", "configurations"],
     "every evaluation of the run as the point of failure, repeated failures, all fitness classes, encodings and condition lists",
     "The test objectives always return well-formed results.",
     [G + "fitness/base_fitness.py", G + "fitness/multi_fitness.py"],
     [("check of the returned values", G + "fitness/base_fitness.py check_input")],
     [], ["exception at the caller", "objective calls", "run data"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
