#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source of the property texts).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Every returned solution is a feasible cover",
 "For every feasible instance, the solution handed back by the complete solver, by the three-phase algorithm, and (when it reports a cost below its cutoff) by the multiplier-driven heuristics is a list of distinct, in-range column indices that together cover every row of the instance as it was given. This holds whatever the costs, random seed, parameters, warm start and remaining time are.",
 ["inputs","configurations","schedules"],"all feasible instances, costs, parameter settings, seeds and instants at which time runs out",
 "Tests run the solver on a handful of random instances with default parameters; infeasible answers come from rare cost ties/rounding, columns fixed in earlier phases, stale index maps or an early stop at a particular moment.",
 ["src/algorithms/Refinement.hpp","src/algorithms/ThreePhase.hpp","src/subgradient/Subgradient.hpp","src/greedy/Greedy.hpp","src/fixing/FixingData.hpp"],
 [("index maps core->fixed->original","src/algorithms/ThreePhase.hpp:_from_core_to_unfixed_sol, src/algorithms/Refinement.hpp:from_fixed_to_unfixed_sol"),("greedy covers until no row is left","src/greedy/Greedy.hpp")],
 ["cft::run result","cft::ThreePhase result","Subgradient::heuristic output"])
p("C02","The reported cost is the cost of the reported columns",
 "Whenever the complete solver, the three-phase algorithm or the heuristics return a solution, the cost stored with it equals the sum of the original instance costs of exactly the columns listed in it (up to floating-point rounding of that sum). This includes columns that were fixed along the way and solutions that went through redundancy removal.",
 ["inputs","configurations"],"all instances, costs, multipliers and parameter settings",
 "Tests compare cost and columns on a few seeds; the cost and the column list are maintained separately (fixed cost, partial cost, removed columns), so they only drift apart on specific removal or fixing histories.",
 ["src/algorithms/Refinement.hpp","src/algorithms/ThreePhase.hpp","src/greedy/Greedy.hpp","src/greedy/redundancy.hpp","src/fixing/FixingData.hpp"],
 [("fixed cost accumulation","src/fixing/FixingData.hpp"),("partial_cost bookkeeping","src/greedy/redundancy.hpp")],
 ["cft::run result","ThreePhase result","Greedy return value and solution"])
p("C03","A better known solution is never lost",
 "When the complete solver is given a feasible warm-start solution with its cost, the result never costs more than that warm start, and the incumbent kept while it iterates never gets worse: the returned cost is the minimum over the warm start and every solution found by the inner phases. The inner heuristic likewise replaces its incumbent only by a cheaper one.",
 ["inputs","histories"],"all warm starts and all sequences of solutions produced by the inner algorithms",
 "Tests run warm starts on one or two instances where the solver improves anyway; losing the incumbent needs an inner phase that returns something worse at a later iteration.",
 ["src/algorithms/Refinement.hpp","src/algorithms/ThreePhase.hpp","src/subgradient/Subgradient.hpp"],
 [("strict improvement tests","src/algorithms/Refinement.hpp:run, src/algorithms/ThreePhase.hpp, src/subgradient/Subgradient.hpp:heuristic")],
 ["cft::run result.sol","ThreePhase result.sol"])
p("C04","The returned lower bound never exceeds the cost of any cover",
 "The lower bound the solver returns, and the one computed by pricing, is at most the cost of every feasible cover of the instance it was computed for (up to floating-point rounding), for any non-negative multipliers. In particular it never exceeds the cost of the solution returned with it.",
 ["inputs","configurations"],"all instances, all non-negative multiplier vectors, all covers",
 "Tests check the bound against the solution found for a few instances; an overestimated bound shows only for specific costs and multipliers, and the true optimum is not computed.",
 ["src/subgradient/Pricer.hpp","src/subgradient/Subgradient.hpp","src/algorithms/ThreePhase.hpp","src/algorithms/Refinement.hpp","src/core/utils.hpp"],
 [("Lagrangian bound over all columns","src/subgradient/Pricer.hpp"),("bound taken from first, unfixed phase","src/algorithms/ThreePhase.hpp, src/algorithms/Refinement.hpp")],
 ["cft::run result.dual.lb","Pricer return value","Subgradient return value"])
p("C05","Dual multipliers are non-negative, finite, one per row",
 "Every multiplier vector the library produces (initial multipliers, subgradient and heuristic updates, and the dual part of the result) has exactly one entry per row of the instance it refers to, and every entry is a finite non-negative number. The result's vector refers to the rows of the original, unfixed instance.",
 ["inputs","configurations","schedules"],"all instances, bounds, step sizes and iteration counts",
 "Tests look at multipliers of a few runs; a negative or stale-sized vector needs a particular step size, violation or fixing history.",
 ["src/subgradient/Subgradient.hpp","src/algorithms/ThreePhase.hpp","src/algorithms/Refinement.hpp","src/fixing/ColFixing.hpp"],
 [("clamping of updates","src/subgradient/Subgradient.hpp:_update_lagr_mult"),("multipliers follow the row map","src/fixing/ColFixing.hpp")],
 ["cft::run result.dual.mults","best_lagr_mult after Subgradient calls"])
p("C06","Fixing columns yields exactly the residual problem",
 "Fixing a set of columns removes them, the rows they cover and the columns left empty, and nothing else: the remaining instance is the original one restricted to the uncovered rows, with rows and columns consistent with each other. The index maps, the list of fixed columns and the fixed cost always translate remaining indices and costs back to the original instance, also after several successive fixings.",
 ["inputs","histories"],"all instances, all sets of columns to fix, all sequences of fixings",
 "Tests fix a few hand-picked or random sets once; in-place compaction and chained maps fail only for specific removal patterns or repeated fixings.",
 ["src/fixing/fix_columns.hpp","src/fixing/FixingData.hpp","src/fixing/ColFixing.hpp"],
 [("in-place compaction of columns and rows","src/fixing/fix_columns.hpp"),("curr2orig composition","src/fixing/FixingData.hpp:apply_maps_to_fixing_data")],
 ["instance, fixing data and old-to-new maps after fix_columns_and_compute_maps / ColFixing"])
p("C07","Pricing builds a faithful and sufficient core instance",
 "The core instance built by pricing consists of distinct columns of the given instance with their exact rows and costs and a map back to their original indices, and it never leaves a row uncovered: it keeps, for each row, a choice of min(5, available) columns of smallest reduced cost. The value returned equals the sum of the multipliers plus all negative reduced costs over all columns of the given instance.",
 ["inputs"],"all instances, costs and non-negative multipliers",
 "Tests price a few random instances and check sizes; ties, columns selected by both criteria and rows with few columns combine in ways a sample does not hit.",
 ["src/subgradient/Pricer.hpp","src/utils/SortedArray.hpp","src/core/Instance.hpp","src/algorithms/ThreePhase.hpp"],
 [("C1/C2 column selection","src/subgradient/Pricer.hpp"),("per-row best-k arrays","src/utils/SortedArray.hpp")],
 ["InstAndMap after Pricer::operator()","tentative core inside ThreePhase"])
p("C08","Greedy picks by best score, respects cutoff and size limits",
 "Started from a given partial solution, the greedy heuristic repeatedly adds a column whose score (Lagrangian cost over, or times, the number of rows it newly covers) is minimal among all columns, never adds more columns than allowed, and never duplicates a column. Unless it reports a cost at or above the cutoff, the final solution covers all rows and has no column that can be dropped.",
 ["inputs"],"all instances, multipliers, partial solutions, cutoffs and size limits",
 "Tests check coverage on samples; the incremental score updates and the cached subset of best scores only diverge from the definition after specific sequences of picks and ties.",
 ["src/greedy/Greedy.hpp","src/greedy/scores.hpp","src/greedy/redundancy.hpp"],
 [("incremental score update","src/greedy/scores.hpp:update_changed_scores"),("good-scores subset invalidation","src/greedy/Greedy.hpp")],
 ["sol vector and cost after Greedy::operator()"])
p("C09","Redundancy removal keeps the cover and is optimal when enumerating",
 "Removing redundant columns never uncovers a row that the solution covered and only removes columns of the solution. When at most ten columns are redundant the columns kept have minimum total cost among all subsets of the solution that still cover every row, provided that minimum is below the cutoff; with more redundant columns the reported cost still matches the columns kept.",
 ["inputs"],"all covers, costs and cutoffs",
 "Tests use a few random solutions; the implicit enumeration prunes on cost and coverage, so a wrong prune only matters for particular cost/overlap patterns.",
 ["src/greedy/redundancy.hpp","src/greedy/Greedy.hpp","src/utils/CoverCounters.hpp"],
 [("Enumerator with cost and cover pruning","src/greedy/redundancy.hpp"),("heuristic removal above ten columns","src/greedy/redundancy.hpp:heuristic_removal")],
 ["RedundancyData after complete_init_redund_set / heuristic_removal / enumeration_removal","Greedy result"])
p("C10","Instance parsers build exactly the instance in the file",
 "For every well-formed RAIL, SCP, CVRP or MPS set-covering file, the parsed instance has exactly the rows, columns, costs and memberships the file describes, with zero-based indices, and its row lists and column lists describe the same matrix. For CVRP files and solution files the initial solution and its cost are those of the file; with the unit-cost option every cost is one and the initial solution's cost is its size.",
 ["inputs"],"all well-formed instance files of the four formats, any layout of blanks and line breaks the format allows",
 "Tests parse a few sample files; off-by-one or aliasing mistakes depend on sizes, line splits, blanks and repeated names the samples do not have.",
 ["src/core/parsing.hpp","src/core/Instance.hpp","src/utils/parse_utils.hpp"],
 [("format-specific parsers","src/core/parsing.hpp"),("row lists rebuilt from columns","src/core/Instance.hpp:fill_rows_from_cols")],
 ["Instance / FileData returned by parse_*_instance, parse_inst_and_initsol"])
p("C11","Parsers survive any input: valid instance or exception",
 "Whatever bytes an instance, solution or CVRP file contains, parsing it terminates and either throws an exception or returns an instance all of whose row and column indices are in range and whose matrix views agree. It never reads or writes outside its buffers.",
 ["inputs"],"all byte strings up to the stated length, as files of each format",
 "Tests feed a few malformed files; memory errors and endless loops need particular truncations or values (zero, negative, missing section).",
 ["src/core/parsing.hpp","src/utils/parse_utils.hpp","src/utils/StringView.hpp"],
 [("range checks while parsing","src/core/parsing.hpp")],
 ["return or exception of the parse functions under a memory-checking interpreter"])
p("C12","A written solution file reads back as the same solution",
 "Writing a solution to a file and parsing that file gives back the same column indices in the same order and the same cost, for every list of indices and every finite cost.",
 ["inputs"],"all index lists up to the stated length, all finite costs representable in the stated ranges",
 "Tests round-trip one solution; formatting and parsing of costs or indices can lose digits only for particular values.",
 ["src/core/parsing.hpp"],
 [("write_solution / parse_solution","src/core/parsing.hpp")],
 ["Solution returned by parse_solution after write_solution"])
p("C13","Text-to-number conversion is exact or throws",
 "Reading a number from text returns exactly the value written when the text starts with a number representable in the requested type (the nearest representable value for real types), consumes exactly the characters of that number, and otherwise throws: an empty or non-numeric text is an invalid argument and a value outside the type's range is an out-of-range error, never a silently different value.",
 ["inputs"],"all character strings up to the stated length, all supported integer and real types",
 "Tests convert a few literals; sign, overflow and boundary handling differ per type and only break at range edges.",
 ["src/utils/parse_utils.hpp","src/utils/limits.hpp"],
 [("range and end-pointer checks","src/utils/parse_utils.hpp:string_to")],
 ["string_to<T>::parse / consume return value, exception and remaining text"])
p("C14","Command-line arguments set exactly the requested parameters",
 "Parsing a command line sets each parameter to the value following its short or long flag (the last occurrence wins), leaves every other parameter at its default, seeds the random generator with the given seed, and rejects a command line without an instance path. When no output path is given the solution file name is the instance file name without directories and extension, plus .sol.",
 ["inputs","configurations"],"all argument vectors up to the stated length built from flags, values and arbitrary words; all instance paths up to the stated length",
 "Tests exercise each flag once in isolation; swaps between flags, order effects, missing values and unusual paths are not covered.",
 ["src/core/CliArgs.hpp","src/utils/parse_utils.hpp","src/utils/StringView.hpp"],
 [("flag dispatch","src/core/CliArgs.hpp:parse_cli_args"),("default output name","src/core/CliArgs.hpp:make_sol_name")],
 ["Environment returned by parse_cli_args"])
p("C15","The time limit stops every phase and still returns a valid result",
 "Once the elapsed time exceeds the time limit, every iterative phase of the solver stops at its next time check without starting another round, and the result handed back is still a complete feasible solution with valid dual information. This holds for every instant at which time may run out.",
 ["schedules","inputs"],"all clock behaviours: every position in the run at which the limit is first exceeded",
 "Tests use a real clock with a generous limit, so they see at most one cut-off point per run and none in the middle of a phase.",
 ["src/algorithms/Refinement.hpp","src/algorithms/ThreePhase.hpp","src/subgradient/Subgradient.hpp","src/utils/Chrono.hpp"],
 [("time checks in each loop","src/algorithms/Refinement.hpp, src/algorithms/ThreePhase.hpp, src/subgradient/Subgradient.hpp"),("time unit conversion","src/utils/Chrono.hpp")],
 ["results under a scripted clock","number of rounds started after the limit"])
p("C16","The random generators and distributions are correct",
 "Each generator reproduces the published xoshiro128/256 plus and plus-plus sequences from a SplitMix64-seeded state, and equal seeds give equal sequences. Real numbers drawn from [min, max) always lie in that range, canonical draws lie in [0, 1), dice rolls lie in [min, max], and a coin with probability 0 never, with probability 1 always, comes up true.",
 ["inputs"],"all seeds, generator states, ranges and probabilities",
 "Tests draw some thousand numbers; a wrong rotation, shift or boundary affects rare states or only the extreme outputs.",
 ["src/utils/xoshiro_prng.hpp","src/utils/random.hpp"],
 [("state transition and scrambler","src/utils/xoshiro_prng.hpp"),("range mapping","src/utils/random.hpp")],
 ["outputs of the generators and of rnd_real, roll_dice, coin_flip, canonical_gen"])
p("C17","The container utilities agree with their mathematical definition",
 "The bounded sorted array always holds, in order, a choice of the k smallest keys inserted; cover counters always equal the number of times each element was covered minus uncovered, and their return values and redundancy queries agree with those counts; sorting, partial selection, filtering and minimum search return an ordered / correctly partitioned / exactly filtered permutation of their input; the sparse matrix returns each column as it was stored.",
 ["inputs","histories"],"all sequences of operations and values up to the stated length",
 "Tests run fixed sequences; ties, full arrays and interleavings of cover/uncover are sampled thinly.",
 ["src/utils/SortedArray.hpp","src/utils/CoverCounters.hpp","src/utils/sort.hpp","src/utils/utility.hpp","src/utils/SparseBinMat.hpp","src/utils/Span.hpp"],
 [("insertion into a bounded array","src/utils/SortedArray.hpp"),("counter updates","src/utils/CoverCounters.hpp")],
 ["observable contents and return values of the containers"])
p("C18","Python instances are validated and completed correctly",
 "Through the Python bindings, adding a set either appends exactly that set and its cost and returns its index, or raises and leaves the instance unchanged; preparing an instance either raises because an item index is implausibly large or an item is in no set, or produces row lists that describe exactly the same matrix as the sets that were added.",
 ["inputs","histories"],"all sequences of added sets and costs up to the stated size, valid or not",
 "The Python tests add a few valid sets; rejected additions, repeated preparation and boundary indices are not explored.",
 ["src/pycft/_bindings.cpp","src/core/Instance.hpp"],
 [("add / prepare bindings","src/pycft/_bindings.cpp")],
 ["Instance after add() and prepare()"])
p("C19","Equal inputs and seeds give equal results",
 "Running the solver, or any of its phases, twice on the same instance with the same parameters, seed and clock readings gives identical solutions, costs, multipliers and bounds, no matter what ran before in the process or in the reused work objects.",
 ["histories","inputs"],"all instances, parameters and earlier uses of the same objects",
 "Tests do not compare repeated runs on reused objects; leftover cache contents or uninitialised data matter only after particular earlier calls.",
 ["src/algorithms/ThreePhase.hpp","src/greedy/Greedy.hpp","src/subgradient/Subgradient.hpp","src/subgradient/Pricer.hpp","src/fixing/ColFixing.hpp"],
 [("caches are reset at the start of each call","src/algorithms/ThreePhase.hpp, src/greedy/*.hpp, src/subgradient/*.hpp, src/fixing/*.hpp")],
 ["results of repeated calls with fresh and reused objects"])
p("C20","Text splitting, trimming and comparison are exact",
 "Trimming removes exactly the leading and trailing white space, splitting yields exactly the maximal runs of non-blank characters in order, and text comparison is the lexicographic order (equality, less-than and the derived operators agree with each other), for every character content including empty, all-blank and embedded separators.",
 ["inputs"],"all character strings up to the stated length",
 "Tests split a few sample strings; boundary cases (single characters, trailing blanks, prefixes) interact.",
 ["src/utils/parse_utils.hpp","src/utils/StringView.hpp"],
 [("find_first/last_true, remove_prefix/suffix","src/utils/StringView.hpp"),("trim, split","src/utils/parse_utils.hpp")],
 ["results of trim/ltrim/rtrim/split/compare"])
p("C21","Subgradient control follows its schedule",
 "The subgradient control rules keep their promises for every sequence of bounds: the step size changes only at the end of each period, is halved when the bounds spread by more than 1%, enlarged by half when by at most 0.1%, and stays within its fixed positive limits; pricing is triggered at strictly increasing iterations, its period multiplied by 10, 5 or 2 (up to its cap) when the gap to the real bound is at most 0.0001%, 2% or 20% of the upper bound and reset to ten otherwise; and the search stops exactly when neither the absolute nor the relative improvement over a period reaches its threshold.",
 ["histories","configurations"],"all sequences of bounds, periods and thresholds",
 "Tests follow one scripted sequence; comparisons at thresholds and negative or zero bounds are not exercised.",
 ["src/subgradient/utils.hpp"],
 [("StepSizeManager, ExitConditionManager, PricingManager","src/subgradient/utils.hpp")],
 ["values returned by the managers"])
p("C22","The Python solver class keeps its documented contract",
 "The Python solver class rejects negative costs and negative elements without changing the instance, returns consecutive set indices, reuses the previous solution as warm start only while no new element appeared, and its accessors return the solution, cost, bound and multipliers of the last solve (or the documented empty value before it).",
 ["histories"],"all sequences of calls on a solver object",
 "The Python tests call the methods in one usual order.",
 ["src/pycft/set_cover_solver.py","src/pycft/_bindings.cpp"],
 [("result caching and invalidation","src/pycft/set_cover_solver.py")],
 ["SetCoverSolver methods"])
p("C23","The solver terminates",
 "On every feasible instance, even without a time limit, the complete solver stops: with a growing fixing fraction (alpha above 1, as by default) it ends within as many rounds without an improvement as the fraction needs to grow from its minimum to all rows, and the subgradient and heuristic phases never exceed their stated number of iterations.",
 ["inputs","configurations"],"all feasible instances and parameter settings",
 "Tests only show that sampled runs end.",
 ["src/algorithms/Refinement.hpp"],
 [("growing fixing fraction","src/algorithms/Refinement.hpp:RefinementFixManager")],
 ["cft::run returns"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties",[ (x["id"],len(x["title"])) for x in P if len(x["title"])>80])
