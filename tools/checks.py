"""What each check runs: harness, build variant, number of cases, what makes a case count."""
# as the other sanitizer runs (check.py), with the leak checker waiting for the harness to ask
LEAKS = "detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1"

CHECKS = {
    "C06": {
        "parts": [{"harness": "stn", "variant": "opt", "quick": 200000, "thorough": 20000000}],
        "rule": "random edit histories (add/narrow/remove constraint, add/delete timepoint, eager or lazy propagation) of a temporal network; distinct = distinct consistent closures (all bounds) seen",
        "technique": "runtime monitoring: every propagated state of seeded edit histories compared with an independent all-pairs shortest-path oracle",
        "note": "Exploration: covers the histories the seeded generator makes (up to about 12 timepoints, 40 edits); trusts the Floyd-Warshall oracle.",
        "floor": {"consistent_states": 1000, "inconsistent_states": 500, "distances_compared": 500},
    },
    "C01": {
        "parts": [{"harness": "num", "variant": "opt", "quick": 1500, "thorough": 60000}],
        "rule": "operand pairs (finite, near the infinities, infinite) through every operator form; distinct = distinct (form, operator, operands)",
        "technique": "runtime monitoring: every operator form evaluated on generated operands and compared with 128-bit / long double reference arithmetic",
        "note": "Exploration: boundary-biased operands through every operator overload; trusts the wide reference arithmetic.",
        "floor": {"overflows": 1000, "with_infinity": 1000, "finite": 1000},
    },
    "C02": {
        "parts": [{"harness": "dom", "variant": "opt", "quick": 500000, "thorough": 20000000}],
        "rule": "random operation sequences on pairs of domains; distinct = distinct set values reached",
        "technique": "runtime monitoring: domain operations and listener events compared step by step with an explicit set model",
        "note": "Exploration: finite sets are modelled exactly, real intervals by their bounds; where the representation is by design a bounding interval the oracle is one-sided.",
        "floor": {"intersections": 1000, "equations": 1000, "events": 1000},
    },
    "C03": {
        "parts": [{"harness": "net", "variant": "opt", "quick": 160000, "thorough": 6000000}],
        "rule": "random networks of library constraints (half of them a single constraint of each type in turn); distinct = distinct (constraint types, propagated domains)",
        "technique": "runtime monitoring: domains and verdicts after propagation compared with brute-force enumeration under independently written constraint meanings",
        "note": "Exploration: up to 9 variables; integers enumerated in [-9,9], reals on a grid of halves plus bounds; trusts the written meanings of the constraints.",
        "floor": {"supported_values_checked": 1000, "satisfying_assignments": 1000, "violating_assignments": 1000},
    },
    "C04": {
        "parts": [{"harness": "hist", "variant": "opt", "quick": 60000, "thorough": 3000000}],
        "rule": "random edit histories of constraint networks (add, remove, deactivate, reactivate, specify, reset, restrict, propagate); distinct = distinct consistent (constraint types, domains) states compared",
        "technique": "runtime monitoring: after the edits of a history, domains and consistency compared with the same content built from nothing in a random order; domains compared before and after changes that are undone",
        "note": "Exploration: up to 7 variables and 7 constraints of every library type with distinct variables; content whose from-nothing result itself depends on the order of additions is set aside and counted.",
        "floor": {"consistent_states": 1000, "inconsistent_states": 500, "undone_changes": 500, "envelope_states": 200},
    },
    "C05": {
        "parts": [{"harness": "hist", "variant": "opt", "quick": 60000, "thorough": 3000000, "env": {"MODE": "tolerant"}}],
        "rule": "random edit histories with violations tolerated; distinct = distinct (domains, reported violations) states",
        "technique": "runtime monitoring: the reported violations, their total and the domains compared after the edits of a history with the meanings of the constraints over the fixed values and with a strict engine given the same content",
        "note": "Exploration: up to 6 variables and 6 constraints of every library type; which constraint of a contradictory set is reported is judged exactly only where its variables are all fixed.",
        "floor": {"violated_states": 1000, "unviolated_states": 1000, "fixed_contradicted": 300, "fixed_satisfied": 300},
    },
    "C07": {
        "parts": [{"harness": "temporal", "variant": "opt", "quick": 300000, "thorough": 3000000}],
        "rule": "random plan edit histories (tokens, activation, merging, retraction, temporal relations, specified times, timeline orderings); distinct = distinct vectors of implied bounds",
        "technique": "runtime monitoring: after each propagation of a history, time variables, verdict and temporal queries compared with an independent shortest-path closure over the engine's own list of active temporal constraints",
        "note": "Exploration: up to 8 tokens, 3 free variables, 60 edits; trusts the independent closure. Durations are judged one-sidedly, as the engine only tightens them from start and end.",
        "floor": {"consistent_states": 1000, "inconsistent_states": 500, "bounds_compared": 1000, "distance_queries": 1000, "fits": 300, "merged_tokens": 300},
    },
    "C09": {
        "parts": [{"harness": "timeline", "variant": "opt", "quick": 150000, "thorough": 3000000}],
        "rule": "random histories of placing, freeing, activating, merging, cancelling and deleting tokens on three timelines under random temporal and object constraints; distinct = distinct (sequence lengths, tokens needing order, number of constraints)",
        "technique": "runtime monitoring: after each propagation of a history, sequences, tokens to order and ordering choices compared with a model of the orderings made and an independent temporal closure",
        "note": "Exploration: up to 9 tokens, 3 timelines, 80 edits; trusts the model of explicit orderings and the independent closure.",
        "floor": {"placements": 1000, "long_sequences": 500, "choices_compared": 1000, "positions_excluded": 500, "plan_choices": 500, "inconsistent_states": 200},
    },
    "C08": {
        "parts": [{"harness": "token", "variant": "opt", "quick": 60000, "thorough": 2000000}],
        "rule": "random life-cycle histories (create, activate, merge, reject, cancel, delete, specify, restrict, constrain, and what is not allowed) with rules that create slaves, in bursts that are undone in reverse; distinct = distinct vectors of variable domains judged",
        "technique": "runtime monitoring: life-cycle invariants after every edit, structural snapshots before and after decisions that are undone, and domains compared with the same tokens kept apart and equated by constraints",
        "note": "Exploration: up to 8 free tokens of 4 predicates and their slaves, 70 edits; edits between a merge and the next propagation are not judged, nor the unfinished stack method of merging that an environment variable selects.",
        "floor": {"merges": 1000, "bursts_undone": 1000, "illegal_tried": 500, "merged_states": 500, "emptied": 500, "rejections": 500},
    },
    "C16": {
        "parts": [{"harness": "model", "variant": "opt", "quick": 80000, "thorough": 600000},
                  {"harness": "model", "variant": "opt", "quick": 0, "thorough": 0, "env": {"MODE": "illformed"}}],
        "rule": "random model texts (expressions, comparisons, declarations, classes with inheritance and constructors, rules with relations, guards and loops, problems) and 55 ill-formed texts; distinct = distinct texts",
        "technique": "runtime monitoring: the engine's types, objects, tokens, domains and constraints after loading a generated text compared with what an independent evaluator of the generated syntax tree denotes; ill-formed texts must be rejected with an error",
        "note": "Exploration: texts of up to about 40 lines over every statement form; trusts the independent evaluator; unbounded contradictory expressions are not generated.",
        "floor": {"ill_formed": 40, "subgoals": 500, "objects": 500, "variables": 1000, "object_variables": 300},
    },
    "C10": {
        "parts": [{"harness": "rules", "variant": "opt", "quick": 60000, "thorough": 2000000}],
        "rule": "random rules with nested guards, loops, local variables, subgoals and constraints, under random histories of specifying, resetting, activating and cancelling; distinct = distinct structures of tokens, variables and constraints judged",
        "technique": "runtime monitoring: after every edit of a history, the tokens, local variables and constraints of each rule compared with what an independent evaluator of the rule's text gives for the current specified values; structural snapshots compared when values return",
        "note": "Exploration: generated rules up to three guards deep; a guard counts as decided when its variables are specified, as the engine defines it.",
        "floor": {"active_states": 1000, "inactive_states": 1000, "elements": 1000, "nested_rules": 300, "revisited": 300},
    },
    "C11": {
        "parts": [{"harness": "res", "variant": "opt", "quick": 25000, "thorough": 2000000}],
        "rule": "random histories of creating, activating, moving, ordering, retracting and deleting tokens that use two resources, over all profile and detector types, violations tolerated or not; distinct = distinct level profiles",
        "technique": "runtime monitoring: after each propagation of a history, reported levels, violations and flaws compared with every schedule the plan allows (enumerated), with the limits, and with the same plan built from nothing",
        "note": "Exploration: up to 5 tokens over 8 instants; flow profiles are judged on plans propagated once, as they do not follow edits (known finding C11-1).",
        "floor": {"profiles": 5000, "levels": 30000, "tight_levels": 10000, "violated": 200, "fixed_profiles": 1000, "refused_by_resource": 100},
    },
    "C12": {
        "parts": [{"harness": "solver", "variant": "opt", "quick": 50000, "thorough": 2000000}],
        "rule": "random problems (variables under constraints; classes, timelines, predicates with subgoals, guards and temporal relations) solved under random solver configurations; distinct = distinct problems and configurations",
        "technique": "runtime monitoring: every plan the solver declares complete judged against an independent reading of the model text, every exhaustion against brute-force search of the same problem",
        "note": "Exploration: problems small enough to decide by brute force (the rest are counted and only their solutions are judged); trusts the brute-force decider.",
        "floor": {"plan_solved": 1000, "plan_exhausted": 200, "csp_exhausted": 500, "csp_solved": 1000, "facts_checked": 5000},
    },
    "C13": {
        "parts": [{"harness": "undo", "variant": "opt", "quick": 12000, "thorough": 400000}],
        "rule": "random problems and solver configurations, random sequences of step, reset, partial reset and backjump, then solving twice over; distinct = distinct problems and configurations",
        "technique": "runtime monitoring: structural snapshot of the plan and its flaws recorded at every depth of the decision stack and compared whenever undoing returns to that depth",
        "note": "Exploration: snapshots name tokens, states, variables, domains, constraints and flaws; entities are matched by name, compiler-made counters apart.",
        "floor": {"restorations": 5000, "backjumps": 1000, "partial_resets": 1000, "backtracks": 300, "redone": 1000, "exhausted": 50},
    },
    "C14": {
        "parts": [{"harness": "flaws", "variant": "opt", "quick": 30000, "thorough": 1000000}],
        "rule": "random plans, horizons, flaw filters and guarded handlers, random edits and solver steps; distinct = distinct plans and configurations",
        "technique": "runtime monitoring: after every edit the flaws the solver reports are compared with a recomputation from the plan database and the configuration, and the choices tried for a flaw with the list its handler allows, in order",
        "note": "Exploration: filters on class, predicate, variable, master, relation, token name and horizon; guards decided by specified variables.",
        "floor": {"flaw_sets": 5000, "filtered_sets": 5000, "guarded_handlers": 1000, "choices_tried": 5000, "guards_lapsed": 300},
    },
    "C17": {
        "parts": [{"harness": "fuzz", "variant": "asan", "quick": 6000, "thorough": 400000, "env": {"MODE": "nddl"}},
                  {"harness": "fuzz", "variant": "asan", "quick": 4000, "thorough": 300000, "env": {"MODE": "xml"}},
                  {"harness": "fuzz", "variant": "asan", "quick": 4000, "thorough": 300000, "env": {"MODE": "solver"}},
                  {"harness": "fuzz", "variant": "asan", "quick": 20000, "thorough": 500000, "env": {"MODE": "config"}}],
        "rule": "mutated model, problem, transaction, solver and engine configuration texts; distinct = distinct messages of rejection",
        "technique": "runtime monitoring: mutated texts of every input language fed to the engine under address and undefined-behaviour sanitizers; a text must be accepted or reported, within a time limit, and the engine must work afterwards and shut down",
        "note": "Exploration: token-level mutations of a corpus that covers every construct.",
        "floor": {"accepted": 500, "worked_afterwards": 1000},
    },
    "C18": {
        "parts": [{"harness": "mem", "variant": "asan", "quick": 4000, "thorough": 200000, "env": {"ASAN_OPTIONS": LEAKS}},
                  {"harness": "net", "variant": "asan", "quick": 2000, "thorough": 200000, "env": {"MEMONLY": "1"}},
                  {"harness": "hist", "variant": "asan", "quick": 2000, "thorough": 200000, "env": {"MEMONLY": "1"}},
                  {"harness": "hist", "variant": "asan", "quick": 1000, "thorough": 100000, "env": {"MEMONLY": "1", "MODE": "tolerant"}},
                  {"harness": "temporal", "variant": "asan", "quick": 1500, "thorough": 100000, "env": {"MEMONLY": "1"}},
                  {"harness": "timeline", "variant": "asan", "quick": 1500, "thorough": 100000, "env": {"MEMONLY": "1"}},
                  {"harness": "token", "variant": "asan", "quick": 1000, "thorough": 100000, "env": {"MEMONLY": "1"}},
                  {"harness": "rules", "variant": "asan", "quick": 1500, "thorough": 100000, "env": {"MEMONLY": "1"}},
                  {"harness": "res", "variant": "asan", "quick": 1000, "thorough": 100000, "env": {"MEMONLY": "1"}},
                  {"harness": "undo", "variant": "asan", "quick": 400, "thorough": 40000, "env": {"MEMONLY": "1"}},
                  {"harness": "solver", "variant": "asan", "quick": 2000, "thorough": 100000, "env": {"MEMONLY": "1"}},
                  {"harness": "model", "variant": "asan", "quick": 1000, "thorough": 60000, "env": {"MEMONLY": "1"}},
                  {"harness": "dom", "variant": "asan", "quick": 20000, "thorough": 1000000, "env": {"MEMONLY": "1"}},
                  {"harness": "stn", "variant": "asan", "quick": 8000, "thorough": 500000, "env": {"MEMONLY": "1"}}],
        "rule": "engines made, worked (models, ill-formed texts, edits, solvers that finish or are abandoned) and shut down; and the workloads of the other checks; distinct = distinct models and states",
        "technique": "runtime monitoring: address and undefined-behaviour sanitizers over the workloads of every part of the system; live handles, live entities and unreachable memory (leak sanitizer) counted after each engine is shut down",
        "note": "Exploration: what the sanitizers see on the paths the workloads reach; virtual-table checks are off; leaks are judged for the workload of mem.cc, which always shuts its engine down.",
        "floor": {"shutdowns": 1000, "leak_checks": 1000, "abandoned": 300, "undone": 300, "wrong_refused": 500},
    },
    "C19": {
        "parts": [{"harness": "ids", "variant": "opt", "quick": 80000, "thorough": 3000000},
                  {"harness": "ids", "variant": "asan", "quick": 10000, "thorough": 300000},
                  {"harness": "ids", "variant": "tsan", "quick": 1000, "thorough": 20000, "env": {"MODE": "threads"}}],
        "rule": "random histories of making, referring to, destroying and looking up entities and handles, and of interning strings, alone and from 2-6 threads at once; distinct = distinct histories and orders of interning",
        "technique": "runtime monitoring: keys, handles, look-ups, reference counts and interned strings compared with a model after each operation; the same from several threads under the thread sanitizer",
        "note": "Exploration: histories of up to 120 operations; the interleavings are those the scheduler gives under the race detector.",
        "floor": {"destroyed": 10000, "lookups": 100000, "interned": 10000, "compared_strings": 10000, "thread_runs": 100, "address_reused": 1000},
    },
    "C21": {
        "parts": [{"harness": "same", "variant": "opt", "quick": 16000, "thorough": 600000}],
        "rule": "random problems, solver configurations and sequences of step, reset and backjump, each in three processes; distinct = distinct problems and configurations",
        "technique": "runtime monitoring: the recorded decisions, plans, compatible tokens and ordering choices of the same problem compared between processes whose allocators hand out memory in different orders and in which other engines ran before",
        "note": "Exploration: the order of domain changes within one propagation may differ and is not compared, what it leads to is; keys, which count all entities the process ever made, are left out of the comparison.",
        "floor": {"compared": 10000, "steps": 50000, "complete": 3000, "exhausted": 300},
    },
    "C20": {
        "parts": [{"harness": "xml", "variant": "asan", "quick": 400000, "thorough": 3000000}],
        "rule": "random XML trees built through the interface or laid out as text; distinct = distinct trees and texts",
        "technique": "runtime monitoring: every written form of a random tree read back by the library and by an independent reader and compared with a model of the tree, under address and undefined-behaviour sanitizers; broken variants of valid texts must be reported",
        "note": "Exploration: trees of up to 25 nodes with hostile characters; CDATA, processing instructions and non-ASCII names are outside what the library supports; blanks in text are compared as its documented condensing leaves them.",
        "floor": {"printed": 1000, "streamed": 1000, "laid_out": 1000, "malformed": 1000},
    },
}
