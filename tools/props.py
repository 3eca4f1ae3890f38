S = "src/PLASMA/"


def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": S + c} for a, b, c in state]
    if na:
        d["na"] = na
    return d


PROPS = [
    P("C01", "Arithmetic respects the infinities and is otherwise exact",
      "Every arithmetic or comparison operation on the system's integer and real number types gives the mathematically exact result (for reals, the correctly rounded one) when that result lies within the representable range. "
      "With an infinite operand it gives the infinity (or zero) the limit implies; a finite result outside the range is signalled as overflow or underflow, never wrapped, sign-flipped or silently clipped, and converting or reading a number outside the range gives the infinity on its side. Comparisons form a total order with the infinities at its ends.",
      ["inputs"], "all operand pairs, finite, near the infinities or infinite, in every mixed form (integer, real, native types)",
      "UtilsTest evaluates a few dozen literal pairs; wrap-around, mixed native types and the neighbourhood of the infinities are unbounded input spaces",
      ["Utils/Number.hh", "Utils/CommonDefs.hh"], [("eint / edouble operators", "Utils/Number.hh")], ["operator results"]),
    P("C02", "Domains behave as the sets of values they denote",
      "A variable's domain denotes a set of values, and membership, size, bounds, equality, subset, intersection test, intersection, equating, removal of a value, relaxation and assignment agree with those set operations for intervals, enumerations, booleans, strings, symbols and objects, closed or open. "
      "An operation's reported outcome (changed or not) and the change events delivered to listeners (emptied, restricted, relaxed, closed, set to a singleton) are exactly those the change in the set warrants.",
      ["inputs", "histories"], "all pairs of domains of compatible types and all operation sequences on them",
      "DomainTest checks hand-picked pairs and short sequences; the algebra has many type and open/closed combinations",
      ["ConstraintEngine/base/Domain.cc", "ConstraintEngine/component/Domains.cc", "ConstraintEngine/component/Domains.hh", "ConstraintEngine/base/DomainListener.hh"],
      [("IntervalDomain / EnumeratedDomain set operations", "ConstraintEngine/component/Domains.cc"), ("Domain::notifyChange", "ConstraintEngine/base/Domain.cc")],
      ["Domain public interface", "DomainListener events"]),
    P("C03", "Propagation never discards a solution and judges complete assignments exactly",
      "For every constraint the library offers, propagating to quiescence never removes from a variable a value that takes part in some assignment satisfying all active constraints, so an inconsistency is reported only when no such assignment exists. "
      "When every variable is a single value, quiescence is reported consistent exactly when the assignment satisfies every active constraint's documented meaning.",
      ["inputs", "programs"], "all networks of library constraints over integer, real, boolean, enumerated and mixed domains, bounded, unbounded or infinite, and all completions to an assignment",
      "unit tests run a few networks per constraint and compare selected bounds; soundness is over all value combinations",
      ["ConstraintEngine/component/Constraints.cc", "ConstraintEngine/component/CFunctions.cc", "ConstraintEngine/component/Propagators.cc", "ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/ModuleConstraintEngine.cc"],
      [("handleExecute of each constraint", "ConstraintEngine/component/Constraints.cc"), ("propagators and agendas", "ConstraintEngine/component/Propagators.cc")],
      ["variable domains after propagate", "constraint consistency"]),
    P("C04", "The constraint network's state depends on its content, not on its history",
      "After propagation the derived domains and consistency of a constraint network depend only on its current variables, base domains, specified values and active constraints. "
      "Any history of adding, removing, deactivating and reactivating constraints, specifying and resetting or restricting values, and repeated propagation that leads to the same content gives the same quiescent result as building that content from scratch, and undoing a change restores the result it had before; what a constraint had derived when it is merely deactivated may stay until the next relaxation.",
      ["histories"], "all interleavings of edits, relaxations and propagations on networks of order-insensitive constraints, through inconsistency and back",
      "tests retract a constraint or reset a value once and look at one domain; relaxation bugs need edit sequences",
      ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/ConstrainedVariable.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/component/Propagators.cc"],
      [("relaxation cycle", "ConstraintEngine/base/ConstraintEngine.cc"), ("specify/reset/deactivate", "ConstraintEngine/base/ConstrainedVariable.cc")],
      ["derived domains", "provenInconsistent"]),
    P("C05", "Tolerated violations are reported exactly and go away when their cause does",
      "When the engine is set to tolerate violations it stays usable through an inconsistency: every constraint reported as violated is one the current values really contradict, the total violation is the sum over the violated constraints, and no variable's domain is left empty. "
      "Once the contradicting values or constraints are withdrawn the violation disappears and the network is the one a violation-free history would have given.",
      ["histories"], "all edit histories in violation-tolerant mode that enter and leave inconsistency",
      "one or two scripted examples exercise tolerated violations; their lifetime is a property of histories",
      ["ConstraintEngine/base/ConstraintEngine.cc", "ConstraintEngine/base/Constraint.cc", "ConstraintEngine/base/ConstrainedVariable.cc"],
      [("ViolationMgrImpl", "ConstraintEngine/base/ConstraintEngine.cc")], ["violation, violated constraints, domains"]),
    P("C06", "The temporal network is the exact closure of its distance constraints",
      "The simple temporal network reports a contradiction exactly when the distance constraints currently in it cannot all be met. "
      "Otherwise every timepoint's bounds and every queried distance between two timepoints are the tightest that these constraints imply, whatever the order in which timepoints and constraints were added, narrowed and removed and whether propagation was eager or deferred.",
      ["histories", "inputs"], "all edit histories of temporal networks, with unbounded and bounded distances, between and across propagations",
      "TemporalNetworkTest scripts a handful of networks; incremental propagation and deletion order is a history space",
      ["TemporalNetwork/base/TemporalNetwork.cc", "TemporalNetwork/base/DistanceGraph.cc"],
      [("incremental propagation", "TemporalNetwork/base/TemporalNetwork.cc"), ("Bellman-Ford / Dijkstra with potentials", "TemporalNetwork/base/DistanceGraph.cc")],
      ["timepoint bounds, calcDistanceBounds, consistency"]),
    P("C07", "Temporal variables in a plan carry the exact temporal closure",
      "After propagation the start and end variables of all tokens, and every other variable linked by temporal constraints, carry exactly the bounds implied by the temporal constraints, durations and specified values together, and the plan is reported inconsistent exactly when those contradict each other. "
      "A duration variable never loses a possible value and is at least as tight as the bounds of start and end imply. "
      "Temporal queries (can a token precede or fit between others, possible and minimal distances between tokens) answer as that closure does.",
      ["histories"], "all edit histories of tokens, temporal relations, specified times, activation, merging and retraction",
      "tests assert a few token bounds after scripted edits; synchronisation between the variables and the network is a matter of histories",
      ["TemporalNetwork/component/TemporalPropagator.cc", "TemporalNetwork/component/STNTemporalAdvisor.cc", "PlanDatabase/component/IntervalToken.cc", "PlanDatabase/base/Token.cc"],
      [("synchronisation of variables and timepoints", "TemporalNetwork/component/TemporalPropagator.cc"), ("temporal queries", "TemporalNetwork/component/STNTemporalAdvisor.cc")],
      ["token time variables", "TemporalAdvisor answers"]),
    P("C08", "Token life cycle is a strict state machine and every transition can be undone",
      "A token is always in exactly one of its five states; activating, merging, rejecting, cancelling and committing are possible only where the life cycle allows, and the state variable, the master and slave links, the lists of active, merged and mergeable tokens and the registration with the plan always agree with it. "
      "Merging makes the remaining token's variables carry the conjunction of both tokens' restrictions, and cancelling a decision returns all tokens, variables and constraints to what they were before it, whatever came in between and was also cancelled.",
      ["histories"], "all sequences of token creation, activation, merge, rejection, cancellation, variable edits and deletion",
      "PlanDatabaseTest merges and splits scripted pairs; nested merges and interleaved edits are histories",
      ["PlanDatabase/base/Token.cc", "PlanDatabase/base/MergeMemento.cc", "PlanDatabase/base/UnifyMemento.cc", "PlanDatabase/base/PlanDatabase.cc"],
      [("state transitions", "PlanDatabase/base/Token.cc"), ("merge mementos", "PlanDatabase/base/MergeMemento.cc")],
      ["token states, links, variable domains, active/merged sets, compatible tokens"]),
    P("C09", "Tokens on a timeline never overlap and ordering choices are exact",
      "In a consistent plan the tokens placed on a timeline can be executed one after another in the order the timeline reports, and that order always contains each of them exactly once and follows the explicit orderings made, also after orderings are freed and tokens are cancelled. "
      "The ordering choices offered for a token are exactly the positions compatible with the temporal constraints, and a token is reported as needing ordering on a timeline exactly while it is active, the timeline is among its possible objects and it is not placed there.",
      ["histories"], "all histories of placing, freeing, activating, merging and retracting tokens on timelines under arbitrary temporal constraints",
      "tests place a few tokens in a scripted order",
      ["PlanDatabase/component/Timeline.cc", "PlanDatabase/base/Object.cc", "PlanDatabase/base/PlanDatabase.cc", "PlanDatabase/base/ObjectTokenRelation.cc"],
      [("sequence, choices and insertion", "PlanDatabase/component/Timeline.cc"), ("constrain/free", "PlanDatabase/base/Object.cc")],
      ["token sequence, ordering choices, tokens to order, bounds"]),
    P("C10", "Rules fire exactly when their guards hold and are fully withdrawn otherwise",
      "For every active token, the subgoals, local variables and constraints of its rules are present exactly when each enclosing guard is decided and holds for the current variable values, once each. "
      "When a guard stops being decided or the token stops being active, everything the rule added is withdrawn, and firing it again gives an isomorphic result.",
      ["histories", "programs"], "all rule models with nested guards, loops and local variables, and all histories of deciding and undoing their guard variables and tokens",
      "tests fire single rules once; retraction and nesting depend on histories",
      ["RulesEngine/base/RulesEngine.cc", "RulesEngine/base/RuleInstance.cc", "RulesEngine/base/RuleVariableListener.cc", "RulesEngine/base/RulesEngine.hh", "NDDL/base/NddlRules.hh", "NDDL/component/Interpreter.cc"],
      [("guard evaluation, execute and undo", "RulesEngine/base/RuleInstance.cc")], ["slaves, rule variables, constraints of tokens"]),
    P("C11", "Resource profiles enclose every reachable level and flag every certain violation",
      "At every instant the level bounds a resource reports enclose the level of every schedule consistent with the plan's temporal constraints, and once all times and quantities are fixed they equal the one actual level. "
      "A resource never reports a violation while some consistent schedule keeps every limit, always does once all times and quantities are fixed and a capacity or rate limit is broken, and the profile depends on the current transactions alone, not on the order they were added, changed and removed.",
      ["histories", "inputs"], "all sets of reusable and reservoir transactions with flexible times and quantities, all edit histories, every profile and violation detector",
      "ResourceTest checks scripted profiles instant by instant for a few edits",
      ["Resource/base/Profile.cc", "Resource/base/Resource.cc", "Resource/base/FVDetector.cc", "Resource/component/FlowProfile.cc", "Resource/component/GroundedProfile.cc", "Resource/component/TimetableProfile.cc", "Resource/component/ClosedWorldFVDetector.cc", "Resource/component/OpenWorldFVDetector.cc", "Resource/component/Reusable.cc"],
      [("profile computation", "Resource/base/Profile.cc"), ("flow bounds", "Resource/component/FlowProfile.cc"), ("violation detection", "Resource/base/FVDetector.cc")],
      ["profile levels per instant, flaws and violations"]),
    P("C12", "A plan declared complete is valid and exhaustion means there is none",
      "When the solver reports success, propagation is consistent, no flaw remains, and an executable schedule exists: every active token meets its model's rules, temporal and parameter constraints and capacity limits, and every goal is met. "
      "When it reports that the search space is exhausted, no such plan exists within the horizon.",
      ["inputs", "programs"], "all problems small enough for brute-force enumeration, under all solver configurations with complete choice lists",
      "the system tests check that sample problems end, not that what they end with is a plan, nor that failure is justified",
      ["Solvers/base/Solver.cc", "Solvers/base/FlawManager.cc", "Solvers/component/OpenConditionDecisionPoint.cc", "Solvers/component/ThreatDecisionPoint.cc", "Solvers/component/UnboundVariableDecisionPoint.cc"],
      [("search", "Solvers/base/Solver.cc"), ("decision points", "Solvers/component/OpenConditionDecisionPoint.cc")], ["solver verdict", "plan database content"]),
    P("C13", "Undoing solver decisions restores the plan exactly",
      "Resetting the solver, undoing its last decisions or backtracking out of a decision returns the plan database to what it was before those decisions: the same tokens, states, variable values, constraints and remaining flaws. "
      "Decisions retracted and redone lead to the same plan again.",
      ["histories"], "all solver runs interrupted at any step, then reset, partly undone or resumed, and all user edits between runs",
      "tests reset after a completed search and compare a few counts",
      ["Solvers/base/Solver.cc", "Solvers/base/SolverDecisionPoint.cc", "Solvers/component/OpenConditionDecisionPoint.cc", "Solvers/component/UnboundVariableDecisionPoint.cc", "Solvers/component/ThreatDecisionPoint.cc"],
      [("reset / backjump", "Solvers/base/Solver.cc"), ("decision undo", "Solvers/base/SolverDecisionPoint.cc")], ["plan database snapshot"]),
    P("C14", "The solver sees exactly the flaws its configuration selects",
      "At every step the flaws each flaw manager offers are exactly the inactive tokens, unbound variables, unordered tokens and resource conflicts present in the plan that pass the configured filters and the horizon, with none missed, stale or repeated, whatever sequence of edits led there. "
      "The choices offered for a flaw are exactly the ones its handler's configuration allows, in the configured order.",
      ["histories", "configurations"], "all edit histories and all flaw filter, handler and horizon configurations",
      "filter tests count flaws once per configuration file after loading",
      ["Solvers/base/FlawManager.cc", "Solvers/base/MatchingEngine.cc", "Solvers/component/OpenConditionManager.cc", "Solvers/component/ThreatManager.cc", "Solvers/component/UnboundVariableManager.cc", "Solvers/component/Filters.cc"],
      [("flaw sets kept by listeners", "Solvers/base/FlawManager.cc"), ("filter matching", "Solvers/base/MatchingEngine.cc")], ["flaw iterators, matching handlers, choices"]),
    P("C15", "Replaying a recorded transaction log rebuilds the same plan",
      "Everything a client does through the client interface is recorded so that replaying the log, from memory or from its XML text, against a fresh engine with the same model produces an isomorphic plan database: the same objects, tokens, states, variable domains and constraints. "
      "Undoing the recorded transactions in reverse returns to the starting state.",
      ["histories"], "all sequences of client operations",
      "replay tests log one hand-written sequence per operation",
      ["PlanDatabase/component/DbClientTransactionLog.cc", "PlanDatabase/component/DbClientTransactionPlayer.cc", "PlanDatabase/base/DbClient.cc"],
      [("logging", "PlanDatabase/component/DbClientTransactionLog.cc"), ("replay", "PlanDatabase/component/DbClientTransactionPlayer.cc")], ["both plan databases"],
      na="a replay monitor decides it (built, see DESIGN.md), but logging and replay break the property in many ways on the current tree and the repairs are not finished, so no sound quiet check can be registered yet"),
    P("C16", "Model text means what the language says",
      "A model or problem written in the modelling language produces exactly the types, objects, tokens, variable domains and constraints its text denotes: literals, ranges, enumerations, arithmetic, boolean and comparison expressions, inheritance, constructors, predicates, temporal relations, guards and loops. "
      "Ill-formed text is rejected with an error that names it and never silently accepted with another meaning.",
      ["programs"], "all well-formed programs of the supported language and erroneous variations of them",
      "NDDL tests parse fixed files and look for absence of errors",
      ["NDDL/component/Interpreter.cc", "NDDL/component/NddlInterpreter.cc", "NDDL/base/antlr/NDDL3.g", "NDDL/base/antlr/NDDL3Tree.g"],
      [("expression evaluation", "NDDL/component/Interpreter.cc"), ("tree walker", "NDDL/base/antlr/NDDL3Tree.g")], ["plan database and schema after loading"]),
    P("C17", "No input text can crash or hang the engine",
      "Any text given as model, problem, transaction log, plan-service command or solver configuration is either accepted or rejected with a reported error in bounded time. "
      "It never crashes, aborts, corrupts memory or loops, and the engine that rejected it keeps working.",
      ["inputs"], "all byte strings in every input language",
      "the parser tests feed a few dozen curated files",
      ["NDDL/component/NddlInterpreter.cc", "ANML/component/AnmlInterpreter.cc", "TinyXml/tinyxmlparser.cpp", "PlanDatabase/component/DbClientTransactionPlayer.cc"],
      [("error listeners and exceptions", "NDDL/component/NddlInterpreter.cc")], ["process exit, sanitizer reports, reported errors"]),
    P("C18", "No workload touches invalid memory or leaves objects behind",
      "No sequence of operations makes the engine read or write memory it does not own, use freed objects, overflow signed integers, or free twice. "
      "Shutting an engine down releases everything it created, also after errors, retractions and abandoned searches.",
      ["histories", "inputs", "programs"], "all workloads of the other properties",
      "the tests are run without sanitizers and exit without checking what is left",
      ["ConstraintEngine/base/ConstraintEngine.cc", "PlanDatabase/base/PlanDatabase.cc", "RulesEngine/base/RuleInstance.cc", "Solvers/base/Solver.cc", "Resource/base/Resource.cc", "TemporalNetwork/base/TemporalNetwork.cc"],
      [("explicit discard order", "Utils/base/Entity.cc"), ("ids and reference counts", "Utils/base/Id.hh")], ["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer reports"]),
    P("C19", "Entity keys, handles and interned strings stay unique and consistent",
      "Every live entity has a unique key that finds it and nothing else until it is discarded and never afterwards; a discarded entity's handles are recognisably invalid, and an entity is destroyed exactly once, when its last reference goes. "
      "Equal strings have equal interned keys and different strings different ones, in every thread, and comparisons of interned strings order as their text does.",
      ["histories", "schedules"], "all creation, reference, discard and purge histories, and concurrent use of the interning and counting facilities",
      "tests create a few entities in sequence; concurrent interning is never exercised",
      ["Utils/base/Entity.cc", "Utils/base/Id.hh", "Utils/base/IdTable.cc", "Utils/base/LabelStr.cc", "Utils/base/LabelStr.hh"],
      [("entity registry", "Utils/base/Entity.cc"), ("string table", "Utils/base/LabelStr.cc")], ["keys, handles, string keys"]),
    P("C20", "XML written by the system reads back as the same document",
      "Any document built through the XML interface and written out, and any well-formed document read and written again, parses back to an equal tree: the same elements, attributes, text and order, with every character preserved. "
      "Malformed text is reported as an error.",
      ["inputs"], "all element trees, attribute values and text, and mutations of their serialisation",
      "the TinyXml test exercises one embedded document",
      ["TinyXml/tinyxml.cpp", "TinyXml/tinyxmlparser.cpp"], [("parser and printer", "TinyXml/tinyxmlparser.cpp")], ["document trees"]),
    P("C21", "The same problem gives the same plan in every run",
      "Given the same model, problem, configuration and sequence of operations, the engine takes the same steps and produces the same plan, decision by decision, in every process, whatever the memory layout and whatever other engines ran before in the process.",
      ["schedules", "programs"], "all problems and solver configurations without deliberate randomness, under different heap layouts, address randomisation and prior history of the process",
      "no test runs a problem twice and compares",
      ["ConstraintEngine/base/ConstraintEngine.cc", "Solvers/base/Solver.cc", "Solvers/base/FlawManager.cc", "Utils/base/Entity.hh"],
      [("key-ordered containers", "Utils/base/Entity.hh")], ["decision trace and final plan"]),
]
