import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CE="src/PLASMA/ConstraintEngine/"; TN="src/PLASMA/TemporalNetwork/"; PD="src/PLASMA/PlanDatabase/"; RE="src/PLASMA/RulesEngine/"; RS="src/PLASMA/Resource/"; SO="src/PLASMA/Solvers/"; ND="src/PLASMA/NDDL/"; UT="src/PLASMA/Utils/"
p("C01","Domain operations are exact set algebra",
 "Every variable domain (enumerated, integer interval, real interval, boolean, string, symbol; open or closed) behaves as the set of values it denotes: intersection, difference, equating, insertion, removal, assignment, relaxation, membership, subset, intersects, equality, size, bounds and value enumeration all agree with that set, and the reported 'changed' result is true exactly when the set changed. A listener on a domain is told of a change exactly when the set changed, with an 'emptied' notice exactly when it became empty. Restriction never adds a value and relaxation never removes one.",
 ["inputs","histories"],"all pairs of domains over a small universe and all sequences of domain operations up to a depth",
 "The unit tests sample a few dozen pairs; overlap shapes, infinite bounds, open/closed mixes and operation orders are a product space.",
 [CE+"component/Domains.cc",CE+"component/Domains.hh",CE+"base/Domain.cc"],
 [("EnumeratedDomain and IntervalDomain operations",CE+"component/Domains.cc"),("change notification",CE+"base/Domain.cc notifyChange")],
 ["Domain::intersect/equate/difference/isMember/isSubsetOf/...","DomainListener::notifyChange"])
p("C02","Propagation never discards a solution",
 "Propagating any set of library constraints never removes from a variable a value that belongs to some assignment satisfying every constraint, and never reports inconsistency while such an assignment exists. This holds for every constraint type a model can name, for every combination of starting domains.",
 ["inputs","programs"],"every library constraint, every combination of small domains (enumerated sets, intervals, booleans), and small networks of two constraints sharing variables",
 "Tests check chosen examples of each constraint; a pruning rule that is wrong for one sign, gap or overlap goes unseen and silently loses plans.",
 [CE+"component/Constraints.cc",CE+"component/Constraints.hh",CE+"component/Propagators.cc"],
 [("handleExecute of each constraint",CE+"component/Constraints.cc"),("agenda of the default propagator",CE+"component/Propagators.cc")],
 ["ConstraintEngine::propagate","ConstrainedVariable::derivedDomain"])
p("C03","A fully bound constraint is consistent exactly when its relation holds",
 "When every variable of a constraint is bound to a single value, propagation reports consistency if and only if the constraint's documented relation holds for those values. No binding that violates a stated constraint is ever accepted as part of a plan.",
 ["inputs"],"every library constraint and every tuple of values over a small universe, in every order of binding the variables",
 "Tests cover a handful of tuples per constraint, and mostly accept rather than reject.",
 [CE+"component/Constraints.cc",CE+"ModuleConstraintEngine.cc"],
 [("handleExecute of each constraint",CE+"component/Constraints.cc"),("constraint library registration",CE+"ModuleConstraintEngine.cc")],
 ["ConstraintEngine::propagate","ConstraintEngine::provenInconsistent"])
p("C04","The network's state does not depend on the path taken to it",
 "After any sequence of posting and retracting constraints, specifying and resetting variables, deactivating and reactivating constraints and propagating, the derived domains and the consistency verdict equal those of a fresh engine given only the operations still in force. In particular undoing a change restores exactly the earlier derived domains, whether or not the network was inconsistent in between. Deactivating a constraint is not itself a relaxation (what it had pruned stays until it is reactivated or its variables are relaxed); constraints that only reason at fixed moments (neq on an interval's interior) are outside the equality of domains.",
 ["histories"],"all operation sequences up to a bounded depth over small mixed networks, with propagation after any subset of operations",
 "Unit tests follow a few scripted post/retract sequences; which relaxation happens, and whether redundant constraints are woken, depends on the interleaving of operations.",
 [CE+"base/ConstraintEngine.cc",CE+"base/ConstrainedVariable.cc",CE+"base/Constraint.cc",CE+"component/Propagators.cc"],
 [("relaxation of affected variables",CE+"base/ConstraintEngine.cc handleRelax"),("redundant constraint deactivation",CE+"base/ConstraintEngine.cc processRedundantConstraints"),("reset/specify",CE+"base/ConstrainedVariable.cc")],
 ["ConstrainedVariable::derivedDomain","ConstraintEngine::propagate","ConstraintEngine::constraintConsistent"])
p("C05","Violations are reported while inconsistent and vanish when repaired",
 "When the engine is configured to tolerate violations, propagation reports at least one violated constraint whenever the network cannot be satisfied by propagation, reports none when it is consistent, and the violated set empties again once the offending change is retracted. Parts of the network not connected to a violated constraint keep correct derived domains, and after every repair all of it does.",
 ["histories"],"all sequences of specify, reset, post and retract over small networks with violations allowed",
 "The tests visit one or two violation/repair cycles; the bookkeeping of emptied variables and relaxed constraints depends on order.",
 [CE+"base/ConstraintEngine.cc",CE+"base/ConstraintEngine.hh"],
 [("violation manager",CE+"base/ConstraintEngine.cc ViolationMgrImpl")],
 ["ConstraintEngine::getViolation","ConstraintEngine::getAllViolations","ConstrainedVariable::lastDomain"])
p("C06","Temporal bounds are the exact shortest-path bounds after any history",
 "After any sequence of adding, tightening and removing timepoints and distance constraints, incremental propagation reports consistency exactly when the remaining constraints are satisfiable, and every timepoint's bounds are exactly the earliest and latest times those constraints allow. Exact distance queries between timepoints return the tightest implied bounds.",
 ["histories"],"all histories of timepoint and constraint operations up to a bounded depth over a few timepoints and bounds drawn from a small set including infinities",
 "The tests run fixed scenarios; incremental Bellman-Ford/Dijkstra bookkeeping (potentials, dirty sets, reused nodes) fails only on particular add/remove orders.",
 [TN+"base/TemporalNetwork.cc",TN+"base/DistanceGraph.cc"],
 [("incremental propagation",TN+"base/TemporalNetwork.cc incPropagate"),("dijkstra and potentials",TN+"base/DistanceGraph.cc")],
 ["TemporalNetwork::propagate","TemporalNetwork::getTimepointBounds","TemporalNetwork::calcDistanceBounds"])
p("C07","An inconsistency explanation is a real conflict",
 "Whenever the temporal network is inconsistent, the explanation it offers is a non-empty closed cycle of constraints that are currently in force and whose total length is negative. Retracting any constraint on the sole conflicting cycle makes the network consistent again.",
 ["histories"],"all inconsistent networks reached by histories of adds and removes up to a bounded depth",
 "Only one or two explanations are inspected by tests, none after retractions.",
 [TN+"base/DistanceGraph.cc",TN+"base/TemporalNetwork.cc"],
 [("nogood extraction",TN+"base/DistanceGraph.cc getNogood / updateNogoodList")],
 ["TemporalNetwork::getInconsistencyReason","DistanceGraph::getEdgeNogoodList"])
p("C08","Time variables follow the temporal network and queries never deny the possible",
 "With temporal propagation in place, after any history of posting, retracting and binding, the domain of every start and end time equals the exact bounds implied by all temporal constraints and current restrictions, or inconsistency is reported exactly when there are none. Distance queries between two times return exactly the tightest implied distance, and queries whether one token can precede another, fit between two others, or be concurrent never deny what the constraints allow.",
 ["histories"],"all histories of precedence, distance and concurrency constraints, token deletions and time bindings up to a bounded depth over a few tokens",
 "Tests check single scenarios; the propagator buffers changes between two representations and can lose one in a particular order.",
 [TN+"component/TemporalPropagator.cc",TN+"component/STNTemporalAdvisor.cc",PD+"base/DefaultTemporalAdvisor.cc"],
 [("synchronisation of the two networks",TN+"component/TemporalPropagator.cc updateTnet/updateCnet"),("ordering queries",TN+"component/STNTemporalAdvisor.cc")],
 ["ConstrainedVariable::lastDomain of token times","TemporalAdvisor::canPrecede/canFitBetween/canBeConcurrent/getTemporalDistanceDomain"])
p("C09","Token state changes are exact and fully undone by cancelling",
 "A token is always in exactly one of inactive, active, merged or rejected, moves only along the permitted transitions, and merging imposes on the supporting token exactly the restrictions of the merged one (its specified values, base domains and constraints). Cancelling, in any order, restores the plan to what it was: domains, constraints and token sets equal those of a plan in which the cancelled step never happened.",
 ["histories"],"all interleavings of activate, merge, reject, cancel, bind, reset, post, retract and delete over a few tokens up to a bounded depth",
 "The tests undo a few scripted merges, mostly in reverse order; non-chronological orders are a large space.",
 [PD+"base/Token.cc",PD+"base/MergeMemento.cc",PD+"base/UnifyMemento.cc",PD+"base/StackMemento.cc"],
 [("state transitions",PD+"base/Token.cc"),("merge bookkeeping",PD+"base/MergeMemento.cc")],
 ["Token::isActive/isMerged/isRejected/isInactive","ConstrainedVariable::derivedDomain"])
p("C10","A timeline's sequence is a strict order and ordering choices are complete",
 "The tokens sequenced on a timeline always form one total order with no duplicates, every consecutive pair is constrained so that the first ends no later than the second starts, and removing or freeing a token leaves the others ordered. The ordering choices offered for a token are exactly the positions in which it can be placed consistently, and tokens listed as needing order are exactly the active tokens bound to the timeline that are not sequenced.",
 ["histories"],"all histories of constrain, free, cancel and delete over a few tokens with small flexible times up to a bounded depth",
 "Tests exercise a few insertion scripts; relinking after removal in the middle, and choice pruning with flexible times, depend on the sequence.",
 [PD+"component/Timeline.cc",PD+"base/Object.cc"],
 [("sequence maintenance",PD+"component/Timeline.cc constrain/free/remove"),("choice generation",PD+"component/Timeline.cc getOrderingChoices")],
 ["Timeline::getTokenSequence","Timeline::getOrderingChoices","Timeline::getTokensToOrder"])
p("C11","Compatible-token and object-assignment queries are exact",
 "A query for tokens compatible with an inactive token returns exactly the active tokens of the same or a derived kind whose variables each share a value with its own (with the exact test: only those whose times can also coincide), or as many as the limit asks for; never itself. The tokens an object reports are exactly those active tokens whose object domain can still be, or is, that object. Queries for the objects of a type, or able to have a predicate, and the variables that range over a type, always reflect exactly the objects that exist (until the type is closed), whatever was asked or declared before.",
 ["histories","inputs"],"all small sets of tokens with small parameter domains and all histories of activation, merging and restriction up to a bounded depth",
 "The tests check a few fixed token pairs.",
 [PD+"base/PlanDatabase.cc",PD+"base/ObjectTokenRelation.cc",PD+"base/Object.cc"],
 [("getCompatibleTokens/hasCompatibleTokens",PD+"base/PlanDatabase.cc"),("object-token relation",PD+"base/ObjectTokenRelation.cc")],
 ["PlanDatabase::getCompatibleTokens","PlanDatabase::countCompatibleTokens","Object::tokens"])
p("C12","Rules fire exactly while their conditions hold",
 "For every active token, the consequences of each matching model rule (sub-goals, local variables, constraints and nested rules) are present exactly while the token is active and the rule's guard holds, each exactly once. When a guard stops holding or the token is no longer active, all consequences are withdrawn, and they reappear, equal to a first firing, when it holds again.",
 ["histories"],"all sequences of activation, guard variable binding, reset and cancellation up to a bounded depth over rules with nested and multi-variable guards",
 "Tests fire and undo each rule once or twice in a fixed order.",
 [RE+"base/RuleInstance.cc",RE+"base/RulesEngine.cc",RE+"base/RuleVariableListener.cc"],
 [("guard evaluation and undo",RE+"base/RuleInstance.cc"),("instance creation on activation",RE+"base/RulesEngine.cc")],
 ["Token::slaves","RulesEngine::getRuleInstances","ConstraintEngine::getConstraints"])
p("C13","The solver is sound and complete on finite problems",
 "When the solver reports success, every decision in its scope is made and the plan satisfies every constraint; when it reports exhaustion, no consistent way of making those decisions exists. For a finite problem with unlimited steps it always ends in one of these two outcomes.",
 ["programs","inputs"],"all small constraint-satisfaction and planning problems of a bounded shape, under several decision handlers and orderings",
 "Tests solve a few problems and mostly count steps; backtracking errors that skip a branch only show on problems whose solution lies there.",
 [SO+"base/Solver.cc",SO+"base/SolverDecisionPoint.cc",SO+"component/UnboundVariableDecisionPoint.cc",SO+"component/OpenConditionDecisionPoint.cc",SO+"component/ThreatDecisionPoint.cc"],
 [("search loop and backtracking",SO+"base/Solver.cc doStep/backtrack"),("choice enumeration",SO+"component/*DecisionPoint.cc")],
 ["Solver::solve","Solver::isExhausted","Solver::noMoreFlaws"])
p("C14","Resetting or backjumping the solver restores the plan exactly",
 "After any number of search steps, resetting the solver to a depth (or completely) or backjumping leaves the plan database as it was when that depth was reached: the same tokens, states, variable domains and constraints, and a subsequent solve behaves like one from that state. Step and depth limits stop the search at exactly the stated limit, flagged as timed out, and searching can then resume to the same answer.",
 ["histories","programs"],"all sequences of step, bounded solve, reset-to-depth, backjump and clear up to a bounded length over several small problems",
 "Tests reset a few times at the end of a search; intermediate depths and interleavings are not covered.",
 [SO+"base/Solver.cc",SO+"base/SolverDecisionPoint.cc"],
 [("undo of decisions",SO+"base/SolverDecisionPoint.cc"),("reset/backjump/limits",SO+"base/Solver.cc")],
 ["Solver::reset","Solver::backjump","Solver::isTimedOut","PlanDatabase contents"])
p("C15","Resource level bounds enclose every possible schedule",
 "At every instant, the level bounds a resource profile reports contain the level produced by every assignment of times and quantities that the transactions' domains and orderings allow, and the flow-based profiles report exactly the extremes that are attainable when the quantities of the transactions vary independently. The bounds depend only on the current transactions and times, not on the order in which they arrived, changed or were removed.",
 ["histories","inputs"],"all small sets of transactions with small time and quantity domains and precedences, and all histories of adding, removing, restricting and relaxing them up to a bounded depth",
 "Tests check a few profiles at chosen instants; incremental recomputation over partial intervals is history-dependent.",
 [RS+"base/Profile.cc",RS+"component/TimetableProfile.cc",RS+"component/FlowProfile.cc",RS+"component/IncrementalFlowProfile.cc",RS+"component/BoostFlowProfileGraph.cc"],
 [("instants and recomputation interval",RS+"base/Profile.cc"),("level computation",RS+"component/TimetableProfile.cc, FlowProfile.cc")],
 ["Profile::getLevel"])
p("C16","Resource violations are flagged exactly when capacity must be exceeded",
 "When all transactions on a resource are fixed in time and quantity, the plan is reported inconsistent exactly when some level, rate or total limit is exceeded; with flexible times, a violation is reported only if every schedule exceeds a limit, and when no flaw is reported every schedule respects the limits. Retracting the cause clears the violation. (Closed-world detection, the default; limits constant over time.)",
 ["inputs","histories"],"all small sets of usages with small times, quantities, capacities and limits for reusable, reservoir and unary resources, with all add/retract orders",
 "Tests fix a few limit cases; boundary instants and simultaneous transactions are a product space.",
 [RS+"base/Resource.cc",RS+"component/GenericFVDetector.cc",RS+"component/OpenWorldFVDetector.cc",RS+"component/ClosedWorldFVDetector.cc",RS+"component/GroundedFVDetector.cc",RS+"component/Reusable.cc",RS+"component/Reservoir.cc"],
 [("flaw and violation detection",RS+"component/*FVDetector.cc")],
 ["ConstraintEngine::propagate","Resource::getFlawedInstants"])
p("C17","Replaying a transaction log reproduces the plan",
 "For every sequence of client operations on the plan database, playing its recorded log into a fresh database with the same model yields the same plan: the same tokens with the same states and relations, the same variable domains, and the same constraints. The outcome does not depend on how the log is written out and read back.",
 ["histories"],"all sequences of client operations up to a bounded depth, each logged, written as XML, parsed and replayed",
 "The player tests replay hand-written scripts one operation at a time.",
 [PD+"component/DbClientTransactionLog.cc",PD+"component/DbClientTransactionPlayer.cc",PD+"base/DbClient.cc"],
 [("logging",PD+"component/DbClientTransactionLog.cc"),("playback",PD+"component/DbClientTransactionPlayer.cc")],
 ["DbClientTransactionLog::flush","DbClientTransactionPlayer::play","PlanDatabase contents"])
p("C18","Type, member and predicate queries follow the declared hierarchy",
 "For every declared hierarchy of object types, predicates, members and enumerations, subtype tests, parent lists, visible members and parameters, and the owning type of a predicate answer exactly as the transitive closure of the declarations says. Constructors accept arguments of derived object types, and the object variable of a token ranges over exactly the objects of the predicate's type and its subtypes. Answers do not depend on declaration order of siblings or on earlier queries.",
 ["programs","histories"],"all declared hierarchies up to a bounded number of types and predicates, with queries interleaved with declarations",
 "Tests build one or two hierarchies; caches filled by an early query only matter when a declaration follows.",
 [PD+"base/Schema.cc",PD+"base/ObjectType.cc",PD+"base/TokenType.cc"],
 [("hierarchy queries and caches",PD+"base/Schema.cc")],
 ["Schema::isA","Schema::getAllObjectTypes","Schema::hasMember/canContain","Schema::hasPredicates"])
p("C19","Bounded arithmetic is consistent including infinities",
 "Arithmetic and comparison on the engine's integer and real numbers agree with ordinary arithmetic on finite values and saturate at the infinities: an infinite operand never yields a finite sum, product or power, a finite result too large to represent raises an error and is never wrapped or given the wrong sign (as does dividing a non-zero value by zero), and ordering stays total and consistent with equality. Undefined forms are outside this (inf-inf and 0*inf are 0 by definition; inf/inf, 0/0 and modulo by zero are unspecified). Conversions between the two kinds preserve value and infinity, truncating fractions.",
 ["inputs"],"all operand pairs and triples from a set of boundary values (zero, small, near-limit, infinite) for every operator",
 "Tests sample; the interesting cases are the cross product of boundary values.",
 [UT+"Number.hh"],[("eint and edouble operators",UT+"Number.hh")],["eint/edouble operators"])
p("C20","Shared infrastructure keeps its bookkeeping exact",
 "Interned strings are equal exactly when their texts are, whatever the order of creation; the entity registry and reference counts track exactly the live entities, so that a handle to a discarded object is detected and never mistaken for a later one; and keyed priority queues always deliver the minimum of their present content after any insert, update and removal.",
 ["histories"],"all operation sequences up to a bounded depth on each structure against a reference",
 "Tests perform a few scripted operations.",
 [UT+"base/LabelStr.cc",UT+"base/Id.hh",UT+"base/IdTable.cc",UT+"base/Entity.cc",UT+"base/HashPriorityQueue.hh"],
 [("string interning",UT+"base/LabelStr.cc"),("id table",UT+"base/IdTable.cc"),("entity table",UT+"base/Entity.cc"),("bucket queue",UT+"base/HashPriorityQueue.hh")],
 ["LabelStr","Id","Entity::getEntity","HashPriorityQueue"])
p("C21","The solver's flaw selection honours configuration exactly",
 "The set of open flaws the solver presents is exactly the unbound variables, inactive tokens and unordered tokens in the plan that no configured filter excludes, kept exact through every change of the plan, and the flaw chosen is one of best configured priority. A flaw is handled by the most specific matching handler.",
 ["histories","configurations"],"all combinations of a set of filters and handlers, over all histories of plan changes up to a bounded depth",
 "Tests check a few configurations in a static plan; incremental flaw caches go stale only on particular changes.",
 [SO+"base/FlawManager.cc",SO+"base/FlawHandler.cc",SO+"base/MatchingEngine.cc",SO+"component/UnboundVariableManager.cc",SO+"component/OpenConditionManager.cc",SO+"component/ThreatManager.cc",SO+"component/Filters.cc"],
 [("flaw caches",SO+"component/*Manager.cc"),("handler matching",SO+"base/FlawHandler.cc, MatchingEngine.cc")],
 ["Solver::createIterator","Solver::getFlawHandler","Solver::getOpenDecisions"])
p("C22","The modelling language means what it says",
 "Loading a well-formed model and problem posts exactly the variables, domains, tokens, relations and constraints its text states: expressions evaluate with ordinary precedence and meaning, temporal relations hold in the direction written, and conditionals and loops in rules unfold for exactly the stated cases. A malformed input is reported as an error and never crashes the engine or leaves a half-open one.",
 ["programs","inputs"],"all small programs generated from a grammar fragment (expressions, temporal relations, guards, loops, domains) and all single-token corruptions of small well-formed programs",
 "The language tests load fixed files; operators and relations are tested a few times each and in isolation.",
 [ND+"component/NddlInterpreter.cc",ND+"component/Interpreter.cc",ND+"base/antlr/NDDL3.g",ND+"base/antlr/NDDL3Tree.g",PD+"component/Methods.cc"],
 [("parser and tree walker",ND+"base/antlr/*.g"),("expression evaluation",ND+"component/Interpreter.cc")],
 ["EuropaEngine::executeScript","variable domains and tokens after loading"])
p("C23","Engines are independent and leave nothing behind",
 "Creating, using and destroying engines any number of times, alone or side by side, gives every engine the same behaviour as a first, lone one. Destroying an engine releases all its entities and leaves the others untouched.",
 ["histories"],"all interleavings of create, load, solve and destroy of up to two engines up to a bounded length",
 "Tests run one engine per test; leftovers in process-wide registries only show across engines.",
 ["src/PLASMA/System/base/EuropaEngine.cc","src/PLASMA/System/base/PSEngineImpl.cc",UT+"base/Engine.cc",UT+"base/Entity.cc"],
 [("engine lifecycle",UT+"base/Engine.cc"),("purge",UT+"base/Entity.cc")],
 ["PSEngine API","Entity registry"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,x['id']
print(len(P))
