#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
I = "include/opengm/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": [I + f if not f.startswith("src/") else f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("G01", "A model evaluates to the combination of its factors, however it was built",
  "After any sequence of adding variables, functions (own, shared or filled in through a reference) and factors, finalizing, copying and assigning models, evaluating any complete labeling yields exactly the operator-combination of the factors' function values, and every structural query (numbers of variables, labels, factors and functions, a factor's variables, shape, size and values, a variable's factors, maximum factor order) reports what was built. A change to a stored function is seen by all factors of that model that use it and by no other model. Factors whose variable indices are not strictly ascending or out of range are refused.",
  ["histories", "inputs", "configurations"],
  "All build histories, all mixes of built-in and user-defined function classes, label spaces, index/label/value types and the operators add, multiply, and, or, min, max.",
  "Unit tests build a few fixed models and compare a few evaluations; the guarantee quantifies over build histories, function mixes and labelings.",
  ["graphicalmodel/graphicalmodel.hxx", "graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_function_wrapper.hxx", "utilities/vector_view.hxx", "functions/function_properties_base.hxx"],
  [("addFunction/addSharedFunction/addFactor/finalize/evaluate/operator=", "graphicalmodel.hxx"), ("type-list dispatch", "graphicalmodel_function_wrapper.hxx")],
  ["return values of the public methods of GraphicalModel and Factor"],
  [("space", "number of labels per variable"), ("functions", "stored functions per class"), ("factors", "function reference and variable list"), ("adjacency", "factors of every variable")])
p("G02", "Topology queries describe the factor graph exactly",
  "For every model, the queries about adjacency and connection between variables and factors (in both directions, and between two variables or two factors), acyclicity, connectedness, being a chain or a grid, maximum factor order, number of shared variables, and the one-sided and two-sided neighbour lists answer exactly what the bipartite variable/factor graph says.",
  ["inputs"], "All factor graphs, including empty, disconnected, order-0, order-1 and high-order factors and duplicate factors.",
  "Tests query one or two fixed graphs; the answers must be right for every graph.",
  ["graphicalmodel/graphviews/factorgraph.hxx"], [("FactorGraph queries", "factorgraph.hxx")])
p("G03", "All label spaces behave as the list of label counts they describe",
  "A label space constructed or assigned in any of the supported ways (explicit list, uniform, compile-time uniform, grid, view on a vector or on another model's label space) reports the number of variables and labels it was given, recognises uniformity correctly, appends variables at the end when it can represent them and refuses them by an exception otherwise, leaving its contents unchanged.",
  ["histories", "configurations"], "All sequences of construct, assign, dense assign and add-variable on every space class.",
  "Tests check a handful of sizes per class and not the refusal paths.",
  ["graphicalmodel/space/discretespace.hxx", "graphicalmodel/space/simplediscretespace.hxx", "graphicalmodel/space/static_simplediscretespace.hxx", "graphicalmodel/space/grid_space.hxx", "graphicalmodel/space/vector_view_space.hxx", "graphicalmodel/space/space_base.hxx"],
  [("space classes", "graphicalmodel/space")])
p("G04", "Fixing variables yields sub-models that agree with the original model",
  "After any sequence of fixing and freeing variables and locking, the reduced model evaluated at any labeling of the free variables equals the original model at the combined labeling, the independent sub-models partition the free variables into the connected components of what remains and their values combine with the constant part to the same number, and mapping sub-model labelings back reproduces the full labeling. Eliminating tree-structured tentacles preserves the optimum, and expanding an optimal reduced labeling gives an optimal full labeling.",
  ["inputs", "histories"], "All models, all sets of fixed variables and labels, all orders of fix/free/lock/build calls that the interface allows.",
  "Tests use one 4-variable model and two fix patterns.",
  ["graphicalmodel/graphicalmodel_manipulator.hxx", "functions/view_fix_variables_function.hxx"],
  [("lock, lockAndTentacelElimination, buildModifiedModel, buildModifiedSubModels, modifiedState2OriginalState, modifiedSubStates2OriginalState", "graphicalmodel_manipulator.hxx")])
p("G05", "A decomposition covers the model",
  "Every automatic decomposition assigns each variable and factor of the model to sub-models such that every factor occurs at least once (open blocks promise only the factors lying fully inside some block), every sub-factor's variables are the sub-model's copies of the factor's variables, the bookkeeping lists are mutually consistent, promised tree or spanning-tree decompositions are acyclic, and the values of the sub-models (with shared factors divided by their multiplicity) combine to the value of the model at every consistent labeling.",
  ["inputs", "configurations"], "All models and all decomposition kinds (manual, spanning trees, k-fan, closed and open blocks, per factor).",
  "Tests decompose one or two grids and check validity flags only.",
  ["graphicalmodel/decomposition/graphicalmodeldecomposer.hxx", "graphicalmodel/decomposition/graphicalmodeldecomposition.hxx"],
  [("GraphicalModelDecomposer, GraphicalModelDecomposition::isValid/reorder/complete", "decomposition")])
p("G06", "Alternative storages of a model return the same numbers",
  "Explicitly stored copies of factor tables and canonical views of a model (single-site and pairwise factors made unique per variable and edge) return for every factor and labeling the same values as the original model, for every mix of function classes.",
  ["inputs", "configurations"], "All models with mixed function classes, label counts and orders.",
  "Tests compare one fixed model.",
  ["graphicalmodel/graphicalmodel_explicit_storage.hxx", "utilities/canonical_view.hxx", "functions/view.hxx"],
  [("ExplicitStorage, CanonicalView", "graphicalmodel_explicit_storage.hxx, canonical_view.hxx")])

p("F01", "Built-in function classes compute their documented closed forms",
  "For every shape and parameters, each built-in function class (explicit table, constant, Potts, n-ary Potts, generalised Potts, absolute and squared difference with and without truncation, sparse table, single-site, field of experts) returns its closed-form value at every labeling and reports the dimension, per-dimension shape and size it was constructed with, and later modifications through its setters change exactly the addressed values.",
  ["inputs", "histories"], "All shapes, parameters, labelings and modification sequences.",
  "Tests check a few parameter choices on small shapes.",
  ["functions/explicit_function.hxx", "functions/constant.hxx", "functions/potts.hxx", "functions/pottsn.hxx", "functions/pottsg.hxx", "functions/absolute_difference.hxx", "functions/squared_difference.hxx", "functions/truncated_absolute_difference.hxx", "functions/truncated_squared_difference.hxx", "functions/sparsemarray.hxx", "functions/singlesitefunction.hxx", "functions/fieldofexperts.hxx", "utilities/partitions.hxx"],
  [("operator() of each class", "functions")])
p("F02", "Derived properties of functions are truthful",
  "For every function, minimum, maximum, minimum-and-maximum, sum, product, equality of two functions, and the predicates for Potts, generalised Potts, submodularity, squared, truncated-squared, absolute and truncated-absolute difference are consistent with the value table: computed quantities are exact, and a predicate never claims a structure the table does not have (the generic predicates also recognise it where it is there: Potts and generalised Potts of order two to four, submodularity of two binary variables, differences for at least two labels). The sweeps over all values visit every value in the documented order. The same holds when asked through a factor of a model or an independent factor. Functions that stand for a hard constraint report the constraint's two return values as their minimum and maximum.",
  ["inputs"], "All function classes, shapes and values, whether computed by the generic code or by a class's shortcut.",
  "Tests check a few positive instances; claims must be right for every table.",
  ["functions/function_properties_base.hxx", "functions/function_properties.hxx", "functions/constant.hxx", "functions/potts.hxx"],
  [("FunctionBase", "function_properties_base.hxx")])
p("F03", "Factor algebra is pointwise and exact",
  "Combining factors and scalars with an operation, applying an operation in place, accumulating over some or all variables, fixing variables and copying between model factors and independent factors produce exactly the pointwise result over the union, remainder or subset of variables, with variables in ascending order and with the optimising labeling where one is reported.",
  ["inputs"], "All pairs of factors with disjoint, nested or overlapping scopes, all shapes, operations and accumulations.",
  "Tests cover fixed two- and three-variable examples.",
  ["graphicalmodel/graphicalmodel_factor.hxx", "graphicalmodel/graphicalmodel_factor_operator.hxx", "graphicalmodel/graphicalmodel_factor_accumulator.hxx", "functions/operations/operator.hxx", "functions/operations/accumulator.hxx"],
  [("IndependentFactor, operateBinary/operateUnary/accumulate", "graphicalmodel_factor.hxx")])
p("F04", "View functions are transparent",
  "A view of a factor or function (plain, scaled, value-converting, with some variables fixed, accumulated, or a slice with an offset) returns at every labeling the value of the viewed object under the documented transformation, with the matching shape, and follows later changes of the viewed object; fixed variables may be given in any order.",
  ["inputs", "histories"], "All viewed functions, scales, fixed-variable sets and labelings.",
  "Tests check one instance per view class, several view classes not at all.",
  ["functions/view.hxx", "functions/scaled_view.hxx", "functions/view_convert_function.hxx", "functions/view_fix_variables_function.hxx", "functions/accumulated_view.hxx", "functions/modelviewfunction.hxx"],
  [("view classes", "functions")])
p("F05", "Constraint and cost functions penalise exactly the violating labelings",
  "Label-order, number-of-labels-limitation, linear-constraint, label-cost and sum-constraint functions return their satisfied value on every labeling that meets the constraint and their violated or cost value on every other one, including the shared-parameter variants; reported constraint violations and violated-constraint weights agree with the constraint's definition on indicator assignments. Indicator variables evaluate as all, some or none of their pairs and are totally ordered as documented; the serialised form restores each function.",
  ["inputs"], "All shapes, label orders, limits, coefficients, bounds and labelings.",
  "Tests check a few shapes and parameters.",
  ["functions/constraint_functions/label_order_function.hxx", "functions/constraint_functions/num_labels_limitation_function.hxx", "functions/constraint_functions/linear_constraint_function.hxx", "functions/soft_constraint_functions/label_cost_function.hxx", "functions/soft_constraint_functions/sum_constraint_function.hxx", "datastructures/linear_constraint.hxx", "datastructures/indicator_variable.hxx"],
  [("operator(), challenge*", "constraint_functions")])
p("F06", "Learnable functions are linear in their weights",
  "A learnable function's value at a labeling is the weighted sum of its features with the current shared weights, its gradient entry for a weight is the feature multiplying that weight at that labeling, and changing a shared weight is seen by every function that refers to it; the serialised form of a learnable function restores it. Weights, their bounds, linear constraints and regularisers report what was set.",
  ["inputs", "histories"], "All shapes, features, weight assignments and weight update sequences.",
  "Tests check single weights and labelings.",
  ["functions/learnable/lpotts.hxx", "functions/learnable/lunary.hxx", "functions/learnable/lweightedsum_of_functions.hxx", "graphicalmodel/weights.hxx"],
  [("weightGradient, operator()", "functions/learnable")])
p("F07", "Linear-programming transfer of functions represents the same function",
  "The indicator variables and linear constraints produced from a transferable function (sum constraint with non-negative penalty, label cost; others are refused) describe it exactly: an assignment of labels is feasible for the constraints, or gets the slack-minimal objective, if and only if the function gives it the satisfied value or that cost.",
  ["inputs"], "All parameters of the transferable functions and all labelings.",
  "Tests compare counts of constraints on a few instances.",
  ["inference/auxiliary/lp_functiontransfer.hxx"], [("LPFunctionTransfer", "lp_functiontransfer.hxx")])

p("S01", "Saving and loading is the identity",
  "A model written to an HDF5 file and read back, into a new or used model whose type can represent it (other value, index and label types, other spaces, any list of function classes that contains those used), has the same variables, label counts, functions (class, values and sharing, for every function class that has a serialised form), factors and variable lists, with complete adjacency; the file is a snapshot that later changes of the model do not reach; a missing file, data set or function class, or a space that does not fit, is refused, leaves the file as it was and does not hinder later saving or loading. Arrays, views and vectors written to HDF5 groups are read back with the same shape, coordinate order and values, whole or in part, and a part that is written changes exactly that part.",
  ["inputs", "histories"], "All histories of saving, loading, growing and changing models over all built-in function classes (learnable, constraint and field-of-experts functions included), spaces and value types; all arrays up to four dimensions, both coordinate orders and several element types, with hyperslabs.",
  "Tests round-trip a few fixed models into fresh models of the same type.",
  ["graphicalmodel/graphicalmodel_hdf5.hxx", "datastructures/marray/marray_hdf5.hxx", "functions/potts.hxx", "functions/sparsemarray.hxx"],
  [("hdf5::save/load, FunctionSerialization", "graphicalmodel_hdf5.hxx"), ("save/load/saveHyperslab/loadHyperslab", "marray_hdf5.hxx")])

p("I01", "Exact solvers return a global optimum of every model",
  "On every model, exhaustive search and best-first search (the latter also for the requested number of best labelings, in order and without repetition) return labelings whose value no other labeling beats, for minimisation and maximisation of sums and products, and the value they report is the value of the labeling they return; the bound best-first search reports at the end is the optimum.",
  ["inputs", "configurations"], "All models (any order, unary-only, disconnected, single-label variables) and solver options.",
  "Tests run random models against a reference with a fixed seed, mainly pairwise grids, and accept any labeling whose value ties within tolerance.",
  ["inference/bruteforce.hxx", "inference/astar.hxx"], [("infer/arg/value/bound", "bruteforce.hxx, astar.hxx")])
p("I02", "Tree solvers are exact on forests",
  "On every model whose factor graph has no cycles, dynamic programming, belief propagation and tree-reweighted belief propagation (sequential or parallel schedule, any damping-free setting with enough iterations) return a global optimum together with its value, whatever the tree's shape, the root, disconnected parts or single-label variables.",
  ["inputs", "configurations"], "All acyclic models including higher-order factors (belief propagation), forests and isolated variables.",
  "Tests use chains and stars of a few sizes.",
  ["inference/dynamicprogramming.hxx", "inference/messagepassing/messagepassing.hxx", "inference/messagepassing/messagepassing_bp.hxx", "inference/messagepassing/messagepassing_trbp.hxx", "inference/messagepassing/messagepassing_operations.hxx"],
  [("infer/arg", "dynamicprogramming.hxx, messagepassing.hxx")])
p("I03", "Marginals are exact on forests",
  "On every acyclic model, the variable and factor marginals delivered by belief propagation with the integrating accumulation are the exact normalised marginal distributions, and with the optimising accumulation they order the labels of every variable by exact max- or min-marginals; completing given labels (at most one variable per connected part) then yields an exact optimum among the labelings that have these labels, and choosing labels variable by variable yields labels that are optimal for their variable.",
  ["inputs", "configurations"], "All acyclic models and message schedules.",
  "Tests compare one or two models.",
  ["inference/messagepassing/messagepassing.hxx", "inference/messagepassing/messagepassing_operations.hxx", "inference/messagepassing/messagepassing_buffer.hxx"],
  [("marginal, factorMarginal, constrainedOptimum, modeFromMarginal", "messagepassing.hxx, inference.hxx")])
p("I04", "Graph cut is exact on binary submodular models",
  "On every binary model with submodular pairwise factors, graph-cut inference returns a global optimum and its value, for each available maximum-flow algorithm, and models it cannot represent (non-binary variables, factors of too high order) are refused rather than solved wrongly.",
  ["inputs", "configurations"], "All binary submodular models, all min-cut back ends and scalings.",
  "Tests use random grids only.",
  ["inference/graphcut.hxx", "inference/auxiliary/minstcutboost.hxx"], [("GraphCut::addPairwiseFactor/infer", "graphcut.hxx")])
p("I05", "Move-making solvers never get worse and return valid labelings",
  "Started from any valid labeling, every local-search or move-making solver (iterated conditional modes, lazy flipping, alpha-expansion, alpha-beta swap, and the improving wrappers) returns a valid labeling, reports exactly the model's value of that labeling and, on the models its moves are defined for (any for local search, metric for expansion, semi-metric for swap), one whose value is at least as good as the start, never getting worse from one reported step to the next.",
  ["inputs", "histories", "configurations"], "All models the solver accepts, all starting labelings and options, minimisation and maximisation.",
  "Tests compare final values on fixed-seed grids and never look at the sequence of steps.",
  ["inference/icm.hxx", "inference/lazyflipper.hxx", "inference/alphaexpansion.hxx", "inference/alphabetaswap.hxx", "inference/inference.hxx"],
  [("infer/setStartingPoint/value", "inference")])
p("I06", "Local search stops only at labelings its own moves cannot improve",
  "When it reports normal termination, iterated conditional modes returns a labeling that no change of a single variable (or of one factor's variables in factor mode) improves, and the lazy flipper one that no change of a connected set of at most the configured number of variables improves, for every model.",
  ["inputs", "configurations"], "All models, starting labelings, move types and subgraph sizes, minimisation and maximisation.",
  "Tests check closeness to the optimum on random models, not local optimality.",
  ["inference/icm.hxx", "inference/lazyflipper.hxx", "inference/movemaker.hxx"], [("ICM::infer, LazyFlipper::infer", "icm.hxx, lazyflipper.hxx")])
p("I07", "Expansion and swap moves are optimal at termination",
  "On every model with metric (semi-metric for swaps) pairwise factors, when alpha-expansion or alpha-beta swap terminates normally no single expansion, respectively swap, of its labeling improves the value, for every label order and starting labeling.",
  ["inputs", "configurations"], "All metric / semi-metric pairwise models, label orders, starting labelings.",
  "Tests check values against loose expectations on fixed grids.",
  ["inference/alphaexpansion.hxx", "inference/alphabetaswap.hxx"], [("expansion/swap loop", "alphaexpansion.hxx, alphabetaswap.hxx")])
p("I08", "Reported bounds are valid",
  "At every visit and at the end, the bound reported by dual decomposition with subgradient steps (all decompositions, dual blocks and step sizes), tree-reweighted sequential message passing, its smoothed and Nesterov variants and the exact and local-search solvers never passes the global optimum, and the reported value is the model's value of the reported labeling (or neutral while there is none), so bound, optimum and value are ordered; values (and, for dual decomposition and TRW-S, bounds) never get worse; on acyclic models dual decomposition into trees and TRW-S and ADSal run to convergence close the gap; tree agreement on all variables means an optimal labeling with a tight bound; models outside a solver's class (not one unary factor per variable plus pairwise factors; not the grid a grid decomposition expects) are refused by an exception, all others accepted; the model is left untouched and the visitor is asked no more after it requests a stop.",
  ["inputs", "configurations", "histories"], "All pairwise and higher-order models accepted, decompositions, options, and every intermediate iteration.",
  "Tests check the bound on a few random grids at the end only.",
  ["inference/trws/trws_trws.hxx", "inference/trws/trws_adsal.hxx", "inference/trws/smooth_nesterov.hxx", "inference/trws/trws_base.hxx", "inference/dualdecomposition/dualdecomposition_subgradient.hxx", "inference/dualdecomposition/dualdecomposition_base.hxx", "inference/messagepassing/messagepassing_trbp.hxx"],
  [("bound()", "inference")])
p("I09", "The move maker always knows the value of its current labeling",
  "After any sequence of initialisations, moves, tentative evaluations and optimal moves over variable subsets, the value the move maker reports is the model's value of its current labeling; tentative evaluations change nothing; optimal moves reach the best labeling over the given subset (or over the astar/threshold variants offered).",
  ["histories", "inputs"], "All call sequences on all models (with non-negative factors where values are multiplied).",
  "Tests perform a few moves on one model.",
  ["inference/movemaker.hxx"], [("move, valueAfterMove, moveOptimally, moveAstarOptimally, moveRandomly", "movemaker.hxx")])
p("I10", "Minimum s-t cuts are minimum",
  "For every directed capacity network, every min-cut back end returns a partition that separates source and sink and whose cut capacity is minimal (hence equal to the maximum flow), including zero capacities, parallel and reverse edges and nodes unreachable from either terminal.",
  ["inputs", "configurations"], "All networks, all algorithm choices.",
  "Tests solve one small network.",
  ["inference/auxiliary/minstcutboost.hxx"], [("addEdge, calculateCut", "minstcutboost.hxx")])
p("I11", "Two-satisfiability and QPBO answers are sound",
  "The 2-SAT solver calls a conjunction of two-variable constraints satisfiable exactly if some labeling satisfies it; quadratic pseudo-boolean optimisation on any binary model of order at most two (others are refused) reports the exact value of a valid labeling, decides variables only in ways that some global optimum agrees with, decides as many as the half-integral relaxation allows in the sense that its answer (undecided = 1/2) is an optimum of that relaxation, and is optimal when the model is submodular; both can be asked before and run more than once.",
  ["inputs"], "All 2-CNF formulas and all binary pairwise models.",
  "Tests check two formulas and random grids for energies only.",
  ["inference/sat.hxx", "inference/qpbo.hxx"], [("SAT, QPBO", "sat.hxx, qpbo.hxx")])
p("I12", "Visitors record, print and stop as told; every solver keeps their protocol",
  "Every solver calls its visitor's begin exactly once before any step and end exactly once after the last, with steps in between, and takes no further step after the visitor asked to stop; optimising solvers report after a run the value and bound they showed last, and never a timeout that nobody asked for. A timing visitor records, at begin, at end and at every n-th step, exactly the value and bound shown, the number of the step and the processor time spent in runs so far (complete, nothing twice, 0 at begin, never falling), one construction time per begin, memory as configured, and for every extra quantity one entry per recorded step (not-a-number unless logged for that step); it asks to stop at a recorded step exactly when value and bound are at most the gap limit apart or else the time exceeds the time limit. Verbose visitors print exactly these visits and never ask to stop, empty visitors do neither, and visitor wrappers pass everything on unchanged.",
  ["histories", "configurations"], "All scripts of begin/step/end/log calls over several runs, all visitor configurations; all solvers buildable here with a visitor interface.",
  "Tests pass visitors but never inspect call order, recorded rows or stop behaviour.",
  ["inference/visitors/visitors.hxx", "utilities/timer.hxx", "inference/inference.hxx"], [("TimingVisitor, VerboseVisitor, EmptyVisitor and explicit variants, VisitorWrapper; infer(visitor)", "visitors.hxx and every solver")])
p("I13", "Solvers can be rerun, reset and warm-started, and never modify the model",
  "Several solver objects of one kind with the same parameters, working on one model or on equal copies and called in any interleaving, never influence each other and never change the model: every labeling reported after a run is a valid labeling with the value reported for it; asking again (labeling, value, bound) changes nothing and gives the same answer; two objects with the same history of runs, starts and resets report the same labeling, value and bound; after reset an object behaves exactly like a newly constructed one (for solvers that implement reset: exhaustive search, iterated conditional modes, message passing, greedy search); solvers that accept a starting labeling show it once it is set, and for iterated conditional modes and lazy flipping it replaces everything that happened before; exact solvers and partition moves give the same answer however often they ran before; and a request for a further solution beyond those available is refused with an error status (or an exception) and never answered by a wrong solution.",
  ["histories", "configurations"], "All interleavings of construct, infer, arg, value, bound, reset, set-start calls on up to three objects; all deterministic solvers buildable here.",
  "Tests run each solver once per instance.",
  ["inference/inference.hxx", "inference/icm.hxx", "inference/bruteforce.hxx", "inference/astar.hxx", "inference/lazyflipper.hxx", "inference/messagepassing/messagepassing.hxx", "inference/messagepassing/messagepassing_buffer.hxx", "inference/trws", "inference/alphaexpansion.hxx", "inference/partition-move.hxx"],
  [("infer, arg, value, bound, reset, setStartingPoint of every deterministic solver", "inference")])
p("I14", "Sampling solvers track their best sample and honest statistics",
  "Gibbs and Swendsen-Wang sampling only ever visit valid labelings, report as result the best labeling they count with its exact value (Gibbs sampling counts its start and every state visited, Swendsen-Wang its start and the moves accepted after burn-in), make and show exactly the requested number of sampling and burn-in steps unless a visitor stops them, draw Gibbs proposals cyclically when told to, and their marginal estimates are exactly the empirical frequencies of the states visited after burn-in.",
  ["schedules", "inputs", "histories"], "All models, random seeds and parameters.",
  "Tests accept anything close to the optimum.",
  ["inference/gibbs.hxx", "inference/swendsenwang.hxx"], [("infer, GibbsMarginalVisitor", "gibbs.hxx")])
p("I15", "Fusion moves never lose to their inputs",
  "Fusing two labelings yields a valid labeling in which every variable has the label of one of the two and whose value is at least as good as both, for every fusion back end available (graph cut, local search, best-first search, exhaustive and quadratic pseudo-boolean back ends; exact back ends reach the best fusion); fusion-based, self-fusion and expansion-fusion inference never report something worse than the labelings they were given or found, propose only valid labelings of the kind the chosen generator promises, and stop by themselves only after the configured number of rounds, or of rounds without improvement.",
  ["inputs", "configurations"], "All models, pairs of labelings, proposal generators and back ends.",
  "Tests run on a few grids and check only final closeness.",
  ["inference/auxiliary/fusion_move/fusion_mover.hxx", "inference/fusion_based_inf.hxx", "inference/self_fusion.hxx", "inference/alphaexpansionfusion.hxx", "inference/external/qpbo.hxx"], [("FusionMover, HlFusionMover, SelfFusion", "fusion_move")])
p("I16", "Partition moves and greedy construction improve step by step, consistently",
  "Partition moves accept exactly the Potts models with enough labels and no unary factors, always show a valid labeling with its exact value, never get worse from their start on, and stop only where neither a move of one variable nor a Kernighan-Lin pass between two adjacent sets or out of one set improves; greedy construction fixes one variable per step, each exactly once and to a label that is best given the variables fixed before and the factors completed by it, on connected and disconnected models, and reports the exact value; both can be stopped by a visitor and run again.",
  ["inputs", "histories"], "All models, all weighted graphs for partition moves, and all stop points.",
  "These solvers have few or no tests.",
  ["inference/partition-move.hxx", "inference/greedygremlin.hxx"], [("inferKL, infer", "partition-move.hxx, greedygremlin.hxx")])
p("I17", "Reducing and decomposing wrappers keep the optimum and decide only rightly",
  "Solvers that reduce a model before or instead of solving it: the multicut decomposition (DMC) separates exactly the variables not joined by edges of weight above its threshold and, with an exact inner solver, returns the best labeling that does so, a global optimum for thresholds up to 0; the sub-model optimiser returns the best labels of the chosen variables given the others and says whether they changed; ReducedInference (persistency, tentacles, components, in every combination) is optimal with an exact inner solver; the labels MQPBO excludes and the variables it decides hold in an optimal labeling (in every optimal labeling where strong persistency or Kovtun's method is asked for), a label that beats all couplings of its variable is found by Kovtun's method, and its decisions, shares and labeling agree; HQPBO never returns a worse labeling than it started from. At every visit and in the end the value is the one of the labeling, the bound is valid, stop requests are obeyed, and the model is untouched.",
  ["inputs", "configurations"], "All models accepted by the wrappers and all options; QPBO itself is a stand-in library.",
  "Tests run one model or none; the QPBO-based ones are not even compiled without the external library.",
  ["inference/dmc.hxx", "inference/mqpbo.hxx", "inference/hqpbo.hxx", "inference/reducedinference.hxx", "inference/auxiliary/submodel/submodel_builder.hxx"], [("infer", "dmc.hxx, mqpbo.hxx, hqpbo.hxx, reducedinference.hxx"), ("inferSubmodel, mergeFactorsAndInferDp", "submodel_builder.hxx")])

p("I18", "Inference by linear programming solves the model's relaxation and its integers",
  "The linear program the library builds from a model (for CPLEX or Gurobi, all relaxation, soft/hard constraint, function transfer, merging and cutting-plane settings) describes it: with integral node variables a finished run returns the best labeling among those that meet all hard constraints, with its value as bound; without, the bound never passes that optimum, is at least what optimising every factor on its own gives, equals the optimum on acyclic models and the half-integral relaxation on binary pairwise ones, and is the same for the local, loose and tight start once no violated constraint is left. Bounds never weaken from one iteration to the next, the iteration limit and stop requests are respected, the loop of adding violated constraints ends, values belong to the labeling shown, a model without feasible labeling is reported by the status, and before inference the labeling is zero with status UNKNOWN and an infinite bound.",
  ["inputs", "histories"], "All models with any mix of functions and constraints, all settings, and all stop points.",
  "The repository's tests of these classes need a commercial solver and cannot run.",
  ["inference/lp_inference_base.hxx", "inference/lpcplex2.hxx", "inference/lpgurobi2.hxx", "inference/auxiliary/lp_solver/lp_solver_interface.hxx"], [("LPInferenceBase", "lp_inference_base.hxx")])
p("I19", "Reparametrisation preserves all values; CombiLP built on it is exact",
  "For every model with one unary factor per variable (and factors of any higher order), every content of an LPReparametrisationStorage, and every way it came about (written by the caller, deserialised, loaded from a file, or computed by the reparametrizers of TRWSi or ADSal with or without masks and immovable labels), the reparametrised model, getFactorValue and getVariableValue hold the factors plus the stored numbers and the variables minus them, so that the value of every labeling is that of the original model; serialize and deserialize are inverse and data of the wrong size is refused. The reparametrizer of TRWSi makes the sum of the factors' own optima no worse than the solver's bound and never better than the optimum; with immovable labels their numbers are zero and pairwise values of the other labels are non-negative (non-positive when maximising). A variable reported arc consistent takes part in optimal labelings of all its factors, and if all are, the labels returned are an optimum of the model. Spreading the numbers over a tree decomposition (LPtoDecompositionStorage) keeps every value. CombiLP, given an exact solver for its integer subproblems, ends with an optimal labeling whose value is its bound; stopped, failed or limited runs still show a value that belongs to the labeling and a sound bound; the visitor sees begin, steps and end; the saved reparametrised model has the same values; the model is not modified.",
  ["inputs", "histories"], "All models, stored numbers, masks, decompositions, subproblem solutions among ties, and stop points.",
  "No test of the repository instantiates any of these classes.",
  ["inference/auxiliary/lp_reparametrization.hxx", "inference/auxiliary/lp_reparametrization_hdf5.hxx", "inference/trws/trws_reparametrization.hxx", "inference/trws/trws_subproblemsolver.hxx", "inference/trws/trws_trws.hxx", "inference/trws/trws_adsal.hxx", "inference/combilp.hxx", "inference/trws/output_debug_utils.hxx"], [("LPReparametrizer", "lp_reparametrization.hxx"), ("TRWS_Reparametrizer", "trws_reparametrization.hxx"), ("CombiLP", "combilp.hxx")])
p("D01", "Multi-dimensional arrays and views agree element by element",
  "For every shape, coordinate order and sequence of construction, assignment, sub-view, transpose, permute, squeeze, reshape, resize and arithmetic operations, a view or array holds exactly the elements the index arithmetic prescribes, through every access path (coordinates, scalar index, iterator), and overlapping self-assignments are safe.",
  ["histories", "inputs"], "All shapes and operation sequences.",
  "The repository has no direct tests of this container.",
  ["datastructures/marray/marray.hxx"], [("View, Marray, Iterator", "marray.hxx")])
p("D02", "Sorted sets, small vectors and sequences behave like their mathematical models",
  "Random-access sets are sorted duplicate-free sets with exact membership, position, lower and upper bound; buffer vectors and fast sequences are sequences under every push, pop, assign, resize and copy, across the boundary between their inline and heap storage (elements added by resize without a value are unspecified).",
  ["histories"], "All operation sequences and element types.",
  "Tests execute one short script per class.",
  ["datastructures/randomaccessset.hxx", "datastructures/buffer_vector.hxx", "datastructures/fast_sequence.hxx", "datastructures/buffer_randomaccessset.hxx"],
  [("RandomAccessSet, BufferVector, FastSequence", "datastructures")])
p("D03", "Union-find partitions and set-partition enumeration are exact",
  "After any sequence of merges, insertions and resets the union-find structure reports the equivalence relation generated by the merges, its number of sets, representatives and a dense labeling; set-partition enumeration lists every partition of n elements exactly once and inverts between label vectors and indices.",
  ["histories", "inputs"], "All merge sequences and sizes.",
  "Tests check one sequence.",
  ["datastructures/partition.hxx", "utilities/disjoint-set.hxx", "utilities/partitions.hxx"], [("Partition, Disjoint_set, Partitions", "partition.hxx, disjoint-set.hxx, partitions.hxx")])
p("D04", "Changeable priority queues always yield an extremal element",
  "After any sequence of push, change, delete and pop, the queue contains exactly the pushed and not yet removed items with their latest priorities, and top is an item of extremal priority; the first-in-first-out queue yields its items in the order they were put in.",
  ["histories"], "All operation sequences.", "No tests exist.",
  ["utilities/queues.hxx"], [("ChangeablePriorityQueue", "queues.hxx")])
p("D05", "Walkers and iterators enumerate exactly the labelings they promise",
  "Shape walkers, sub-shape walkers, subsequence and accessor iterators visit every coordinate tuple, element or position of their range exactly once in order, fixed coordinates stay fixed, and arithmetic on iterators agrees with stepping.",
  ["inputs"], "All shapes, fixed-coordinate sets and iterator offsets.", "Tests cover a few shapes.",
  ["utilities/indexing.hxx", "utilities/subsequence_iterator.hxx", "utilities/accessor_iterator.hxx", "utilities/shape_accessor.hxx", "utilities/vector_view.hxx"],
  [("ShapeWalker, SubShapeWalker, SubsequenceIterator, AccessorIterator", "utilities")])
p("D06", "Operations, accumulations and three-valued logic obey their algebra",
  "Each combination operation has its neutral element, optimisation operations order values consistently with their in-place selection, accumulators over any sequence return the operation's result and an optimal argument, and three-valued truth values compare, negate and gather evidence correctly (false is final, unknown adds nothing, true settles what is unknown) in every operand combination.",
  ["inputs"], "All operand combinations and sequences.", "Tests check a few operands.",
  ["operations/adder.hxx", "operations/multiplier.hxx", "operations/minimizer.hxx", "operations/maximizer.hxx", "operations/and.hxx", "operations/or.hxx", "operations/integrator.hxx", "operations/normalize.hxx", "operations/logsumexp.hxx", "operations/weightedoperations.hxx", "utilities/tribool.hxx", "utilities/accumulation.hxx"],
  [("op/neutral/bop/ibop", "operations")])
p("D07", "The transportation solver and primal bounds are optimal and feasible",
  "For every cost matrix and marginal vectors, the transportation solver returns a feasible plan with the prescribed marginals and minimal cost, and reports that cost and the corresponding primal value.",
  ["inputs"], "All cost matrices and marginals.", "Tests solve one or two instances.",
  ["inference/auxiliary/transportationsolver.hxx", "inference/auxiliary/primal_lpbound.hxx"], [("TransportationSolver::Solve", "transportationsolver.hxx")])
p("C01", "Format converters preserve the model",
  "Converting a model between the UAI text format and the HDF5 format in either direction preserves variables, label counts and every value of the modelled function; malformed files (missing, superfluous or invalid numbers, tables of the wrong size) are refused.",
  ["inputs"], "All models expressible in the formats.", "Converters have no tests.",
  ["src/converter/uai2opengm.cxx", "src/converter/opengm2uai.cxx"], [("main", "src/converter")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
