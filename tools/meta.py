#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'third_party/com_github_robotlocomotion_drake/dreal/symbolic/'
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=None,
         note='', technique='property-based testing: generated inputs against an independent reference evaluator'):
    a = {'files': files, 'mechanism': [{'name': mechanism, 'where': ', '.join(files)}]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append(({'id': pid, 'title': title, 'statement': statement,
               'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, note, technique))


prop('C01', 'Building expressions preserves their value',
     'An expression built with any sequence of the supported operators and functions evaluates, at every point where the expression as written is defined, to the value of the expression as written (up to floating-point rounding), however it was simplified, and its accessors describe that same function. '
     'In-place, moving and self-aliased operators (such as e += e) never change the value of any other expression handle, even when handles share structure.',
     ['inputs', 'histories'],
     'all expressions over all supported functions and constants, all evaluation points, all sequences of operator applications on shared handles',
     'Simplification rules interact (flattening, power merging, constant folding, in-place reuse of unshared cells); the unit tests sample single rules on fixed terms and never compare values of random nested terms.',
     [D + 'symbolic_expression.cc', D + 'symbolic_expression_cell.cc'],
     'operators +,-,*,/,pow,sqrt,min,max,ite with simplification; ExpressionAddFactory / ExpressionMulFactory; reference-counted cells mutated in place when unshared',
     [('reference count of a cell', 'decides whether a sum or product is modified in place')])

prop('C02', 'Equality, ordering and hashing of symbolic objects agree',
     'On expressions, formulas, variables and sets of variables, structural equality is an equivalence, the ordering is a strict total order whose ties are exactly the structurally equal objects, and structurally equal objects have equal hashes and equal meaning. '
     'Sums, products, conjunctions and disjunctions of the same parts combined in a different order are structurally equal.',
     ['inputs'], 'all pairs and triples of expressions and formulas',
     'std::map/set/unordered_map keyed by these objects are used everywhere; transitivity and tie consistency quantify over triples of terms, tests compare a few hand-picked neighbours.',
     [D + 'symbolic_expression.cc', D + 'symbolic_expression_cell.cc', D + 'symbolic_formula.cc', D + 'symbolic_formula_cell.cc', D + 'symbolic_variable.cc', D + 'symbolic_variables.cc', D + 'hash.h'],
     'EqualTo / Less / get_hash of every cell class',
     technique='property-based testing: algebraic laws of EqualTo/Less/hash over generated pools of related terms')

prop('C03', 'Free variables and substitution are exact',
     'The reported variables of an expression or formula are exactly the ones occurring free in its simplified form, a subset of those written. '
     'Substituting simultaneously and then evaluating equals evaluating under the substituted values; variables outside the substitution are untouched, bound variables are never replaced, and partial evaluation is substitution by the given values.',
     ['inputs'], 'all expressions, formulas and (simultaneous) substitutions of expressions for real variables and formulas for Boolean variables, without variable capture',
     'Substitution is implemented once per node kind and rebuilds terms through the simplifier; tests substitute into a handful of terms.',
     [D + 'symbolic_expression_cell.cc', D + 'symbolic_formula_cell.cc', D + 'symbolic_expression.cc', D + 'symbolic_formula.cc'],
     'GetVariables / GetFreeVariables / Substitute / EvaluatePartial of every cell class',
     technique='property-based testing: substitution lemma (metamorphic) against an independent evaluator')

prop('C04', 'Expansion preserves value and reaches normal form',
     'Expanding an expression preserves its value at every point where it is defined and never fails on a defined expression without if-then-else (for which expansion is refused). '
     'The result of expanding a polynomial is the sum of its monomials (no product or positive integer power of a sum remains, like monomials are merged, and a polynomial that is identically zero expands to zero, unless it divides by a constant); expanding it again changes nothing.',
     ['inputs'], 'all expressions, in particular nested products and powers of sums',
     'Expand recurses over products of sums and powers; tests check a few binomials.',
     [D + 'symbolic_expression_cell.cc'], 'Expand, ExpandMultiplication, ExpandPow',
     technique='property-based testing: value preservation against an exact evaluator, normal-form predicate, idempotence')

prop('C05', 'Differentiation computes the derivative',
     'Wherever differentiating an expression with respect to a variable succeeds, the result evaluates to the true partial derivative at every point where the expression is smooth. '
     'Differentiation is only refused for expressions with a non-differentiable node depending on that variable, and an expression that does not depend on the variable has derivative zero.',
     ['inputs'], 'all differentiable expressions, variables and points',
     'Each node kind has its own rule and chain-rule composition; tests check textbook rules on single nodes.',
     [D + 'symbolic_expression_cell.cc'], 'Differentiate of every cell class, DifferentiatePow',
     technique='property-based testing: symbolic derivative against forward-mode dual numbers')

prop('C06', 'Formulas mean what their connectives say',
     'A formula built from relations, Boolean variables, negation, conjunction, disjunction, implication, equivalence and if-then-else, in any order and through any of the construction interfaces, evaluates to the truth value of the formula as written, whatever simplification happened. '
     'Combining formulas never changes the meaning of formulas built earlier.',
     ['inputs', 'histories'], 'all formulas, environments and sequences of in-place/moving constructions over shared handles',
     'Flattening, absorption of duplicates and complements, relational simplification and in-place reuse interact; tests look at one connective at a time.',
     [D + 'symbolic_formula.cc', D + 'symbolic_formula_cell.cc', 'dreal/symbolic/symbolic.cc'],
     'relational operators, &&, ||, !, make_conjunction, make_disjunction, imply, iff, Formula::Evaluate')

prop('C07', 'Delta-strengthening and weakening bracket a formula',
     'For every quantifier-free formula f without if-then-else terms and every delta > 0, whenever the delta-strengthening of f is true f is true, and whenever f is true its delta-weakening is true; both perturb every inequality by exactly delta and are monotone in delta. '
     'Negative delta exchanges the two, and neither operation ever fails on a well-formed formula.',
     ['inputs'], 'all quantifier-free formulas, deltas and points, including formulas with negations, equalities and Boolean variables',
     'The transformation dispatches on operator and polarity; an error in one (operator, polarity, sign) combination is invisible to the few fixed examples and silently breaks delta-soundness.',
     ['dreal/symbolic/symbolic.cc'], 'DeltaStrengthen, DeltaWeaken visitor',
     technique='property-based testing: implication and exact-margin oracle at generated points near the boundary')

prop('C08', 'SMT-LIB prefix output denotes the same term',
     'The SMT-LIB prefix text of any expression or quantifier-free formula (uninterpreted functions and quantifiers, which are refused, excluded), read back by an independent SMT-LIB reader, denotes the same function (constants to full double precision) and is syntactically valid, whatever the format of the stream it is written to. '
     'Printing leaves the formatting state of the stream as it was.',
     ['inputs'], 'all expressions and formulas, all double constants',
     'Round-trip over all node kinds, coefficients and exponents; tests compare fixed strings for one node each.',
     ['dreal/symbolic/prefix_printer.cc', 'dreal/util/precision_guard.cc'], 'PrefixPrinter',
     technique='property-based testing: print / independent reader round-trip')

prop('C09', 'Infix output denotes the same term',
     'The human-readable text of any expression or formula denotes the same function as the object when read with the usual conventions, with constants, coefficients and exponents to full double precision whatever the precision of the stream it is written to. '
     'Printing leaves the precision of the stream as it was.',
     ['inputs'], 'all expressions and formulas',
     'Signs, coefficients, exponents and nesting are printed by per-node rules; tests compare fixed strings.',
     [D + 'symbolic_expression_cell.cc', D + 'symbolic_formula_cell.cc'], 'Display of every cell class',
     technique='property-based testing: print / independent reader round-trip')

prop('C10', 'Variables, variable sets and environments obey their laws',
     'Every created variable is distinct from every other one, and copies, moves and containers preserve its identity, name and type. '
     'Sets of variables behave as mathematical sets under every operation, and environments as partial maps that reject dummy variables and NaN and report missing variables, with evaluation reading exactly the mapped values.',
     ['inputs', 'histories'], 'all histories of set / map operations over variables',
     'Set algebra and map behaviour over histories, compared with a model; tests check single operations on two or three variables.',
     [D + 'symbolic_variable.cc', D + 'symbolic_variables.cc', D + 'symbolic_environment.cc'], 'Variable, Variables, Environment',
     technique='stateful property-based testing against std::set / std::map models')

prop('C11', 'Negation normal form is equivalent and normal',
     'Converting any formula to negation normal form yields a formula with the same truth value under every assignment, in which negation is applied only to Boolean variables and universally quantified formulas (and, unless relational negations are pushed inside, to relations), and conversion is idempotent.',
     ['inputs'], 'all formulas, both modes, all assignments',
     'Polarity handling through nested connectives and every relation; tests cover a few formulas.',
     ['dreal/util/nnfizer.cc'], 'Nnfizer::Convert',
     technique='property-based testing: semantic equivalence by evaluation plus shape predicate')

prop('C12', 'Naive CNF is equivalent and in CNF',
     'Converting any formula to CNF by distribution yields a logically equivalent formula that is recognised as CNF and whose clauses are the conjuncts reported for it.',
     ['inputs'], 'all formulas over Boolean variables and relations',
     'Distribution over nested connectives; there is no dedicated unit test.',
     ['dreal/util/naive_cnfizer.cc', 'dreal/symbolic/symbolic.cc'], 'NaiveCnfizer::Convert, is_cnf, get_clauses',
     technique='property-based testing: exhaustive truth table of the atoms of each generated formula')

prop('C13', 'Tseitin transformation is equisatisfiable',
     'For any formula, the clauses produced by the Tseitin transformation are clauses, and an assignment to the original atoms satisfies the formula if and only if it can be extended to the fresh variables so that every clause holds. Fresh variables never coincide with variables of the input, also when one converter is reused.',
     ['inputs', 'histories'], 'all formulas over Boolean variables, relations and quantified formulas; sequences of conversions with one converter',
     'One wrong clause in one connective makes the solver unsound on formulas that happen to exercise it; tests compare one formula.',
     ['dreal/util/tseitin_cnfizer.cc'], 'TseitinCnfizer::Convert and its map of definitions',
     [('map', 'definition of every fresh variable')],
     technique='property-based testing: exhaustive enumeration of atom assignments, extension decided by a reference SAT procedure')

prop('C14', 'Predicate abstraction is a faithful renaming',
     'Predicate abstraction replaces each theory atom by a Boolean variable such that replacing the variables back gives a formula equivalent to the original, the same atom always gets the same variable, distinct atoms get distinct variables, and the two directions of the mapping are inverse of each other, over any sequence of conversions with one abstractor.',
     ['inputs', 'histories'], 'all formulas and sequences of conversions',
     'Caching across conversions and handling of negated / shared atoms; tests convert single atoms.',
     ['dreal/util/predicate_abstractor.cc'], 'PredicateAbstractor::Convert, Add, operator[]',
     [('formula<->variable maps', 'bijection between atoms and Boolean variables')],
     technique='stateful property-based testing: mapping invariants and semantic equivalence after back-substitution')

prop('C15', 'If-then-else elimination preserves the models',
     'Eliminating if-then-else terms from a formula yields a formula without if-then-else terms that is satisfied by an assignment of the original variables, for some values of the freshly introduced variables, exactly when the original formula is satisfied.',
     ['inputs'], 'all formulas with (nested) if-then-else terms in any argument position',
     'Guards, nesting and placement of the defining constraints; the existing unit test needs IBEX and is not built here.',
     ['dreal/util/if_then_else_eliminator.cc'], 'IfThenElseEliminator::Process',
     [('added formulas', 'defining constraints of the fresh variables')],
     technique='property-based testing: forced extension of generated points decides both directions')

prop('C16', 'Scoped containers roll back exactly',
     'After any sequence of insertions, updates, clears, pushes and pops, the scoped vector, set and map hold exactly the elements that the same history of a model with explicit snapshots holds; popping restores the contents at the matching push, and popping without a push is reported as an error.',
     ['histories'], 'all operation histories, including copies and moves between containers',
     'The undo log must be correct for every history of overlapping updates; tests run a few short scripts.',
     ['dreal/util/scoped_vector.h', 'dreal/util/scoped_unordered_map.h', 'dreal/util/scoped_unordered_set.h'], 'action stack and backtrack points',
     [('backtrack stack', 'positions of the pushes in the undo log')],
     technique='stateful (model-based) property-based testing with address/undefined sanitizers')

prop('C17', 'Integer conversions are exact or refused',
     'Deciding whether a double is an integer (of the range of int) and converting between 64-bit integers, ints and doubles gives exactly the mathematical answer whenever the value is representable, and raises an error (never a wrong value) when it is not.',
     ['inputs'], 'all doubles and all 64-bit integers, in particular around the limits of int and of exactly representable integers',
     'Boundary values of the numeric types; tests sample a few.',
     ['dreal/util/math.cc'], 'is_integer, convert_int64_to_int, convert_int64_to_double',
     technique='property-based testing: boundary-biased generation against exact integer arithmetic')

prop('C18', 'Option values and guards follow their priority and restoration rules',
     'A configuration option always holds the value of the most authoritative source that ever set it (code over command line over file over default; among equal sources the latest), for every order of updates and copies. '
     'Precision, rounding-mode and signal-handler guards restore what they changed on every exit, normal or exceptional, in every nesting, and a timer only accumulates time while it runs.',
     ['histories', 'configurations'], 'all sequences of updates from all sources',
     'Order of updates is a history property; tests perform one or two updates.',
     ['dreal/util/option_value.h', 'dreal/util/precision_guard.cc', 'dreal/util/timer.cc', 'dreal/util/signal_handler_guard.cc', 'dreal/util/rounding_mode_guard.h', 'dreal/solver/config.h'], 'OptionValue, PrecisionGuard, Timer',
     technique='stateful property-based testing against a priority model')

prop('C19', 'The thread pool runs every task exactly once',
     'Every task given to the thread pool runs exactly once, its result or exception reaches its future, and destroying the pool completes all accepted tasks before it returns, for every number of workers and every interleaving of submissions from tasks and from outside.',
     ['schedules', 'histories'], 'all numbers of workers, tasks and submission orders',
     'Loss or duplication of a task depends on timing and on exceptions; the test checks a simple loop.',
     ['third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.h', 'third_party/com_github_progschj_threadpool/ThreadPool/ThreadPool.cc'], 'ThreadPool::enqueue, worker loop, destructor',
     [('tasks queue', 'accepted tasks not yet started')],
     technique='randomised concurrent histories with per-task counters (also under ThreadSanitizer in the thorough tier)')

prop('C20', 'SMT-LIB vocabulary objects carry their contents',
     'SMT-LIB commands, sorts, logics and terms hold and print exactly what they were made of: parsing a sort or logic name gives the named one and rejects all others, a term is an expression or a formula (never both), converts only to its own kind or fails, and substitution in a term acts on its content.',
     ['inputs'], 'all terms, sorts, logics and commands',
     'There is no unit test for these classes at all.',
     ['dreal/smt2/term.cc', 'dreal/smt2/sort.cc', 'dreal/smt2/logic.cc', 'dreal/smt2/command.cc', 'dreal/smt2/command_cell.cc'], 'Term, Sort, Logic, Command')

prop('C21', 'Boxes behave as labelled interval vectors',
     'Over any history of adding variables, setting, bisecting, intersecting, joining, copying and moving, a box holds for every variable exactly the interval the history assigns, copies never influence each other, and its queries (size, emptiness, maximal width, variables, indices) agree with its contents. '
     'Bisecting covers the original box exactly, without losing a point (integer variables: an integer point).',
     ['histories'], 'all histories of box operations over variables of all types',
     'Copy-on-write sharing of the variable tables over histories; the existing unit test needs IBEX and is not built here.',
     ['dreal/util/box.cc', 'dreal/util/interval.cc'], 'Box with shared variable/index tables',
     technique='stateful property-based testing against a map model (IBEX replaced by an outward-rounded interval shim)')

prop('C22', 'Interval evaluation encloses and verdicts are sound',
     'Evaluating an expression over a box yields an interval that contains the value at every point of the box; evaluating a relational formula over a box answers valid only if every point satisfies it and unsatisfiable only if no point does, and otherwise reports an enclosure of the error.',
     ['inputs'], 'all expressions, relations, boxes and points of the boxes',
     'Soundness over all points of all boxes; the existing unit tests need IBEX and are not built here.',
     ['dreal/solver/expression_evaluator.cc', 'dreal/solver/relational_formula_evaluator.cc', 'dreal/solver/formula_evaluator.cc', 'dreal/util/ibex_converter.cc'], 'ExpressionEvaluator, FormulaEvaluator',
     technique='property-based testing: sampled points of generated boxes must lie in the computed enclosures')

prop('C23', 'Contractors never lose a solution',
     'Pruning a box with any contractor or combination of contractors for a set of constraints never removes a point of the box that satisfies the constraints, and never enlarges the box.',
     ['inputs', 'histories'], 'all constraints, boxes, contractor combinations and points',
     'A lost solution turns into a wrong unsat for specific constraints and boxes only; the existing unit tests need IBEX and are not built here.',
     ['dreal/contractor/contractor_ibex_fwdbwd.cc', 'dreal/contractor/contractor_integer.cc', 'dreal/contractor/contractor_seq.cc', 'dreal/contractor/contractor_fixpoint.cc', 'dreal/contractor/contractor_worklist_fixpoint.cc', 'dreal/contractor/contractor_join.cc', 'dreal/contractor/contractor_ibex_polytope.cc', 'dreal/util/ibex_converter.cc', 'dreal/contractor/generic_contractor_generator.cc'], 'Contractor::Prune, IbexConverter',
     technique='property-based testing: known solutions of generated constraints must survive pruning')

prop('C24', 'Pruning explains itself',
     'When pruning empties a box, the constraints reported as its explanation are constraints that were used and are by themselves enough to exclude every point of the original box; when it changes a dimension, that dimension is reported as changed.',
     ['inputs', 'histories'], 'all constraint sets and boxes',
     'Explanations become learned clauses: an explanation that is too small silently excludes satisfiable combinations.',
     ['dreal/contractor/contractor_status.cc', 'dreal/contractor/contractor.cc', 'dreal/contractor/contractor_ibex_fwdbwd.cc', 'dreal/contractor/contractor_integer.cc'], 'ContractorStatus output, used constraints, explanation',
     [('used constraints', 'assertions that contributed to pruning')],
     technique='property-based testing: explanation replayed alone against sampled points')

prop('C25', 'Bound filtering is an exact shortcut',
     'Turning a simple bound assertion into an update of the box keeps exactly the points of the box that satisfy the assertion; an assertion is reported as fully absorbed only if the updated box contains no point (of the variable\'s type) that violates it.',
     ['inputs'], 'all bound assertions (all relations, polarities, constants and sides), variable types and boxes',
     'Open bounds, negative values, equalities and integer variables each take a different path; the existing unit test needs IBEX and is not built here.',
     ['dreal/solver/filter_assertion.cc', 'dreal/util/box.cc'], 'FilterAssertion',
     technique='property-based testing: boundary-point enumeration against the assertion\'s semantics')

prop('C26', 'The SAT layer is sound and complete',
     'Over any history of added formulas, learned clauses, pushes and pops, the SAT layer reports satisfiable exactly when the current formulas are propositionally satisfiable, and every assignment it returns satisfies them.',
     ['inputs', 'histories'], 'all Boolean skeletons and histories',
     'Incremental clause management interacts with predicate abstraction and CNF conversion; the existing test needs IBEX and is not built here.',
     ['dreal/solver/sat_solver.cc', 'dreal/util/predicate_abstractor.cc', 'dreal/util/tseitin_cnfizer.cc'], 'SatSolver',
     technique='stateful property-based testing against truth-table enumeration')

prop('C27', 'Verdicts are sound',
     'When the solver answers unsat, no assignment within the declared bounds and types satisfies the asserted formula; when it answers delta-sat, the returned box lies within the declared bounds and contains only points that satisfy the delta-weakened formula, with integer variables taking integer values.',
     ['inputs', 'configurations'], 'all quantifier-free formulas over bounded variables of all types, precisions and solver settings',
     'The central guarantee of a delta-complete solver quantifies over all formulas and all points; the existing end-to-end tests run fixed benchmarks and need IBEX (not built here).',
     ['dreal/solver/context_impl.cc', 'dreal/solver/theory_solver.cc', 'dreal/solver/icp_seq.cc', 'dreal/solver/icp.cc', 'dreal/api/api.cc'], 'Context::CheckSat, Icp, TheorySolver',
     technique='property-based testing: planted solutions, sampled refutations and model re-evaluation')

prop('C28', 'Incremental solving equals solving from scratch',
     'After any sequence of declarations, assertions (quantified ones included), pushes, pops, changes of the precision and checks, the verdict and model of a check are correct for exactly the assertions and declarations currently in scope and the current precision, and results of earlier checks have no influence.',
     ['histories'], 'all command histories',
     'Caches of contractors, learned clauses and scoped boxes survive across checks; tests run one or two pushes.',
     ['dreal/solver/context_impl.cc', 'dreal/solver/sat_solver.cc', 'dreal/solver/theory_solver.cc', 'dreal/util/scoped_vector.h'], 'ContextImpl with scoped stack, boxes and SAT solver',
     technique='stateful property-based testing: differential against a fresh context and model re-evaluation')

prop('C29', 'Universally quantified constraints are handled soundly',
     'For a formula with universal quantification over bounded variables, unsat is answered only if no assignment of the free variables satisfies it, and a delta-sat answer\'s box contains only points for which no counterexample (within the domains of the quantified variables) violates the body by more than delta.',
     ['inputs'], 'all formulas with one level of universal quantification',
     'The counterexample-guided loop reuses solver state between boxes; tests run fixed examples (not built here).',
     ['dreal/contractor/contractor_forall.h', 'dreal/solver/forall_formula_evaluator.cc', 'dreal/contractor/counterexample_refiner.cc'], 'ContractorForall, ForallFormulaEvaluator',
     technique='property-based testing: brute-force grids over the quantified variables')

prop('C30', 'Optimisation results are feasible and near-optimal',
     'Minimising an objective under constraints returns a box within the declared domains (integer variables at integers) whose points satisfy the delta-weakened constraints, and no point that satisfies the constraints with a margin of delta has an objective value smaller than the returned one by more than twice the precision; it reports no solution only if there is none.',
     ['inputs'], 'all objectives and constraint sets over bounded variables',
     'Optimality quantifies over all feasible points; tests run fixed examples (not built here).',
     ['dreal/api/api.cc', 'dreal/solver/context_impl.cc', 'dreal/contractor/contractor_forall.h', 'dreal/optimization/nlopt_optimizer.cc'], 'Minimize',
     technique='property-based testing: grid of feasible points against the returned objective')

prop('C31', 'SMT-LIB input is understood as written',
     'Running an SMT-LIB script gives, for every check, a verdict that is correct for the formula the script denotes, including let, define-fun, nested connectives, relational chains, numerals of every form, push/pop and options; malformed scripts are rejected with an error and never silently misread.',
     ['inputs', 'programs'], 'all scripts of the supported fragment',
     'Parser, name scoping and term construction quantify over all scripts; tests run fixed files (not built here).',
     ['dreal/smt2/parser.yy', 'dreal/smt2/scanner.ll', 'dreal/smt2/driver.cc'], 'Smt2Driver',
     technique='grammar-based generation: scripts printed from model terms, parsed, evaluated against the model')

prop('C32', '.dr input is understood as written',
     'Running a .dr problem gives a verdict correct for the variables, bounds, constraints and costs the file denotes, with the documented operator precedence and associativity.',
     ['inputs', 'programs'], 'all .dr files',
     'Precedence and section handling quantify over all files; tests run fixed files (not built here).',
     ['dreal/dr/parser.yy', 'dreal/dr/scanner.ll', 'dreal/dr/driver.cc'], 'DrDriver',
     technique='grammar-based generation: files printed from model terms, parsed, evaluated against the model')

prop('C33', 'Decimal literals are enclosed',
     'Converting the text of a number to an interval yields an interval that contains the exact real number the text denotes and is at most one double wide on each side; the text of an exactly representable number may give a point.',
     ['inputs'], 'all decimal texts with sign, fraction and exponent',
     'Rounding in the last place over all decimal strings; the existing test needs IBEX and is not built here.',
     ['dreal/util/string_to_interval.cc', 'dreal/util/rounding_mode_guard.h'], 'StringToInterval',
     technique='property-based testing against exact rational arithmetic')

prop('C34', 'Parallel search agrees with sequential search',
     'For every problem and every number of jobs, parallel branch-and-prune never contradicts sequential search: it never answers unsat when a solution exists and a delta-sat box satisfies the same guarantee.',
     ['schedules', 'inputs'], 'all problems, job counts and interleavings',
     'Termination and hand-over between workers depend on timing; tests run fixed problems (not built here).',
     ['dreal/solver/icp_parallel.cc', 'dreal/contractor/contractor_ibex_fwdbwd_mt.cc', 'dreal/util/cds.h'], 'IcpParallel',
     technique='property-based testing: planted solutions and sampled refutations with several job counts')

prop('C35', 'Structural classification is correct',
     'The classification queries answer exactly for the object at hand: whether an expression is a polynomial, contains an if-then-else, is differentiable; whether a formula is atomic, a clause, in CNF, differentiable; which relation is the negation of which; and numbered vectors of variables and set intersection tests.',
     ['inputs'], 'all expressions and formulas',
     'These flags steer which algorithm is used and must be correct for every nesting; tests check single nodes.',
     [D + 'symbolic_expression_cell.cc', D + 'symbolic_formula_cell.cc', 'dreal/symbolic/symbolic.cc'], 'is_polynomial, include_ite, IsDifferentiable, is_atomic, is_clause, is_cnf, RelationalOperator negation',
     technique='property-based testing against an independent syntactic classification')

prop('C36', 'Local optimisation respects the problem it is given',
     'Numerical local optimisation is set up for exactly the objective, bounds and constraints it is given: every point it reports is within the bounds, has the reported objective value and meets the constraints (weakened by the given amount, within the tolerance of the optimiser), on convex problems it finds the minimum, and refining a counterexample keeps it within the box, changes the universally quantified variables only and never makes it a worse counterexample.',
     ['inputs', 'configurations'], 'all objectives, constraints, bounds, starting points',
     'Gradients, signs and the mapping of variables matter for every shape of objective and constraint; tests run a few fixed problems (not built here).',
     ['dreal/optimization/nlopt_optimizer.cc', 'dreal/contractor/counterexample_refiner.cc', 'dreal/util/nnfizer.cc'], 'NloptOptimizer, CounterexampleRefiner::Refine',
     technique='property-based testing: convex problems with a planted optimum (Karush-Kuhn-Tucker), differential and invariant checks of reported points')

prop('C37', 'The command line configures the run as documented',
     'For every command line, the program runs the front end asked for by --format or the extension on the file or the standard input, with exactly the options given and the defaults elsewhere; set-option commands of the file change only what the command line left alone; the answer is printed in the format the options ask for; and mistakes (no file, several files, missing files, unknown extensions, invalid or missing arguments) are reported with exit status 1 and without an answer.',
     ['inputs', 'configurations'], 'all command lines and files',
     'Combinations of options, aliases, order and contradicting files; no test runs the command line (not built here).',
     ['dreal/dreal_main.cc', 'dreal/solver/config.cc', 'dreal/smt2/run.cc', 'dreal/dr/run.cc', 'dreal/util/filesystem.cc', 'dreal/solver/context_impl.cc'], 'MainProgram, Config, Context::SetOption',
     technique='property-based testing: generated command lines and files against a model of the configuration and of the output')

# filled in below: properties for which a check exists
CLAIMED = {}
NOT_YET = 'the check for this property is not built yet (planned, see DESIGN.md)'


def main():
    checks = {}
    path = os.path.join(VERIF, 'targets', 'CHECKS')
    for line in open(path):
        line = line.split('#')[0].strip()
        if line:
            checks[line.split()[0]] = line
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    notes = {}
    npath = os.path.join(VERIF, 'tools', 'notes.json')
    if os.path.exists(npath):
        notes = json.load(open(npath))
    m = {
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'checks': [],
        'not_applicable': [],
        'notes': 'All checks are generated-input searches; see DESIGN.md. known-findings.txt lists recorded and repaired defects.',
    }
    for p, note, tech in P:
        pid = p['id']
        if pid in checks:
            m['checks'].append({
                'property': pid,
                'quick_cmd': 'python3 tools/run.py %s' % pid,
                'thorough_cmd': 'VERIF_TIER=thorough python3 tools/run.py %s' % pid,
                'technique': tech,
                'level': 'exploration',
                'level_note': notes.get(pid, 'Generated-input search with an explicit oracle and shrinking; establishes the property on the generated cases only. Trusts the harness\'s own evaluators and the compiler.'),
            })
        else:
            m['not_applicable'].append({'property': pid, 'reason': notes.get('na:' + pid, NOT_YET)})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
