"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["gpkit/"+f for f in files],
                               mechanism=[dict(name=n, where="gpkit/"+w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where="gpkit/"+w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

prop("P01", "Expression arithmetic is exact polynomial arithmetic in canonical form",
     "Every expression built with +, -, *, /, **, unary minus, sums and products over variables, numbers and arrays denotes exactly the polynomial that ordinary algebra gives, with no duplicate or zero-coefficient terms and no zero exponents. Two expressions compare (and hash) equal exactly when they denote the same polynomial (in the same units), whatever order they were built in, and operands are never altered by being used.",
     ["inputs", "programs"], "all expression trees over the variables, numbers, integer powers and arrays a user can write",
     "Unit tests evaluate a few dozen hand-written expressions; cancellation, term merging and zero handling depend on the combination of operators and on the order of construction.",
     ["nomials/math.py", "nomials/map.py", "nomials/core.py", "nomials/data.py"],
     [("Signomial arithmetic operators", "nomials/math.py"), ("NomialMap.__add__/mul/HashVector", "nomials/map.py"), ("HashVector", "small_classes.py")],
     observe=["hmap of the resulting expression", "== and hash()"])
prop("P02", "Substitution is evaluation",
     "Substituting values into an expression yields the polynomial obtained by replacing those variables by their values, so substituting a complete assignment gives the numeric value and substituting in two steps gives the same as in one, including values of zero. Only variables that are named are affected, and the original expression is left unchanged.",
     ["inputs", "histories"], "all polynomials, all partial assignments (including zeros), all ways of splitting an assignment into successive substitutions",
     "Tests substitute a handful of values into a handful of posynomials; zero with negative exponents, merging of terms after substitution and multi-step substitution are sampled once or never.",
     ["nomials/substitution.py", "nomials/map.py", "nomials/math.py"],
     [("parse_subs", "nomials/substitution.py"), ("NomialMap.sub", "nomials/map.py"), ("Signomial.sub", "nomials/math.py")],
     observe=["returned expression", "original expression after the call"])
prop("P03", "Derivatives and monomial approximations are exact, tangent and conservative",
     "The derivative of an expression with respect to a variable is the formal partial derivative of its polynomial. A monomial approximation about a point has the value and all first derivatives of the expression at that point, equals the expression if it is already a monomial, and never exceeds a posynomial anywhere.",
     ["inputs"], "all polynomials, variables of differentiation and positive expansion points",
     "A few hand-computed derivatives and approximations are tested; the under-estimation claim quantifies over every evaluation point.",
     ["nomials/map.py", "nomials/math.py", "nomials/data.py"],
     [("NomialMap.diff", "nomials/map.py"), ("NomialMap.mono_approximation", "nomials/map.py"), ("Signomial.diff / chop / mono_lower_bound", "nomials/math.py")],
     observe=["returned expression"])
prop("P04", "Dimensional consistency independent of history",
     "Sums and comparisons of dimensionally compatible quantities are converted to a common unit with the exact conversion factor, incompatible ones raise an error, products and powers multiply and raise units, and dimensionless results carry no unit. The outcome of any such operation depends only on its operands, never on which conversions were performed or which objects existed earlier in the process.",
     ["inputs", "histories"], "all sequences of mixed-unit operations in one process, with operands created and discarded in any order",
     "Tests check single conversions in a fresh process; conversions are cached across the whole process, so errors depend on earlier history.",
     ["units.py", "nomials/map.py", "nomials/math.py", "nomials/substitution.py", "globals.py"],
     [("units.of_division / of_product cache", "units.py"), ("NomialMap.__add__ unit handling", "nomials/map.py"), ("parse_subs unit conversion", "nomials/substitution.py")],
     state=[("division cache", "remembered conversion factors", "units.py")], observe=["coefficients and units of the result", "raised exception"])
prop("P05", "Variable dictionaries resolve every way of naming a variable consistently",
     "In every variable-keyed dictionary (substitutions, solutions, sensitivities), a value stored under any accepted form of a variable's name (the variable, its key, its name, its qualified name, an element or whole of a vector) is visible, replaced and removed under every other form that denotes the same variables and no others. Membership, length, iteration and retrieval agree with the abstract map from variables to values after every history of writes, updates and deletions, and ambiguous or unknown names raise an error.",
     ["histories", "inputs"], "all sequences of set, get, delete, update, membership and iteration over scalar, vector and like-named variables in several namespaces",
     "Six small tests exercise it; the index from names to keys, lazy index completion and vector bookkeeping interact over histories.",
     ["keydict.py", "varkey.py", "small_classes.py"],
     [("KeyMap.parse_and_index/update_keymap", "keydict.py"), ("KeyDict.__setitem__/__getitem__/__delitem__", "keydict.py"), ("VarKey.keys", "varkey.py")],
     state=[("keymap", "name to keys index", "keydict.py"), ("unmapped keys", "keys whose names are not yet indexed", "keydict.py")],
     observe=["return values and exceptions of the dictionary operations"])
prop("P06", "Copies never alias: writing to one never shows in another",
     "A dictionary built from another one, or a model's substitutions handed to another model, holds the same values at the time of the copy, and afterwards a write to either - a whole variable or one element of a vector - is never visible in the other.",
     ["histories"], "all interleavings of copies and element or whole writes among several dictionaries sharing vector values",
     "Tests never write to both sides of a copy; sharing of array storage is an optimisation whose ownership tracking spans several operations.",
     ["keydict.py", "constraints/set.py"],
     [("KeyDict.update ownership transfer", "keydict.py"), ("copy-on-write in __setitem__", "keydict.py"), ("ConstraintSet substitutions merge", "constraints/set.py")],
     state=[("owned", "keys whose array storage is private", "keydict.py")],
     observe=["values read from each dictionary"])
prop("P07", "Declaration environments nest and restore; model namespaces are unique",
     "Entering an environment (signomials allowed, vectorisation, named scope, model setup) affects exactly the declarations made inside it, nested environments compose, and on leaving - normally or by an exception - the previous environment is in force again. Variables made in different model instances are distinct even when the models and variables have the same names, while a model's own instances are numbered by scope and name in order of creation.",
     ["histories", "fault_sequences"], "all nestings and re-entries of the environments with exceptions at any point",
     "Tests enter one environment at a time and never leave by exception or nest the same one.",
     ["globals.py", "constraints/model.py", "nomials/variables.py"],
     [("SignomialsEnabledMeta / NamedVariables / Vectorize context managers", "globals.py"), ("Model.__init__ setup environment", "constraints/model.py"), ("Variable/VectorVariable descriptor creation", "nomials/variables.py")],
     state=[("environment stacks", "current lineage, vectorisation, signomial permission and per-scope counters", "globals.py")],
     observe=["attributes of variables declared", "whether signomial construction is refused"])
prop("P08", "A constraint object means the inequality that was written",
     "For every (in)equality written between expressions, the resulting constraint is satisfied, after substitution, by exactly the assignments satisfying the original inequality: comparison direction, two-sided division, constants and substituted values do not change the feasible set. Inequalities that reduce to always-true are dropped, ones that can never hold are rejected as infeasible, and expressions with negative terms are refused unless signomials are enabled.",
     ["inputs", "configurations"], "all pairs of polynomial expressions, comparison operators and substitutions",
     "Tests check the stored form for a dozen inequalities; equivalence quantifies over expressions, substitutions and assignments.",
     ["nomials/math.py", "constraints/sigeq.py", "constraints/single_equation.py"],
     [("PosynomialInequality._simplify_posy_ineq / _gen_unsubbed / as_hmapslt1", "nomials/math.py"), ("MonomialEquality", "nomials/math.py"), ("SignomialInequality.as_gpconstr", "nomials/math.py")],
     observe=["compiled monomial exponents and coefficients", "exceptions"])
prop("P09", "Composing constraint sets preserves constraints, variables and values",
     "A model assembled from nested lists, dictionaries and sub-models contains exactly the constraints and variables of its parts, in order, each constraint exactly once. Substitutions of the parts are all in force in the whole with later and outer values taking precedence, and lookups by name or by sub-model return exactly the matching variables.",
     ["inputs", "histories"], "all nestings of constraint sets and sub-models and all orders of assigning substitutions",
     "Tests build a few fixed hierarchies.",
     ["constraints/set.py", "constraints/model.py", "constraints/costed.py", "constraints/array.py"],
     [("ConstraintSet.__init__/_update/flat", "constraints/set.py"), ("ConstraintSet.__getitem__/variables_byname", "constraints/set.py"), ("CostedConstraintSet", "constraints/costed.py")],
     observe=["iteration over the flattened set", "substitutions", "name lookups"])
prop("P10", "The compiled geometric program is exactly the substituted model",
     "The numeric problem handed to the solver (coefficients, exponent matrix, posynomial partition, equality constraints) encodes exactly the cost and constraints with the constants substituted: no constraint or term is lost, duplicated or attributed to another, and every free variable has its own column.",
     ["inputs", "programs"], "all GP-compatible models and substitutions",
     "Tests only look at optimal values of a few models; a lost or misattributed slack constraint changes nothing there.",
     ["constraints/gp.py", "constraints/prog_factories.py", "nomials/math.py"],
     [("GeometricProgram.gen", "constraints/gp.py"), ("genA", "constraints/gp.py"), ("progify", "constraints/prog_factories.py")],
     observe=["arguments passed to a user-supplied solver function"])
prop("P11", "Unbounded variables are reported exactly when the constraints leave them so",
     "A model is reported as unbounded in a variable direction exactly when no cost, constraint or equality chain limits that variable from that side, equalities transmitting bounds until a fixpoint is reached. A bounded model raises no such error and every reported direction is truly open.",
     ["inputs", "programs"], "all sign patterns of exponents over cost, inequalities and equalities",
     "Equality chains make this a fixpoint computation over arbitrary graphs; tests have three instances.",
     ["constraints/gp.py", "constraints/set.py", "constraints/bounded.py", "tools/docstring.py"],
     [("GeometricProgram.check_bounds", "constraints/gp.py"), ("ConstraintSet bounded/meq_bounded", "constraints/set.py"), ("add_meq_bounds", "constraints/set.py")],
     observe=["UnboundedGP exception content", "bounded declarations check"])
prop("P12", "Solves are isolated: outcome mapping, stdout, options and failures",
     "Whatever a solver does - succeed, report infeasibility or an unknown status, warn or crash - standard output is restored afterwards, the corresponding typed error is raised, no result is recorded for a failed solve, and no option or state of one solve affects a later one. A later solve of the same model gives the same answer as in a fresh process.",
     ["fault_sequences", "histories"], "all sequences of solves with solver faults, options and verbosity levels",
     "Tests call solve with working solvers; fault sequences and option leakage over several solves are not exercised.",
     ["constraints/gp.py", "constraints/prog_factories.py", "solvers/cvxopt.py", "small_classes.py"],
     [("GeometricProgram.solve", "constraints/gp.py"), ("SolverLog", "small_classes.py"), ("DEFAULT_SOLVER_KWARGS", "constraints/gp.py"), ("run_progsolve", "constraints/prog_factories.py")],
     state=[("default solver options", "module-level", "constraints/gp.py"), ("sys.stdout", "captured during a solve", "small_classes.py")],
     observe=["exceptions", "sys.stdout", "options passed to a user-supplied solver", "model.solution"])
prop("P13", "Solutions are complete, consistent and sensitivities obey the chain rule",
     "A solution gives every variable of the model exactly one value - optimised ones from the solver, constants from the substitutions - and the cost and every constraint evaluate consistently with them. Sensitivity of the cost to each constant equals the total over all constraints and the cost in which it appears, propagated through linked constants, and is the same however the same value is looked up.",
     ["inputs", "programs"], "all GP models, substitutions and solver outputs",
     "Tests compare a few sensitivities; attribution over constraints, equalities and linked constants depends on model structure.",
     ["constraints/gp.py", "nomials/math.py", "constraints/set.py", "solution_array.py"],
     [("GeometricProgram._compile_result/generate_result", "constraints/gp.py"), ("sens_from_dual", "nomials/math.py"), ("ConstraintSet.sens_from_dual", "constraints/set.py")],
     observe=["solution dictionaries"])
prop("P14", "A sweep solves every grid point exactly once, in order, and labels it correctly",
     "Sweeping several variables solves the full grid of swept values (linked sweeps move together), one program per point with all other constants as given; the k-th entry of every result array belongs to the k-th point. With failures skipped exactly the failing points are absent; otherwise a failing point raises.",
     ["inputs", "fault_sequences"], "all sweep grids, vector sweeps and subsets of failing points",
     "Two sweep tests with one and two variables and no failures at chosen points.",
     ["constraints/prog_factories.py", "nomials/substitution.py", "solution_array.py"],
     [("run_sweep", "constraints/prog_factories.py"), ("evaluate_linked / parse_linked", "constraints/prog_factories.py"), ("SolutionArray.append/to_arrays", "solution_array.py")],
     observe=["programs received by a stub solver", "solution arrays"])
prop("P15", "Sweep helpers leave the model as they found it",
     "After a sweep or automatic sweep through the model-level helpers - whether it succeeds or raises - the model's substitutions, cost and constraints are exactly those before the call.",
     ["histories", "fault_sequences"], "all original substitution values (absent, zero, scalar, vector, with units) and all failures",
     "No test checks the model after a failed sweep or with zero/vector originals.",
     ["constraints/model.py", "tools/autosweep.py"],
     [("Model.sweep / Model.autosweep", "constraints/model.py"), ("autosweep_1d", "tools/autosweep.py")],
     observe=["model.substitutions before and after"])
prop("P16", "An automatic sweep covers its interval within tolerance",
     "An automatic sweep returns an ordered, gap-free partition of the requested interval whose end points are the requested bounds; each piece is either refined or its cost bounds differ by no more than the tolerance, and evaluation anywhere inside lies between the lower and upper bound. Every stored solution belongs to its sampled value.",
     ["inputs", "histories"], "all convex cost curves, bounds and tolerances",
     "Two examples are tested; the refinement is recursive and depends on the cost curve.",
     ["tools/autosweep.py"],
     [("autosweep_1d / recurse_splits", "tools/autosweep.py"), ("BinarySweepTree.add_split/sample_at", "tools/autosweep.py"), ("get_tol", "tools/autosweep.py")],
     observe=["returned sweep object", "programs received by a stub solver"])
prop("P17", "Sequential solution ends correctly under every solver behaviour",
     "The iterative signomial solve performs GP solves until the relative cost change meets the tolerance, keeps every intermediate result in order, returns the last one, and never exceeds the iteration limit; exceeding it, an infeasible or failed sub-solve, or a cost that rises are reported as the documented errors or warnings. Each iteration starts from the previous result.",
     ["fault_sequences", "histories"], "all sequences of sub-problem costs and solver failures up to the iteration limit",
     "Real solvers follow one convergent path; tests cannot steer costs or failures.",
     ["constraints/sgp.py"],
     [("SequentialGeometricProgram.localsolve", "constraints/sgp.py"), ("SequentialGeometricProgram.gp", "constraints/sgp.py")],
     observe=["results list", "exceptions and logged warnings", "stub solver calls"])
prop("P18", "Each sequential sub-problem is the model linearised at the current point",
     "At every iteration the GP handed to the solver equals the one obtained by freshly approximating the signomial constraints of the model about the current point: posynomial constraints are unchanged, approximations are exact at the point and conservative everywhere else. Reusing the previous iteration's program never leaves stale or missing data.",
     ["histories", "inputs"], "all signomial models and all sequences of expansion points",
     "Tests compare final optima of convergent runs; staleness during iterations can vanish at the fixpoint.",
     ["constraints/sgp.py", "nomials/math.py", "constraints/gp.py"],
     [("SequentialGeometricProgram.gp / init_gp", "constraints/sgp.py"), ("SignomialInequality.as_approxsgt / as_approxslt", "nomials/math.py")],
     observe=["arguments passed to a user-supplied solver function"])
prop("P19", "Relaxations relax everything, add nothing, and vanish at one",
     "A relaxed program has, for every original constraint (or constant), exactly one relaxation, is no tighter than the original, and coincides with it when its relaxation variables are one; originals are never modified. Constants' relaxation bounds allow the true value, and results map back to original names.",
     ["inputs", "programs"], "all models, nestings and subsets of relaxable constants",
     "Tests relax a two-constraint model.",
     ["constraints/relax.py", "constraints/model.py"],
     [("ConstraintsRelaxedEqually / ConstraintsRelaxed / ConstantsRelaxed", "constraints/relax.py"), ("relax post-processing", "constraints/relax.py"), ("Model.debug", "constraints/model.py")],
     observe=["arguments passed to a stub solver", "solution after processing"])
prop("P20", "Solution-time checks warn exactly when their condition is violated",
     "Constraints marked as expected-tight, expected-loose or bounded produce a warning for a solution exactly when, respectively, the sides differ by more than the tolerance, the sensitivity exceeds the tolerance, or a variable sits at an artificial bound; otherwise they stay silent. Marking a constraint never changes the problem solved.",
     ["inputs"], "all solver outputs and tolerances, nested and approximated constraints included",
     "One test per feature with a real solver.",
     ["constraints/tight.py", "constraints/loose.py", "constraints/bounded.py"],
     [("Tight.process_result", "constraints/tight.py"), ("Loose.process_result", "constraints/loose.py"), ("Bounded.check_boundaries", "constraints/bounded.py")],
     observe=["solution warnings", "program given to a stub solver"])
prop("P21", "Solutions survive saving, loading, indexing and printing unchanged",
     "Saving and re-loading or pickling a solution gives an equal solution and leaves the original intact; picking one point out of a swept solution gives that point's solution. Printing, tabulating, summarising, comparing and plotting-preparation of a solution never change it.",
     ["histories"], "all sequences of read-only operations, saves and loads on scalar, vector, swept and signomial solutions",
     "Tests save once and print once; nothing compares the solution before and after.",
     ["solution_array.py", "varkey.py", "nomials/math.py"],
     [("SolutionArray.save/load/pickle_prep", "solution_array.py"), ("SolutionArray.atindex / table / summary / diff", "solution_array.py"), ("var_table", "solution_array.py")],
     observe=["deep snapshot of the solution"])
prop("P22", "Linked constants always reflect the current values of what they depend on",
     "A variable defined by a function of other constants gets, in every solve, sweep point and result, the value of that function at the constants in force there, including chains of such definitions; a user-given value overrides the function. Changing a constant changes every dependent value in the next solve and never leaves an older value behind.",
     ["histories", "inputs"], "all dependency graphs of linked constants and all sequences of assignments, sweeps and solves",
     "Tests evaluate single-level links once.",
     ["constraints/prog_factories.py", "nomials/substitution.py", "nomials/variables.py"],
     [("evaluate_linked", "constraints/prog_factories.py"), ("parse_subs linked", "nomials/substitution.py"), ("veclinkedfn", "nomials/variables.py")],
     observe=["constants in the result", "coefficients received by a stub solver"])
prop("P23", "Declarations in documentation text create exactly the described variables",
     "Parsing a documentation block creates one variable per declaration line with exactly the stated name, value, units, label and shape, in order, and nothing for other lines; malformed lines raise an error. The declared bounding assumptions are checked exactly: a missing or superfluous declaration raises.",
     ["inputs", "programs"], "all documentation blocks made of well-formed, malformed and unrelated lines",
     "Tests use the few documentation blocks in the example files.",
     ["tools/docstring.py"],
     [("parse_variables / parse_varstring", "tools/docstring.py"), ("variable_declaration", "tools/docstring.py"), ("verify_docstring", "tools/docstring.py")],
     observe=["attributes created on the instance", "exceptions"])
prop("P24", "Printed expressions denote the expression printed",
     "The text (plain or from the expression's own structure) printed for an expression or constraint, read with the usual precedence rules, denotes the same polynomial as the expression. Printing has no effect on later results and is the same whenever repeated.",
     ["inputs", "programs"], "all expression trees and print options",
     "Tests compare a dozen strings.",
     ["repr_conventions.py", "nomials/map.py", "nomials/math.py", "nomials/core.py"],
     [("ReprMixin.parse_ast / parenthesize", "repr_conventions.py"), ("nomial_latex / str_without", "nomials/core.py")],
     observe=["str()"])
prop("P25", "External solver file exchange is faithful and cleans up",
     "The problem written for an external command-line solver contains exactly the coefficients, exponents and partition of the program, the answer read back is exactly what the solver wrote, each abnormal ending maps to the documented error, and no temporary files remain whatever happens.",
     ["fault_sequences", "inputs"], "all GP data and all solver endings (success, infeasible, malformed or missing output, failure to start)",
     "The commercial solver is absent where tests run, so this code is never executed.",
     ["solvers/mosek_cli.py"],
     [("write_output_file / optimize_generator", "solvers/mosek_cli.py"), ("assert_equal / read_vals", "solvers/mosek_cli.py")],
     observe=["file contents seen by a stand-in executable", "returned values", "temporary directory contents"])
prop("P26", "Debugging diagnoses every model truthfully and without side effects",
     "For every model without sweeps, the debugging aid ends without crashing and its diagnosis is truthful: constraints or constants it reports as relaxed are ones whose relaxation the found feasible solution uses, and it leaves the model unchanged.",
     ["programs", "fault_sequences"], "all small models (with and without constants, bounded or not, feasible or not) and all outcomes of the three inner solves",
     "Tests call it on three fixed models.",
     ["constraints/model.py", "constraints/relax.py"],
     [("Model.debug", "constraints/model.py"), ("check_relaxed", "constraints/model.py")],
     observe=["returned solution, printed report and exceptions"])
prop("P27", "Array expressions behave elementwise and keep their shape",
     "Arithmetic, comparison, indexing, sums, products and outer products of variable arrays act on each element as the scalar operation would and give the mathematically expected shape; whole-array and element views of a vector variable always refer to the same scalar variables.",
     ["inputs", "programs"], "all shapes, index expressions and elementwise operations, inside and outside vectorised scopes",
     "Tests use fixed 2- and 3-element arrays.",
     ["nomials/array.py", "nomials/variables.py", "constraints/array.py"],
     [("NomialArray operators", "nomials/array.py"), ("ArrayVariable construction", "nomials/variables.py"), ("ArrayConstraint", "constraints/array.py")],
     observe=["elements and shapes of results"])

prop("P28", "The conic solver interface states exactly the program it was given",
     "The cones, rows, bounds and objective handed to an exponential-cone solver mean exactly the compiled program: the cost is what is minimised and every other posynomial and monomial is at most one, with the same coefficients and exponents. Its answer is decoded exactly: each variable's value, each constraint's dual value whatever mix of posynomials and monomials there is, and each of its endings as the documented outcome.",
     ["inputs", "fault_sequences"], "all programs (any mix of posynomial and monomial constraints), all dual values and solver statuses",
     "The commercial solver is absent where tests run, so this code is never executed.",
     ["solvers/mosek_conif.py"],
     [("optimize", "solvers/mosek_conif.py"), ("GeometricProgram._compile_result", "constraints/gp.py")],
     observe=["the problem put into a stand-in for the solver's module", "solutions and exceptions"])

prop("P29", "Sensitivity diagrams account for every sensitivity exactly once",
     "In a Sankey diagram of a solution every constraint, fixed constant and element of an array flows once, with its own sensitivity (or its sensitivity to the variable asked about), into the array, labelled group or model it is part of, and each of these passes on exactly the sum of what flows in. Culling to the number of links wanted removes only what the documented stages remove and nothing when few enough; clicking shows exactly what is below the node; every diagram starts anew and leaves the solution and variables' names alone.",
     ["inputs", "histories"], "all hierarchies of models, sensitivities, options and sequences of diagrams and clicks",
     "Tests only check that making three diagrams does not raise.",
     ["interactive/sankey.py"],
     [("Sankey.link", "interactive/sankey.py"), ("Sankey.linkfixed", "interactive/sankey.py"), ("Sankey._links_and_nodes", "interactive/sankey.py")],
     observe=["links and nodes of the widget"])

prop("P30", "Taylor expansions are those of the functions named",
     "te_exp_minus1, te_secant and te_tangent of an expression give exactly as many terms as asked for, each being the true Taylor coefficient of exp(p)-1, sec(p) or tan(p) times the right power of the whole expression (sums included, elementwise for arrays); expansions no coefficients are known for are refused, and the argument is left as it was.",
     ["inputs"], "all expressions, numbers of terms",
     "Tests compare the first two or three terms of one variable.",
     ["tools/tools.py"],
     [("te_exp_minus1", "tools/tools.py"), ("te_secant", "tools/tools.py"), ("te_tangent", "tools/tools.py")],
     observe=["the resulting expressions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
