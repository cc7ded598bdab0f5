"""Writes /verif/MANIFEST.json.  CLAIMS: property -> (technique, level, level_note)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"
TABLE = "TLA+ state machine (TLC), its whole state graph replayed in the real code"
TRACE = "TLA+ specification (TLC) evaluating behaviours recorded from the real code"
CLAIMS = {
 "P05": (TABLE, MC, "Every transition of the abstract dictionary over 7 universes of like-named scalars and vectors is replayed from its shortest path, plus all 2-step, sampled 4-step and random 40-step histories; the complete read interface is compared with the specification. Trusts TLC and the driver's comparison; bounded to the universes listed."),
 "P06": (TABLE, MC, "As P05 with two or three dictionaries that are copied, merged, given the same array and written to through arrays read from them."),
 "P01": (TRACE, MC, "Programs over expressions (enumerated pairs of small polynomials with every operation, and random ones) run in the real code; Nomial.tla (exact rational polynomials, its algebraic laws checked exhaustively by TLC in NomialLaws) recomputes every result, its canonical form, class, equality, hash and the operands' immutability. Bounded by 4 variables, 8 terms, rational numbers of at most 16 bits."),
 "P02": (TRACE, MC, "As P01 with substitution steps: partial, complete and two-step assignments in every accepted way of writing them (names, keys, whole vectors, quantities, monomials), compared with PSubst in Nomial.tla."),
 "P03": (TRACE, MC, "As P01 with derivatives, monomial approximations (tangency in exact rationals, conservativeness at probe points) and chop."),
 "P24": (TRACE, MC, "As P01; the printed text is parsed with the usual precedence rules and the parse tree evaluated in the specification must be the expression's polynomial; printed twice with different exclusions."),
 "P08": (TRACE, MC, "Constraint.tla gives the meaning and the posynomial <= 1 form of every (in)equality (form and meaning compared at points by TLC, ConstraintLaws); pairs of small polynomials and random programs are written as constraints in the real code with partial substitutions and every compiled form is compared."),
 "P10": (TRACE, MC, "Program.tla derives from a model (cost, constraints, substitutions) the numeric program the solver must receive; random models with units, vectors, nested constraint lists and changing substitutions are solved with a stand-in solver in the real code and every call's matrices are decoded back into polynomials and compared by TLC. Bounded by 9 variables, 4 random constraints (plus bounds) and rational coefficients."),
 "P13": (TRACE, MC, "SessionTrace.tla derives from the stand-in solver's answer (chosen primal and dual values) what the solution has to say: values, free/constant split, constraint sensitivities, and variable sensitivities with the chain rule through linked constants, over several solves with overridden, deleted and relinked substitutions."),
 "P14": (TRACE, MC, "SessionTrace.tla (sweep branch): the grid of all combinations visited as nested loops in some order of the swept variables; every solver call and every result of recorded sweeps (vector and element sweeps, linked constants, failing and impossible points, skipped or not) must be the one of its point."),
 "P11": (TRACE, MC, "Bounds.tla defines which sides of which variables a program limits (least fixpoint over equalities of Program.tla's posynomials); random models full of equalities, with constants added step by step, are compiled in the real code and the reported set, and whether UnboundedGP is raised by gp() and solve(), must be exactly Open(P). Bounded by 9 variables and about 10 constraints."),
 "P12": (TRACE, MC, "SessionTrace.tla: every solve of a recorded sequence (stand-in solver functions, and stand-ins for cvxopt's gp routine behind the real adapter) must have the outcome the specification derives from that solve's own substitutions, options and solver answer, whatever happened before: failures of every kind, noisy solvers that replace stdout, options, verbosities, program objects solved again, sweeps in between."),
 "P15": (TRACE, MC, "SessionTrace.tla, solves through Model.sweep over variables with any former value (absent, zero, constant, linked, swept, vector element), with failing points and exceptions of every kind: the outcome is that of a sweep and the model (substitutions, cost, constraints) is as before."),
 "P22": (TRACE, MC, "SessionTrace.tla keeps the substitutions as a state machine and evaluates links by value in dependency order for every solve and sweep point of recorded sessions with chains, overrides, new functions and deletions; values and coefficients in every solver call and result are compared."),
 "P17": (TRACE, MC, "SgpLoop.tla (the loop under any solver: limit, tolerance, rises, failures; safety and termination checked by TLC); recorded sequential solves of random signomial models with scripted costs, failures, limits, tolerances and re-used programs must follow it (SessionTrace, Iterate): number of solves, outcome, warnings, every intermediate result, the final one."),
 "P18": (TRACE, MC, "Sgp.tla builds the sub-problem about a rational point (tangent monomials, slack and penalty, constants; tangency and conservativeness checked by TLC in SgpLaws); every sub-problem of recorded sequential solves is decoded from the solver's matrices by tag bounds and compared with it at the point the specification derives from guesses, constants and former answers; sensitivities and values of the solution too. Bounded by 3 free variables, 2 signomial constraints, small points."),
 "P20": (TRACE, MC, "SessionTrace.tla (Warnings): for constraint sets marked Tight, Loose or Bounded, nested in each other, the warnings due at a solution are computed from the exact values and dual values (edges within rounding excepted); solves, sweep points and sequential solves of recorded sessions must carry exactly these, the marks must not change the program, and a program's own solve must warn of nothing."),
 "P19": (TRACE, MC, "RelaxTrace.tla derives from a model the one each relaxation has to be (every constraint's greater side, every named constant that is not zero, linked ones by value, the cost with the relaxation variables), what a solution of it says (old constants' sensitivities, which relaxations are reported and how large) and keeps both models' substitutions as separate state; recorded sessions relax models with links, vectors, units, sweeps and nested constraints and solve originals and relaxations in turn."),
 "P16": (TRACE, MC, "Autosweep.tla works in exact logarithms: the optimal cost is the largest of some lines, tangents and chords bound it; TLC checks on small instances that the bounds enclose the optimum and that refining at the worst point terminates and covers (AutosweepLaws). Recorded automatic sweeps of random models (scalars, elements, linked constants, units, failing solves, any former value) must have the partition, splits, solves, bounds and samples the specification computes exactly (AutosweepTrace)."),
 "P04": (TRACE, MC, "Units.tla gives every expression a polynomial in base units and a vector of dimensions, so outcomes depend on the operands alone; random programs (sums, products, powers, conversions, substitutions, derivatives, comparisons of mixed units, objects coming and going between steps) run in the real code, thousands in one process, and every shown coefficient, unit, refusal and compiled constraint is compared. Laws of the specification checked in ExprLaws. Bounded by two unit tables, 10 variables, rational coefficients."),
 "P27": (TRACE, MC, "Arrays.tla (shapes, broadcasting, indexing, reductions, products; laws checked by TLC in ExprLaws) over Units.tla's elements; random programs over arrays, declared in and out of Vectorize, run in the real code; every shape, element, comparison (array constraint, its shape and compiled elements) is compared. Bounded by shapes of at most 12 elements."),
 "P09": (TRACE, MC, "Composition.tla: constraint sets over sets as a state machine (which constraints and variables a set holds, where each value moves when a set is built over others, assignments, lookups); its laws (values never lost, precedence, each constraint once) checked by TLC in CompositionLaws; random hierarchies of lists, dictionaries, arrays, sets, models and sub-models with setup, vectorised or not, are built, written to and looked up in the real code and every step compared. Bounded by about 9 sets and 24 variables."),
 "P07": (TABLE, MC, "Environments.tla (signomials, vectorisation, namespaces, model set-up, exceptions) explored completely by TLC; every transition and random deep sequences are replayed in the real context managers and model classes."),
 "P23": (TRACE, MC, "Doc.tla is a machine that reads a documentation block line by line (sections, declarations, malformed lines, assumptions of unboundedness with conditions) and the closure of the limited sides of variables through equalities; DocLaws checks the machine against a definition over whole blocks for all blocks of up to 6 lines and the closure against directions of escape; DocTrace validates modules the driver writes (random blocks with awkward labels, values, units, layouts; constraints; sub-models; vectorised) - the variables created, in order with name, value, units, label, shape and constancy, and whether defining or making the model raises."),
 "P25": (TRACE, MC, "SessionTrace.tla with the command-line solver as the session's solver: a stand-in executable (a script that hands its arguments to a thread of the driver) reads the problem file with an independent parser, and the polynomials it finds must be the specified program's; it answers with chosen numbers, or ends abnormally (certificates, other statuses, exit codes, no file, lost lines or values, garbled numbers, not startable); results, errors and what remains in the temporary and user directories must be what the specification says."),
 "P28": (TRACE, MC, "Conic.tla says what a conic problem (bounds, exponential cones, rows, objective) means as a geometric program; ConicLaws checks by TLC that the usual encoding of every small program means that program and that spoiling any part of it is noticed. A stand-in for MOSEK's Python module keeps what recorded sessions (random models, substitutions, sweeps) put into it; its meaning must be the specified program (SessionTrace, CallConic), and values, dual values (negative ones count as zero), errors and results of chosen answers and failures must be the specified ones. Not covered: what the real MOSEK makes of the calls."),
 "P29": (TRACE, MC, "Sankey.tla specifies the tree of flows of a hierarchy of constraint sets (constraints, arrays, labelled groups, models with their constants and vectors of equal elements) and the stages by which links are culled; SankeyLaws checks by TLC on all small hierarchies that flows are conserved, that the whole is the sum of all parts, and that culling only removes, removes nothing if few enough and never everything. Random nested models are solved with a stand-in solver with exact dual values; SankeyTrace recomputes every diagram (with and without a variable, any options, several per object) and every click from the sensitivities and compares all links, values, colours and titles."),
 "P30": (TRACE, MC, "Taylor.tla generates the derivatives at zero of sec + tan with Entringer's triangle in natural numbers of any size (Big.tla) and the expansions of polynomials from them; TaylorLaws checks with TLC that these series satisfy exp' = exp, tan' = 1 + tan^2, sec' = sec tan, and big arithmetic against small. TaylorTrace recomputes recorded expansions: of random sums exactly, of monomials (scalars and arrays) with up to 18 terms to ten digits (secants beyond the twelfth term, which gpkit documents nothing better for, to one percent).") ,
 "P26": (TRACE, MC, "DebugTrace.tla (EXTENDS RelaxTrace) specifies diagnosing as stages - the model itself (when a solve failed), every constant relaxed with every variable bounded, every constraint relaxed with every variable bounded - with the program each stage has to solve, which stage's solution is the diagnosis, which bounds, constants and constraints it must name with which values, what is printed, and what is raised or returned if no stage helps; recorded sessions diagnose models (with and without constants, constraints, links, units, bounds) under scripted outcomes of the inner solves, some near the extreme bounds."),
 "P21": (TRACE, MC, "Sol.tla: what a solution holds, and points, elements and constraint-less copies of it (SolLaws: indexing a stack of solutions gives them back, and commutes with elements and copies); SolTrace.tla keeps registers of solutions of random models (sub-models with like-named variables, vectors, units, zero and linked constants, marks, signomials, sweeps) and validates recorded histories of printing with every option, saving and loading in every way (also in another process with another hash seed), indexing, reading, evaluating, comparing, failing and solving again: no register, model or printed name ever changes, new registers hold exactly what the specification says, equal questions on equal solutions have equal answers, and printed tables, csv and mat files show exactly the values held."),
}
NOT_YET = "no check built for it yet"
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
try:
    exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
except FileNotFoundError:
    pass
m = dict(version=1, setup_cmd="sh setup.sh", checks=[], not_applicable=[],
         notes="Checks copy /repo's working tree to a scratch directory and import gpkit from there; no hooks are needed (behaviour is observed through the public API and stand-in solver functions), so there is no guard.")
for p in props:
    if p["id"] in CLAIMS:
        t, l, n = CLAIMS[p["id"]]
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                                thorough_cmd="python3 check.py %s thorough" % p["id"],
                                technique=t, level=l, level_note=n, evidence_file="evidence/%s.json" % p["id"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=NOT_YET))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
