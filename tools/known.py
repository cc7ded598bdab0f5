"""Regenerates known_findings.json (run by hand; no check writes it)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property="P01", match=r"^neg gives a NotImplementedType\|", what="-x with signomials disabled returns the NotImplemented object "
         "(Signomial.__neg__); gpkit/tests/t_vars.py::TestVarKey::test_ast relies on it for arrays, so it is not repaired"),
]
FIXED = [   # property, beginning of the commit's subject, what failed
    ("P05", "deleting from a KeyDict", "after `del d[v[0]]` or `del d['name']` the name index still named deleted keys: membership and lookup disagreed with the contents"),
    ("P05", "names shared by several scalars", "`m.substitutions['x'] = 1` with two different x silently set one of them / an unrelated entry"),
    ("P05", "keep the values of vector variables", "values of vector variables were stored as float32 or truncated to integers"),
    ("P05", "looking up an unknown name", "`'foo' in keyset` / keyset['foo'] added 'foo' to the set's index"),
    ("P05", "substitutions can be deleted", "`del substitutions['x_(0,)']`-style element names raised or deleted the whole vector"),
    ("P06", "KeyDicts never write to an array", "setting an element of a vector in one KeyDict changed the array another KeyDict or the caller held"),
    ("P07", "leaving a nested SignomialsEnabled", "leaving a nested SignomialsEnabled disabled signomials in the enclosing one"),
    ("P01", "expressions that cancel completely", "p - p gave an expression without terms that could not be used (TypeError in y + (x-x)); (x+y)**0 raised AttributeError"),
    ("P01", "comparing a monomial with something", "x == 0, x == -1, 2*x == 3*x raised ZeroDivisionError, InvalidPosynomial, PrimalInfeasible, AttributeError instead of being False"),
    ("P01", "dividing zero by a monomial", "0/x raised AttributeError; sums and products of arrays with a zero entry had zero-coefficient terms or raised InvalidPosynomial"),
    ("P02", "scalar quantities can be substituted", "p.sub({v: 2*units.m}) for a vector variable or an element of it raised ValueError"),
    ("P24", "printed expressions keep all the parentheses", "(x+1)*y*(z+1) kind of products lost parentheses when nested in powers and divisions; (x**2)**3 printed x²³; (-x)**2 printed -x²"),
    ('P08', 'inequalities keep terms whose', "y >= x*y + x was compiled as x²/y... : terms whose exponents coincide with another's after division by the monomial side overwrote each other"),
    ('P08', 'constraints whose every term is substituted', 'x/2 <= 1 with x = 0 substituted raised ZeroDivisionError'),
    ('P08', 'inequalities that are infeasible, one-sided', 'x+1 <= 1 raised ZeroDivisionError; x <= -1 and x >= -1 compiled to wrong forms; signomial inequalities with no positive or no negative terms, or infeasible only when linearised about 1, could not be written'),
    ('P08', 'comparing a numpy number', 'np.float64(2) >= x evaluated to numpy.True_ instead of giving a constraint'),
    ('P13', 'sensitivities of a cost whose', 'sensitivities to constants that merge or reorder terms of the cost: dual values were paired with the wrong unsubstituted terms'),
    ('P13', 'terms that merge before', 'sensitivities of constants in terms that merge while substituting: part of the dual value was lost depending on the order of substitution'),
    ('P13', 'a variable on both sides of a signomial', 'sensitivities in signomial constraints counted a variable that is both in the coefficients and in the denominator twice'),
    ('P08', 'substituting zero into a negative', 'a constant of zero in a denominator compiled to nan and silently dropped the constraint (2*a == 0.25 with a = 0 gave an empty posynomial)'),
    ('P13', 'signomial constraints whose variables cancel', 'AssertionError instead of a result when a variable of a signomial constraint cancelled out of the program'),
    ('P13', 'sensitivities do not depend on other compilations of a constraint', "the maps from compiled back to written terms were stored on the constraint, so a compilation that failed or a second program compiled from the same constraints left maps that were applied to another program's dual solution"),
    ('P22', 'linked variables that depend on other linked variables', 'linked values whose functions read other linked values were evaluated with missing or stale values, and gradients were left over from earlier solves'),
    ('P22', 'linked variables that read a vector wait', 'a link reading a vector with another linked element computed nan and its variable silently became free'),
    ('P22', 'elements of a linked vector can be linked', 'substituting another function for one element of a vector linked by a function was ignored'),
    ('P14', 'any string equal to "sweep"', 'a substitution ("sweep", values) whose string was not the interned literal (built, unpickled or read from a file) was refused or taken for a constant'),
    ('P14', 'sweep results stay aligned', 'when a constraint, sensitivity or warning existed only at some points of a sweep (a swept zero, a warning at one point) appending raised KeyError or shifted the later entries to other points'),
    ('P14', 'sweep points that cannot be feasible', 'with skipsweepfailures a point whose constants make a constraint impossible while compiling aborted the whole sweep'),
    ('P12', 'options of one solve', 'solver options given to one solve were written into DEFAULT_SOLVER_KWARGS and applied to every later solve'),
    ('P12', 'solvers that replace standard output', 'a solver that replaced sys.stdout crashed the solve and left standard output redirected'),
    ('P12', 'failed solves of programs without a model', 'a failing GeometricProgram without a model raised AttributeError instead of the typed error when verbosity > 0'),
    ('P15', 'sweep helpers put back', 'Model.sweep and autosweep dropped an original value of zero, failed for arrays, and left the swept value in place when a solve raised'),
    ('P05', 'an array can replace the sweep', 'writing an array over a vector whose value was a sweep raised AttributeError'),
    ('P21', 'elements of vector variables in swept', 'in a swept solution an element of a vector read the first point of the whole vector (or raised ValueError), and atindex returned one element of a constant vector, or of a warning, instead of the point'),
    ('P14', 'elements of vector variables can be swept', 'sweeping one element of a vector over an array raised ValueError after all points had been solved'),
    ('P14', 'constraints that substitution makes impossible raise', 'a signomial constraint that a point of a sweep makes impossible raised ValueError, which aborted sweeps that skip failures'),
    ('P13', 'linked variables of integer numpy', 'a link with a negative power of a constant stored as a numpy integer lost its gradient (depending on the order of hashing), so the sensitivity stayed with the linked variable'),
    ('P12', 'results of a program belong to its last solve', 'a program solved again without generating a result (gen_result=False), or whose later solve failed, still showed the result of an earlier solve'),
    ('P05', "deleting a vector's element when another element is swept", "del substitutions[w[1]] with w[0] = ('sweep', [1, 2]) raised ValueError"),
    ('P12', 'programs keep the gradients of their own linked variables', "a program object solved (again) after its model had been solved with other constants carried sensitivities through the later solve's gradients"),
    ('P17', 'sequential solves stop at their iteration limit', 'localsolve(iteration_limit=n) performed n+1 solves before raising'),
    ('P17', 'sequential solves go on after a risen cost', 'localsolve(verbosity=-1) ended at a cost that had risen, without any warning'),
    ('P17', 'a failed sequential solve leaves no earlier result', "program.result after a failed localsolve was the earlier solve's"),
    ('P18', 'initial guesses by name', 'x0 by name, as whole vectors or with units was ignored (or, for constants, linearised about a stale value)'),
    ('P18', 'sub-problems have all terms', 'variables with zero exponent at the first guess (x + 1/x at 1) were never updated; rows that appear, vanish or change size between iterations were stale, missing or misplaced; earlier GPs in program.gps were overwritten'),
    ('P13', 'sensitivities of signomial equalities', 'the sensitivity of a SignomialEquality was that of one of its two directions'),
    ('P16', "a model's vector elements", 'model[element] gave the vector with nan for its other elements, so that autosweeping an element raised ValueError'),
    ('P16', 'autosweep bounds where', 'the lower and upper bounds of a piece whose lower bound is 1 at its worst point were those of a straight line'),
    ('P01', 'dividing by integers of numpy', 'dividing by a numpy integer raised ValueError'),
    ('P04', 'cached unit conversions', 'conversion factors were remembered by the ids of unit objects, which are reused'),
    ('P04', 'dimensionless units convert', "sums of dimensionless expressions of which one shows a unit (.to('dimensionless'), ft/inch) raised DimensionalityError"),
    ('P04', 'arrays keep the units', 'arrays times, plus, over or compared with quantities lost the units or raised; NomialArray.prod did not cancel units; NomialArray.sum failed with zeros and quantities'),
    ('P27', 'comparing an expression with', 'a scalar expression compared with a numpy array gave an array of bools'),
    ('P24', 'printing expressions with lists', 'printing array**[1, 2] or array/quantities raised errors'),
    ('P04', 'derivatives convert', 'diff() of an expression in centimeters by a variable in yards gave the bare ratio of magnitudes, without units'),
    ('P09', 'values declared under Vectorize', 'VectorVariable(2,"v",[0.1,0.3]) declared under Vectorize(2) had values rounded to single precision'),
    ('P09', 'a vector is found', 'model[vector] and "vector in model.varkeys" failed until some name had been looked up'),
    ('P19', 'ConstraintsRelaxed relaxes nested', 'ConstraintsRelaxed of a model with nested or vector constraints raised IndexError (too few relaxation variables)'),
    ('P19', 'results of relaxations that had', 'a solution of a relaxation with nothing to relax raised IndexError'),
    ('P19', 'relaxed constants whose names', 'of two relaxed constants whose names print the same only one kept its relaxation constraints'),
    ('P19', 'chains of linked', 'ConstantsRelaxed of chains of linked constants, or of links on swept ones, raised KeyError; links that were not relaxed but whose arguments were lost their values'),
    ('P19', 'relaxed signomial', 'reporting a relaxed signomial constraint raised InvalidPosynomial'),
    ('P19', "an element's sweep", 'sweeping an element of a vector could turn constant elements of it into sweeps, which are not relaxed'),
    ('P26', 'debug models without constants', 'debugging a model without constants, or with only zero or swept ones, raised UnboundLocalError or ValueError'),
    ('P26', 'raise Infeasible when debugging finds nothing', 'a failed solve that debugging could not explain returned None, and Model.solve crashed processing it'),
    ('P26', 'debugging survives models', 'debugging a model that is unbounded as well as infeasible raised UnboundedGP instead of ending with a diagnosis'),
    ('P12', 'do not pass process_result on to solvers', 'solve(process_result=False) handed the option on to the solver, which failed on it'),
    ('P26', 'debug models without constraints', 'debugging a model without constraints crashed'),
    ('P25', 'mosek_cli removes its temp directory', 'a failing external solver left its temporary directory behind'),
    ('P25', 'mosek_cli never reads the solution', 'an external solver that wrote no solution had the solution of an earlier solve at the same path read back'),
    ('P25', 'reject incomplete dual solutions', 'a solver returning too few dual values silently dropped sensitivities, or raised ValueError in the solution check'),
    ('P23', 'declarations in documentation are taken', "a declaration whose text also occurs earlier replaced another one; labels mentioning a heading started a section, labels with backslashes, Variable( or ') were altered; trailing spaces and nameless lines ended in IndexError or UnboundLocalError"),
    ('P23', 'declarations may be read from text', 'parse_variables of a text longer than the lines above the function raised ValueError'),
    ('P23', 'an equality with one variable', 'x == 3 was not counted as bounding x when verifying assumptions'),
    ('P23', 'every missing bound is reported', 'an assumption about a variable outside the model hid a missing bound'),
    ('P23', 'read all the lines of an unbounded', 'only the first line of the last Unbounded section was read; text after a blank line with spaces was read as variables'),
    ('P21', 'summaries do not alter the sensitivities of a solution', 'printing a summary overwrote small sensitivities of vector constants with nan'),
    ('P21', 'tables do not add the names asked for to the solution', "solution.table(showvars=[...]) with an unknown name added an entry to the solution's variables"),
    ('P21', 'solutions saved without constraints can be tabulated', 'table() and summary() of a solution loaded from save(saveconstraints=False) raised KeyError'),
    ('P21', 'solutions with vectors or linked constants can be compared', 'almost_equal and diff(senssdiff=True) raised for vector constants, or for variables without sensitivities'),
    ('P21', 'swept vectors can be compared with those of one solution', 'diff of a swept solution with one of its points raised, or compared the wrong elements of vectors'),
    ('P21', 'cost sensitivities to elements of vectors are indexed in sweeps', "atindex left the cost's sensitivities to elements of vectors as arrays over the whole sweep"),
    ('P21', 'nomials loaded in another process equal those made there', 'nomials pickled in one process and loaded in another (with another hash seed) equalled no others and did not combine'),
    ('P21', 'tables that fail leave the names of variables as they were', 'after table() raised for a wrong option, every later print named variables with their lineage'),
    ('P21', 'solutions saved without constraints can be saved again', 'saving a solution loaded from save(saveconstraints=False) raised KeyError'),
    ('P21', 'latex tables of models without variables', 'table(latex=1, included_models=[...]) raised UnboundLocalError if a table had no such variables'),
    ('P21', 'constants that are zero in both solutions can be compared', 'diff(showvars=[...]) of a constant that is zero raised TypeError'),
    ('P17', 'sequential solves notice rising costs', 'sequential solves of programs with small costs (below the absolute tolerance) never noticed a rising cost'),
    ('P29', 'each Sankey diagram starts anew', 'a second diagram of the same Sankey kept the links and nodes of the first'),
    ('P29', 'Sankey diagrams of nested models keep', 'diagrams of a model with a dotted name lost their first level of links, however few'),
    ('P29', 'Sankey diagrams of a variable beside', 'diagrams of a variable raised AttributeError if a constraint always holds and so is not in the program'),
]
EXTRA = os.path.join(HERE, "tools", "known_more.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
fixed = []
for pid, subj, what in FIXED:
    h = [a for a, b in log if b.startswith("fix: " + subj)]
    assert len(h) == 1, (subj, h)
    fixed.append("fixed: property=%s %s %s" % (pid, h[0], what))
missing = [b for a, b in log if b.startswith("fix:") and not any(b.startswith("fix: " + s) for _, s, _ in FIXED)]
if "-f" not in sys.argv: assert not missing, missing
json.dump(dict(findings=FINDINGS, fixed=fixed), open(HERE + "/known_findings.json", "w"), indent=1)
