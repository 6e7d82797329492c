"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, claim=True, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, claim=claim, observe=observe))


CONT = 'beluga/continuation/continuation.py'
GUESS = 'beluga/continuation/guess_generators.py'
NUM = 'beluga/numeric/data_classes/NumericProblem.py'
MAP = 'beluga/numeric/data_classes/trajectory_mappers.py'
TRAJ = 'beluga/numeric/data_classes/Trajectory.py'
SYM = 'beluga/symbolic/data_classes/symbolic_problem.py'
STR = 'beluga/symbolic/data_classes/components_structures.py'
FUN = 'beluga/symbolic/data_classes/mapping_functions.py'
DG = 'beluga/symbolic/differential_geometry/differential_geometry.py'
SHO = 'beluga/numeric/bvp_solvers/Shooting.py'
SPB = 'beluga/numeric/bvp_solvers/SPBVP.py'
IVP = 'beluga/numeric/ivp_solvers/ivpsol.py'
COMP = 'beluga/numeric/compilation/component_compilation.py'
JIT = 'beluga/numeric/compilation/jit.py'
LC = 'beluga/numeric/compilation/LocalCompiler.py'
BEL = 'beluga/beluga.py'
CF = 'beluga/symbolic/special_functions/custom_functions.py'
TAB = 'beluga/symbolic/special_functions/tables.py'
FD = 'beluga/numeric/numerical_derivatives/finite_diff.py'
CSD = 'beluga/numeric/numerical_derivatives/complex_step.py'
STO = 'beluga/utils/storage.py'
LOG = 'beluga/utils/logging.py'
TESTS = 'The repository\'s tests run a handful of fixed problems with one option set each; '

prop('C01', 'Continuation visits exactly the advertised cases for every solver history',
     'A continuation step begins at the constants it is handed, visits exactly the intermediate cases its strategy '
     'advertises (linear, logarithmic, product or sparse-product spacing) and ends at the requested targets, whatever '
     'sequence of converged and failed verdicts the boundary-value solver returns. A manual step gives up on the first '
     'failure; a bisection step subdivides between the last converged and the failed case, gives up if its first case '
     'fails or if a further failure follows more than the allowed number of consecutive subdivisions, and product '
     'steps only require their first case. Using the same steps again behaves as if they were fresh.',
     ['histories', 'configurations'],
     'all converge/fail answer sequences (bounded number of failures), strategies, spacings, case counts, variables, '
     'chained steps and re-runs',
     TESTS + 'they only ever see histories in which every case converges.',
     [CONT], [dict(name='strategy iterators', where=CONT), dict(name='continuation driver', where=CONT)],
     'stateless model checking of the real continuation code against a reference strategy model',
     'All solver verdict sequences up to the failure bound in lock step with a reference model.')

prop('C02', 'Continuation warm-starts from the closest solution and records every result',
     'Every case is attempted from the converged solution of the current step whose constants are closest to the '
     'case (or, if there is none yet, from the trajectory the step was started with), carrying the constants of the '
     'case. Every attempt, converged or not, is recorded once, in order and unaltered, one list per step, and a step '
     'starts from the last solution of the step before it. Nothing the solver does to the trajectories it was given or '
     'returned, with or without automatic scaling, changes the caller\'s guess or any recorded solution.',
     ['histories', 'configurations'],
     'all converge/fail answer sequences, strategies, step chains, scaling on/off and start constants within bounds',
     TESTS + 'no test lets a case fail or looks at which guess was used.',
     [CONT, NUM], [dict(name='closest-solution selection', where=CONT), dict(name='driver loop', where=CONT)],
     'stateless model checking of the real continuation driver with a scripted solver and reference record',
     'Adversarial scripted solver (tags results, scribbles over buffers); every verdict sequence up to the bound.')

prop('C03', 'Automatic scaling is invertible and leaves the solved problem unchanged',
     'Scaling a trajectory and scaling it back with the same factors returns the original trajectory, and the factors '
     'of every quantity follow from the declared units and scale expressions. For a dimensionally consistent problem '
     'the derived equations of motion, boundary conditions and quadratures of the scaled trajectory are those of the '
     'unscaled trajectory expressed in the scaled units, and solving with scaling on or off gives the same solution.',
     ['programs', 'inputs', 'configurations'],
     'all problem features, unit systems, methods and unit factors in the bounded alphabet',
     TESTS + 'scaled and unscaled derivations are never compared.',
     [NUM, FUN, STR, CONT], [dict(name='scale factor computation', where=NUM),
                             dict(name='units of derived quantities', where=FUN)],
     'exhaustive enumeration of bounded problem grammar and unit changes; covariance checked on the compiled BVP',
     'Every problem in the bounded grammar under every unit change in the alphabet.')

prop('C04', 'Mapping a trajectory to the solver problem and back loses nothing',
     'For every combination of problem features and solution options, a trajectory in the user\'s variables that is '
     'carried to the boundary-value problem and back returns with the same time, states, costates, controls, '
     'parameters, quadratures and constants. Intermediate solver trajectories carried back and forth are preserved in '
     'the same way.',
     ['programs', 'inputs', 'configurations'],
     'all pipelines (method, control method, reductions, constraint treatments) and trajectory shapes within bounds',
     TESTS + 'the maps are exercised in one direction on a few problems.',
     [MAP, FUN], [dict(name='trajectory mappers', where=MAP), dict(name='map chain', where=SYM)],
     'exhaustive enumeration of pipelines and trajectory shapes through the real map chain, identity oracle',
     'Every pipeline in the bounded option set, every trajectory shape in the alphabet.')

prop('C05', 'The derived boundary-value problem states the first-order necessary conditions',
     'For every problem, the derived boundary-value problem is equivalent to the first-order necessary conditions: '
     'state equations as written, costate rates equal to minus the gradient of the Hamiltonian, a control that keeps '
     'the Hamiltonian stationary (the one with the least Hamiltonian where there are several), user boundary '
     'conditions, transversality conditions with initial and terminal costs, and the free-time condition. This holds '
     'for both formulations (traditional and differential-geometric), for algebraic and differential control, and '
     'whether or not time is made a state and normalised to the unit interval.',
     ['programs', 'configurations', 'inputs'],
     'all problems in a bounded grammar (dynamics, costs, constraints, parameters), both methods, both control methods, '
     'all points of a grid',
     TESTS + 'wrong multipliers or rates only show up as a different optimum on problems that are not tested.',
     [FUN, DG, NUM], [dict(name='dualisation', where=FUN), dict(name='control laws', where=FUN)],
     'bounded-exhaustive enumeration of OCP programs, real derivation compared with an independent reference',
     'Every program of the bounded grammar, compared pointwise with a reference derivation written independently.')

prop('C06', 'Removing a symmetry leaves the dynamics and conditions of the rest unchanged',
     'Reducing a problem along declared symmetries (any subset, in any order of declaration and of states) replaces each '
     'symmetric state and its costate by a quadrature and a constant of motion, and changes nothing else: at the same '
     'point the reduced problem has the same rates for the remaining states, costates and controls, the quadratures have '
     'the rates of the states they replace, the boundary residuals are the same and the units are consistent.',
     ['programs', 'configurations', 'inputs'],
     'all subsets and orders of cyclic states, state orders, terminal conditions, time normalisation on/off, grid points',
     TESTS + 'reduced and unreduced derivations are never compared.',
     [FUN, DG, MAP], [dict(name='Mishchenko-Fomenko reduction', where=FUN), dict(name='Noether', where=FUN)],
     'bounded-exhaustive enumeration of programs and symmetry subsets; reduced and unreduced compiled problems compared',
     'Every program, symmetry subset and order of the alphabet, compared with the unreduced problem pointwise.')

prop('C07', 'Inequality constraints become penalties of the right shape, each exactly once',
     'A path, initial or terminal inequality constraint is replaced by a penalty on its expression that is zero at the '
     'middle of the bounds, symmetric, convex in between and unbounded at either bound, weighted by its activator, and '
     'added exactly once to the cost of its location. A control bounded with the epsilon-trigonometric method never '
     'leaves its bounds whatever the solver\'s control value, and the error term of the method is subtracted once with '
     'its own activator. Constraints that lack a bound or an activator, or name an unknown method, are refused.',
     ['programs', 'inputs', 'configurations'],
     'every ordered pair of constraints of the alphabet (location x expression x bounds x method), grid points up to the bounds',
     TESTS + 'no test combines constraints or evaluates a penalty.',
     [FUN, SYM], [dict(name='UTM and epsilon-trig transformations', where=FUN)],
     'bounded-exhaustive enumeration of constraint combinations against explicitly penalised reference programs',
     'Every ordered pair of constraints of the alphabet, derived problem compared with the penalised program.')

prop('C08', 'Quantities and switches mean their definition, in any order and any place',
     'A named quantity can be declared in any order relative to the quantities it uses and can appear in dynamics, costs, '
     'constraints and bounds; the derived problem is the one obtained by writing every definition out in full. A switch '
     'evaluates to the sum of its segment functions, each weighted by the product over its conditions of the smooth gate '
     '1/(1 + exp(condition/tolerance)), so that a segment counts only where all of its conditions are negative.',
     ['programs', 'configurations', 'inputs'],
     'all declaration orders of all quantity graphs up to depth 4, all places of use, all switch shapes in the alphabet',
     TESTS + 'nested quantities are used in one order in one problem.',
     [FUN, SYM, STR], [dict(name='quantity substitution and sorting', where=FUN), dict(name='switch compilation', where=FUN)],
     'bounded-exhaustive enumeration of quantity graphs and orders against an independent expansion',
     'Every declaration order of every graph and every place of use, compared with the written-out program.')

prop('C09', 'Requests that cannot be honoured are refused and leave the problem unchanged',
     'Declaring a name twice (for any pair of kinds of named quantities), applying a transformation before the steps it '
     'depends on or after it has been superseded, and ill-formed declarations, options and solver settings raise an error '
     'instead of producing a wrong problem; the rejected declaration leaves the problem as it was. The corresponding '
     'well-formed request is accepted.',
     ['inputs', 'histories'],
     'all ordered pairs of declaration kinds, every transformation at every stage, every ill-formed call in the alphabet',
     TESTS + 'almost no test looks at rejections.',
     [SYM, FUN, LC, CONT], [dict(name='name registry', where=LC), dict(name='sensing decorators', where=SYM)],
     'bounded-exhaustive enumeration of declaration pairs and stage orders on the real classes',
     'All ordered pairs of declaration kinds and every transformation at every stage.')

prop('C17', 'User functions and tables act as the formulas and data they stand for',
     'A custom function used anywhere in a problem, with any arguments (expressions, constants, nested calls), gives the '
     'same derived problem as its formula written out, including first and second partial derivatives taken numerically. '
     'A spline table passes through its data, is evaluated at and beyond the ends with the end segments, and its '
     'derivatives are those of the spline. Finite-difference weights and numerical derivatives are exact for the '
     'polynomials they are designed for.',
     ['programs', 'inputs'],
     'all argument forms x places of use x methods in the alphabet; all table shapes and evaluation points; all orders and stencils',
     TESTS + 'one function is used in one problem, with plain symbols as arguments.',
     [CF, TAB, FD, CSD], [dict(name='custom function derivative naming', where=CF), dict(name='splines', where=TAB)],
     'bounded-exhaustive enumeration of argument forms and places against the written-out formula',
     'Every argument form and place of use of the alphabet, compared pointwise with the written-out program.')

prop('C18', 'What is saved is what is loaded, and a failed save costs nothing',
     'Loading a file returns exactly what was last saved to it (solution sets, problem and boundary-value problem, '
     'whichever were given), independent of earlier saves, other files and later changes to the saved objects; loaded '
     'problems still evaluate and map trajectories as before. A save that fails leaves an existing file as it was.',
     ['histories', 'fault_sequences'],
     'all histories of saves, failing saves and loads up to the depth bound over two files and all content subsets',
     TESTS + 'one save and one load.',
     [STO, TRAJ, SYM, CF], [dict(name='save and load', where=STO)],
     'explicit-state exploration of save/load histories on a scratch directory against a reference file map',
     'All save/fail/load histories up to the depth bound.')

prop('C24', 'The cost reported with a trajectory is the objective along it',
     'For every problem and solution option, the cost stored with a trajectory returned to the user is the initial cost '
     'plus the terminal cost plus the integral of the running cost along that trajectory in the user\'s time, states, '
     'controls, parameters and constants.',
     ['programs', 'inputs', 'configurations'],
     'all programs of the grammar, both methods, both control methods, time spans and meshes in the alphabet',
     TESTS + 'costs are only compared for a few converged solutions.',
     [MAP, NUM, FUN], [dict(name='cost computation', where=NUM)],
     'bounded-exhaustive enumeration of programs and trajectories, cost compared with adaptive integration',
     'Every program and time span of the alphabet.')


prop('C10', 'Compiled functions compute the derived expressions, Jacobians their derivatives',
     'The functions a problem is compiled to (equations of motion, boundary conditions, quadratures, control, cost) compute '
     'the derived expressions at every point, with just-in-time compilation on or off and whatever the shapes of arguments '
     'and results; the analytic Jacobians are the derivatives of those functions with respect to states, parameters and '
     'quadratures, and solving with them gives the solutions found without them.',
     ['programs', 'inputs', 'configurations'],
     'all programs, option sets and expression and argument shapes of the alphabet',
     TESTS + 'Jacobians are used in a few examples and never compared with the functions they belong to.',
     [COMP, JIT, LC, NUM, FUN], [dict(name='lambdify and jit', where=COMP), dict(name='analytic Jacobians', where=FUN)],
     'bounded-exhaustive enumeration of programs and option sets, compiled by the real compiler, against an independent derivation and difference quotients',
     'Every program and option set of the alphabet, with and without just-in-time compilation.')

prop('C11', 'A solver reports convergence only for solutions of the problem it was given',
     'When a solver (shooting with any algorithm and number of arcs, or collocation) reports convergence, the returned '
     'trajectory satisfies the differential equations between its nodes, the quadratures their rates, and the boundary '
     'conditions to its tolerance; otherwise, including unsolvable problems and exhausted iteration budgets, it reports '
     'failure. A guess and its constants are not altered, and a solution used as a guess converges to itself.',
     ['inputs', 'configurations'],
     'all problems, solvers, algorithms, arcs, tolerances, iteration budgets and guesses of the alphabet',
     TESTS + 'solvers run to convergence on solvable problems.',
     [SHO, SPB], [dict(name='convergence verdict', where=SHO), dict(name='collocation', where=SPB)],
     'bounded-exhaustive enumeration of solver configurations and guesses with independent re-integration of every result',
     'Every configuration of the alphabet; verdict compared with independently recomputed residuals.')

prop('C12', 'A solver object can be used again and gives the answer of a fresh one',
     'Whatever problems a solver object has solved, failed on or been given before (other dimensions, with or without '
     'quadratures, parameters and analytic Jacobians, other functions set in between), its next answer is the one a newly '
     'made solver would give, and earlier answers stay as they were.',
     ['histories'],
     'all sequences of problems and function exchanges up to the depth bound, per solver configuration',
     TESTS + 'every test makes a new solver.',
     [SHO, SPB], [dict(name='per-problem state kept by the solvers', where=SHO)],
     'explicit-state exploration of solve histories on one solver object against fresh solvers',
     'All sequences up to the depth bound.')

prop('C13', 'Solving with a pool of processes gives the serial answer for every schedule',
     'Shooting with a process pool gives exactly the serial result whatever the order in which the pool executes its tasks '
     'and whether the tasks share memory or are serialised; a failing worker surfaces as an error and does not produce a '
     'wrong answer or disturb a later serial solve.',
     ['schedules', 'fault_sequences'],
     'all execution orders of the tasks of each parallel map (period up to two), arcs, algorithms and failing tasks in the alphabet',
     TESTS + 'no test uses a pool.',
     [SHO, BEL], [dict(name='parallel propagation of the arcs', where=SHO)],
     'stateless exploration of all task schedules of the real solver under a controlled pool, bit-for-bit against the serial run',
     'All permutations of the tasks of each map, plus real pools.')

prop('C14', 'Propagation solves the equations over the whole span, quadratures included',
     'Propagating a system from an initial point returns a trajectory that starts there, covers the requested span in order '
     '(forward or backward) with no step longer than allowed, follows the exact solution to tolerance, and carries '
     'quadratures equal to their initial values plus the integrals of their rates, for every stepper, step policy and '
     'reconstruction mode; the arguments are not altered.',
     ['inputs', 'configurations'],
     'all systems, spans, steppers, step limits, reconstruction modes and initial points of the alphabet; every sub-interval of nodes and midpoints',
     TESTS + 'two systems are propagated forward with default settings.',
     [IVP], [dict(name='propagator', where=IVP), dict(name='quadrature reconstruction', where=IVP)],
     'bounded-exhaustive enumeration of propagations on the real code against closed-form solutions and integrals',
     'Every combination of the alphabet.')

prop('C15', 'A trajectory evaluates its current data and copies of it are independent',
     'A trajectory called at times within its span returns its own nodes at the nodes and the chosen interpolation between '
     'them, for every number of states, quadratures, controls and nodes and either direction of time; it reflects every '
     'change made to its arrays, keeps its interpolation through copies, wrapping and serialisation, refuses times outside '
     'its span, and changes to a copy never reach the original.',
     ['histories', 'inputs'],
     'all shapes of the alphabet; all histories of changes and copies up to the depth bound',
     TESTS + 'one or two shapes are interpolated once.',
     [TRAJ], [dict(name='interpolation', where=TRAJ)],
     'explicit-state exploration of mutation and copy histories against a reference interpolation',
     'All shapes and histories within the bounds.')

prop('C16', 'The initial guess is the one that was asked for',
     'The guess handed to the solver has the requested states, costates, controls, parameters, duration and direction in the '
     'user\'s variables, follows the equations of motion (or is constant, or is the given trajectory, as requested) and '
     'carries the default constants, or the endpoint values where constants are matched to the guess; meaningless settings '
     'are refused; settings and user trajectories are not altered and a generator can be used again.',
     ['programs', 'inputs', 'configurations'],
     'all programs, methods, guess modes and combinations of settings of the alphabet',
     TESTS + 'each example uses one fixed set of settings and only needs the solver to converge from it.',
     [GUESS, BEL, MAP], [dict(name='guess generator', where=GUESS)],
     'bounded-exhaustive enumeration of generator settings through solve() with an echoing solver',
     'Every combination of settings of the alphabet.')

prop('C19', 'Composing transformations means applying them one after another',
     'However transformations of a problem are composed (product, either shift, powers, copies, any bracketing, with or '
     'without augmented assignment), the composition applies exactly its parts in order; composing never changes the parts, '
     'a composition can be applied again, and meaningless powers are refused.',
     ['histories', 'programs'],
     'all sequences of composition operations up to the depth bound; all bracketings of the real derivation',
     TESTS + 'one pipeline is composed in one way.',
     [FUN], [dict(name='GenericFunctor', where=FUN)],
     'explicit-state exploration of composition sequences against lists of transformations',
     'All sequences within the depth bound.')

prop('C20', 'Messages go to the console and the log file according to their levels',
     'After any history of logger configurations a message appears once on the console if and only if its level reaches the '
     'display level, and once in the requested log file if and only if a file was requested and its level reaches the file '
     'level; no other file is written and nothing is duplicated.',
     ['histories', 'configurations'],
     'all pairs of configurations over all levels and two files, a message of every level after each',
     TESTS + 'logging is not tested.',
     [LOG, BEL], [dict(name='logger configuration', where=LOG)],
     'explicit-state exploration of configuration histories against a reference of console and files',
     'All histories of two (thorough: three) configurations.')

prop('C21', 'Solving depends only on its inputs, leaves them alone and saves what it returns',
     'What solve() returns for a problem, plan, guess and solver does not depend on what was solved before with the same '
     'objects; the problem and options are left as they were, earlier results stay valid; giving the derived problem and '
     'its maps explicitly gives the same result; a file is written exactly when and where requested and holds what was '
     'returned; ill-formed requests are refused.',
     ['histories', 'configurations'],
     'all histories of calls over shared objects up to the depth bound; all problems of the alphabet',
     TESTS + 'every test solves one problem once.',
     [BEL, CONT, GUESS, LC], [dict(name='solve', where=BEL)],
     'explicit-state exploration of call histories on shared objects against first calls of fresh sessions',
     'All histories within the depth bound.')

prop('C22', 'Solutions are optimal whichever method, control, solver and scaling is used',
     'For problems with a known optimum every combination of derivation method, control treatment, symmetry reduction, '
     'analytic Jacobians, solver, number of arcs, automatic scaling and continuation returns converged solutions whose '
     'duration, cost, states and controls are those of the optimum for the constants of each case.',
     ['programs', 'configurations'],
     'all problems with closed-form optima of the alphabet and all combinations of options',
     TESTS + 'each example is solved with one combination and only its cost or end state is compared.',
     [BEL, FUN, CONT, SHO, SPB, NUM, MAP], [dict(name='solve', where=BEL)],
     'bounded-exhaustive enumeration of problems and option combinations through solve() against closed-form optima',
     'Every combination of the alphabet.')

prop('C23', 'The differential-geometric operators satisfy their defining identities',
     'The exterior derivative has the defining components, squares to zero and obeys the product rule; Hamiltonian vector '
     'fields satisfy Hamilton\'s equations for every form and conserve their Hamiltonian; forms are recognised as '
     'symplectic only if even-dimensional and antisymmetric; the conserved quantity of a constant symmetry generates it; '
     'total derivatives obey the chain rule.',
     ['inputs'],
     'all functions, forms, fields and small matrices of the alphabet',
     TESTS + 'two forms are differentiated.',
     [DG], [dict(name='exterior calculus', where=DG)],
     'bounded-exhaustive enumeration of forms and functions against the defining identities',
     'Every form and function of the alphabet.')


# ---------------------------------------------------------------- output
def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                    quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=p['mech']))) + '\n')
    checks, na = [], []
    for p in P:
        if p['claim'] and os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            checks.append(dict(property=p['id'], quick_cmd='./run.sh %s quick' % p['id'],
                               thorough_cmd='./run.sh %s thorough' % p['id'], technique=p['technique'],
                               level='model_checking', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['claim'] and 'check not built yet' or p['note']))
    json.dump(dict(version=1, setup_cmd='./run.sh selftest', checks=checks, not_applicable=na),
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
