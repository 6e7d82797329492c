"""C22: solving problems with closed-form optima, end to end."""
import copy
import functools

import numpy as np

from vmc import analytic

RULE = ('One execution = one problem with a closed-form optimum x method x control treatment x solver and solver options x '
        'automatic scaling x symmetry reduction x continuation to other constants, solved by the public solve(); every '
        'solution returned is compared with the closed form: end time, cost, states, controls, stationarity.')
ASSUMPTIONS = ['problems with closed-form optima; accuracy 2e-3 of magnitude (both solvers stop at residuals of 1e-4..1e-6)']


def solver(kind):
    import beluga
    k = kind.split(':')
    if k[0] == 'spbvp':
        return beluga.bvp_algorithm('spbvp', **(dict(max_nodes=2000) if len(k) > 1 else {}))
    kw = dict(num_arcs=int(k[1])) if len(k) > 1 else {}
    return beluga.bvp_algorithm('Shooting', algorithm=k[2] if len(k) > 2 else 'Armijo', **kw)


def compare(ctx, case, names, sol, what):
    const = dict(zip(names, sol.const))
    T, J, X, U = case.exact(const)
    ctx.check(bool(sol.converged), what + ': an easy problem was not solved', const=const)
    t0 = const.get('t_0', 0.0)
    tol = 2e-3
    ctx.close([sol.t[0], sol.t[-1]], [t0, T], what + ': wrong end time', rtol=tol, atol=tol)
    ctx.close(sol.cost, J, what + ': wrong cost', rtol=5e-3, atol=tol)
    ref = np.array([X(t) for t in sol.t])
    sc = 1 + np.max(np.abs(ref))
    ctx.close(sol.y / sc, ref / sc, what + ': wrong states', rtol=0, atol=tol)
    if case.params is not None:
        ctx.close(sol.dynamical_parameters, case.params(const), what + ': wrong parameters', rtol=0, atol=tol)
    if U is not None:
        ref = np.array([U(t) for t in sol.t])
        sc = 1 + np.max(np.abs(ref))
        got = np.asarray(sol.u, dtype=float)
        if case.name == 'steer':
            got = np.arctan2(np.sin(got), np.cos(got))
        ctx.close(got / sc, ref / sc, what + ': wrong controls', rtol=0, atol=2 * tol)


def optimum(ctx, P):
    import beluga
    name = ctx.choose('problem', P['problems'])
    case = analytic.CASES[name]
    method, control = ctx.choose('method', case.methods)
    sym = bool(case.symmetric) and method == 'diffyg' and ctx.flag('reduction')
    opts = dict(control_method=control)
    if sym:
        opts['reduction'] = True
    for o in P['flags']:
        if o == 'analytical_jacobian' and not (control == 'differential'):
            continue
        if ctx.flag(o):
            opts[o] = True
    alg = ctx.choose('solver', P['solvers'])
    autoscale = ctx.flag('autoscale')
    how = ctx.choose('continuation', P['continuation'])
    prob = case.problem(symmetry=sym)
    names = list(case.consts)
    if how == 'none':
        steps = None
    else:
        steps = beluga.init_continuation()
        st = steps.add_step(how)
        st.num_cases(4)
        for k, v in case.targets.items():
            st.const(k, v)
    given = copy.deepcopy(opts)
    out = beluga.solve(ocp=prob, method=method, optim_options=opts, bvp_algorithm=solver(alg), steps=steps,
                       guess_generator=case.guess(), autoscale=autoscale, save_sols=False)
    ctx.check(opts == given, 'the options were modified')
    ctx.check(len(out) == 1 and len(out[0]) == (1 if how == 'none' else (4 if how in ('manual', 'bisection') else len(out[0]))),
              'wrong number of solutions', n=[len(o) for o in out])
    for i, sol in enumerate(out[0]):
        compare(ctx, case, names, sol, 'case %d' % i)
    if how != 'none':
        last = dict(zip(names, out[0][-1].const))
        for k, v in case.targets.items():
            ctx.close(last[k], v, 'the last case is not the target', rtol=1e-9)
    ctx.state(name, method, control, sym, opts, alg, autoscale, how, out[0][-1].cost)


def plan(kind, case):
    import beluga
    steps = beluga.init_continuation()
    half = {k: (case.consts[k][0] + 2 * v) / 3 for k, v in case.targets.items()}
    for i, how in enumerate(kind):
        s = steps.add_step(how) if how != 'sparse_product' else steps.add_step(how, num_subdivisions=((2,) * len(half), (1,) * len(half)))
        if how in ('manual', 'bisection'):
            s.num_cases(3)
        elif how == 'productspace':
            s.num_subdivisions(3)
        for k, v in (case.targets if i == len(kind) - 1 else half).items():
            s.const(k, v)
    return steps


def routes(ctx, P):
    """Every kind of continuation, alone and chained: every solution on the way is an optimum."""
    import beluga
    case = analytic.CASES[ctx.choose('problem', P['problems'])]
    kind = ctx.choose('steps', P['plans'])
    method, control = ctx.choose('method', case.methods)
    alg = ctx.choose('solver', P['solvers'])
    autoscale = ctx.flag('autoscale')
    more = ctx.choose('guess', P['guesses'])
    mode = dict(more).get('mode', 'auto')
    prob = case.problem()
    out = beluga.solve(ocp=prob, method=method, optim_options=dict(control_method=control), bvp_algorithm=solver(alg),
                       steps=plan(kind, case), guess_generator=case.guess(**dict(more)), autoscale=autoscale, save_sols=False)
    names = list(case.consts)
    ctx.check(len(out) == len(kind), 'wrong number of steps', n=len(out))
    for j, part in enumerate(out):
        ctx.check(len(part) >= 3, 'too few cases', n=len(part))
        for i, sol in enumerate(part):
            compare(ctx, case, names, sol, 'step %d case %d' % (j, i))
    seen = [dict(zip(names, s.const)) for s in out[-1]]
    ctx.check(any(all(abs(c[k] - v) < 1e-9 for k, v in case.targets.items()) for c in seen), 'the targets were not reached')
    ctx.state(case.name, kind, method, control, alg, autoscale, mode, out[-1][-1].cost)


def brachistochrone(ctx, P):
    """The problem of the documentation: matched constants, bisection, reduction, scaling by states."""
    import beluga
    case = analytic.CASES['brach']
    method, control = ctx.choose('method', P['methods'])
    sym = ctx.choose('symmetries', [0, 1, 2]) if method == 'diffyg' else 0
    opts = dict(control_method=control)
    if sym:
        opts['reduction'] = True
    if control == 'differential' and ctx.flag('analytical_jacobian'):
        opts['analytical_jacobian'] = True
    prob = case.problem()
    for f, un in case.symmetric[:sym]:
        prob.symmetry(f, un)
    steps = beluga.init_continuation()
    st = steps.add_step('bisection').num_cases(P['cases'])
    for k, v in case.targets.items():
        st.const(k, v)
    out = beluga.solve(ocp=prob, method=method, optim_options=opts, bvp_algorithm=solver(ctx.choose('solver', P['solvers'])), steps=steps,
                       guess_generator=case.guess(use_control_guess=True), initial_helper=True, autoscale=True, save_sols=False)
    for i, sol in enumerate(out[-1]):
        if sol.const[1] > 1e-3:         # the first case is a free fall
            compare(ctx, case, list(case.consts), sol, 'case %d' % i)
    ctx.close(out[-1][-1].const[1:], [1.5, -1.2], 'the last case is not the target')
    ctx.state(method, control, sym, opts, out[-1][-1].cost)


HARNESSES = dict(
    routes=dict(fn=routes, rule='kinds of continuation and of guesses', timeout=300,
                quick=dict(problems=['lqr', 'soft', 'timed'], plans=[('bisection',), ('productspace',), ('sparse_product',),
                                                                     ('manual', 'productspace'), ('bisection', 'manual')],
                           solvers=['spbvp'], guesses=[()]),
                thorough=dict(problems=['di', 'lqr', 'soft', 'timed', 'share', 'head', 'named', 'chase'],
                              plans=[(a,) for a in ('bisection', 'productspace', 'sparse_product')]
                              + [(a, b) for a in ('manual', 'bisection', 'productspace') for b in ('manual', 'bisection', 'sparse_product')],
                              solvers=['spbvp', 'shooting'], guesses=[()])),
    guesses=dict(fn=routes, rule='other guesses and algorithms', timeout=300,
                 quick=dict(problems=['di', 'lqr', 'share'], plans=[('manual',)], solvers=['spbvp', 'shooting:1:fsolve', 'shooting:2:hybr'],
                            guesses=[(), (('mode', 'ones'),)])),
    brachistochrone=dict(fn=brachistochrone, rule='brachistochrone', timeout=300,
                         quick=dict(methods=[('traditional', 'differential'), ('diffyg', 'differential')], solvers=['spbvp'], cases=6),
                         thorough=dict(methods=[(m, c) for m in ('traditional', 'diffyg') for c in ('differential', 'algebraic')],
                                       solvers=['spbvp'], cases=6)),
    features=dict(fn=optimum, rule='problems with more features', timeout=300,
                  quick=dict(problems=analytic.MORE, flags=[], solvers=['spbvp', 'shooting'], continuation=['manual'])),
    optimum=dict(fn=optimum, rule='every combination of problem and options', timeout=300,
                 quick=dict(problems=analytic.BASIC, flags=['analytical_jacobian'], solvers=['spbvp', 'shooting', 'shooting:3'],
                            continuation=['none', 'manual']),
                 thorough=dict(problems=list(analytic.CASES), flags=['analytical_jacobian'],
                               solvers=['spbvp', 'shooting', 'shooting:2', 'shooting:3', 'shooting:4'],
                               continuation=['none', 'manual', 'bisection'])),
)
