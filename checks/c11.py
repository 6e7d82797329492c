"""C11: the solvers' verdicts are honest and their solutions solve the problem they were given."""
import copy

import numpy as np
from scipy.integrate import solve_ivp

from vmc import bvps

RULE = ('One execution = one boundary-value problem x solver x algorithm x number of arcs x tolerance x iteration budget x '
        'starting guess, solved by the real solver; the verdict is compared with the boundary residual and the differential '
        'equations re-integrated independently between the returned nodes.')
ASSUMPTIONS = ['problems: thirteen small boundary-value problems (linear, nonlinear, free duration, multipliers, quadratures, '
               'three without a solution)',
               'residual threshold: the tolerance (Armijo, norm), its square root (scipy algorithms, squared norm) or 1e-3 '
               'times the scale (collocation)']

ROOTS = ['hybr', 'lm', 'broyden1', 'krylov', 'df-sane', 'anderson', 'linearmixing', 'excitingmixing', 'diagbroyden',
         'broyden2']
MINS = ['SLSQP', 'COBYLA', 'trust-constr', 'BFGS', 'Nelder-Mead', 'Powell', 'CG', 'L-BFGS-B', 'TNC']


def make(ctx, P, b):
    from beluga.numeric.bvp_solvers import Shooting, SPBVP
    name = ctx.choose('solver', P['solvers'])
    if name == 'spbvp':
        kw = dict(max_nodes=ctx.choose('max_nodes', P['max_nodes'])) if P.get('max_nodes') else {}
        return name, 'collocation', SPBVP(**kw), 1, dict(tol=1e-3)
    alg = ctx.choose('algorithm', P['algorithms'])
    arcs = ctx.choose('arcs', P['arcs'])
    tol = ctx.choose('tolerance', P['tol'])
    kw = dict(algorithm=alg, num_arcs=arcs, tolerance=tol)
    it = ctx.choose('max_iterations', P['iters'])
    if it is None and not b.feasible:
        it = 12
    if it is not None:
        kw['max_iterations'] = it
    me = ctx.choose('max_error', P.get('max_error', [None]))
    if me is not None:
        kw['max_error'] = me
    ivp = ctx.choose('ivp', P.get('ivp', [None]))
    if ivp is not None:
        kw['ivp_args'] = dict(ivp)
    thr = tol if alg.lower() == 'armijo' else np.sqrt(tol)
    return name, alg, Shooting(**kw), arcs, dict(tol=thr)


def segments(b, sol):
    """Largest mismatch when the equations are integrated afresh over each returned segment."""
    worst, wq = 0.0, 0.0
    p, k = sol.dynamical_parameters, sol.const
    idx = range(len(sol.t) - 1)
    for i in idx:
        if sol.t[i + 1] == sol.t[i]:
            continue

        def rhs(t, z):
            d = np.asarray(b.f(z[:b.n], p, k), dtype=float)
            return np.hstack((d, np.asarray(b.qf(z[:b.n], p, k), dtype=float))) if b.nq else d
        z0 = np.hstack((sol.y[i], sol.q[i])) if b.nq else sol.y[i]
        r = solve_ivp(rhs, (sol.t[i], sol.t[i + 1]), z0, rtol=1e-9, atol=1e-11).y[:, -1]
        worst = max(worst, np.max(np.abs(r[:b.n] - sol.y[i + 1])))
        if b.nq:
            wq = max(wq, np.max(np.abs(r[b.n:] - sol.q[i + 1])))
    return worst, wq


def same(a, b):
    return all(np.array_equal(np.asarray(getattr(a, f)), np.asarray(getattr(b, f)), equal_nan=True) for f in
               ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'))


def judge(ctx, b, solver, alg, thr, guess, before, r, span):
    sol = r['sol']
    ctx.check(same(guess, before), 'the guess handed to the solver was modified')
    ctx.check(bool(r['success']) == bool(sol.converged), 'success flag and trajectory flag disagree',
              success=r['success'], converged=sol.converged)
    ctx.check(np.array_equal(sol.const, before.const), 'the constants of the solution are not those of the guess')
    if not bool(sol.converged):
        return False
    ctx.check(b.feasible, 'a problem without solution was reported as solved', residual=b.residual(sol))
    ctx.check(len(sol.t) >= 2 and np.all(np.diff(sol.t) >= 0), 'solution times are not increasing', t=sol.t)
    ctx.close([sol.t[0], sol.t[-1]], span, 'the solution does not cover the interval of the problem', atol=1e-12)
    ctx.check(sol.y.shape == (len(sol.t), b.n), 'wrong shape of states', shape=sol.y.shape)
    ctx.check(len(sol.dynamical_parameters) == len(b.p) and len(sol.nondynamical_parameters) == len(b.nd),
              'wrong number of parameters')
    if b.nq:
        ctx.check(sol.q.shape == (len(sol.t), b.nq), 'wrong shape of quadratures', shape=sol.q.shape)
    res = np.linalg.norm(b.residual(sol))
    slack = 1e-3 * 5 if alg == 'collocation' else thr * (1 + 1e-6) + 1e-9
    ctx.check(res <= slack, 'reported as converged although the boundary conditions are not met', residual=res,
              allowed=slack, message=r.get('message'))
    wy, wq = segments(b, sol)
    lim = 2e-3 if alg == 'collocation' else thr + 2e-5
    ctx.check(wy <= lim, 'the solution does not satisfy the differential equations', mismatch=wy)
    ctx.check(wq <= max(lim, b.qtol), 'the quadratures are not the integrals of their rates', mismatch=wq)
    return True


def honest(ctx, P):
    b = bvps.ALL[ctx.choose('problem', P['problems'])]
    name, alg, solver, arcs, info = make(ctx, P, b)
    span = ctx.choose('span', P['spans'])
    kind = ctx.choose('guess', P['guesses'])
    jac = ctx.flag('analytic jacobians') if name == 'spbvp' else False
    bvps.install(solver, b, jac)
    guess = b.guess(kind, span)
    before = copy.deepcopy(guess)
    try:
        r = solver.solve(guess)
    except RuntimeError as e:      # documented refusal: not-a-number residuals
        ctx.check('nan' in str(e).lower(), 'unexpected refusal %r' % e)
        ctx.state(b.name, name, alg, arcs, kind, 'nan')
        return
    ok = judge(ctx, b, solver, alg, info['tol'], guess, before, r, list(span))
    must = P.get('must') and getattr(solver, 'max_iterations', 100) == 100 and getattr(solver, 'max_nodes', 2000) == 2000 and b.feasible and b.exact is not None and alg in ('collocation',) + tuple(P['must'])
    if must and not kind.endswith('far'):
        ctx.check(ok, 'a well-posed problem with a good guess was not solved', message=r.get('message'))
    if ok and b.exact is not None:
        x = b.exact(b.const, r['sol'].t, span)
        lim = (8e-3 if alg == 'collocation' else 60 * info['tol'] + 2e-4) * (1 + np.max(np.abs(x)))
        err = np.max(np.abs(x - r['sol'].y))
        ctx.check(err <= lim, 'the solution is not the solution of the problem', error=err, allowed=lim)
    ctx.state(b.name, name, alg, arcs, kind, span, ok)


def again(ctx, P):
    """Solving from a solution returns that solution; the verdict does not depend on earlier calls."""
    b = bvps.ALL[ctx.choose('problem', P['problems'])]
    name, alg, solver, arcs, info = make(ctx, P, b)
    span = (0.0, 1.0)
    bvps.install(solver, b)
    g = b.guess('five', span)
    r1 = solver.solve(copy.deepcopy(g))
    if not r1['success']:
        ctx.state(b.name, name, alg, 'not solved')
        return
    s1 = copy.deepcopy(r1['sol'])
    r2 = solver.solve(r1['sol'])
    ctx.check(same(r1['sol'], s1), 'the solution used as a guess was modified')
    ok = judge(ctx, b, solver, alg, info['tol'], r1['sol'], s1, r2, list(span))
    if alg in ('collocation', 'Armijo'):
        ctx.check(ok, 'a solution is not accepted as a guess for its own problem', message=r2.get('message'))
        if b.exact is not None:
            x = b.exact(b.const, r2['sol'].t, span)
            ctx.check(np.max(np.abs(x - r2['sol'].y)) <= (8e-3 if alg == 'collocation' else 60 * info['tol'] + 2e-4) *
                      (1 + np.max(np.abs(x))), 'the second solution is wrong')
    ctx.state(b.name, name, alg, arcs, ok)


GOOD = ['oscillator', 'duration', 'multiplier', 'mixed', 'quadrature', 'only-quad', 'duffing', 'eigen', 'many', 'steep']
BAD = ['stuck', 'no-root', 'no-root-param']
HARNESSES = dict(
    newton=dict(fn=honest, timeout=100, rule='collocation and Armijo shooting, all problems',
                quick=dict(problems=GOOD + BAD, solvers=['spbvp', 'shooting'], algorithms=['Armijo'], arcs=[1, 2, 3],
                           tol=[1e-4, 1e-6], iters=[None, 1], spans=[(0.0, 1.0), (0.5, 1.7)],
                           guesses=['two', 'uneven', 'five:far'], max_nodes=[2000, 6], must=['Armijo']),
                thorough=dict(problems=GOOD + BAD, solvers=['spbvp', 'shooting'], algorithms=['Armijo'],
                              arcs=[1, 2, 3, 4, 6], tol=[1e-2, 1e-4, 1e-6], iters=[None, 0, 1, 2],
                              spans=[(0.0, 1.0), (0.5, 1.7), (-1.0, -0.2)], max_error=[None, 0.5],
                              guesses=['two', 'two:far', 'uneven', 'uneven:far', 'five', 'five:far'],
                              max_nodes=[2000, 20, 6], must=[],
                              ivp=[None, (('stepper', 'RK23'), ('maxstep', 0.05)),
                                   (('variable_step', False),), (('stepper', 'LSODA'), ('abstol', 1e-9))])),
    arcs=dict(fn=honest, timeout=100, rule='more arcs',
              quick=dict(problems=['oscillator', 'mixed', 'quadrature', 'only-quad', 'many', 'steep'], solvers=['shooting'],
                         algorithms=['Armijo'], arcs=[4, 5], tol=[1e-4], iters=[None], spans=[(0.0, 1.0)],
                         guesses=['uneven', 'five:far'], must=['Armijo'])),
    scipy=dict(fn=honest, timeout=200, rule='the scipy root finders and minimisers',
               quick=dict(problems=['oscillator', 'duration', 'quadrature', 'stuck', 'no-root'], solvers=['shooting'],
                          algorithms=['fsolve', 'hybr', 'lm', 'SLSQP', 'BFGS', 'krylov'], arcs=[1, 2], tol=[1e-4],
                          iters=[None, 1], spans=[(0.0, 1.0)], guesses=['two', 'five:far'], must=['fsolve', 'hybr', 'lm']),
               thorough=dict(problems=GOOD + BAD, solvers=['shooting'], algorithms=['fsolve'] + ROOTS + MINS, arcs=[1, 2],
                             tol=[1e-4], iters=[None], spans=[(0.0, 1.0)], guesses=['two', 'five:far'])),
    again=dict(fn=again, timeout=100, rule='solutions as guesses',
               quick=dict(problems=GOOD, solvers=['spbvp', 'shooting'], algorithms=['Armijo'], arcs=[1, 2],
                          tol=[1e-4], iters=[None]),
               thorough=dict(problems=GOOD, solvers=['spbvp', 'shooting'], algorithms=['Armijo', 'fsolve', 'hybr', 'lm'],
                             arcs=[1, 2, 3], tol=[1e-2, 1e-4, 1e-6], iters=[None, 1])),
)
