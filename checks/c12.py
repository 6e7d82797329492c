"""C12: a solver used for several problems gives each the answer a fresh solver would give."""
import copy

import numpy as np

from vmc import bvps
from checks.c11 import same

RULE = ('One execution = one sequence of problems (with and without quadratures, parameters, analytic Jacobians; different '
        'dimensions) and guesses solved by one solver object, including calls that fail; every answer is compared with the '
        'answer of a solver object made for that problem alone.')
ASSUMPTIONS = ['problems of the C11 alphabet; sequences up to the length in the evidence']


def factory(ctx, P):
    from beluga.numeric.bvp_solvers import Shooting, SPBVP
    kind = ctx.choose('solver', P['solvers'])
    if kind == 'spbvp':
        return kind, lambda *a: SPBVP(*a)
    arcs, alg = kind
    return kind, lambda *a: Shooting(*a, num_arcs=arcs, algorithm=alg, max_iterations=10)


def outcome(solver, guess):
    try:
        r = solver.solve(guess)
    except Exception as e:
        return type(e).__name__, None, None
    return bool(r['success']), r['sol'], r.get('message')


def same_sol(a, b):
    return all(np.array_equal(np.asarray(getattr(a, f)), np.asarray(getattr(b, f)), equal_nan=True) for f in
               ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'))


def sequence(ctx, P):
    kind, new = factory(ctx, P)
    n = ctx.choose('length', P['lengths'])
    solver = new()
    hist, kept = [], []
    for i in range(n):
        name = ctx.choose('problem %d' % i, P['problems'])
        b = bvps.ALL[name]
        jac = hasattr(b, 'fj') and ctx.choose('jacobians %d' % i, P['jac'])
        const = b.const if (i % 2 == 0 or not ctx.choose('other constants %d' % i, P['other'])) else b.const * 1.1
        gk = ctx.choose('guess %d' % i, P['guesses'])
        g = b.guess(gk, (0.0, 1.0), const=const)
        bvps.install(solver, b, jac)
        got = outcome(solver, copy.deepcopy(g))
        fresh = new()
        bvps.install(fresh, b, jac)
        want = outcome(fresh, copy.deepcopy(g))
        ctx.check(got[0] == want[0] and got[2] == want[2], 'a used solver and a fresh one disagree about success',
                  used=(got[0], got[2]), fresh=(want[0], want[2]), history=hist)
        if want[1] is not None:
            ctx.check(same_sol(got[1], want[1]), 'a used solver and a fresh one give different solutions', history=hist)
            kept.append((got[1], copy.deepcopy(got[1])))
        for s, c in kept:
            ctx.check(same_sol(s, c), 'an earlier solution changed when the solver was used again', history=hist)
        hist.append((name, jac, gk, got[0]))
        ctx.state(kind, hist, got[1].y if got[1] is not None else None)


def replace(ctx, P):
    """Exchanging one function of a solver is the same as making a solver with the new set of functions."""
    kind, new = factory(ctx, P)
    pairs = [('oscillator', 'duffing'), ('stuck', 'oscillator'), ('oscillator', 'no-root')]
    a, b = (bvps.ALL[n] for n in ctx.choose('problems', pairs))
    how = ctx.choose('made by', ['constructor', 'setters'])
    solver = new(a.f, None, a.bc) if how == 'constructor' else bvps.install(new(), a)
    run_before = ctx.flag('used before the exchange')
    k = np.array([0.9, 0.3, 1.1])
    if run_before:
        outcome(solver, a.guess('five', (0.0, 1.0), const=k))
    f, bc = a.f, a.bc
    for what in ctx.choose('exchange', [['f'], ['bc'], ['f', 'bc'], ['bc', 'f']]):
        if what == 'f':
            f = b.f
            solver.set_derivative_function(f)
        else:
            bc = b.bc
            solver.set_boundarycondition_function(bc)
    g = a.guess('five', (0.0, 1.0), const=k)
    got = outcome(solver, copy.deepcopy(g))
    want = outcome(new(f, None, bc), copy.deepcopy(g))
    ctx.check(got[0] == want[0], 'exchange of functions: different verdicts', got=got[0], want=want[0])
    if want[1] is not None:
        ctx.check(same_sol(got[1], want[1]), 'exchange of functions: the old function is still in use')
    ctx.state(kind, a.name, b.name, how, run_before, got[0], got[1].y if got[1] is not None else 0)


def near(ctx, P):
    """Guesses at and close to the solver's last answer, or at its last guess, as a continuation makes them."""
    kind, new = factory(ctx, P)
    b = bvps.ALL[ctx.choose('problem', P['problems'])]
    jac = ctx.choose('jacobians', [False, True])
    solver = bvps.install(new(), b, jac)
    g = b.guess('uneven', (0.0, 1.0))
    first = g = copy.deepcopy(g)
    hist = []
    for i in range(P['length']):
        if i:
            by = ctx.choose('guess %d' % i, P['by'])
            const = b.const * ctx.choose('constants %d' % i, P['const'])
            g = copy.deepcopy(first if by == 'first' else last)
            if by != 'first':
                g.y = g.y * (1 + by)
                g.dynamical_parameters = g.dynamical_parameters * (1 + by)
            g.const = const
            hist.append(by)
        got = outcome(solver, copy.deepcopy(g))
        fresh = bvps.install(new(), b, jac)
        want = outcome(fresh, copy.deepcopy(g))
        ctx.check(got[0] == want[0] and got[2] == want[2], 'a used solver and a fresh one disagree about success',
                  used=(got[0], got[2]), fresh=(want[0], want[2]), history=hist)
        if want[1] is None:
            break
        ctx.check(same_sol(got[1], want[1]), 'a used solver and a fresh one give different solutions', history=hist)
        last = got[1]
    ctx.state(kind, b.name, jac, hist, got[0], got[1].y if got[1] is not None else None)


HARNESSES = dict(
    near=dict(fn=near, timeout=100, rule='guesses near earlier answers',
              quick=dict(solvers=['spbvp', (1, 'Armijo'), (2, 'Armijo'), (1, 'hybr')], length=2,
                         problems=['oscillator', 'duration', 'quadrature', 'many', 'stuck'],
                         by=['first', 0.0, 1e-9, 1e-4, 0.05], const=[1.0, 1.0001]),
              thorough=dict(solvers=['spbvp', (1, 'Armijo'), (2, 'Armijo'), (1, 'hybr')], length=3,
                            problems=['oscillator', 'duration', 'quadrature', 'many', 'stuck'],
                            by=['first', 0.0, 1e-9, 1e-4, 0.05], const=[1.0, 1.0001])),
    sequence=dict(fn=sequence, timeout=100, rule='all sequences of problems on one solver',
                  quick=dict(solvers=['spbvp', (1, 'Armijo'), (2, 'Armijo')], lengths=[3], guesses=['two'],
                             problems=['oscillator', 'duration', 'quadrature', 'only-quad', 'multiplier', 'stuck'],
                             jac=[True], other=[False]),
                  thorough=dict(solvers=['spbvp', (1, 'Armijo'), (2, 'Armijo'), (1, 'hybr'), (2, 'SLSQP'), (1, 'fsolve')],
                                lengths=[4], guesses=['two'], jac=[False, True], other=[False, True],
                                problems=['oscillator', 'duration', 'quadrature', 'only-quad', 'multiplier', 'stuck'])),
    options=dict(fn=sequence, timeout=100, rule='pairs with every option',
                 quick=dict(solvers=['spbvp', (1, 'Armijo'), (2, 'Armijo'), (1, 'hybr')], lengths=[2],
                            guesses=['uneven'], problems=['oscillator', 'duration', 'quadrature', 'no-root'],
                            jac=[False, True], other=[True])),
    replace=dict(fn=replace, timeout=100, rule='exchange of single functions',
                 quick=dict(solvers=['spbvp', (1, 'Armijo'), (2, 'Armijo'), (1, 'hybr')])),
)
