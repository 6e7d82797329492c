"""C10: compiled functions compute the derived expressions; analytic Jacobians are their derivatives."""
import numpy as np
import sympy as sp

from checks import c05
from vmc import grammar, ocp

RULE = ('One execution = one program x option set (or one expression shape x argument shape) compiled by the real compiler, '
        'with just-in-time compilation on or off, evaluated at generic points and compared with an independent derivation, '
        'with sympy\'s own evaluation, or (Jacobians) with difference quotients of the compiled functions.')
ASSUMPTIONS = ['points of evaluation are generic and away from singularities',
               'difference quotients: central, step 1e-6, relative tolerance 2e-5']


def compiled(ctx, P):
    """With just-in-time compilation on, the compiled problem is still the set of necessary conditions."""
    spec = grammar.choose(ctx, P)
    c05.compare(ctx, P, spec, ctx.choose('method', P['methods']), ctx.choose('control', P['controls']))


QUADS = [('x*u + k/4', 'u**2 - t'), ('u', 'v*x*u**3'), ('sin(u) + a*v', 'k*x'), ('u*a', 'a*t*x + u')]


def quads(ctx, P):
    """Quadratures a problem declares: their rates, and conditions on their end values, are computed as written."""
    import beluga
    rates = ctx.choose('rates', QUADS)
    par = any('a' in sp.sympify(r).free_symbols.__str__() for r in rates) or ctx.choose('parameter', P['parameter'])
    method, control = ctx.choose('method', ['traditional', 'diffyg']), ctx.choose('control', ['differential', 'algebraic'])
    p = beluga.Problem('quads')
    p.independent('t', 's').state('x', 'v', 'm').state('v', 'u - v/5' + ('*a' if par else ''), 'm/s').control('u', 'm/s**2')
    if par:
        p.parameter('a', '1')
    p.constant('k', 0.7, '1').constant('x_f', 1.3, 'm').constant('E_f', 0.4, '1').constant('t_f', 1.1, 's')
    p.quad('E', rates[0], '1').quad('F', rates[1], '1')
    p.path_cost('u**2/2 + u*x/3', '1')
    for e, un in (('x', 'm'), ('v', 'm/s'), ('t', 's'), ('E', '1'), ('F - k', '1')):
        p.initial_constraint(e, un)
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('E*F - E_f', '1').terminal_constraint('t - t_f', 's')
    bvp = ocp.pipeline(p, method=method, control_method=control)
    fp = bvp.functional_problem
    names, qn, pn = [s.name for s in bvp.states], [q.name for q in bvp.quads], [q.name for q in bvp.parameters]
    k = np.array([c.default_val for c in bvp.constants], dtype=float)
    kv = {c.name: float(c.default_val) for c in bvp.constants}
    ny, nq, npar, nnd = len(names), len(qn), len(pn), len(bvp.constraint_parameters)
    for j in range(P['points']):
        v = grammar.grid_values(2 * (ny + nq) + npar + nnd, j + 3)
        y0, q0, yf, qf, pv, nd = np.split(v, np.cumsum([ny, nq, ny, nq, npar]))
        pv = np.abs(pv) + 0.5
        dt = pv[pn.index('_delta_t')] if '_delta_t' in pn else pv[-1]
        u = y0[names.index('u')] if control == 'differential' else fp.compute_u(y0, pv, k)[0]
        at = dict(kv, u=float(u), **{n: y0[names.index(n)] for n in ('x', 'v', 't')}, **({'a': pv[pn.index('a')]} if par else {}))
        want = [float(sp.sympify(r).subs(at)) * dt for r in rates]
        got = np.asarray(fp.quad_func(y0, pv, k), dtype=float)
        for n, w in zip(('E', 'F'), want):
            ctx.close(got[qn.index(n)], w, 'the rate of a quadrature is not as declared', rtol=1e-9, atol=1e-9)
        res = np.asarray(fp.bc_func(y0, q0, yf, qf, pv, nd, k), dtype=float)
        E0, F0, Ef, Ff = q0[qn.index('E')], q0[qn.index('F')], qf[qn.index('E')], qf[qn.index('F')]
        for w, what in ((E0, 'E'), (F0 - kv['k'], 'F - k'), (Ef * Ff - kv['E_f'], 'E*F - E_f')):
            ctx.check(np.min(np.abs(np.abs(res) - abs(w))) < 1e-9, 'a condition on quadratures is missing: ' + what,
                      residuals=res, want=w)
        ctx.state(rates, par, method, control, j, got)


def quotient(f, x, h=1e-6):
    f0 = np.asarray(f(x), dtype=float)
    J = np.zeros((f0.size, len(x)))
    for i in range(len(x)):
        a, b = np.array(x), np.array(x)
        a[i] += h
        b[i] -= h
        J[:, i] = (np.asarray(f(a), dtype=float) - np.asarray(f(b), dtype=float)) / (2 * h)
    return J


def program(ctx, P):
    kind = ctx.choose('program', P['programs'])
    prob = ocp.double_integrator()
    if kind == 'double':
        return prob, {}
    if kind == 'param':
        import beluga
        p = beluga.Problem('p')
        p.independent('t', 's').state('x', 'v', 'm').state('v', 'u - a*v*x', 'm/s').control('u', 'm/s**2').parameter('a', '1/s')
        p.constant('x_f', 1.3, 'm').constant('t_f', 1.1, 's')
        p.path_cost('u**2/2 + a**2', '1').terminal_cost('a*v**2', 's')
        p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
        p.terminal_constraint('x - x_f + a*v', 'm').terminal_constraint('t - t_f', 's')
        return p, {}
    if kind == 'brach':
        import beluga
        p = beluga.Problem('b')
        p.independent('t', 's').state('x', 'v*cos(th)', 'm').state('y', 'v*sin(th)', 'm').state('v', 'g*sin(th)', 'm/s')
        p.control('th', '1').constant('g', -9.81, 'm/s**2').constant('x_f', 1.3, 'm').constant('y_f', -0.7, 'm')
        p.path_cost('1', '1')
        shift = ctx.choose('momentum shift', P['shift'])    # time is only a state (and constrainable) when shifted
        for e, u in (('x', 'm'), ('y', 'm'), ('v', 'm/s')) + ((('t', 's'),) if shift else ()):
            p.initial_constraint(e, u)
        p.terminal_constraint('x**2 - x_f**2', 'm**2').terminal_constraint('y - y_f', 'm')
        for s in ctx.choose('symmetries', [[], ['x'], ['x', 'y']]):
            p.symmetry(['1' if s == n else '0' for n in ('x', 'y', 'v')], 'm')
        return p, dict(reduction=True, do_momentum_shift=shift)
    if kind == 'two':
        p = grammar.build(grammar.Spec(name='two', states=dict(x='v', v='u1 + k*u2', y='u2*x'), units=dict(x='m', v='m/s', y='m'),
                                       controls=dict(u1='m/s**2', u2='m/s'), path='u1**2/2 + u2**2*(1+x**2)', params={},
                                       initial=[('x', 'm'), ('v', 'm/s'), ('y', 'm'), ('t', 's')], termcost='v**2*x',
                                       terminal=[('x - xf*y', 'm'), ('t - tf', 's')]))
        return p, {}
    if kind == 'bounded':
        p = ocp.double_integrator(extra=(('eps', 0.1, '1'), ('lim', 2.0, 'm/s**2')))
        p.path_constraint('u', 'm/s**2', lower='-lim', upper='lim', activator='eps', method='epstrig')
        return p, {}
    p = ocp.double_integrator(extra=(('eps', 0.1, '1'), ('lim', 2.0, 'm/s')))
    p.path_constraint('v', 'm/s', lower='-lim', upper='lim', activator='eps', method='utm')
    return p, {}


def jacobians(ctx, P):
    prob, opts = program(ctx, P)
    opts = dict(opts, analytical_jacobian=True, method=ctx.choose('method', P['methods']),
                control_method=ctx.choose('control', P['controls']))
    opts['do_normalize_time'] = ctx.choose('normalise time', P['normalise'])
    if not opts['do_normalize_time'] and opts.get('reduction'):
        opts.pop('reduction')
    bvp = ocp.pipeline(prob, **opts)
    fp = bvp.functional_problem
    ny, nq = len(bvp.states), len(bvp.quads)
    npar, nnd = len(bvp.parameters), len(bvp.constraint_parameters)
    k = np.array([c.default_val for c in bvp.constants], dtype=float)
    if opts['control_method'].lower() == 'algebraic':
        ctx.state(opts, 'algebraic', fp.deriv_func_jac is None)
        if fp.deriv_func_jac is None and fp.bc_func_jac is None:
            ctx.agree()
            return
    for j in range(P['points']):
        v = grammar.grid_values(2 * (ny + nq) + npar + nnd, j + 5)
        y0, q0, yf, qf, p, nd = np.split(v, np.cumsum([ny, nq, ny, nq, npar]))
        dy, dp = fp.deriv_func_jac(y0, p, k)
        dy, dp = np.asarray(dy, dtype=float), np.asarray(dp, dtype=float)
        ctx.close(dy, quotient(lambda z: fp.deriv_func(z, p, k), y0), 'state Jacobian of the rates is wrong', rtol=2e-5,
                  atol=2e-6)
        ctx.close(dp.reshape(ny, npar) if dp.size == ny * npar else dp,
                  quotient(lambda z: fp.deriv_func(y0, z, k), p), 'parameter Jacobian of the rates is wrong', rtol=2e-5,
                  atol=2e-6)

        def bc(a, b, c, d, e, f):
            return fp.bc_func(a, b, c, d, e, f, k) if nq else fp.bc_func(a, c, e, f, k)
        got = fp.bc_func_jac(y0, q0, yf, qf, p, nd, k) if nq else fp.bc_func_jac(y0, yf, p, nd, k)
        got = [np.asarray(g, dtype=float) for g in got]
        want = [quotient(lambda z: bc(z, q0, yf, qf, p, nd), y0), quotient(lambda z: bc(y0, q0, z, qf, p, nd), yf),
                np.hstack((quotient(lambda z: bc(y0, q0, yf, qf, z, nd), p), quotient(lambda z: bc(y0, q0, yf, qf, p, z), nd)))]
        if nq:
            want += [quotient(lambda z: bc(y0, z, yf, qf, p, nd), q0), quotient(lambda z: bc(y0, q0, yf, z, p, nd), qf)]
        ctx.check(len(got) == len(want), 'wrong number of boundary Jacobians', got=len(got))
        for g, w, nm in zip(got, want, ('initial states', 'terminal states', 'parameters', 'initial quads', 'terminal quads')):
            ctx.close(g, w, 'boundary Jacobian with respect to %s is wrong' % nm, rtol=2e-5, atol=2e-6)
        ctx.state(prob.name, opts, j, dy)


def solved(ctx, P):
    """The solution does not depend on whether Jacobians are analytic, or functions compiled just in time."""
    import beluga
    method = ctx.choose('method', ['traditional', 'diffyg'])
    case = ctx.choose('program', P['programs'])
    sols = []
    for jac in (False, True):
        if case == 'double':
            p = ocp.double_integrator()
            gg = beluga.guess_generator('auto', start=[0., 0.], costate_guess=-0.1, control_guess=[0.1], time_integrate=1.0)
            opts = {}
        else:
            p = beluga.Problem('b')
            p.independent('t', 's').state('x', 'v*cos(th)', 'm').state('y', 'v*sin(th)', 'm').state('v', 'g*sin(th)', 'm/s')
            p.control('th', 'rad').constant('g', -9.81, 'm/s**2').constant('x_f', 0., 'm').constant('y_f', 0., 'm')
            p.path_cost('1', '1')
            for e, u in (('x', 'm'), ('y', 'm'), ('v', 'm/s'), ('t', 's')):
                p.initial_constraint(e, u)
            p.terminal_constraint('x - x_f', 'm').terminal_constraint('y - y_f', 'm')
            p.scale(m='y', s='y/v', rad=1)
            opts = {}
            if case == 'reduced' and method == 'diffyg':
                p.symmetry(['1', '0', '0'], 'm')
                opts = dict(reduction=True)
            gg = beluga.guess_generator('auto', start=[0., 0., 0.], costate_guess=-0.1, control_guess=[-np.pi / 2],
                                        use_control_guess=True)
        steps = beluga.init_continuation()
        if case == 'double':
            steps.add_step('manual').num_cases(2).const('x_f', 1.5)
        else:
            steps.add_step('bisection').num_cases(6).const('x_f', 2.).const('y_f', -2.)
        out = beluga.solve(ocp=p, method=method, optim_options=dict(opts, analytical_jacobian=jac),
                           bvp_algorithm=beluga.bvp_algorithm('spbvp'), steps=steps, guess_generator=gg,
                           initial_helper=True, autoscale=True, save_sols=False)
        sols.append(out[-1][-1])
    a, b = sols
    ctx.check(bool(a.converged) and bool(b.converged), 'not solved', plain=a.converged, analytic=b.converged)
    ctx.close(a.t[-1], b.t[-1], 'final time depends on the Jacobians', rtol=1e-3)
    ctx.close(a.y[-1], b.y[-1], 'final states depend on the Jacobians', rtol=2e-3, atol=2e-3)
    ctx.close(a.cost, b.cost, 'cost depends on the Jacobians', rtol=2e-3)
    ctx.state(method, case, np.round(a.t[-1], 3))


x, y, s, c = sp.symbols('x y s c')
ELEMS = dict(sum=x + 2 * y, one=sp.Integer(1), zero=sp.Integer(0), half=sp.Rational(1, 2), mixed=sp.sin(x) * s / c,
             root=sp.sqrt(x ** 2 + y ** 2), sec=sp.sec(x * y), piecewise=sp.Piecewise((x, s < 0), (y, True)), pi=sp.pi * c,
             atan2=sp.atan2(y, x), absval=sp.Abs(x * s), user=sp.Function('uf')(x, s))
ARGS = dict(arrays=([x, y], [s, c]), scalars=(x, y, s, c), mixed=(x, [y, s], c), empty=([x, y, s, c], []))


def expressions(ctx, P):
    """lambdify: every shape of expression, every shape of arguments."""
    from beluga.numeric.compilation import LocalCompiler
    names = [ctx.choose('element %d' % i, P['elements']) for i in range(ctx.choose('elements', P['count']))]
    shape = ctx.choose('shape', ['scalar', 'list', 'column', 'square'] if len(names) == 1 else ['list', 'row', 'matrix'])
    form = ctx.choose('arguments', list(ARGS))
    e = [ELEMS[n] for n in names]
    lc = LocalCompiler()
    uf = (lambda a, b: a * b + a) if not P.get('jit') else __import__('numba').njit(lambda a, b: a * b + a)
    lc.add_function_local('uf', uf)
    if shape == 'scalar':
        arg, want = e[0], lambda v: v[0]
    elif shape == 'list':
        arg, want = e, lambda v: np.array(v)
    elif shape in ('column', 'row'):
        m = np.array([e]) if shape == 'row' else np.array([[q] for q in e])
        arg, want = m, lambda v: np.array(v).reshape(m.shape)
    elif shape == 'square':
        arg, want = np.array([[e[0], 0], [1, e[0]]]), lambda v: np.array([[v[0], 0], [1, v[0]]])
    else:
        arg = np.array([e, e[::-1]])
        want = lambda v: np.array([v, v[::-1]])
    f = lc.lambdify(list(ARGS[form]), arg)
    for j in range(2):
        vals = dict(zip((x, y, s, c), grammar.grid_values(4, j + 2)))
        ref = [float(q.subs(sp.Function('uf')(x, s), x * s + x).subs(vals)) for q in e]
        call = [np.array([vals[q] for q in a], dtype=float) if isinstance(a, list) else float(vals[a]) for a in ARGS[form]]
        got = np.array(f(*call), dtype=float)
        ctx.close(got, np.asarray(want(ref), dtype=float), 'compiled expression has the wrong value', rtol=1e-12,
                  expr=arg)
    ctx.state(names, shape, form)


JP = dict(methods=['traditional', 'diffyg'], controls=['differential', 'algebraic', 'Algebraic'], normalise=[True, False],
          shift=[True, False], points=1, programs=['double', 'param', 'brach', 'two', 'bounded', 'penalty'])
CQ = dict(dyn=['double', 'two', 'brach', 'timed'], path=['energy+x', 'energy*t', 'one'], initial=['free_last'],
          terminal=['moving'], termcost=['time'], initcost=['none'], methods=['traditional', 'diffyg'],
          controls=['differential', 'algebraic'], points=1)
HARNESSES = dict(
    jacobians=dict(fn=jacobians, timeout=100, quick=JP, thorough=dict(JP, points=5), rule='all option sets'),
    compiled=dict(fn=compiled, timeout=200, jit=True, quick=CQ,
                  thorough=dict(CQ, dyn=list(grammar.DYN), path=list(grammar.PATH), initial=['fixed', 'free_last', 'coupled'],
                                terminal=list(grammar.TERMINAL), termcost=['none', 'time'], points=2),
                  rule='just-in-time compiled problems against the necessary conditions'),
    parameters=dict(fn=c05.parameters, timeout=200, rule='compiled problems with free parameters and quadratures',
                    quick=dict(methods=['traditional', 'diffyg'], controls=['algebraic', 'differential'], points=1),
                    thorough=dict(methods=['traditional', 'diffyg'], controls=['algebraic', 'differential'], points=5)),
    jacobians_jit=dict(fn=jacobians, timeout=200, jit=True, rule='compiled Jacobians',
                       quick=dict(JP, methods=['diffyg'], programs=['param', 'double'], normalise=[True], shift=[True],
                                  controls=['differential']),
                       thorough=dict(JP, shift=[True])),
    choice=dict(fn=c05.several_controls, timeout=100, rule='control laws with several solutions',
                quick=dict(shapes=['alone'], points=8, weights=['1', '1/10000']),
                thorough=dict(shapes=['alone', 'and a regular one'], points=20, weights=['1', '10000', '1/10000'])),
    quads=dict(fn=quads, timeout=100, rule='declared quadratures', quick=dict(parameter=[False, True], points=2),
               thorough=dict(parameter=[False, True], points=8)),
    quads_jit=dict(fn=quads, timeout=200, jit=True, rule='declared quadratures, compiled', quick=dict(parameter=[False], points=1),
                   thorough=dict(parameter=[False, True], points=8)),
    expressions=dict(fn=expressions, timeout=60, rule='shapes of expressions and arguments',
                     quick=dict(elements=list(ELEMS), count=[1, 2]), thorough=dict(elements=list(ELEMS), count=[1, 2, 3])),
    expressions_jit=dict(fn=expressions, timeout=60, jit=True, rule='the same, compiled',
                         quick=dict(elements=list(ELEMS), count=[1], jit=True),
                         thorough=dict(elements=list(ELEMS), count=[1, 2], jit=True)),
    solved=dict(fn=solved, timeout=200, quick=dict(programs=['double']), thorough=dict(programs=['double', 'brach', 'reduced']),
                rule='solutions with and without analytic Jacobians'),
)
