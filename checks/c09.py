"""C09: a request that cannot be honoured is refused, and refusing leaves the problem as it was."""
import copy
import os

import numpy as np

from vmc import ocp

RULE = ('One execution = one ordered pair of declarations, one out-of-order use of a transformation, or one ill-formed call; '
        'the request must raise, the problem must be unchanged, and the legal twin of the request must be accepted.')
ASSUMPTIONS = ['RuntimeWarning, RuntimeError, ValueError, TypeError, NotImplementedError and SyntaxError count as refusals']

REFUSE = (RuntimeWarning, RuntimeError, ValueError, TypeError, NotImplementedError, SyntaxError)

KINDS = {
    'independent': lambda p, n: p.independent(n, 's'),
    'state': lambda p, n: p.state(n, '0', 'm'),
    'costate': lambda p, n: p.costate(n, '0', 'm'),
    'parameter': lambda p, n: p.parameter(n, 'm'),
    'coparameter': lambda p, n: p.coparameter(n, '0', 'm'),
    'control': lambda p, n: p.control(n, 'm'),
    'constraint_parameter': lambda p, n: p.constraint_parameter(n, 'm'),
    'constant': lambda p, n: p.constant(n, 1.0, 'm'),
    'quantity': lambda p, n: p.quantity(n, '1'),
    'custom_function': lambda p, n: p.custom_function(n, lambda a: 2 * a, 'm', ['m']),
    'switch': lambda p, n: p.switch(n, ['1', '2'], [['x'], ['-x']], 'eps'),
    'quad': lambda p, n: p.quad(n, '0', 'm'),
    'constant_of_motion': lambda p, n: p.constant_of_motion(n, '0', 'm'),
    'scale': lambda p, n: p.scale(**{n: 1}),
    'table': lambda p, n: p.table(n, '1d_spline', [0., 1., 2., 3.], [0., 1., 2., 3.], '1', ['1']),
}
LISTS = ['states', 'costates', 'parameters', 'coparameters', 'controls', 'constraint_parameters', 'constants', 'quantities',
         'custom_functions', 'tables', 'switches', 'quads', 'symmetries', 'constants_of_motion', 'units']


def snap(p):
    out = {k: [getattr(e, 'name', repr(e)) for e in getattr(p, k)] for k in LISTS}
    out['ind'] = p.independent_variable.name
    out['con'] = {k: [str(c.expr) for c in v] for k, v in p.constraints.items()}
    out['locals'] = {k: str(v) for k, v in p.local_compiler.sym_locals.items()}
    out['ids'] = {k: id(v) for k, v in p.local_compiler.sym_locals.items()}
    return out


def duplicates(ctx, P):
    import beluga
    first = ctx.choose('first', list(KINDS))
    second = ctx.choose('second', list(KINDS))
    between = ctx.choose('between', ['nothing', 'other'])
    p = beluga.Problem('d')
    # the legal twin: different names are accepted
    q = beluga.Problem('e')
    KINDS[first](q, 'nm')
    KINDS[second](q, 'other')
    ctx.check(len(snap(q)['locals']) >= 3, 'distinct names were not both declared')
    KINDS[first](p, 'nm')
    if between == 'other':
        KINDS['constant'](p, 'filler')
        KINDS['state'](p, 'filler2')
    before = snap(p)
    e = ctx.raises(REFUSE, lambda: KINDS[second](p, 'nm'), 'the name of a %s was accepted again for a %s' % (first, second))
    ctx.check(snap(p) == before, 'the refused declaration changed the problem', before=before, after=snap(p))
    # and it can still be extended
    KINDS[second](p, 'fresh')
    ctx.check('fresh' in snap(p)['locals'], 'the problem cannot be extended after a refusal')
    ctx.state(first, second, between, type(e).__name__)


def _base(name='b', **kw):
    return ocp.double_integrator(**kw)


def orders(ctx, P):
    """Every transformation applied before its prerequisites."""
    from beluga.symbolic.data_classes import mapping_functions as M
    stage = ctx.choose('problem', ['raw', 'sympified', 'dualised'])
    tr = ctx.choose('transformation', ['ApplyQuantities', 'MomentumShift', 'EpsTrig', 'UTM', 'RASHS', 'Dualize',
                                       'AlgebraicControlLaw', 'DifferentialControlLaw', 'NormalizeTime', 'CompileProblem'])
    p = _base()
    if stage != 'raw':
        p = M.make_preprocessor()(p)
    if stage == 'dualised':
        p = M.Dualize()(p)
    need = {'AlgebraicControlLaw': 'dualised', 'DifferentialControlLaw': 'dualised'}.get(tr, 'sympified')
    rank = ['raw', 'sympified', 'dualised']
    f = getattr(M, tr)()
    if rank.index(stage) < rank.index(need):
        before = snap(p)
        ctx.raises(REFUSE, lambda: f(p), '%s was applied to a problem that is not %s' % (tr, need))
        ctx.check(snap(p) == before, 'the refused transformation changed the problem')
    elif tr in ('EpsTrig', 'UTM'):
        if stage == 'dualised':
            return                     # constraints are treated before dualisation
        before = snap(p)
        ctx.raises(REFUSE, lambda: f(p), '%s accepted a problem without such a constraint' % tr)
        ctx.check(snap(p) == before, 'the refused transformation changed the problem')
    else:
        if tr == 'Dualize' and stage == 'dualised':
            return
        f(p)
        ctx.agree()
    ctx.state(stage, tr)


def calls(ctx, P):
    import beluga
    from beluga.symbolic.data_classes import make_preprocessor
    case = ctx.choose('case', ['no states', 'no states 2', 'cost units', 'cost units ok', 'cost units 2', 'cost units 3', 'no ocp',
                               'n_cpus 0', 'n_cpus -1', 'method', 'control_method', 'control numeric', 'bvp without maps',
                               'bvp without map', 'bvp without inverse', 'algorithm', 'guess mode', 'direction', 'direction ones',
                               'time 0', 'time 0 ones', 'step kind', 'unknown const manual', 'unknown const bisection',
                               'unknown const productspace', 'unknown const sparse', 'cases while running',
                               'const missing target', 'ivp program', 'shooting algorithm', 'epstrig state', 'epstrig expr',
                               'constraint method', 'utm activator', 'missing upper', 'missing lower', 'path no bounds',
                               'unknown constant', 'pow negative', 'pow float', 'table kind', 'function arity',
                               'num_diff method', 'fin_diff method', 'bang-bang', 'diffyg control numeric'])
    import warnings
    bad = None
    if case in ('no states', 'no states 2'):
        p = beluga.Problem('n')
        p.independent('t', 's')
        if case == 'no states 2':
            p.control('u', '1').constant('k', 1, '1').path_cost('u', '1')
        bad = lambda: make_preprocessor()(p)
    elif case.startswith('cost units'):
        p = _base()
        if case == 'cost units ok':
            p.terminal_cost('x**2*x_f/t_f**3/x_f', 'm**2/s**3')
            make_preprocessor()(p)
            ctx.agree()
        else:
            if case == 'cost units':
                p.terminal_cost('x', 'm')
            elif case == 'cost units 2':
                p.initial_cost('x', 'm')
            else:
                p.terminal_cost('x', 'm**2/s**4')
            bad = lambda: make_preprocessor()(p)
    elif case in ('no ocp', 'n_cpus 0', 'n_cpus -1', 'method', 'control_method', 'control numeric', 'bvp without maps',
                  'bvp without map', 'bvp without inverse', 'diffyg control numeric'):
        kw = dict(ocp=_base(), steps=beluga.init_continuation(), bvp_algorithm=beluga.bvp_algorithm('spbvp'),
                  guess_generator=beluga.guess_generator('auto', start=[0, 0], control_guess=[0.1], costate_guess=0.1),
                  save_sols=False)
        if case == 'no ocp':
            kw['ocp'] = None
        elif case.startswith('n_cpus'):
            kw['n_cpus'] = int(case.split()[1])
        elif case == 'method':
            kw['method'] = 'collocated'
        elif case == 'control_method':
            kw['optim_options'] = dict(control_method='magic')
        elif case == 'control numeric':
            kw['optim_options'] = dict(control_method='numeric')
        elif case == 'diffyg control numeric':
            kw['method'] = 'diffyg'
            kw['optim_options'] = dict(control_method='numeric')
        else:
            kw['bvp'] = ocp.cont_bvp()
            if case == 'bvp without map':
                kw['ocp_map_inverse'] = lambda s: s
            elif case == 'bvp without inverse':
                kw['ocp_map'] = lambda s: s
        bad = lambda: beluga.solve(**kw)
    elif case == 'algorithm':
        bad = lambda: beluga.bvp_algorithm('newton-magic')
    elif case == 'guess mode':
        bad = lambda: beluga.guess_generator('divine', start=[0, 0])
    elif case.startswith('direction'):
        bad = lambda: beluga.guess_generator('ones' if 'ones' in case else 'auto', start=[0, 0], direction='sideways')
    elif case.startswith('time 0'):
        bad = lambda: beluga.guess_generator('ones' if 'ones' in case else 'auto', start=[0, 0], time_integrate=0)
    elif case == 'step kind':
        bad = lambda: beluga.init_continuation().add_step('teleport')
    elif case.startswith('unknown const '):
        kind = {'productspace': 'productspace', 'sparse': 'sparse_product'}.get(case.split()[2], case.split()[2])

        def bad():
            st = beluga.init_continuation().add_step(kind)
            if kind in ('manual', 'bisection'):
                st.num_cases(3)
            st.const('x_f', 3.0).const('nonexistent', 2.0)
            tr = ocp.make_traj([0, 1], [[0, 0], [0, 0]], const=[c.default_val for c in ocp.cont_bvp().constants])
            st.init(tr, ocp.cont_bvp())
    elif case == 'cases while running':
        st = beluga.init_continuation().add_step('manual').num_cases(3).const('x_f', 3.0)
        tr = ocp.make_traj([0, 1], [[0, 0], [0, 0]], const=[c.default_val for c in ocp.cont_bvp().constants])
        tr.converged = True
        st.init(tr, ocp.cont_bvp())
        it = iter(st)
        next(it)
        st.add_gamma(tr)
        bad = lambda: st.num_cases(5)
    elif case == 'const missing target':
        bad = lambda: beluga.init_continuation().add_step('bisection').num_cases(3).const('x_f')
    elif case == 'ivp program':
        from beluga.numeric.ivp_solvers import Propagator
        bad = lambda: Propagator(program='lie')(lambda y, *a: y, None, [0, 1], [1.0], [])
    elif case == 'shooting algorithm':
        bad = lambda: _shoot('magic')
    elif case in ('epstrig state', 'epstrig expr', 'constraint method', 'utm activator', 'missing upper', 'missing lower',
                  'path no bounds'):
        p = _base(extra=(('lo', -1, '1'), ('hi', 2, '1'), ('eps', 0.1, '1')))
        kw = dict(lower='lo', upper='hi', activator='eps', method='utm')
        e = 'x'
        if case == 'epstrig state':
            kw['method'] = 'epstrig'
        elif case == 'epstrig expr':
            e, kw['method'] = '2*u', 'epstrig'
        elif case == 'constraint method':
            kw['method'] = 'magic'
        elif case == 'utm activator':
            kw['activator'] = 'x*eps'
        elif case == 'missing upper':
            kw['upper'] = None
        elif case == 'missing lower':
            kw['lower'] = None
        else:
            kw['lower'] = kw['upper'] = None
        p.path_constraint(e, 'm', **kw)
        bad = lambda: ocp.pipeline(p)
    elif case == 'unknown constant':
        bad = lambda: _base().constant('w', 'not a number', 'm')
    elif case.startswith('pow'):
        from beluga.symbolic.data_classes import GenericFunctor
        bad = lambda: GenericFunctor() ** (-1 if 'neg' in case else 1.5)
    elif case == 'table kind':
        bad = lambda: beluga.Problem('t').table('tab', '7d_hyper', [0., 1., 2., 3.], [0., 1., 2., 3.], '1', ['1'])
    elif case == 'function arity':
        def bad():
            p = _base()
            p.custom_function('ff', lambda a, b: a + b, 'm', ['m', 'm'])
            p.quantity('qq', 'ff(x)')
            make_preprocessor()(p)
    elif case == 'num_diff method':
        from beluga.numeric.numerical_derivatives import gen_num_diff
        bad = lambda: gen_num_diff(lambda a: a, (1,), method='magic')
    elif case == 'fin_diff method':
        from beluga.numeric.numerical_derivatives import gen_fin_diff
        bad = lambda: gen_fin_diff(lambda a: a, (1,), method='magic')
    elif case == 'bang-bang':
        p = beluga.Problem('bb')
        p.independent('t', 's').state('x', 'u', 'm').control('u', 'm/s').constant('x_f', 1, 'm').path_cost('x', 'm')
        p.initial_constraint('x', 'm').initial_constraint('t', 's').terminal_constraint('x-x_f', 'm')
        bad = lambda: ocp.pipeline(p)
    if bad is not None:
        e = ctx.raises(REFUSE + (Exception,) if case in ('utm activator', 'bang-bang') else REFUSE, bad,
                       'ill-formed request accepted: ' + case)
        ctx.state(case, type(e).__name__)
    else:
        ctx.state(case)


def _tab(p, x, y, kind='1d_spline'):
    return p.table('nm', kind, y, x, '1', ['1'])


# ill-formed declarations and, for each, the declaration that was meant
ILL = {
    'constant text': (lambda p: p.constant('nm', 'one', 'm'), lambda p: p.constant('nm', 1, 'm')),
    'constant none': (lambda p: p.constant('nm', None, 'm'), lambda p: p.constant('nm', 0, 'm')),
    'scale first': (lambda p: p.scale(x=2, nm=1), lambda p: p.scale(nm=1)),
    'scale last': (lambda p: p.scale(nm=1, x=2), lambda p: p.scale(nm=1)),
    'scale middle': (lambda p: p.scale(nm=1, x=2, nn=3), lambda p: p.scale(nm=1, nn=3)),
    'table kind': (lambda p: _tab(p, [0., 1., 2.], [0., 1., 2.], 'cubic'), lambda p: _tab(p, [0., 1., 2.], [0., 1., 2.])),
    'table short': (lambda p: _tab(p, [0., 1., 2., 3.], [0., 1., 2.]), lambda p: _tab(p, [0., 1., 2.], [0., 1., 2.])),
    'table long': (lambda p: _tab(p, [0., 1., 2.], [0., 1., 2., 3.]), lambda p: _tab(p, [0., 1., 2.], [0., 1., 2.])),
    'table falling': (lambda p: _tab(p, [3., 2., 1., 0.], [0., 1., 2., 3.]), lambda p: _tab(p, [0., 1., 2., 3.], [3., 2., 1., 0.])),
    'table unsorted': (lambda p: _tab(p, [0., 2., 1., 3.], [0., 1., 2., 3.]), lambda p: _tab(p, [0., 1., 2., 3.], [0., 2., 1., 3.])),
    'table repeated': (lambda p: _tab(p, [0., 1., 1., 3.], [0., 1., 2., 3.]), lambda p: _tab(p, [0., 1., 2., 3.], [0., 1., 1., 3.])),
    'table text': (lambda p: _tab(p, [0., 'a', 1., 3.], [0., 1., 2., 3.]), lambda p: _tab(p, [0., 1., 2., 3.], [0., 1., 2., 3.])),
    'switch few': (lambda p: p.switch('nm', ['x', '2*x'], [['x-1']], 'k'), lambda p: p.switch('nm', ['x'], [['x-1']], 'k')),
    'switch many': (lambda p: p.switch('nm', ['x'], [['x-1'], ['1-x']], 'k'),
                    lambda p: p.switch('nm', ['x', '2*x'], [['x-1'], ['1-x']], 'k')),
}


def declarations(ctx, P):
    """Refused declarations leave the problem as it was: afterwards what was meant is accepted, and the problem is the same
    as without the refused ones."""
    import beluga
    before = ctx.choose('before', list(ILL) + [None])
    case = ctx.choose('case', list(ILL))

    def start():
        p = beluga.Problem('d')
        p.independent('t', 's').state('x', '1', 'm').constant('k', 1, '1').quantity('w', 'x**2')
        return p

    p = start()
    for what in ([before] if before else []) + [case]:
        s0 = snap(p)
        ctx.raises(REFUSE + (ValueError, TypeError), lambda: ILL[what][0](p), 'ill-formed declaration accepted: ' + what)
        ctx.check(snap(p) == s0, 'the refused declaration changed the problem: ' + what, before=s0, after=snap(p))
    q = start()
    ILL[case][1](p)
    ILL[case][1](q)
    a, b = snap(p), snap(q)
    for d in (a, b):
        d.pop('ids')
        d['locals'] = sorted(d['locals'])
    ctx.check(a == b, 'a declaration means something else after a refused one', case=case, refused=a, fresh=b)
    ctx.state(before, case)


def _shoot(alg):
    import beluga
    from beluga.numeric.data_classes.Trajectory import Trajectory
    a = beluga.bvp_algorithm('shooting', algorithm=alg)
    a.set_derivative_function(lambda y, p, k: np.array([1.0]))
    a.set_boundarycondition_function(lambda y0, yf, p, nd, k: np.array([y0[0]]))
    return a.solve(Trajectory(np.array([0., 1.]), np.array([[0.], [1.]]), np.zeros((2, 0)), np.zeros((2, 0))))


HARNESSES = {
    'declarations': dict(fn=declarations, quick={}, thorough={}, rule='all pairs of ill-formed declarations, then what was meant'),
    'duplicates': dict(fn=duplicates, quick={}, thorough={}, rule='all ordered pairs of declaration kinds'),
    'orders': dict(fn=orders, quick={}, thorough={}, rule='every transformation at every stage'),
    'calls': dict(fn=calls, quick={}, thorough={}, rule='every ill-formed call of the list'),
}
