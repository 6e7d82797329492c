"""C07: bounded quantities are enforced by a penalty of the right shape in the right place, each exactly once."""
import copy

import numpy as np

from checks import c05
from vmc import grammar, ocp

RULE = ('One execution = one program with one or two inequality constraints (every ordered pair of the alphabet); the '
        'derived problem is compared with the necessary conditions of the explicitly penalised program.')
ASSUMPTIONS = ['alphabet: bounds on states, controls and mixed expressions along the path and on expressions at either '
               'end; constant, expression and state-dependent bounds; secant and trigonometric methods',
               'equality on a fixed grid of generic points']

UTM = '({e})*(1/cos(pi/2*(2*({g}) - ({hi}) - ({lo}))/(({hi}) - ({lo}))) - 1)'
# (location, expression, lower, upper, activator, method)
ALPHA = {
    'path x': ('path', 'x', 'lo', 'hi', 'eps', 'utm'),
    'path mixed': ('path', 'x + v*u/g', '-4', 'hi', 'eps2', 'utm'),
    'path u': ('path', 'u', 'lo - 1', 'hi + 1', 'eps', 'UTM'),
    'path statebound': ('path', 'v', 'lo - x**2', 'hi + k**2*t**2', 'eps2', 'utm'),
    'initial v': ('initial', 'v + t', 'lo', 'hi', 'eps', 'utm'),
    'terminal x': ('terminal', 'x - xf', '-hi', 'hi', 'eps2', 'utm'),
    'terminal t': ('terminal', 't', '0', '9', 'eps', 'utm'),
    'trig u': ('path', 'u', 'lo', 'hi', 'eps', 'epstrig'),
    'trig u expr': ('path', 'u', '-hi - x**2', 'hi', 'eps2', 'EpsTrig'),
}
CONSTS = dict(grammar.CONST, eps=(0.13, '1'), eps2=(0.29, '1'), lo=(-3.0, '1'), hi=(4.5, '1'))


def base(ctx, extra_path=''):
    states, controls = grammar.DYN['timed']
    s = [(n, u) for n, (_, u) in states.items()]
    return grammar.Spec(name='ineq', states={n: e for n, (e, _) in states.items()},
                        units={n: u for n, (_, u) in states.items()}, controls=dict(controls), path='u**2/2 + x*u/4',
                        initial=[('t', 's'), ('x - x0', 'm')], terminal=[('t - tf', 's')], params={}, consts=CONSTS,
                        termcost=None, initcost=None)


def penalised(spec, cons):
    """The equivalent program without inequality constraints, written out."""
    sp = grammar.Spec(copy.deepcopy(dict(spec)))
    path, ini, ter = sp.path, sp.initcost or '0', sp.termcost or '0'
    trig = [c for c in cons if c[5].lower() == 'epstrig']
    for loc, g, lo, hi, e, m in cons:
        if m.lower() == 'utm':
            term = ' + ' + UTM.format(e=e, g=g, lo=lo, hi=hi)
            if loc == 'path':
                path += term
            elif loc == 'initial':
                ini += term
            else:
                ter += term
    if trig:
        import sympy
        ws = {c[1]: 'w_' + c[1] for c in trig}
        loc_ = {n: sympy.Symbol(n) for n in list(sp.states) + list(sp.consts) + ['t'] + list(sp.controls)
                + list(ws.values())}

        def S(x):
            return sympy.sympify(x, locals=loc_)
        rep = {}
        for loc, g, lo, hi, e, m in trig:
            lo, hi = S(lo), S(hi)
            rep[loc_[g]] = (hi - lo) / 2 * sympy.sin(loc_[ws[g]]) + (hi + lo) / 2

        def sub(x):
            return str(S(x).subs(rep, simultaneous=True))
        sp['states'] = {n: sub(x) for n, x in sp.states.items()}
        path = sub(path) + ''.join(' - (%s)*cos(%s)' % (c[4], ws[c[1]]) for c in trig)
        sp['controls'] = {ws.get(c, c): '1' for c in sp.controls}
    sp['path'] = path
    sp['initcost'] = ini if ini != '0' else None
    sp['termcost'] = ter if ter != '0' else None
    return sp


def pairs(ctx, P):
    first = ctx.choose('first', list(ALPHA))
    second = ctx.choose('second', [None] + list(ALPHA))
    cons = [ALPHA[first]] + ([ALPHA[second]] if second else [])
    if len([c for c in cons if c[5].lower() == 'epstrig']) > 1 or first == second:
        from vmc.engine import Prune
        raise Prune()       # one control can be substituted once
    spec = base(ctx)
    wc = ctx.choose('boundary costs', P['boundary'])
    if wc:
        spec['initcost'], spec['termcost'] = 'x*t', 'v**2 + x'
    when = ctx.choose('declared', P['when']) if any(c[0] != 'path' for c in cons) else 'last'
    prob = grammar.build(spec if when == 'last' else grammar.Spec(dict(spec, initial=[], terminal=[])))

    def declare(loc, g, lo, hi, e, m):
        f = dict(path=prob.path_constraint, initial=prob.initial_constraint, terminal=prob.terminal_constraint)[loc]
        f(g, '1', lower=lo, upper=hi, activator=e, method=m)
    # the inequalities before, between or after the equalities of the same end
    eqs = [(prob.initial_constraint, c) for c in spec.initial] + [(prob.terminal_constraint, c) for c in spec.terminal]
    if when == 'first':
        for c in cons:
            declare(*c)
    if when != 'last':
        for i, (f, c) in enumerate(eqs):
            f(*c)
            if when == 'between' and i < len(cons):
                declare(*cons[i])
    if when == 'last' or (when == 'between' and len(cons) > len(eqs)):
        for c in cons[0 if when == 'last' else len(eqs):]:
            declare(*c)
    method = ctx.choose('method', ['traditional', 'diffyg'])
    ref = penalised(spec, cons)
    if any(c[5].lower() == 'epstrig' for c in cons):
        P = dict(P, spread=3.0)     # solver values of the control far beyond a quarter turn
    c05.compare(ctx, P, ref, method, 'differential', prob=prob)


def two_controls(ctx, P):
    """Two controls, each bounded by either method, in every order of declaration."""
    states, controls = grammar.DYN['two']
    spec = grammar.Spec(name='two', states={n: e for n, (e, _) in states.items()},
                        units={n: u for n, (_, u) in states.items()}, controls=dict(controls),
                        path='u1**2/2 + u2**2*k**2 + u1*u2/8', initial=[('t', 's'), ('x - x0', 'm')],
                        terminal=[('t - tf', 's'), ('y', 'm')], params={}, consts=CONSTS, termcost=None, initcost=None)
    m1, m2 = ctx.choose('u1', [None, 'utm', 'epstrig']), ctx.choose('u2', [None, 'utm', 'epstrig'])
    cons = []
    if m1:
        cons.append(('path', 'u1', 'lo', 'hi', 'eps', m1))
    if m2:
        cons.append(('path', 'u2', '-2', 'hi', 'eps2', m2))
    if ctx.flag('state bound'):
        cons.append(('path', 'y', 'lo', 'hi', 'eps', 'utm'))
    if ctx.flag('declared in reverse'):
        cons = cons[::-1]
    if not cons:
        from vmc.engine import Prune
        raise Prune()
    prob = grammar.build(spec)
    for loc, g, lo, hi, e, m in cons:
        prob.path_constraint(g, '1', lower=lo, upper=hi, activator=e, method=m)
    c05.compare(ctx, P, penalised(spec, cons), ctx.choose('method', ['traditional', 'diffyg']), 'differential',
                prob=prob)


def shape(ctx, P):
    """The penalty itself: zero mid-way, positive and increasing towards both bounds, unbounded at them, proportional
    to the activator, and absent when the quantity is exactly between the bounds."""
    loc = ctx.choose('location', ['path', 'initial', 'terminal'])
    lo, hi = ctx.choose('bounds', [(-1.0, 1.0), (0.5, 2.5), (-7.0, -3.0)])
    spec = base(ctx)
    spec['path'] = 'u**2/2'
    spec['consts'] = dict(CONSTS, lo=(lo, '1'), hi=(hi, '1'))
    prob = grammar.build(spec)
    f = dict(path=prob.path_constraint, initial=prob.initial_constraint, terminal=prob.terminal_constraint)[loc]
    f('x', 'm', lower='lo', upper='hi', activator='eps')
    bvp = ocp.pipeline(prob, method='traditional')
    fp = bvp.functional_problem
    names = [s.name for s in bvp.states]
    kn = [c.name for c in bvp.constants]

    def cost(x, eps=0.1):
        y = np.zeros(len(names))
        y[names.index('x')] = x
        k = np.array([c.default_val for c in bvp.constants])
        k[kn.index('eps')] = eps
        p = np.ones(len(bvp.parameters))
        nu = np.zeros(len(bvp.constraint_parameters))
        if loc == 'path':
            return float(fp.path_cost_func(y, p, k))
        return float((fp.initial_cost_func if loc == 'initial' else fp.terminal_cost_func)(y, p, nu, k))
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    ctx.close(cost(mid), 0, 'penalty is not zero half-way between the bounds', atol=1e-12)
    prev = 0.0
    for r in (0.2, 0.5, 0.9, 0.99, 0.9999):
        a, b = cost(mid + r * half), cost(mid - r * half)
        ctx.check(a > prev and abs(a - b) < 1e-6 * (1 + a), 'penalty is not symmetric and increasing', a=a, b=b, r=r)
        ctx.close(cost(mid + r * half, 0.2), 2 * a, 'penalty is not proportional to the activator', rtol=1e-8)
        prev = a
    ctx.check(cost(mid + (1 - 1e-9) * half) > 1e6, 'penalty does not grow without bound at the upper bound')
    ctx.check(cost(mid - (1 - 1e-9) * half) > 1e6, 'penalty does not grow without bound at the lower bound')
    ctx.state(loc, lo, hi, cost(mid + 0.5 * half))


def rejected(ctx, P):
    """What cannot be enforced is refused, never dropped."""
    loc = ctx.choose('location', ['path', 'initial', 'terminal'])
    bad = ctx.choose('defect', ['no lower', 'no upper', 'no bounds', 'unknown method', 'activator', 'trig on state',
                                'trig on expression'])
    method = ctx.choose('method', ['traditional', 'diffyg', 'direct'])
    if bad == 'no bounds' and loc != 'path' or bad.startswith('trig') and loc != 'path':
        from vmc.engine import Prune
        raise Prune()
    kw = dict(lower='lo', upper='hi', activator='eps', method='utm')
    g = 'x'
    if bad in ('no lower', 'no bounds'):
        kw['lower'] = None
    if bad in ('no upper', 'no bounds'):
        kw['upper'] = None
    if bad == 'unknown method':
        kw['method'] = 'magic'
    if bad == 'activator':
        kw['activator'] = 'undeclared'
    if bad.startswith('trig'):
        kw['method'] = 'epstrig'
        g = 'x' if bad.endswith('state') else '2*u'
    spec = base(ctx)

    def go():
        prob = grammar.build(spec)
        f = dict(path=prob.path_constraint, initial=prob.initial_constraint, terminal=prob.terminal_constraint)[loc]
        f(g, '1', **kw)
        if method == 'direct':
            from beluga.symbolic.data_classes import make_preprocessor, make_direct_method
            pre = make_preprocessor()(copy.deepcopy(prob))
            return make_direct_method(copy.deepcopy(pre), analytical_jacobian=False)(copy.deepcopy(pre))
        return ocp.pipeline(prob, method=method)
    ctx.raises(Exception, go, 'an inequality constraint that cannot be enforced was accepted: ' + bad)
    ctx.state(loc, bad, method)


HARNESSES = {
    'pairs': dict(fn=pairs, quick=dict(points=2, boundary=[True], when=['last', 'between', 'first']), thorough=dict(points=4, boundary=[False, True], when=['last', 'between', 'first']),
                  rule='every ordered pair of constraints'),
    'two_controls': dict(fn=two_controls, quick=dict(points=2), thorough=dict(points=4), rule='two bounded controls'),
    'shape': dict(fn=shape, quick={}, rule='penalty shape'),
    'rejected': dict(fn=rejected, quick={}, rule='unsupported constraints'),
}
