"""C17: user functions, tables and quantities mean what they compute."""
import copy

import numpy as np
import sympy as sp

from vmc import grammar, ocp

RULE = ('One execution = one program in which a user function, table or quantity appears (place x argument form x method x '
        'control method), compared point by point with the same program with the formula written out.')
ASSUMPTIONS = ['user functions are smooth; numerical differentiation is judged with tolerance 1e-4']


# products, not powers: compiled complex powers of negative numbers are not accurate enough for complex steps
def _f(a):
    return a * a * a / 5 + 0.3 * a


def _g(a, b):
    return a * a * b / 4 + 0.2 * b * b


def _h(a, b, c):
    return a * b * c / 3 + c * c / 5 - a * c


# the same functions written so that they cannot be compiled (a dictionary of mixed content)
_K = {'f': (1 / 5, 0.3, 'text'), 'g': (1 / 4, 0.2), 'h': [1 / 3, 1 / 5], 'one': (1, 'text')}


def _fo(a):
    return a ** 3 * _K['f'][0] + _K['f'][1] * a


def _go(a, b):
    return a ** 2 * b * _K['g'][0] + _K['g'][1] * b ** 2


def _ho(a, b, c):
    return a * b * c * _K['h'][0] + c ** 2 * _K['h'][1] - a * c


# functions whose higher derivatives do not vanish: too large a step shows
def _f5(a):
    return a * a * a * a * a / 7 - a * a * a * a / 3 + a


def _g5(a, b):
    return a * a * a * a * b / 4 + 0.2 * b * b * b * b * a


def _h5(a, b, c):
    return a * a * a * a * b * c / 3 + c * c * c * c * b / 5 - a * b * b * b * b


def _f5o(a):
    return _f5(a) * _K['one'][0]


def _g5o(a, b):
    return _g5(a, b) * _K['one'][0]


def _h5o(a, b, c):
    return _h5(a, b, c) * _K['one'][0]


OPAQUE = {'ff': _fo, 'gg': _go, 'hh': _ho}
FUNCS = {'ff': (_f, '(({0})**3/5 + 0.3*({0}))', ['m']), 'gg': (_g, '(({0})**2*({1})/4 + 0.2*({1})**2)', ['m', 'm']),
         'hh': (_h, '(({0})*({1})*({2})/3 + ({2})**2/5 - ({0})*({2}))', ['m', 'm', 'm'])}
# argument forms: list of calls ({f} is inlined by _inline)
FORMS = {
    'ff(x)': ['ff', 'x'], 'ff(v)': ['ff', 'v'], 'ff(x+v)': ['ff', 'x + 2*v'], 'ff(k*x)': ['ff', 'k*x'],
    'ff(t)': ['ff', 't'], 'gg(x,v)': ['gg', 'x', 'v'], 'gg(v,x)': ['gg', 'v', 'x'], 'gg(x,k)': ['gg', 'x', 'k'],
    'gg(x,x*v)': ['gg', 'x', 'x*v'], 'hh(x,v,t)': ['hh', 'x', 'v', 't'], 'ff(w)': ['ff', 'w'], 'gg(w,x)': ['gg', 'w', 'x'],
    'ff(2)': ['ff', '2'], 'ff(u)': ['ff', 'u'], 'gg(u,x)': ['gg', 'u', 'x'], 'ff(x)+ff(v)': ['ff', 'x', '+', 'ff', 'v'],
    'ff(ff(x))': ['ff', 'FF(x)'], 'gg(ff(v),x)': ['gg', 'FF(v)', 'x'],
}


def calls(form):
    """(text with calls, text with the formula)"""
    it = FORMS[form]
    if '+' in it:
        i = it.index('+')
        a, b = _one(it[:i]), _one(it[i + 1:])
        return a[0] + ' + ' + b[0], a[1] + ' + ' + b[1]
    return _one(it)


def _one(it):
    name, args = it[0], it[1:]
    call = '%s(%s)' % (name, ', '.join(a.replace('FF', 'ff') for a in args))
    inl = FUNCS[name][1].format(*[FUNCS['ff'][1].format(a[3:-1]) if a.startswith('FF') else a for a in args])
    return call, inl


def problem(text, place, defs, bound, opaque=False):
    import beluga
    p = beluga.Problem('c')
    p.independent('t', 's')
    rhs = 'u - 0.1*v'
    path = 'u**2/2 + u*x/7'
    con = 'x - xf'
    if place == 'eom':
        rhs += ' + ' + text
    elif place == 'path':
        path += ' + ' + text
    elif place == 'terminal':
        con += ' + ' + text
    p.state('x', 'v', 'm').state('v', rhs, 'm/s')
    p.control('u', 'm/s**2')
    for n, v, un in (('k', 0.7, '1'), ('xf', 1.2, 'm'), ('eps', 0.2, '1'), ('lo', -3., '1'), ('hi', 4., '1'), ('e2', 0.4, '1')):
        p.constant(n, v, un)
    if defs:
        for n, (f, _, au) in FUNCS.items():
            p.custom_function(n, OPAQUE[n] if opaque else f, 'm', au)
    p.quantity('w', 'x*v + k')
    p.path_cost(path, '1')
    if place == 'termcost':
        p.terminal_cost(text, 's')
    p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    p.terminal_constraint(con, 'm')
    if bound == 'epstrig':
        p.path_constraint('u', '1', lower='lo', upper='hi', activator='eps', method='epstrig')
    elif bound == 'switch':
        p.switch('sw', ['x', text if place == 'switch' else 'v'], [['x - 1'], ['1 - x']], 'e2')
        p.state('z', 'sw - x', 'm')
    elif bound == 'utm':
        p.path_constraint(text if place == 'utm' else 'x', '1', lower='-50', upper='60', activator='eps', method='utm')
    return p


def functions(ctx, P):
    place = ctx.choose('place', P['places'])
    form = ctx.choose('form', P['forms'])
    from vmc.engine import Prune
    if 'u' in FORMS[form] and place in ('terminal', 'termcost'):
        raise Prune()
    method = ctx.choose('method', P.get('methods', ['traditional', 'diffyg']))
    control = ctx.choose('control', ['differential', 'algebraic'])
    bound = 'switch' if place == 'switch' else 'utm' if place == 'utm' else ctx.choose('also', P['also'])
    if control == 'algebraic' and ('u' in FORMS[form] or bound == 'epstrig'):
        raise Prune()
    if 'u' in FORMS[form] and place in ('utm', 'switch'):
        raise Prune()
    call, inl = calls(form)
    opaque = ctx.flag('cannot be compiled') if P.get('opaque') else False
    a = ocp.pipeline(problem(call, place, True, bound, opaque), method=method, control_method=control)
    b = ocp.pipeline(problem(inl, place, False, bound), method=method, control_method=control)
    same_bvp(ctx, a, b, 'with a user function', 2e-4)
    ctx.state(place, form, method, control, bound, opaque)


def same_bvp(ctx, a, b, what, tol):
    f, g = a.functional_problem, b.functional_problem
    ctx.check([s.name for s in a.states] == [s.name for s in b.states], 'states differ')
    k = np.array([c.default_val for c in a.constants])
    ny = len(a.states)
    par = 1.3 + 0.5 * np.arange(len(a.parameters))
    nu = np.array([(-1) ** i * (0.2 + 0.1 * i) for i in range(len(a.constraint_parameters))])
    ys = [grammar.grid_values(ny, j) for j in range(3)]
    names = [s.name for s in a.states]
    for y in ys:
        ctx.close(f.deriv_func(y, par, k), g.deriv_func(y, par, k), 'equations of motion ' + what, rtol=tol, atol=tol,
                  names=names)
        if f.compute_u is not None or g.compute_u is not None:
            ctx.close(f.compute_u(y, par, k), g.compute_u(y, par, k), 'control ' + what, rtol=tol, atol=tol)
    for y0, y1 in ((ys[0], ys[1]), (ys[2], ys[0])):
        ctx.close(f.bc_func(y0, y1, par, nu, k), g.bc_func(y0, y1, par, nu, k), 'boundary conditions ' + what, rtol=tol,
                  atol=tol)
    ctx.state(np.round(np.asarray(g.deriv_func(ys[0], par, k)), 6))


# ---------------------------------------------------------------- quantities
QDEFS = {
    'a': 'x*v', 'b': 'a + k*x', 'c': 'b*a - v', 'd': 'c/(2 + b**2)',
}


def quantities(ctx, P):
    """Quantities defined in terms of each other, declared in every order, used everywhere."""
    import itertools
    import beluga
    n = P['chain']
    names = list(QDEFS)[:n]
    order = ctx.choose('declaration order', list(itertools.permutations(names)))
    use = ctx.choose('used', names)
    place = ctx.choose('place', ['eom', 'path', 'terminal', 'termcost', 'bound', 'initial', 'switch'])
    late = ctx.flag('declared last')
    method = ctx.choose('method', P['methods'])
    full = {}
    loc = {s: sp.Symbol(s) for s in ('x', 'v', 'k')}
    for nm, e in QDEFS.items():
        full[nm] = sp.sympify(e, locals=dict(loc, **full))
    text = dict(full)

    def make(inline):
        p = beluga.Problem('q')
        p.independent('t', 's')
        q = '(%s)' % text[use] if inline else use

        def decl():
            for nm in order:
                p.quantity(nm, QDEFS[nm])
        if not late and not inline:
            decl()
        p.state('x', 'v', 'm').state('v', 'u' + (' + ' + q if place == 'eom' else ''), 'm/s').control('u', 'm/s**2')
        for c, v in (('k', 0.7), ('xf', 1.2), ('eps', 0.2), ('e2', 0.4)):
            p.constant(c, v, '1')
        p.path_cost('u**2/2' + (' + ' + q if place == 'path' else ''), '1')
        if place == 'termcost':
            p.terminal_cost(q, 's')
        p.initial_constraint('x' + (' + ' + q if place == 'initial' else ''), 'm').initial_constraint('t', 's')
        p.terminal_constraint('x - xf' + (' + ' + q if place == 'terminal' else ''), 'm')
        if place == 'bound':
            p.path_constraint(q, '1', lower='-60', upper='70', activator='eps')
        if place == 'switch':
            p.switch('sw', ['x', q], [['x - 1'], [q + ' - 1']], 'e2')
            p.state('z', 'sw - x', 'm')
        if late and not inline:
            decl()
        return p
    a = ocp.pipeline(make(False), method=method, control_method='differential')
    b = ocp.pipeline(make(True), method=method, control_method='differential')
    same_bvp(ctx, a, b, 'with quantities', 1e-9)
    ctx.state(order, use, place, late, method)


# ---------------------------------------------------------------- tables
def tables(ctx, P):
    """A table reproduces its data, is smooth, and its derivatives are the derivatives of what it returns."""
    from beluga.symbolic.special_functions import TableSpline1D
    xs = ctx.choose('abscissae', P['grids'])
    ys = ctx.choose('data', ['line', 'square', 'wave', 'mixed'])
    x = np.array(xs, dtype=float)
    y = {'line': 2 * x + 1, 'square': x ** 2, 'wave': np.sin(x), 'mixed': (-1.0) ** np.arange(len(x))}[ys]
    t = TableSpline1D('tab', y.copy(), x.copy())
    for xi, yi in zip(x, y):
        ctx.close(t(float(xi)), yi, 'the table does not return its own data', rtol=1e-9, atol=1e-9)
    from scipy.interpolate import CubicSpline
    ref = CubicSpline(x, y, bc_type='natural')
    pts = np.concatenate([np.linspace(a, b, 5) for a, b in zip(x[:-1], x[1:])])
    pts = np.concatenate((pts, [x[0] - 0.3, x[0] - 2.0, x[-1] + 0.4, x[-1] + 3.0]))
    for order in range(0, 4):
        f = t.form_eval_function(order)
        for p in pts:
            if order == 3 and np.min(np.abs(x - p)) < 1e-9:
                continue           # the third derivative jumps at the data points
            ctx.close(f(float(p)), ref(p, order), 'order %d derivative of the table' % order, rtol=1e-7, atol=1e-7)
    ctx.check(t.form_eval_function(4)(float(pts[1])) == 0, 'fourth derivative of a cubic is not zero')
    ctx.state(xs, ys)


def table_problem(ctx, P):
    """A table inside a problem behaves as the function it tabulates: wherever it is evaluated here, the natural spline through
    the data is one and the same cubic, which is written out in the reference."""
    import beluga
    from scipy.interpolate import CubicSpline
    place = ctx.choose('place', ['eom', 'path', 'terminal', 'termcost', 'control', 'quantity'])
    method = ctx.choose('method', ['traditional', 'diffyg'])
    control = ctx.choose('control', ['differential', 'algebraic'] if place != 'control' else ['differential'])
    arg = ctx.choose('argument', ['x', 'v', 'x + v', 'k*x', 'w', 'tab(x)', 'tab(x) + tab(v)*tob(x)', 'ff(x)']
                     if place != 'control' else ['u', 'u + x', 'u*v', 'k*u + tab(x)'])
    xs = np.array([-40., 40., 41.])
    tabs = dict(tab=np.array([-20., 20., 19.8]), tob=np.array([3., -3., -3.12]))

    def cubic(name):
        c = CubicSpline(xs, tabs[name], bc_type='natural').c[:, 0]
        return lambda a: '(%s)' % ' + '.join('%r*((%s) + 40)**%d' % (float(ci), a, 3 - i) for i, ci in enumerate(c))

    def text(table):
        q = 'tab(%s)' % arg
        if not table:
            import sympy
            loc = {n: sympy.Lambda(sympy.Symbol('z'), sympy.sympify(cubic(n)('z'))) for n in tabs}
            loc['ff'] = sympy.Lambda(sympy.Symbol('z'), sympy.sympify(FUNCS['ff'][1].format('z')))
            q = str(sympy.sympify(q, locals=loc))
        return '(%s)' % q

    def make(table):
        p = beluga.Problem('t')
        p.independent('t', 's')
        q = text(table)
        p.state('x', 'v', 'm').state('v', 'u' + (' + ' + q if place == 'eom' else ' + qq' if place == 'quantity' else ''), 'm/s')
        p.control('u', 'm/s**2')
        for c, v in (('k', 0.7), ('xf', 1.2)):
            p.constant(c, v, '1')
        p.quantity('w', 'x*v')
        if table:
            for n in tabs:
                p.table(n, '1d_spline', tabs[n], xs, '1', ['1'])
            p.custom_function('ff', _f, '1', ['1'])
        if place == 'quantity':
            p.quantity('qq', q + '*x')
        p.path_cost('u**2/2' + (' + ' + q if place in ('path', 'control') else ''), '1')
        if place == 'termcost':
            p.terminal_cost(q, 's')
        p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
        p.terminal_constraint('x - xf' + (' + ' + q if place == 'terminal' else ''), 'm')
        return p
    a = ocp.pipeline(make(True), method=method, control_method=control)
    b = ocp.pipeline(make(False), method=method, control_method=control)
    # only the derivatives of the custom function are taken numerically
    same_bvp(ctx, a, b, 'with a table', 1e-6 if 'ff' in arg else 1e-8)
    ctx.state(place, arg, method, control)


# ---------------------------------------------------------------- numerical derivatives
def derivatives(ctx, P):
    from beluga.numeric.numerical_derivatives import gen_num_diff
    n = ctx.choose('arguments', [1, 2, 3])
    f = {1: _f, 2: _g, 3: _h}[n]
    order = ctx.choose('order', [o for o in _orders(n, P['max']) if sum(o) > 0])
    how = ctx.choose('method', P['how'])
    form = ctx.choose('function', ['plain', 'compiled', 'opaque', 'steep', 'steep, opaque'])
    if form == 'opaque':
        f = {1: _fo, 2: _go, 3: _ho}[n]
    elif form == 'steep, opaque':
        f = {1: _f5o, 2: _g5o, 3: _h5o}[n]
    elif form == 'steep':
        f = {1: _f5, 2: _g5, 3: _h5}[n]
    elif form == 'compiled':
        from beluga.numeric.compilation import jit_compile_func
        f = jit_compile_func(f, ['scalar'] * n)
    d = gen_num_diff(f, order=order, method=how)
    s = sp.symbols('a b c')[:n]
    e = {1: s[0] ** 3 / 5 + sp.Float(0.3) * s[0]}.get(n)
    if n == 2:
        e = s[0] ** 2 * s[1] / 4 + sp.Float(0.2) * s[1] ** 2
    if n == 3:
        e = s[0] * s[1] * s[2] / 3 + s[2] ** 2 / 5 - s[0] * s[2]
    if 'steep' in form:
        e = {1: _f5, 2: _g5, 3: _h5}[n](*s)
    for si, o in zip(s, order):
        e = sp.diff(e, si, o)
    for j in range(3):
        v = grammar.grid_values(n, j)
        want = float(e.subs(dict(zip(s, v))))
        tol = 1e-3 if how in ('f_diff', 'b_diff', 'csd') else 1e-4
        if sum(order) > 2:
            tol *= 30
        ctx.close(float(d(*[float(z) for z in v])), want, 'numerical derivative', rtol=tol, atol=tol)
    ctx.state(n, order, how, form)


def _orders(n, m):
    import itertools
    return [o for o in itertools.product(range(m + 1), repeat=n) if sum(o) <= m]


def coefficients(ctx, P):
    """Finite-difference weights are exact on polynomials, for every grid in the alphabet."""
    from beluga.numeric.numerical_derivatives.finite_diff import gen_fin_diff_coeff
    m = ctx.choose('derivative', range(0, P['deriv'] + 1))
    n = ctx.choose('points', range(m + 1, m + 4))
    shift = ctx.choose('offset', [0, -1, -2, -(n - 1), -(n - 1) / 2])
    stretch = ctx.choose('spacing', [1.0, 0.5])
    grid = (np.arange(n) + shift) * stretch
    w = gen_fin_diff_coeff(m, grid)
    for deg in range(n):
        want = np.prod(np.arange(deg, deg - m, -1)) if deg == m else 0.0
        want = float(sp.factorial(m)) if deg == m else 0.0
        ctx.close(float(np.dot(w, grid ** deg)), want, 'weights are not exact on degree %d' % deg, rtol=1e-8, atol=1e-8)
    ctx.state(m, n, shift, stretch)


Q = dict(places=['eom', 'path', 'terminal', 'termcost', 'switch', 'utm'], forms=list(FORMS), also=['nothing', 'epstrig'])
HOW = ['c_diff', 'f_diff', 'b_diff', 'csd']
HARNESSES = {
    'functions': dict(fn=functions, quick=Q, thorough=Q, rule='user functions'),
    'quantities': dict(fn=quantities, quick=dict(chain=3, methods=['traditional']),
                       thorough=dict(chain=4, methods=['traditional', 'diffyg']), rule='quantity chains'),
    'tables': dict(fn=tables, quick=dict(grids=[(0, 1, 2), (0, 1, 2, 3), (-2, -1, 0.5, 1, 4), (-10, 0, 10), (0, 0.1, 5, 6, 7, 9)]),
                   rule='spline tables'),
    'table_problem': dict(fn=table_problem, quick={}, rule='tables in problems'),
    'derivatives': dict(fn=derivatives, quick=dict(max=2, how=HOW),
                        thorough=dict(max=3, how=HOW), rule='numerical derivatives'),
    'derivatives_jit': dict(fn=derivatives, quick=dict(max=2, how=HOW), thorough=dict(max=3, how=HOW), jit=True,
                            rule='numerical derivatives, compiled'),
    'functions_jit': dict(fn=functions, jit=True,
                          quick=dict(places=['eom'], forms=['ff(x)', 'gg(x,v)'], also=['nothing'], methods=['traditional'],
                                     opaque=True),
                          thorough=dict(Q, opaque=True), rule='user functions, compiled or impossible to compile'),
    'coefficients': dict(fn=coefficients, quick=dict(deriv=4), thorough=dict(deriv=6), rule='difference weights'),
}
