"""C23: the differential geometry the derivation rests on."""
import itertools
import types

import sympy as sp

RULE = ('One execution = one form, function, dimension and matrix of a bounded alphabet; the operators are compared with '
        'their defining identities (component formula, d(d f) = 0, product rule, conservation of H along its own field, '
        'Noether generator).')
ASSUMPTIONS = ['polynomial and trigonometric expressions of the alphabet']

x, y, z, p, q, r, k = sp.symbols('x y z p q r k')
FUN = [sp.Integer(0), sp.Integer(3), x, k * y, x * y, x ** 2 * z, sp.sin(x) * y, sp.exp(x * y), p * x - q * y, p ** 2 / 2 + sp.cos(x),
       p * q * x * y, x / (1 + y ** 2), r * z + p * q]


def zero(e):
    return sp.simplify(sp.expand(e)) == 0


def forms(ctx, P):
    from beluga.symbolic.differential_geometry import exterior_derivative
    n = ctx.choose('dimension', P['dims'])
    basis = [x, y, z, p, q, r][:n]
    f = ctx.choose('f', [FUN[i] for i in P['f']] if 'f' in P else FUN)
    df = exterior_derivative(f, basis)
    ctx.check(tuple(df.shape) == (n,), 'the derivative of a function has the wrong shape', shape=df.shape)
    for i in range(n):
        ctx.check(zero(df[i] - sp.diff(f, basis[i])), 'wrong component of df', i=i, got=df[i])
    kind = ctx.choose('one-form', ['df', 'g df', 'list'])
    g = ctx.choose('g', FUN[:P['g']])
    if kind == 'df':
        a = df
    elif kind == 'g df':
        a = sp.MutableDenseNDimArray([g * c for c in df])
    else:
        a = sp.Array([f, g, f * g, f + g, g * r, f - q][:n])
    da = exterior_derivative(a, basis)
    ctx.check(tuple(da.shape) == (n, n), 'the derivative of a one-form has the wrong shape', shape=da.shape)
    for i, j in itertools.product(range(n), repeat=2):
        want = sp.diff(a[j], basis[i]) - sp.diff(a[i], basis[j])
        ctx.check(zero(da[i, j] - want), 'wrong component of the derivative of a one-form', i=i, j=j, got=da[i, j], want=want)
        ctx.check(zero(da[i, j] + da[j, i]), 'the derivative is not antisymmetric')
        if kind == 'df':
            ctx.check(zero(da[i, j]), 'd(df) is not zero')
        if kind == 'g df':
            ctx.check(zero(da[i, j] - (sp.diff(g, basis[i]) * df[j] - sp.diff(g, basis[j]) * df[i])), 'product rule violated')
    if n > 1:
        ctx.raises((NotImplementedError, TypeError), lambda: exterior_derivative(da, basis), 'derivative of a two-form')
    ctx.state(n, str(f), kind, str(g))


def fields(ctx, P):
    from beluga.symbolic.differential_geometry import (make_hamiltonian_vector_field, make_standard_symplectic_form,
                                                       is_symplectic)
    n = ctx.choose('dimension', [1, 2, 3])
    X, L = [x, y, z][:n], [p, q, r][:n]
    om = make_standard_symplectic_form(X, L)
    J = sp.zeros(2 * n)
    for i in range(n):
        J[i, n + i], J[n + i, i] = 1, -1
    ctx.check(sp.Matrix(om.tomatrix()) == J, 'not the standard form', got=om)
    ctx.check(is_symplectic(om) is True, 'the standard form is rejected')
    H = ctx.choose('H', FUN)
    form = ctx.choose('form', ['standard', 'scaled', 'twisted'])
    if form == 'scaled':
        om = sp.MutableDenseNDimArray(J * (2 + k ** 2))
    elif form == 'twisted' and n > 1:
        J[0, 1], J[1, 0] = x, -x
        om = sp.MutableDenseNDimArray(J)
    M = sp.Matrix(om.tomatrix())
    v = make_hamiltonian_vector_field(H, om, X + L)
    ctx.check(len(v) == 2 * n, 'wrong length')
    dH = sp.Matrix([sp.diff(H, s) for s in X + L])
    ctx.check(all(zero(e) for e in (M * sp.Matrix(list(v)) + dH)), 'not the field of H', got=v)
    ctx.check(zero(sum(a * b for a, b in zip(v, dH))), 'H is not conserved along its own field')
    if form == 'standard':
        for i in range(n):
            ctx.check(zero(v[i] - sp.diff(H, L[i])) and zero(v[n + i] + sp.diff(H, X[i])), 'not Hamilton\'s equations')
    bad = ctx.choose('ill-formed', ['no', 'odd', 'not square', 'lengths'])
    if bad == 'odd':
        ctx.raises(ValueError, lambda: make_hamiltonian_vector_field(H, sp.MutableDenseNDimArray(sp.zeros(3)), [x, y, z]), 'odd')
    elif bad == 'not square':
        ctx.raises(ValueError, lambda: make_hamiltonian_vector_field(H, sp.MutableDenseNDimArray(sp.zeros(2, 4)), [x, p]), 'ns')
    elif bad == 'lengths':
        ctx.raises(ValueError, lambda: make_standard_symplectic_form([x, y], [p]), 'lengths')
    ctx.state(n, str(H), form)


def symplectic(ctx, P):
    from beluga.symbolic.differential_geometry import is_symplectic
    n = ctx.choose('size', [0, 1, 2, 3, 4])
    if n == 0:
        what = ctx.choose('object', ['none', 'vector', 'cube', 'rectangle'])
        o = {'none': None, 'vector': sp.MutableDenseNDimArray([1, 2]), 'cube': sp.MutableDenseNDimArray([0] * 8, (2, 2, 2)),
             'rectangle': sp.MutableDenseNDimArray(sp.zeros(2, 4))}[what]
        ctx.check(is_symplectic(o) is False, 'accepted: ' + what)
        ctx.state(what)
        return
    if n in (1, 3):
        a = sp.zeros(n)
        if n == 3 and ctx.flag('antisymmetric'):
            a[0, 1], a[1, 0] = 1, -1
        ctx.check(is_symplectic(sp.MutableDenseNDimArray(a)) is False, 'odd dimension accepted')
        ctx.state(n, str(a))
        return
    if n == 2:
        e = [ctx.choose('entry %d' % i, [0, 1, -1, x, -x]) for i in range(4)]
        a = sp.Matrix(2, 2, e)
    else:
        base = sp.zeros(4)
        base[0, 2] = base[1, 3] = 1
        base[2, 0] = base[3, 1] = -1
        i, j = ctx.choose('i', range(4)), ctx.choose('j', range(4))
        base[i, j] = ctx.choose('entry', [0, 1, -1, x])
        a = base
    if a == -a.T and a.det() == 0:
        ctx.state('degenerate')          # outside the statement
        return
    want = a == -a.T
    ctx.check(is_symplectic(sp.MutableDenseNDimArray(a)) is want, 'wrong verdict', matrix=a, want=want)
    ctx.state(str(a))


def generator(ctx, P):
    """The quantity belonging to a symmetry generates it; a quantity gives its own field."""
    from beluga.symbolic.differential_geometry import noether, make_standard_symplectic_form
    n = ctx.choose('dimension', [1, 2, 3])
    X, L = [x, y, z][:n], [p, q, r][:n]

    def st(s):
        return types.SimpleNamespace(sym=s, units=sp.Symbol('m'), name=str(s))
    prob = types.SimpleNamespace(states=[st(s) for s in X], costates=[st(s) for s in L],
                                 omega=make_standard_symplectic_form(X, L), cost=types.SimpleNamespace(units=sp.Symbol('s')))
    field = [ctx.choose('component %d' % i, [0, 1, -2, k]) for i in range(n)]
    if not any(field):
        field[0] = sp.Integer(1)
    g, u = noether(prob, types.SimpleNamespace(field=[sp.sympify(f) for f in field] + [sp.Integer(0)] * n, units=sp.Symbol('m')))
    for i in range(n):
        ctx.check(zero(sp.diff(g, L[i]) + field[i]) or zero(sp.diff(g, L[i]) - field[i]), 'not the generator of the symmetry',
                  g=g, field=field)
        ctx.check(zero(sp.diff(g, X[i])), 'the generator depends on a state', g=g)
    signs = {sp.sign(sp.simplify(sp.diff(g, L[i]) / field[i])) for i in range(n) if field[i] != 0}
    ctx.check(len(signs) == 1, 'the components of the generator have different signs', g=g, field=field)
    ctx.check(u == sp.Symbol('s') / sp.Symbol('m'), 'wrong units', u=u)
    ctx.state(n, str(field), str(g))


def chain(ctx, P):
    from beluga.symbolic.differential_geometry import total_derivative
    f = ctx.choose('f', FUN)
    var = ctx.choose('variable', [x, y, p])
    n = ctx.choose('dependent variables', [None, 0, 1, 2])
    pool = [(z, x ** 2 + k), (q, sp.sin(x) * 2 + y), (r, p * x)]
    deps = None if n is None else dict(ctx.choose('which', list(itertools.permutations(pool, n))))
    got = total_derivative(f, var) if deps is None else total_derivative(f, var, deps)
    want = sp.diff(f.subs(deps or {}), var)
    ctx.check(zero(sp.sympify(got).subs(deps or {}) - want), 'wrong total derivative', got=got, want=want)
    ctx.state(str(f), str(var), str(deps))


HARNESSES = dict(
    forms=dict(fn=forms, rule='all functions, one-forms and dimensions', quick=dict(dims=[1, 2, 3], g=6),
               thorough=dict(dims=[1, 2, 3, 4], g=len(FUN))),
    high=dict(fn=forms, rule='more dimensions', quick=dict(dims=[4, 5, 6], f=[8, 10, 12], g=5),
              thorough=dict(dims=[4, 5, 6], f=[4, 6, 8, 9, 10, 11, 12], g=8)),
    fields=dict(fn=fields, rule='all Hamiltonians and forms', quick={}),
    symplectic=dict(fn=symplectic, rule='all small matrices', quick={}),
    generator=dict(fn=generator, rule='all constant fields', quick={}),
    chain=dict(fn=chain, rule='all functions, variables and dependencies', quick={}),
)
