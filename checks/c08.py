"""C08: named quantities and switches mean what their definition says, wherever and in whatever order they are used."""
import itertools

import sympy

from checks import c05, c07
from vmc import grammar

RULE = ('One execution = one program with quantities/switches declared in one order and used in one set of places, '
        'derived and compared with the same program written out in full by an independent expansion.')
ASSUMPTIONS = ['quantity graphs: chains up to depth 4, diamonds; switches with one to three conditions per segment',
               'equality on a fixed grid of generic points']

GRAPHS = {
    'chain2': dict(qa='k*x + v', qb='qa**2/2 + t*qa'),
    'chain3': dict(qa='k*x + v', qb='qa**2/g + t', qc='sin(qb/2)*qa + qb'),
    'diamond': dict(qa='k*x', qb='qa + v**2', qc='qa*x - 1', qd='qb*qc + qa'),
    'chain4': dict(qa='k*x + v', qb='qa/g + t', qc='cos(qb)*v', qd='qc*qb + x'),
    'chain4b': dict(qa='x', qb='qa*k', qc='qb + 1/4', qd='qc**2'),
}
PLACES = ['dynamics', 'path cost', 'initial constraint', 'terminal constraint', 'terminal cost', 'initial cost',
          'bounded expression', 'bounds']


def expand(defs, text):
    """Independent expansion: substitute until nothing is left."""
    syms = {n: sympy.Symbol(n) for n in list(defs) + ['x', 'v', 't', 'u'] + list(c07.CONSTS)}
    e = sympy.sympify(text, locals=syms)
    d = {syms[n]: sympy.sympify(x, locals=syms) for n, x in defs.items()}
    for _ in range(len(defs) + 1):
        e = e.subs(d, simultaneous=True)
    assert not (e.free_symbols & set(d))
    return str(e)


def programme(places, last, defs, switches=()):
    """(user spec using the names, reference spec written out, constraints)"""
    q = last
    use = {p: (p in places) for p in PLACES}
    spec = grammar.Spec(
        name='q', states=dict(x='v' + (' + %s/7' % q if use['dynamics'] else ''),
                              v='u - g' + ('*(1 + %s)' % q if use['dynamics'] else '')),
        units=dict(x='m', v='m/s'), controls=dict(u='m/s**2'),
        path='u**2/2' + (' + %s*u/5 + %s**2' % (q, q) if use['path cost'] else ''),
        initial=[('t', 's'), ('x - x0' + (' + v*%s' % q if use['initial constraint'] else ''), 'm')],
        terminal=[('t - tf', 's'), ('v' + (' - %s' % q if use['terminal constraint'] else ''), 'm/s')],
        termcost='x**2' + (' + x*%s' % q if use['terminal cost'] else ''),
        initcost='v**2' + (' + t*%s' % q if use['initial cost'] else ''), params={}, consts=c07.CONSTS)
    cons = []
    if use['bounded expression']:
        cons.append(('path', 'x + %s/9' % q, 'lo', 'hi', 'eps', 'utm'))
    if use['bounds']:
        cons.append(('path', 'v', '-6 - (%s)**2' % q, '6 + (%s)**2' % q, 'eps2', 'utm'))
    ex = lambda e: expand(defs, e)
    ref = grammar.Spec(dict(spec), states={n: ex(e) for n, e in spec.states.items()}, path=ex(spec.path),
                       initial=[(ex(e), u) for e, u in spec.initial], terminal=[(ex(e), u) for e, u in spec.terminal],
                       termcost=ex(spec.termcost), initcost=ex(spec.initcost))
    rcons = [(l, ex(g), ex(a), ex(b), e, m) for l, g, a, b, e, m in cons]
    return spec, c07.penalised(ref, rcons), cons


def finish(ctx, P, spec, ref, cons, declare):
    prob = grammar.build(spec)
    declare(prob)
    for loc, g, lo, hi, e, m in cons:
        prob.path_constraint(g, '1', lower=lo, upper=hi, activator=e, method=m)
    c05.compare(ctx, P, ref, ctx.choose('method', P['methods']), 'differential', prob=prob)


def quantities(ctx, P):
    gname = ctx.choose('graph', list(GRAPHS))
    defs = GRAPHS[gname]
    order = ctx.choose('declaration order', list(itertools.permutations(defs)))
    places = ctx.choose('used in', P['places'])
    last = list(defs)[-1]
    spec, ref, cons = programme(places, last, defs)

    def declare(prob):
        for n in order:
            prob.quantity(n, defs[n])
    finish(ctx, P, spec, ref, cons, declare)


def sig(c, tol='tol'):
    """Gate of a segment: open where every one of its conditions is negative."""
    return '*'.join('(1/(1 + exp((%s)/(%s))))' % (x, tol) for x in ([c] if isinstance(c, str) else c))


def switches(ctx, P):
    """Switches, quantities inside switches, switches inside quantities, switches inside switches."""
    nseg = ctx.choose('segments', [2, 3])
    fun = [['k*x', 'g', '-v'], ['qz', 'qz**2 + x', 'v']][ctx.choose('segment expressions', [0, 1])][:nseg]
    con = [[['x - x0'], ['x0 - x'], ['v - x']], [['qz - x', 't - 3'], ['x - qz'], ['v', 'x', 'qz - 1']]]
    con = con[ctx.choose('conditions', [0, 1])][:nseg]
    nested = ctx.choose('nesting', ['none', 'switch in switch', 'switch in quantity', 'switch as bound'])
    tol = ctx.choose('tolerance', P['tol'])
    defs = dict(qz='k*v + x/2')
    sw = {'sa': (fun, con, tol)}
    defs['sa'] = ' + '.join('(%s)*%s' % (f, sig(c, tol)) for f, c in zip(fun, con))
    last, places = 'sa', ['dynamics', 'path cost', 'terminal constraint', 'terminal cost']
    if nested == 'switch in switch':
        sw['sb'] = (['sa*v', 'x'], ['t - sa', 'sa - t'], 'eps2')
        defs['sb'] = ' + '.join('(%s)*%s' % (f, sig(c, 'eps2')) for f, c in zip(*sw['sb'][:2]))
        last = 'sb'
    elif nested == 'switch in quantity':
        defs['qw'] = 'sa*x + qz'
        last = 'qw'
    elif nested == 'switch as bound':
        places = ['bounds', 'bounded expression', 'path cost']
    spec, ref, cons = programme(places, last, defs)
    items = [('q', n) for n in defs if n not in sw] + [('s', n) for n in sw]
    order = ctx.choose('declaration order', list(itertools.permutations(items))[:P.get('orders')])

    def declare(prob):
        for kind, n in order:
            if kind == 'q':
                prob.quantity(n, defs[n])
            else:
                f, c, tol = sw[n]
                prob.switch(n, f, [[x] if isinstance(x, str) else x for x in c], tol)
    finish(ctx, P, spec, ref, cons, declare)


ALL = [PLACES, ['dynamics'], ['path cost', 'bounds'], ['initial constraint', 'terminal cost'],
       ['terminal constraint', 'bounded expression', 'initial cost']]
HARNESSES = {
    'quantities': dict(fn=quantities, quick=dict(points=1, places=ALL[:1], methods=['traditional']),
                       thorough=dict(points=3, places=ALL, methods=['traditional', 'diffyg']),
                       rule='all declaration orders of every quantity graph'),
    'places': dict(fn=quantities, quick=dict(points=1, places=ALL[1:], methods=['traditional']), thorough_only=True,
                   rule='each place separately'),
    'switches': dict(fn=switches, quick=dict(points=1, methods=['traditional'], tol=['eps']),
                     thorough=dict(points=3, methods=['traditional', 'diffyg'], tol=['eps', '2*eps + k**2', '0.75']),
                     rule='switches and nesting'),
    'tolerances': dict(fn=switches, quick=dict(points=1, methods=['traditional'], orders=1, tol=['2*eps + k**2', '0.75']),
                       rule='switch tolerances that are expressions or numbers'),
}
