"""A bounded grammar of optimal-control programs, built through the public problem interface, plus an independent
derivation of the first-order necessary conditions (plain sympy, written from the textbook, not from the code)."""
import itertools

import numpy as np
import sympy as sp

# name: (states {name: (eom, units)}, controls {name: units})
DYN = {
    'single': (dict(x=('u', 'm')), dict(u='m/s')),
    'decay': (dict(x=('-k*x + u', 'm')), dict(u='m/s')),
    'double': (dict(x=('v', 'm'), v=('u', 'm/s')), dict(u='m/s**2')),
    'drag': (dict(x=('v', 'm'), v=('u - k*v**2/L', 'm/s')), dict(u='m/s**2')),
    'timed': (dict(x=('v', 'm'), v=('u - g*cos(k*t)', 'm/s')), dict(u='m/s**2')),
    'angle': (dict(x=('V*cos(th) + k*y', 'm'), y=('V*sin(th)', 'm')), dict(th='1')),
    'swap': (dict(v=('u', 'm/s'), x=('v', 'm')), dict(u='m/s**2')),
    'two': (dict(x=('v', 'm'), v=('u1 + k*u2', 'm/s'), y=('u2', 'm')), dict(u1='m/s**2', u2='m/s')),
    'brach': (dict(x=('v*cos(th)', 'm'), y=('v*sin(th)', 'm'), v=('g*sin(th)', 'm/s')), dict(th='1')),
}
# control energy with coupling, per dynamics
ENERGY = {
    'single': 'u**2/2', 'decay': 'u**2/2', 'double': 'u**2/2', 'drag': 'u**2/2', 'timed': 'u**2/2', 'swap': 'u**2/2',
    'angle': None, 'two': '(u1**2/2 + u2**2*k**2)', 'brach': None,
}
PATH = {
    'energy': lambda d: ENERGY[d],
    'energy+x': lambda d: ENERGY[d] and ENERGY[d] + ' + w*x**2/2',
    'energy*t': lambda d: ENERGY[d] and '(' + ENERGY[d] + ')*(2 + k*t)',
    'one': lambda d: '1' if ENERGY[d] is None else None,
    'one+x': lambda d: '1 + x**2/L**2/4' if ENERGY[d] is None else None,
}
# constants with generic values (so that no two terms coincide by accident)
CONST = dict(k=(0.7, '1/s'), L=(1.9, 'm'), g=(1.3, 'm/s**2'), V=(1.1, 'm/s'), w=(0.6, '1/s**4'), xf=(1.7, 'm'),
             yf=(-0.8, 'm'), vf=(0.4, 'm/s'), tf=(2.3, 's'), x0=(0.2, 'm'))
INITIAL = {
    'fixed': lambda s: [('t', 's')] + [(n + (' - x0' if n == 'x' else ''), u) for n, u in s],
    'free_last': lambda s: [('t', 's')] + [(n, u) for n, u in s[:-1]],
    'timefree': lambda s: [(n, u) for n, u in s],
    'coupled': lambda s: [('t', 's'), (s[0][0] + '*(1 + k*t) - 1/4*' + 'x0' + ('/x0*vf' if s[0][0] == 'v' else ''),
                           s[0][1])] + [(n, u) for n, u in s[1:]],
}
TERMINAL = {
    'fixed+tf': lambda s: [(n + ' - ' + n + 'f', u) for n, u in s] + [('t - tf', 's')],
    'fixed': lambda s: [(n + ' - ' + n + 'f', u) for n, u in s],
    'first+tf': lambda s: [(n + ' - ' + n + 'f', u) for n, u in s[:1]] + [('t - tf', 's')],
    'moving': lambda s: [(s[0][0] + ' - ' + s[0][0] + 'f*(1 + k*t)', s[0][1])],
}
TERMCOST = {'none': None, 'quad': lambda s: ' + '.join('%s**2' % n for n, _ in s[-1:]),
            'time': lambda s: 't**2/2 + t*' + s[0][0]}
INITCOST = {'none': None, 'quad': lambda s: '(%s - 1)**2' % s[-1][0], 'time': lambda s: 't*%s + t**2' % s[0][0]}


class Spec(dict):
    __getattr__ = dict.get


def choose(ctx, P):
    d = ctx.choose('dynamics', P['dyn'])
    states, controls = DYN[d]
    s = [(n, u) for n, (_, u) in states.items()]
    paths = [p for p in P['path'] if PATH[p](d) is not None]
    path = ctx.choose('path cost', paths)
    ini = ctx.choose('initial constraints', P['initial'])
    ter = ctx.choose('terminal constraints', P['terminal'])
    tc = ctx.choose('terminal cost', P['termcost'])
    ic = ctx.choose('initial cost', P['initcost'])
    return Spec(name=d, states={n: e for n, (e, _) in states.items()}, units={n: u for n, (_, u) in states.items()},
                controls=dict(controls), path=PATH[path](d), initial=INITIAL[ini](s), terminal=TERMINAL[ter](s),
                termcost=TERMCOST[tc] and TERMCOST[tc](s), initcost=INITCOST[ic] and INITCOST[ic](s), params={})


def build(spec, name='g', order=None):
    """The user's program."""
    import beluga
    p = beluga.Problem(name)
    p.independent('t', 's')
    for n, e in spec.states.items():
        p.state(n, e, spec.units[n])
    for n, u in spec.controls.items():
        p.control(n, u)
    for n, u in (spec.params or {}).items():
        p.parameter(n, u)
    for n, (v, u) in (spec.consts or CONST).items():
        p.constant(n, v, u)
    if spec.path is not None:
        p.path_cost(spec.path, '1')
    if spec.termcost is not None:
        p.terminal_cost(spec.termcost, 's')
    if spec.initcost is not None:
        p.initial_cost(spec.initcost, 's')
    for e, u in spec.initial:
        p.initial_constraint(e, u)
    for e, u in spec.terminal:
        p.terminal_constraint(e, u)
    if spec.scale:
        p.scale(**spec.scale)
    return p


class Ref:
    """First-order necessary conditions of the program, time carried as a state."""

    def __init__(self, spec, shift=True):
        S = sp.Symbol
        consts = spec.consts or CONST
        names = list(spec.states) + ['t'] + list(spec.controls) + list(spec.params or {}) + list(consts)
        loc = {n: S(n) for n in names}

        def P(e):
            return sp.sympify(e, locals=loc)
        self.x = [loc[n] for n in spec.states] + [loc['t']] * shift
        self.u = [loc[n] for n in spec.controls]
        self.p = [loc[n] for n in (spec.params or {})]
        self.k = [loc[n] for n in consts]
        f = [P(e) for e in spec.states.values()] + [sp.Integer(1)] * shift
        self.lam = [S('l_%s' % v) for v in self.x]
        self.lp = [S('l_%s' % v) for v in self.p]
        L = P(spec.path) if spec.path else sp.Integer(0)
        self.H = L + sum(l * fi for l, fi in zip(self.lam, f))
        self.L = L
        self.f = f
        psi0 = [P(e) for e, _ in spec.initial]
        psif = [P(e) for e, _ in spec.terminal]
        self.nu0 = [S('n0_%d' % i) for i in range(len(psi0))]
        self.nuf = [S('nf_%d' % i) for i in range(len(psif))]
        c0 = P(spec.initcost) if spec.initcost else sp.Integer(0)
        cf = P(spec.termcost) if spec.termcost else sp.Integer(0)
        self.c0, self.cf = c0, cf
        phi0 = c0 + sum(n * e for n, e in zip(self.nu0, psi0))
        phif = cf + sum(n * e for n, e in zip(self.nuf, psif))
        self.lamdot = [-sp.diff(self.H, v) for v in self.x]
        self.lpdot = [-sp.diff(self.H, v) for v in self.p]
        self.Hu = [sp.diff(self.H, v) for v in self.u]
        Huu = sp.Matrix(self.Hu).jacobian(self.u)
        Hux = sp.Matrix(self.Hu).jacobian(self.x)
        Hul = sp.Matrix(self.Hu).jacobian(self.lam)
        self.bc0 = psi0 + [l + sp.diff(phi0, v) for l, v in zip(self.lam + self.lp, self.x + self.p)]
        self.bcf = psif + [l - sp.diff(phif, v) for l, v in zip(self.lam + self.lp, self.x + self.p)] + [self.H]
        args = [self.x, self.u, self.lam, self.lp, self.p, self.nu0, self.nuf, self.k]

        def lam_(e):
            return sp.lambdify(args, e, ['numpy', 'math'])
        self.args = args
        self.n_f = lam_(f)
        self.n_lamdot = lam_(self.lamdot)
        self.n_lpdot = lam_(self.lpdot)
        self.n_Hu = lam_(self.Hu)
        self.n_H = lam_(self.H)
        self.n_bc0 = lam_(self.bc0)
        self.n_bcf = lam_(self.bcf)
        self.n_Huu = lam_(Huu)
        self.n_Hux = lam_(Hux)
        self.n_Hul = lam_(Hul)
        self.n_L = lam_(L)
        self.n_c0 = lam_(c0)
        self.n_cf = lam_(cf)
        self.n_fu = lam_(sp.Matrix(f).jacobian(self.u))
        self.n_Lu = lam_([sp.diff(L, v) for v in self.u])

    def udot(self, a):
        rhs = np.array(self.n_Hux(*a), dtype=float) @ np.array(self.n_f(*a), dtype=float) \
            + np.array(self.n_Hul(*a), dtype=float) @ np.array(self.n_lamdot(*a), dtype=float)
        return -np.linalg.solve(np.array(self.n_Huu(*a), dtype=float), rhs)

    def on_manifold(self, a):
        """Nearest costates for which the Hamiltonian is stationary in the control (it is affine in the costates)."""
        a = list(a)
        fu = np.array(self.n_fu(*a), dtype=float)
        g = np.array(self.n_Hu(*a), dtype=float)
        a[2] = np.array(a[2], dtype=float) - fu @ np.linalg.solve(fu.T @ fu, g)
        return a


def grid_values(n, j):
    """Deterministic generic values: row j of a low-discrepancy set in [-1.3, 1.3] away from zero."""
    out = []
    for i in range(n):
        v = ((j + 1) * (0.6180339887 + 0.1234567 * i) + 0.377 * i) % 1.0
        s = 1 if ((j * 7 + i * 3) % 2 == 0) else -1
        out.append(s * (0.25 + 1.05 * v))
    return np.array(out)
