"""C03: automatic scaling is a change of units, nothing else."""
import copy
import functools

import numpy as np
import sympy as sp

from vmc import grammar, ocp

RULE = ('One execution = one dimensionally consistent program x scale declaration x solution option set: the factors the '
        'code computes are compared with factors computed from the declared units, scaling is undone, and every compiled '
        'function is evaluated on the scaled and on the unscaled point.')
ASSUMPTIONS = ['the program is dimensionally consistent and every unit has a scale']

# name -> (states {name:(eom, unit)}, controls, consts {name:(value, unit)}, path (expr, unit), termcost, initial, terminal,
#          extra(problem))
K = dict(x_f=(3.0, 'm'), v_f=(-2.0, 'm/s'), t_f=(4.0, 's'), L=(7.0, 'm'))


def _utm_state(p):
    p.constant('e1', 0.3, 'm**2/s**4').constant('xlo', -5.0, 'm').constant('xhi', 9.0, 'm')
    p.path_constraint('x', 'm', lower='xlo', upper='xhi', activator='e1', method='utm')


def _epstrig(p):
    p.constant('e1', 0.3, 'm**2/s**4').constant('ulo', -5.0, 'm/s**2').constant('uhi', 9.0, 'm/s**2')
    p.path_constraint('u', 'm/s**2', lower='ulo', upper='uhi', activator='e1', method='epstrig')


def _quantity(p):
    p.quantity('acc', 'u - v**2/L')


PROGS = {
    'double': dict(states=dict(x=('v', 'm'), v=('u', 'm/s')), controls=dict(u='m/s**2'), consts=K,
                   path=('u**2/2', 'm**2/s**4'), initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')],
                   terminal=[('x - x_f', 'm'), ('v - v_f', 'm/s'), ('t - t_f', 's')], cost='m**2/s**3'),
    'drag+termcost': dict(states=dict(x=('v', 'm'), v=('u - v**2/L', 'm/s')), controls=dict(u='m/s**2'), consts=K,
                          path=('u**2/2', 'm**2/s**4'), termcost=('v**2/t/2', 'm**2/s**3'),
                          initial=[('t', 's'), ('x', 'm')], terminal=[('x**2 - x_f**2', 'm**2')], cost='m**2/s**3'),
    'quantity': dict(states=dict(x=('v', 'm'), v=('acc', 'm/s')), controls=dict(u='m/s**2'), consts=K,
                     path=('u**2/2', 'm**2/s**4'), initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')], extra=_quantity,
                     terminal=[('x - x_f', 'm'), ('t - t_f', 's')], cost='m**2/s**3'),
    'mass': dict(states=dict(x=('v', 'm'), v=('u/m - g', 'm/s'), m=('-u**2/(w*m*g)/c', 'kg')), controls=dict(u='kg*m/s**2'),
                 consts=dict(x_f=(3.0, 'm'), g=(9.0, 'm/s**2'), c=(2.0, '1'), m_0=(5.0, 'kg'), w=(2.2, 'm/s')),
                 path=None, termcost=('-m', 'kg'), initial=[('t', 's'), ('x', 'm'), ('m - m_0', 'kg')],
                 terminal=[('x - x_f', 'm')], cost='kg'),
    'brach': dict(states=dict(x=('v*cos(th)', 'm'), y=('v*sin(th)', 'm'), v=('g*sin(th)', 'm/s')), controls=dict(th='rad'),
                  consts=dict(x_f=(3.0, 'm'), y_f=(-2.0, 'm'), g=(-9.0, 'm/s**2')), path=('1', '1'),
                  initial=[('t', 's'), ('x', 'm'), ('y', 'm'), ('v', 'm/s')],
                  terminal=[('x - x_f', 'm'), ('y - y_f', 'm')], cost='s'),
    'utm': dict(states=dict(x=('v', 'm'), v=('u', 'm/s')), controls=dict(u='m/s**2'), consts=K, extra=_utm_state,
                path=('u**2/2', 'm**2/s**4'), initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')],
                terminal=[('x - x_f', 'm')], cost='m**2/s**3'),
    'epstrig': dict(states=dict(x=('v', 'm'), v=('u', 'm/s')), controls=dict(u='m/s**2'), consts=K, extra=_epstrig,
                    path=('u**2/2', 'm**2/s**4'), initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')],
                    terminal=[('x - x_f', 'm')], cost='m**2/s**3', nou=True),
    'param': dict(states=dict(x=('v + p', 'm'), v=('u', 'm/s')), controls=dict(u='m/s**2'), params=dict(p='m/s'), consts=K,
                  path=('u**2/2 + p**2*v**2/L**2', 'm**2/s**4'), initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')],
                  terminal=[('x - x_f', 'm'), ('v - v_f', 'm/s')], cost='m**2/s**3'),
}
# what each base unit is scaled by; {c} is replaced by the first constant of that dimension
SCALES = {
    'numbers': lambda c: dict(m=10, s=0.25, kg=3, rad=1),
    'constants': lambda c: dict(m='x_f', s=c.get('s', 2), kg=c.get('kg', 3), rad=1),
    'states': lambda c: dict(m='x', s='x/v', kg=c.get('kg', 3), rad=1),
    'composite': lambda c: dict(m='3*x_f', s='(x + x_f)/v', kg=2, rad=1),
    'signed': lambda c: dict(m='neg', s='neg/v', kg=2, rad=1),        # references with negative values
}


def make(name, scale):
    import beluga
    d = PROGS[name]
    p = beluga.Problem(name.replace('+', '_'))
    p.independent('t', 's')
    for n, (e, u) in d['states'].items():
        p.state(n, e, u)
    for n, u in d['controls'].items():
        p.control(n, u)
    for n, u in d.get('params', {}).items():
        p.parameter(n, u)
    for n, (v, u) in d['consts'].items():
        p.constant(n, v, u)
    if scale == 'signed':
        p.constant('neg', -2.5, 'm')
    if 'extra' in d:
        d['extra'](p)
    if d['path']:
        p.path_cost(*d['path'])
    if d.get('termcost'):
        p.terminal_cost(*d['termcost'])
    for e, u in d['initial']:
        p.initial_constraint(e, u)
    for e, u in d['terminal']:
        p.terminal_constraint(e, u)
    first = {}
    for n, (v, u) in d['consts'].items():
        first.setdefault(u, n)
    used = {'s'}
    for un in [w for _, w in d['states'].values()] + list(d['controls'].values()):
        used |= {str(z) for z in sp.sympify(un, locals={k: sp.Symbol(k) for k in ('m', 's', 'kg', 'rad')}).free_symbols}
    # the program called mass uses m as a state name: its length unit is declared under another name
    sc = {k: v for k, v in SCALES[scale](first).items() if k in used}
    if scale == 'signed' and d.get('params'):
        sc['s'] = 'x/p'
    return p, d, sc


def expected_units(d, bvp, sym=()):
    """Units of every solver quantity, from the declarations alone."""
    S = lambda e: sp.sympify(e, locals={k: sp.Symbol(k) for k in ('m', 's', 'kg', 'rad', 'mt')})
    cost = S(d['cost'])
    decl = {n: S(u) for n, (_, u) in d['states'].items()}
    decl.update({n: S(u) for n, u in d['controls'].items()})
    decl.update({n: S(u) for n, u in d.get('params', {}).items()})
    decl['t'] = S('s')

    def unit(name):
        if name in decl:
            return decl[name]
        if name.startswith('_lam_'):
            return cost / unit(name[5:])
        if name.startswith('_nu_0_'):
            return cost / S(d['initial'][int(name[6:])][1])
        if name.startswith('_nu_f_'):
            return cost / S(d['terminal'][int(name[6:])][1])
        if name.startswith('com_'):
            return cost / decl[sym[int(name[4:])]]
        if name.startswith('_q_'):
            return decl[sym[int(name[3:])]]
        if name.startswith('_delta'):
            return S('s')
        if name.endswith('_trig'):
            return sp.Integer(1)
        if name == '_tau':
            return sp.Integer(1)
        if name == '_t':
            return S('s')
        return None
    cu = {c.name: c.units for c in bvp.constants}
    return lambda n: unit(n) if unit(n) is not None else cu.get(n)


def covariance(ctx, P):
    name = ctx.choose('program', P['programs'])
    scale = ctx.choose('scale', P['scales'])
    if name == 'mass':
        # m is both a unit and a state there; use kg/mt for the units
        if scale not in ('numbers', 'constants'):
            scale = 'numbers'
    p, d, sc = make(name, scale)
    if name == 'mass':
        import beluga
        p = beluga.Problem('mass')
        p.independent('t', 's')
        fix = {'m': 'mt', 'm/s': 'mt/s', 'm/s**2': 'mt/s**2', 'kg*m/s**2': 'kg*mt/s**2'}
        d = dict(d, states={n: (e, fix.get(u, u)) for n, (e, u) in d['states'].items()},
                 controls={n: fix.get(u, u) for n, u in d['controls'].items()},
                 consts={n: (v, fix.get(u, u)) for n, (v, u) in d['consts'].items()},
                 initial=[(e, fix.get(u, u)) for e, u in d['initial']],
                 terminal=[(e, fix.get(u, u)) for e, u in d['terminal']])
        for n, (e, u) in d['states'].items():
            p.state(n, e, u)
        for n, u in d['controls'].items():
            p.control(n, u)
        for n, (v, u) in d['consts'].items():
            p.constant(n, v, u)
        p.terminal_cost(*d['termcost'])
        for e, u in d['initial']:
            p.initial_constraint(e, u)
        for e, u in d['terminal']:
            p.terminal_constraint(e, u)
        sc = dict(mt='x_f', s='x/v', kg='m_0') if scale == 'constants' else dict(mt=10, s=0.25, kg=3)
    p.scale(**sc)
    method = ctx.choose('method', ['traditional', 'diffyg', 'reduced'] if name in ('double', 'brach') else
                        ['traditional', 'diffyg'])
    opts = {}
    sym = []
    if method == 'reduced':
        sym = ctx.choose('symmetries', [['x'], ['y'], ['x', 'y'], ['y', 'x']] if name == 'brach' else [['x']])
        for c in sym:
            p.symmetry(['1' if n == c else '0' for n in d['states']], 'm')
        opts = dict(reduction=True)
        method, control = 'diffyg', 'differential'
    else:
        control = ctx.choose('control', ['differential', 'algebraic'])
    nt = ctx.flag('normalise time') if not P.get('nt_only') else True
    from vmc.engine import Prune
    if d.get('nou') and control == 'algebraic':
        raise Prune()
    bvp = ocp.pipeline(p, method=method, control_method=control, do_normalize_time=nt, **opts)
    f = bvp.functional_problem
    names = dict(y=[s.name for s in bvp.states], q=[s.name for s in bvp.quads], u=[s.name for s in bvp.controls],
                 p=[s.name for s in bvp.parameters], nu=[s.name for s in bvp.constraint_parameters],
                 k=[s.name for s in bvp.constants])
    unit = expected_units(d, bvp, sym)
    n = 3
    pts = []
    for j in range(n + 1):
        v = 2.0 + np.abs(grammar.grid_values(len(names['y']) + len(names['q']) + len(names['u']), j)) * 1.5
        v[::3] *= -1
        pts.append(v)
    ny, nq = len(names['y']), len(names['q'])
    y = np.array([v[:ny] for v in pts[:n]])
    q = np.array([v[ny:ny + nq] for v in pts[:n]])
    u = np.array([v[ny + nq:] for v in pts[:n]])
    if name in ('mass',):
        y[:, names['y'].index('m')] = np.abs(y[:, names['y'].index('m')])
    par = np.array([(1.7 + 0.3 * i) * (-1 if nm in d.get('params', {}) else 1) for i, nm in enumerate(names['p'])])
    nu = np.array([(-1) ** i * (0.6 + 0.2 * i) for i in range(len(names['nu']))])
    k = np.array([c.default_val for c in bvp.constants])
    t = np.array([0.0, 0.4, 1.0]) if nt else np.array([0.0, 2.0, 5.0])
    sol = ocp.make_traj(t, y, q=q, u=u if names['u'] else None, p=par, nd=nu, const=k)
    fac = f.compute_scale_factors(copy.deepcopy(sol))
    # expected factors
    ref = {bvp.independent_variable.name: np.max(np.abs(t))}
    ref.update({nm: np.max(np.abs(y[:, i])) for i, nm in enumerate(names['y'])})
    ref.update({nm: np.max(np.abs(q[:, i])) for i, nm in enumerate(names['q'])})
    ref.update(dict(zip(names['p'], np.abs(par))))
    ref.update(dict(zip(names['nu'], np.abs(nu))))
    ref.update(dict(zip(names['k'], np.abs(k))))
    for i, c in enumerate(sym):
        ref[c] = ref['_q_%d' % i]
    uf = {un: float(sp.sympify(e, locals={kk: sp.Symbol(kk) for kk in ref}).subs(
        {sp.Symbol(a): b for a, b in ref.items()})) for un, e in sc.items()}

    def factor(nm):
        e = unit(nm)
        return float(sp.sympify(e).subs({sp.Symbol(a): b for a, b in uf.items()}))
    want = [[factor(bvp.independent_variable.name)]] + [[factor(nm) for nm in names[kk]] for kk in
                                                       ('y', 'q', 'u', 'p', 'nu', 'k')]
    for kk, got, w in zip(('time', 'states', 'quads', 'controls', 'parameters', 'multipliers', 'constants'), fac, want):
        ctx.close(np.ravel(np.asarray(got, dtype=float)), np.array(w), 'scale factors of the %s' % kk, rtol=1e-10,
                  names=names)
    # scaling and back
    before = copy.deepcopy(sol)
    scaled = f.scale_sol(sol, fac)
    for fl in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        ctx.check(np.array_equal(getattr(sol, fl), getattr(before, fl)), 'scaling changed the trajectory it was given: ' + fl)
    for fl, w in zip(('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'), want):
        a = np.asarray(getattr(sol, fl), dtype=float)
        if a.size:
            ctx.close(getattr(scaled, fl), a / np.array(w), 'scaled ' + fl, rtol=1e-10)
    again = f.scale_sol(scaled, fac, inv=True)
    for fl in ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        ctx.close(getattr(again, fl), getattr(sol, fl), 'scaling back does not restore ' + fl, rtol=1e-12)
    # covariance of everything the solver evaluates
    ft, fy, fq, fu, fp, fn, fk = [np.array(w) for w in want]
    sp_, sn, sk = par / fp, nu / fn, k / fk
    for j in range(n):
        yj = y[j]
        ctx.close(np.asarray(f.deriv_func(yj / fy, sp_, sk)) * fy / ft, np.asarray(f.deriv_func(yj, par, k)),
                  'equations of motion change with the units', rtol=1e-8, names=names['y'])
        if f.quad_func is not None:
            ctx.close(np.asarray(f.quad_func(yj / fy, sp_, sk)) * fq / ft, np.asarray(f.quad_func(yj, par, k)),
                      'quadratures change with the units', rtol=1e-8)
        if f.compute_u is not None:
            ctx.close(np.asarray(f.compute_u(yj / fy, sp_, sk)) * fu, np.asarray(f.compute_u(yj, par, k)),
                      'control law changes with the units', rtol=1e-8)
    ratios = []
    for a, b in ((0, 1), (1, 2), (2, 0)):
        if names['q']:
            full = np.asarray(f.bc_func(y[a], q[a], y[b], q[b], par, nu, k))
            part = np.asarray(f.bc_func(y[a] / fy, q[a] / fq, y[b] / fy, q[b] / fq, sp_, sn, sk))
        else:
            full = np.asarray(f.bc_func(y[a], y[b], par, nu, k))
            part = np.asarray(f.bc_func(y[a] / fy, y[b] / fy, sp_, sn, sk))
        ctx.check(np.all((np.abs(full) < 1e-12) == (np.abs(part) < 1e-12)), 'a boundary condition vanishes in one set of '
                  'units and not in the other', full=full, scaled=part)
        ok = np.abs(full) > 1e-9
        r = np.where(ok, full / np.where(ok, part, 1), np.nan)
        ratios.append(r)
    ratios = np.array(ratios)
    for i in range(ratios.shape[1]):
        r = ratios[:, i][~np.isnan(ratios[:, i])]
        ctx.check(r.size == 0 or np.allclose(r, r[0], rtol=1e-7), 'boundary condition %d is not covariant' % i, ratio=r)
        ctx.check(r.size == 0 or np.all(r > 0), 'boundary condition %d changes sign' % i)
    ctx.state(name, scale, method, control, nt, want, ratios)


def solve_both(ctx, P):
    """End to end: the same solutions come out whether scaling is on or off, and whatever the units."""
    import beluga
    name = ctx.choose('program', P['solve'])
    scale = ctx.choose('scale', P['scales'])
    control = ctx.choose('control', ['differential', 'algebraic'])
    guess = dict(double=[0.0, 0.0], quantity=[0.0, 0.1])[name]
    outs = []
    for auto in (False, True):
        p, d, sc = make(name, scale)
        p.scale(**sc)
        bvp = ocp.pipeline(p, method='traditional', control_method=control)
        algo = beluga.bvp_algorithm('spbvp')
        gg = beluga.guess_generator('auto', start=guess, costate_guess=-0.1, control_guess=[0.1], time_integrate=1.0,
                                    use_control_guess=True)
        steps = beluga.init_continuation()
        steps.add_step('bisection').num_cases(4).const('x_f', 4.0).const('t_f', 2.0)
        outs.append(beluga.solve(ocp=p, method='indirect', optim_options=dict(control_method=control), bvp_algorithm=algo,
                                 steps=steps, guess_generator=gg, initial_helper=True, autoscale=auto, save_sols=False))
    a, b = outs
    ctx.check(len(a[-1]) >= 4 and len(b[-1]) >= 4, 'cases are missing')
    sa, sb = a[-1][-1], b[-1][-1]
    ctx.check(bool(sa.converged) and bool(sb.converged), 'a benign problem did not converge', auto=(sa.converged, sb.converged))
    ctx.close(sb.const, sa.const, 'constants differ with scaling', rtol=1e-9)
    tt = np.linspace(sa.t[0], sa.t[-1], 9)
    ctx.close([sb.t[0], sb.t[-1]], [sa.t[0], sa.t[-1]], 'the time interval differs with scaling', rtol=1e-4, atol=1e-4)
    tt = np.linspace(max(sa.t[0], sb.t[0]), min(sa.t[-1], sb.t[-1]), 9)
    for i in range(sa.y.shape[1]):
        ctx.close(np.interp(tt, sb.t, sb.y[:, i]), np.interp(tt, sa.t, sa.y[:, i]), 'state differs with scaling', rtol=2e-2,
                  atol=2e-2)
        ctx.close(np.interp(tt, sb.t, sb.dual[:, i]), np.interp(tt, sa.t, sa.dual[:, i]), 'costate differs with scaling',
                  rtol=2e-2, atol=2e-2)
    ctx.close(np.interp(tt, sb.t, sb.u[:, 0]), np.interp(tt, sa.t, sa.u[:, 0]), 'control differs with scaling', rtol=2e-2,
              atol=2e-2)
    ctx.state(name, scale, control, np.round(sa.y[-1], 3))


def histories(ctx, P):
    """Whatever the solver answers, a continuation records the same trajectories with scaling on and off."""
    import beluga
    from beluga.continuation.continuation import run_continuation_set
    name = ctx.choose('program', P['programs'])
    scale = ctx.choose('scale', P['scales'])
    kind = ctx.choose('steps', ['none', 'manual', 'bisection', 'productspace', 'two'])
    bvp = _bvp(name, scale)
    n, nq = len(bvp.states), len(bvp.quads)
    kn = [c.name for c in bvp.constants]
    answers = []

    def answer(i):
        while len(answers) <= i:
            answers.append(ctx.flag('converged %d' % len(answers)) if len(answers) < P['depth'] else True)
        return answers[i]

    from beluga.numeric.bvp_solvers import BaseAlgorithm, BVPResult

    class Linear(BaseAlgorithm):
        """Answers in a way that does not depend on the units."""
        def __init__(self):
            BaseAlgorithm.__init__(self)
            self.seen = []

        def solve(self, g, pool=None, **kw):
            self.seen.append(copy.deepcopy(g))
            i = len(self.seen) - 1
            sol = copy.deepcopy(g)
            sol.y = sol.y * (1.1 + 0.1 * i)
            sol.q = sol.q * (0.9 + 0.2 * i)
            sol.dynamical_parameters = np.asarray(sol.dynamical_parameters) * (1.2 - 0.01 * i)
            sol.nondynamical_parameters = np.asarray(sol.nondynamical_parameters) * (0.8 + 0.03 * i)
            sol.converged = answer(i)
            return BVPResult(sol=sol, success=sol.converged, message='', niter=1)

    outs = []
    for auto in (False, True):
        steps = beluga.init_continuation()
        a, b = kn[0], kn[1]
        ka, kb = float(bvp.constants[0].default_val), float(bvp.constants[1].default_val)
        if kind == 'manual':
            steps.add_step('manual').num_cases(3).const(a, 2 * ka)
        elif kind == 'bisection':
            steps.add_step('bisection', max_divisions=2).num_cases(3).const(a, 2 * ka).const(b, kb + 1)
        elif kind == 'productspace':
            steps.add_step('productspace').num_subdivisions(2).const(a, 2 * ka).const(b, kb + 1)
        elif kind == 'two':
            steps.add_step('manual').num_cases(2).const(a, 2 * ka)
            steps.add_step('bisection', max_divisions=1).num_cases(2).const(b, kb + 1)
        g = ocp.make_traj([0., .4, 1.], 0.5 + np.abs(np.array([grammar.grid_values(n, j) for j in range(3)])),
                          q=np.reshape([grammar.grid_values(nq, j) for j in range(3)], (3, nq)), u=np.zeros((3, 0)),
                          p=1.5 + 0.1 * np.arange(len(bvp.parameters)), nd=0.7 + 0.1 * np.arange(len(bvp.constraint_parameters)),
                          const=[c.default_val for c in bvp.constants], dual=np.zeros((3, 0)))
        algo = Linear()
        try:
            out = run_continuation_set(algo, None if kind == 'none' else steps, g, bvp, None, auto)
            outs.append(([[copy.deepcopy(s) for s in st] for st in out], None, algo))
        except RuntimeError as e:
            outs.append((None, str(e), algo))
    (o0, e0, a0), (o1, e1, a1) = outs
    ctx.check((e0 is None) == (e1 is None), 'the continuation ends differently with scaling', off=e0, on=e1)
    ctx.check(len(a0.seen) == len(a1.seen), 'the solver is called a different number of times with scaling')
    fields = ['t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const']
    fp = bvp.functional_problem
    for i, (x, z) in enumerate(zip(a0.seen, a1.seen)):
        want = fp.scale_sol(x, fp.compute_scale_factors(x))
        for f in fields:
            ctx.close(getattr(z, f), getattr(want, f), 'call %d: the solver is not given the guess in scaled units: %s' % (i, f),
                      rtol=1e-9, atol=1e-12)
    if o0 is not None:
        ctx.check([len(s) for s in o0] == [len(s) for s in o1], 'a different number of solutions is recorded with scaling')
        for s0, s1 in zip(o0, o1):
            for x, z in zip(s0, s1):
                ctx.check(bool(x.converged) == bool(z.converged), 'verdicts differ')
                for f in fields:
                    ctx.close(getattr(z, f), getattr(x, f), 'a recorded solution is not in the units of the user: ' + f, rtol=1e-9,
                              atol=1e-12)
    ctx.state(name, scale, kind, answers, e0)


@functools.lru_cache(maxsize=None)
def _bvp(name, scale):
    p, d, sc = make(name, scale)
    p.scale(**sc)
    return ocp.pipeline(p)


HARNESSES = {
    'histories': dict(fn=histories, quick=dict(programs=['double', 'param', 'brach'], scales=list(SCALES), depth=4),
                      thorough=dict(programs=['double', 'param', 'brach', 'drag+termcost', 'utm'], scales=list(SCALES), depth=7),
                      rule='all verdict histories, scaling on and off'),
    'covariance': dict(fn=covariance, quick=dict(programs=list(PROGS), scales=list(SCALES)),
                       thorough=dict(programs=list(PROGS), scales=list(SCALES)), rule='all programs, scales, options'),
    'solve': dict(fn=solve_both, quick=dict(solve=['double'], scales=['constants', 'composite']),
                  thorough=dict(solve=['double', 'quantity'], scales=list(SCALES)), rule='scaling on/off end to end'),
}
