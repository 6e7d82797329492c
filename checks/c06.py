"""C06: removing a symmetry changes the solver's problem, not the trajectories."""
import copy

import numpy as np
import sympy as sp

from vmc import grammar, ocp

RULE = ('One execution = one program with cyclic states x subset and order of declared symmetries x state order x point: '
        'the reduced problem evaluated at the reduced point is compared with the unreduced problem at the same point.')
ASSUMPTIONS = ['declared symmetries are translations along a cyclic state (the only kind the reduction supports)',
               'differential-geometric formulation (the only one that is reduced)']

# states, controls, path, cyclic states
PROGS = {
    'double': (dict(x=('v', 'm'), v=('u', 'm/s')), dict(u='m/s**2'), 'u**2/2', ['x']),
    'brach': (dict(x=('v*cos(th)', 'm'), y=('v*sin(th)', 'm'), v=('g*sin(th)', 'm/s')), dict(th='1'), '1', ['x', 'y']),
    'planar': (dict(x=('v*cos(th) + k*z', 'm'), y=('v*sin(th) + k*z**2/L', 'm'), z=('-k*z + v*cos(th)', 'm'),
                    v=('g*sin(th) - k*v', 'm/s')), dict(th='1'), '1 + k*v*sin(th)**2/V', ['x', 'y']),
    'shear': (dict(a=('k*c', 'm'), b=('u*k + c*k', 'm'), c=('u - k*c', 'm')), dict(u='m/s'), 'u**2/2 + w*c**2', ['a', 'b']),
}


def perms(xs):
    import itertools
    out = []
    for r in range(len(xs) + 1):
        out += [list(p) for p in itertools.permutations(xs, r)]
    return out


def reduction(ctx, P):
    name = ctx.choose('program', P['programs'])
    states, controls, path, cyc = PROGS[name]
    order = list(states)
    rot = ctx.choose('state order', range(min(P['orders'], len(order))))
    order = order[rot:] + order[:rot]
    sym = ctx.choose('symmetries', perms(cyc))
    ter = ctx.choose('terminal', P['terminal'])
    nt = ctx.flag('normalise time')
    feat = ctx.choose('feature', P['features'])
    cm = P.get('control', 'differential')
    s = [(n, states[n][1]) for n in order]
    consts = dict(grammar.CONST)
    for n in order:
        consts.setdefault(n + 'f', (0.9 + 0.1 * len(consts), states[n][1]))
    ini = [('t', 's')] + [(n + (' - x0/7' if states[n][1] == 'm' else ''), u) for n, u in s]
    tm = [(n + ' - ' + n + 'f', u) for n, u in s] if ter == 'all' else \
        [(n + ' - ' + n + 'f', u) for n, u in s if n in cyc] if ter == 'cyclic' else \
        [(cyc[0] + '**2 - ' + cyc[0] + 'f*L', 'm**2'), ('t - tf', 's')]
    eom = {n: states[n][0] for n in order}
    par, tc, ic = {}, None, None
    if feat == 'parameter':
        par = dict(pa='1')
        eom[list(states)[-1]] += ' + pa*k'
        path += ' + pa**2*k'
    elif feat == 'end costs':
        tc, ic = cyc[0] + '**2 + ' + cyc[-1] + '*' + list(states)[-1], list(states)[-1] + '**2'
    elif feat in ('utm', 'epstrig', 'switch'):
        if feat == 'switch':
            eom[list(states)[-1]] += ' + sw'
        consts.update(eps=(0.05, '1'), lo=(-3.0, '1'), hi=(4.0, '1'))
    un = list(controls)[0]
    spec = grammar.Spec(name=name, states=eom, units={n: states[n][1] for n in order},
                        controls=dict(controls), path=path, initial=ini, terminal=tm, params=par, termcost=tc,
                        initcost=ic, consts=consts)

    def prob(with_sym):
        p = grammar.build(spec)
        if feat == 'utm':
            p.path_constraint(list(states)[-1], '1', lower='lo', upper='hi', activator='eps', method='utm')
        elif feat == 'epstrig':
            p.path_constraint(un, '1', lower='lo', upper='hi', activator='eps', method='epstrig')
        elif feat == 'switch':
            p.switch('sw', ['w', 'k*2'], [['%s - 0.3' % list(states)[-1]], ['0.3 - %s' % list(states)[-1]]], 'eps')
        for c in with_sym:
            p.symmetry(['1' if n == c else '0' for n in order], states[c][1])
        return p
    full = ocp.pipeline(prob([]), method='diffyg', control_method=cm, do_normalize_time=nt)
    red = ocp.pipeline(prob(sym), method='diffyg', control_method=cm, reduction=True, do_normalize_time=nt)
    fn = [x.name for x in full.states]
    rn = [x.name for x in red.states]
    k = np.array([c.default_val for c in full.constants])
    ctx.check([c.name for c in full.constants] == [c.name for c in red.constants], 'constants differ')
    ctx.check(sorted(rn) == sorted(set(fn) - set(sym) - {'_lam_' + c for c in sym}),
              'the reduced problem does not have exactly the unreduced states less the symmetric pairs', red=rn, full=fn)
    fq = [q.name for q in full.quads]
    ctx.check(len(red.quads) == len(fq) + len(sym) and set(fq) <= {q.name for q in red.quads},
              'one quadrature per symmetry', quads=red.quads)
    ctx.check(len(red.parameters) == len(full.parameters) + len(sym), 'one constant of motion per symmetry',
              parameters=red.parameters)
    ctx.check([c.name for c in red.constraint_parameters] == [c.name for c in full.constraint_parameters], 'multipliers')
    # build a generic trajectory with the conserved quantities conserved
    n = 3
    t = np.array([0.0, 0.7, 1.9])
    nx = len(order)
    ys, us, ds, dts = [], [], [], []
    for j in range(n):
        v = grammar.grid_values(2 * nx + 2, j + ctx_off(ctx, P))
        ys.append(v[:nx])
        us.append(v[nx:nx + 1])
        d = v[nx + 1:2 * nx + 1].copy()
        for i, c in enumerate(cyc):
            d[order.index(c)] = 0.4 + 0.3 * i
        ds.append(d)
        dts.append(v[-1])
    user = ocp.make_traj(t, ys, q=np.zeros((n, 0)), u=us, const=k, dual=ds,
                         p=[0.35] * len(par))
    user.dual_t = np.array(dts)
    if par:
        user.dual_parameters = np.array([[0.2], [0.5], [-0.3]])
    mf = full.map_sol(copy.deepcopy(user))
    mr = red.map_sol(copy.deepcopy(user))
    nu = np.array([(-1) ** i * (0.3 + 0.1 * i) for i in range(len(full.constraint_parameters))])
    F, R = full.functional_problem, red.functional_problem
    removed = []
    rq = [q.name for q in red.quads]
    qi = [i for i, q in enumerate(rq) if q not in fq]
    for q in fq:
        ctx.close(np.asarray(mr.q)[:, rq.index(q)], np.asarray(mf.q)[:, fq.index(q)], 'quadrature %s moved' % q)
    # which removed state each quadrature stands for: by value
    for i in qi:
        cand = [c for c in sym if np.allclose(np.asarray(mr.q)[:, i], np.asarray(mf.y)[:, fn.index(c)])]
        ctx.check(len(cand) == 1, 'quadrature %d does not carry a removed state' % i, q=mr.q, y=mf.y)
        removed.append(cand[0])
    rp = [p.name for p in red.parameters]
    vals = dict(zip(rp, np.asarray(mr.dynamical_parameters)))
    fp = [p.name for p in full.parameters]
    extra = [v for p, v in vals.items() if p not in fp]
    for p in fp:
        ctx.close(vals[p], mf.dynamical_parameters[fp.index(p)], 'parameter %s moved' % p)
    want = [0.4 + 0.3 * cyc.index(c) for c in removed]
    ctx.close(sorted(extra), sorted(want), 'the constants of motion are not the conserved costates')
    for i, c in zip(qi, removed):
        same_units(ctx, red.quads[i].units, full.states[fn.index(c)].units, 'units of the quadrature for ' + c)
    for p, v in vals.items():
        if p not in fp:
            c = [c for c in removed if np.isclose(v, 0.4 + 0.3 * cyc.index(c))][0]
            same_units(ctx, red.parameters[rp.index(p)].units, full.states[fn.index('_lam_' + c)].units,
                       'units of the constant of motion for ' + c)
    for s in red.states:
        same_units(ctx, s.units, full.states[fn.index(s.name)].units, 'units of ' + s.name)
    for j in range(n):
        df = dict(zip(fn, np.asarray(F.deriv_func(mf.y[j], mf.dynamical_parameters, k), dtype=float)))
        dr = dict(zip(rn, np.asarray(R.deriv_func(mr.y[j], mr.dynamical_parameters, k), dtype=float)))
        for nm in rn:
            ctx.check(np.isclose(mr.y[j][rn.index(nm)], mf.y[j][fn.index(nm)]), 'state %s moved' % nm)
            ctx.close(dr[nm], df[nm], 'rate of %s changed by the reduction' % nm, rtol=1e-9, atol=1e-10)
        if rq:
            dq = np.asarray(R.quad_func(mr.y[j], mr.dynamical_parameters, k), dtype=float)
            ctx.close(dq[qi], [df[c] for c in removed], 'quadrature rate is not the rate of the removed state', atol=1e-10)
        if fq:
            ctx.close(dq[[rq.index(q) for q in fq]], np.asarray(F.quad_func(mf.y[j], mf.dynamical_parameters, k), dtype=float),
                      'quadrature rate changed by the reduction', atol=1e-10)
        for c in sym:
            ctx.check(abs(df['_lam_' + c]) < 1e-12, 'harness: not a symmetry')
    for a, b in ((0, 2), (1, 0)):
        bf = np.asarray(F.bc_func(mf.y[a], mf.q[a], mf.y[b], mf.q[b], mf.dynamical_parameters, nu, k) if fq else
                        F.bc_func(mf.y[a], mf.y[b], mf.dynamical_parameters, nu, k), dtype=float)
        if rq:
            br = np.asarray(R.bc_func(mr.y[a], mr.q[a], mr.y[b], mr.q[b], mr.dynamical_parameters, nu, k), dtype=float)
        else:
            br = np.asarray(R.bc_func(mr.y[a], mr.y[b], mr.dynamical_parameters, nu, k), dtype=float)
        ctx.close(br, bf, 'boundary conditions changed by the reduction', atol=1e-10)
    ctx.state(name, order, sym, ter, nt, feat, mr.y, mr.q)


def same_units(ctx, a, b, what):
    ctx.check(sp.simplify(sp.sympify(a) / sp.sympify(b)) == 1, what + ' are inconsistent', got=str(a), want=str(b))


def ctx_off(ctx, P):
    return P.get('offset', 0)


def solved(ctx, P):
    """The optimum found with and without reduction is the same."""
    import beluga
    name = ctx.choose('program', P['solve'])
    sym = ctx.choose('symmetries', {'brach': [['x'], ['y'], ['x', 'y'], ['y', 'x']], 'double': [['x']]}[name])
    outs = []
    for red in (False, True):
        p = beluga.Problem('r')
        p.independent('t', 's')
        if name == 'brach':
            p.state('x', 'v*cos(th)', 'm').state('y', 'v*sin(th)', 'm').state('v', 'g*sin(th)', 'm/s')
            p.control('th', 'rad')
            p.constant('g', -9.81, 'm/s**2').constant('x_f', 0, 'm').constant('y_f', 0, 'm')
            p.path_cost('1', '1')
            p.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('v', 'm/s')
            p.initial_constraint('t', 's')
            p.terminal_constraint('x-x_f', 'm').terminal_constraint('y-y_f', 'm')
            p.scale(m='y', s='y/v', rad=1)
            order, start, tgt, cu = ['x', 'y', 'v'], [0, 0, 0], dict(x_f=3, y_f=-3), [-np.pi / 2]
        else:
            p.state('x', 'v', 'm').state('v', 'u', 'm/s').control('u', 'm/s**2')
            p.constant('x_f', 0, 'm').constant('v_f', 0, 'm/s').constant('t_f', 1, 's')
            p.path_cost('u**2/2', 'm**2/s**4')
            p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
            p.terminal_constraint('x-x_f', 'm').terminal_constraint('v-v_f', 'm/s').terminal_constraint('t-t_f', 's')
            p.scale(m=1, s=1)
            order, start, tgt, cu = ['x', 'v'], [0, 0.1], dict(x_f=2, v_f=0.5, t_f=1.5), [0.1]
        for c in sym:
            p.symmetry(['1' if n == c else '0' for n in order], 'm')
        gg = beluga.guess_generator('auto', start=start, costate_guess=-0.1, control_guess=cu, use_control_guess=True)
        steps = beluga.init_continuation()
        st = steps.add_step('bisection').num_cases(11)
        for c, v in tgt.items():
            st.const(c, v)
        outs.append(beluga.solve(ocp=p, method='diffyg', optim_options=dict(control_method='differential', reduction=red),
                                 bvp_algorithm=beluga.bvp_algorithm('spbvp'), steps=steps, guess_generator=gg,
                                 initial_helper=True, autoscale=True, save_sols=False)[-1][-1])
    a, b = outs
    ctx.check(bool(a.converged) and bool(b.converged), 'did not converge', c=(a.converged, b.converged))
    ctx.close([b.t[0], b.t[-1]], [a.t[0], a.t[-1]], 'reduced solution takes a different time', rtol=1e-3, atol=1e-3)
    ctx.check(b.y.shape[1] == a.y.shape[1] and b.dual.shape[1] == a.dual.shape[1], 'states are missing')
    s_ = np.linspace(0, 1, 9)
    for fld, tol in (('y', 5e-3), ('u', 3e-2), ('dual', 3e-2)):
        A, B = getattr(a, fld), getattr(b, fld)
        for i in range(A.shape[1]):
            ctx.close(np.interp(s_, b.t / b.t[-1], B[:, i]), np.interp(s_, a.t / a.t[-1], A[:, i]),
                      'reduced solution differs: ' + fld, rtol=tol, atol=tol)
    ctx.state(name, sym, np.round(a.t[-1], 3))


HARNESSES = {
    'reduction': dict(fn=reduction, quick=dict(programs=list(PROGS), orders=2, terminal=['all', 'curved'],
                                              features=['none', 'parameter', 'end costs', 'utm', 'epstrig', 'switch']),
                      thorough=dict(programs=list(PROGS), orders=4, terminal=['all', 'cyclic', 'curved'],
                                    features=['none', 'parameter', 'end costs', 'utm', 'epstrig', 'switch']),
                      rule='all symmetry subsets and orders'),
    'algebraic': dict(fn=reduction, quick=dict(programs=['double', 'brach', 'shear'], orders=1, terminal=['all'], control='algebraic',
                                               features=['none', 'parameter', 'end costs']),
                      thorough=dict(programs=['double', 'brach', 'shear'], orders=4, terminal=['all', 'cyclic', 'curved'],
                                    control='algebraic', features=['none', 'parameter', 'end costs', 'switch']),
                      rule='all symmetry subsets and orders, algebraic control law'),
    'solved': dict(fn=solved, quick=dict(solve=['brach', 'double']), thorough=dict(solve=['brach', 'double']),
                   rule='end to end'),
}
