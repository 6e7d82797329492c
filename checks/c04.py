"""C04: a trajectory carried to the solver problem and back is the same trajectory."""
import copy

import numpy as np

from vmc import grammar, ocp

RULE = ('One execution = one program x one option set x one trajectory shape taken through the real map chain: user -> '
        'solver -> user -> solver; every field is compared, and the solver trajectory is read column by column by name.')
ASSUMPTIONS = ['trajectories satisfy what the options presuppose: bounded controls strictly inside their bounds, '
               'controls equal to the control law when it is algebraic, conserved quantities constant when reduced, '
               'time starting at zero when time is normalised without being carried as a state',
               'multipliers of the boundary conditions are not part of a user trajectory']

FIELDS = ['t', 'y', 'dual', 'dual_t', 'u', 'q', 'dynamical_parameters', 'const']


def program(ctx, P):
    d = ctx.choose('dynamics', P['dyn'])
    states, controls = grammar.DYN[d]
    s = [(n, u) for n, (_, u) in states.items()]
    path = grammar.ENERGY[d] or '1'
    spec = grammar.Spec(name=d, states={n: e for n, (e, _) in states.items()},
                        units={n: u for n, (_, u) in states.items()}, controls=dict(controls), path=path,
                        initial=grammar.INITIAL['fixed'](s), terminal=grammar.TERMINAL['first+tf'](s), params={},
                        termcost=None, initcost=None,
                        consts=dict(grammar.CONST, eps=(0.01, '1'), lo=(-3.0, '1'), hi=(4.0, '1')))
    return spec


def times(ctx, P):
    n = ctx.choose('points', P['npts'])
    t0 = ctx.choose('t0', P['t0'])
    base = np.array([0.0, 0.3, 0.45, 0.8, 1.0]) if n == 5 else np.linspace(0, 1, n)
    return t0 + ctx.choose('duration', P['dur']) * base


def same(ctx, a, b, fields, msg, known=None, **kw):
    for f in fields:
        x, y = np.asarray(getattr(a, f), dtype=float), np.asarray(getattr(b, f), dtype=float)
        if x.size == 0 and y.size == 0:
            continue
        if known and not np.allclose(x, y, rtol=1e-8, atol=1e-9) and known(f, x, y):
            ctx.finding(known(f, x, y), msg + ': ' + f, got=x, want=y)
            continue
        ctx.close(x, y, msg + ': ' + f, rtol=1e-8, atol=1e-9, **kw)


def roundtrip(ctx, P):
    spec = program(ctx, P)
    method = ctx.choose('method', P['methods'])
    opts = {}
    ms = ctx.choose('time as state', [True, False]) if P['shift'] else True
    nt = ctx.choose('normalise time', [True, False]) if P['shift'] else True
    if method == 'direct':
        control = 'direct'
        from beluga.symbolic.data_classes import make_preprocessor, make_direct_method, make_postprocessor
    else:
        control = ctx.choose('control', ['differential', 'algebraic'])
        opts['control_method'] = control
    if 't' in spec.states.get('v', '').replace('cost', '') and not ms and 'cos(k*t)' in spec.states.get('v', ''):
        from vmc.engine import Prune
        raise Prune()
    prob = grammar.build(spec)
    bound = ctx.choose('inequality', P['ineq'])
    un = list(spec.controls)
    if bound in ('utm', 'both'):
        prob.path_constraint('x', 'm', lower='lo', upper='hi', activator='eps', method='utm')
    eps = []
    if bound in ('epstrig', 'both'):
        eps = un[:1]
    elif bound == 'epstrig_last':
        eps = un[-1:]
    elif bound == 'epstrig_all':
        eps = un
    for c in eps:
        prob.path_constraint(c, '1', lower='lo', upper='hi', activator='eps', method='epstrig')
    if method == 'diffyg' and not ms:
        from vmc.engine import Prune
        raise Prune()          # the geometric formulation presupposes time as a state
    opts.update(do_momentum_shift=ms, do_normalize_time=nt)
    if eps and control == 'algebraic':
        from vmc.engine import Prune
        raise Prune()          # the trigonometric control is not solvable in closed form
    if method == 'direct':
        pre = make_preprocessor()(copy.deepcopy(prob))
        bvp = make_postprocessor()(make_direct_method(copy.deepcopy(pre), analytical_jacobian=False,
                                                      do_momentum_shift=ms, do_normalize_time=nt)(copy.deepcopy(pre)))
    else:
        bvp = ocp.pipeline(prob, method=method, **opts)
    t = times(ctx, P)
    if nt and not ms:
        t = t - t[0]
    ref = grammar.Ref(spec)
    n = len(t)
    nx, nu = len(spec.states), len(spec.controls)
    k = np.array([c.default_val for c in bvp.constants])
    y, u, dual, dual_t = [], [], [], []
    for j in range(n):
        v = grammar.grid_values(2 * nx + nu + 1, j)
        a = [np.append(v[:nx], t[j]), v[nx:nx + nu], np.append(v[nx + nu:2 * nx + nu], v[-1]), [], [], [0] * len(ref.nu0),
             [0] * len(ref.nuf), [dict(zip([c.name for c in bvp.constants], k))[str(s)] for s in ref.k]]
        if control == 'algebraic':
            if bound in ('utm', 'both') and nu:
                pass
            a = ref.on_manifold(a)
            if np.any(np.linalg.eigvalsh(np.atleast_2d(np.array(ref.n_Huu(*a), dtype=float))) < 0):
                a[2] = -np.asarray(a[2])
        y.append(a[0][:-1])
        u.append(a[1])
        dual.append(a[2][:-1])
        dual_t.append(a[2][-1])
    user = ocp.make_traj(t, y, q=np.zeros((n, 0)), u=u, const=k, dual=dual)
    user.dual_t = np.array(dual_t)
    mapped = bvp.map_sol(copy.deepcopy(user))
    # the solver trajectory, read by the names of the solver problem
    names = [s.name for s in bvp.states]
    my = np.asarray(mapped.y, dtype=float)
    ctx.check(my.shape == (n, len(names)), 'the mapped trajectory does not have one column per solver state',
              shape=my.shape, names=names)
    col = {nm: my[:, i] for i, nm in enumerate(names)}
    for i, nm in enumerate(spec.states):
        ctx.close(col[nm], user.y[:, i], 'mapped state %s' % nm)
        if '_lam_' + nm in col:
            ctx.close(col['_lam_' + nm], user.dual[:, i], 'mapped costate of %s' % nm)
    if 't' in col:
        ctx.close(col['t'], user.t, 'mapped time state')
    if '_lam_t' in col:
        ctx.close(col['_lam_t'], user.dual_t, 'mapped costate of time')
    for i, nm in enumerate(spec.controls):
        if nm in col and nm not in eps:
            ctx.close(col[nm], user.u[:, i], 'mapped control %s' % nm)
    if nt:
        ctx.close([mapped.t[0], mapped.t[-1]], [0, 1], 'normalised time does not span [0, 1]')
        ctx.check(abs(mapped.dynamical_parameters[-1] - (t[-1] - t[0])) < 1e-12, 'wrong duration parameter')
    else:
        ctx.close(mapped.t, t, 'mapped time')
    back = bvp.inv_map_sol(copy.deepcopy(mapped))

    def known(f, x, yy):
        # epstrig: the forward map halves the distance from the middle of the bounds (listed finding)
        if f == 'u' and eps:
            mid = 0.5
            want = np.array(yy)
            for c in eps:
                i = un.index(c)
                want[:, i] = mid + (yy[:, i] - mid) / 2
            if np.allclose(x, want, rtol=1e-8):
                return 'epstrig-halved'
        return None
    fields = [f for f in FIELDS if f != 'dual_t' or ms]
    same(ctx, back, user, fields, 'round trip user-solver-user changed the trajectory', known, names=names)
    again = bvp.map_sol(copy.deepcopy(back))
    if eps:
        keep = [i for i, nm in enumerate(names) if nm in spec.states or nm.startswith('_lam_') or nm == 't']
        again.y, mapped.y = again.y[:, keep], mapped.y[:, keep]
        if again.u.size:
            again.u, mapped.u = again.u[:, :0], mapped.u[:, :0]
    same(ctx, again, mapped, ['t', 'y', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const', 'q'],
         'round trip solver-user-solver changed the trajectory')
    ctx.state(spec.name, method, opts, my, mapped.dynamical_parameters)


def reduced(ctx, P):
    """Symmetry reduction removes states and costates; the way back must restore them."""
    import beluga
    fam = ctx.choose('problem', ['brach', 'double'])
    if fam == 'brach':
        states, controls = grammar.DYN['brach']
        sym = ctx.choose('symmetries', [['x'], ['y'], ['x', 'y'], ['y', 'x'], []])
        path, order = '1', ['x', 'y', 'v']
    else:
        states, controls = grammar.DYN['double']
        sym = ctx.choose('symmetries', [['x'], []])
        path, order = 'u**2/2', ['x', 'v']
    perm = ctx.choose('state order', [0, 1])
    order = order if perm == 0 else order[::-1]
    s = [(n, states[n][1]) for n in order]
    spec = grammar.Spec(name=fam, states={n: states[n][0] for n in order}, units={n: states[n][1] for n in order},
                        controls=dict(controls), path=path, initial=grammar.INITIAL['fixed'](s),
                        terminal=grammar.TERMINAL['fixed'](s), params={}, termcost=None, initcost=None)
    prob = grammar.build(spec)
    for c in sym:
        prob.symmetry(['1' if n == c else '0' for n in order], states[c][1])
    bvp = ocp.pipeline(prob, method='diffyg', control_method='differential', reduction=True)
    t = times(ctx, P)
    n, nx = len(t), len(order)
    k = np.array([c.default_val for c in bvp.constants])
    y, u, dual, dual_t = [], [], [], []
    for j in range(n):
        v = grammar.grid_values(2 * nx + 2, j)
        y.append(v[:nx])
        u.append(v[nx:nx + 1])
        dl = v[nx + 1:2 * nx + 1].copy()
        for c in sym:
            dl[order.index(c)] = 0.4 + 0.3 * order.index(c)       # conserved
        dual.append(dl)
        dual_t.append(v[-1])
    user = ocp.make_traj(t, y, q=np.zeros((n, 0)), u=u, const=k, dual=dual)
    user.dual_t = np.array(dual_t)
    mapped = bvp.map_sol(copy.deepcopy(user))
    ctx.check(np.asarray(mapped.y).shape == (n, len(bvp.states)), 'wrong number of solver states',
              shape=np.asarray(mapped.y).shape, states=bvp.states)
    ctx.check(np.asarray(mapped.q).shape == (n, len(bvp.quads)), 'wrong number of quadratures')
    ctx.check(len(mapped.dynamical_parameters) == len(bvp.parameters), 'wrong number of parameters')
    ctx.check(len(bvp.quads) == len(sym), 'wrong number of reductions', quads=bvp.quads)
    back = bvp.inv_map_sol(copy.deepcopy(mapped))
    same(ctx, back, user, FIELDS, 'reduction round trip changed the trajectory')
    again = bvp.map_sol(copy.deepcopy(back))
    same(ctx, again, mapped, ['t', 'y', 'q', 'dynamical_parameters', 'const'], 'second mapping differs')
    ctx.state(fam, sym, perm, mapped.y, mapped.q, mapped.dynamical_parameters)


def user_data(ctx, P):
    """Free parameters and quadratures of the user's program travel with the trajectory."""
    npar = ctx.choose('parameters', P['params'])
    nq = ctx.choose('quadratures', P['quads'])
    method = ctx.choose('method', P['methods'])
    if method == 'direct':
        control = 'direct'
    else:
        control = ctx.choose('control', ['differential', 'algebraic'])
    ms = ctx.choose('time as state', [True, False]) if method != 'diffyg' else True
    nt = ctx.choose('normalise time', [True, False])
    path = ctx.choose('path cost', ['u**2/2', None] if method == 'direct' else ['u**2/2'])
    copar = ctx.choose('costates of parameters given', [True, False]) if npar and method != 'direct' else False
    par = dict([('a', '1/s'), ('b', 'm')][:npar])
    states = dict(x='v', v='u - a*v' if npar else 'u - k*v')
    spec = grammar.Spec(name='ud', states=states, units=dict(x='m', v='m/s'), controls=dict(u='m/s**2'), params=par,
                        path=path, initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')],
                        terminal=[('x - xf' + (' - b' if npar > 1 else ''), 'm'), ('t - tf', 's')], termcost=None if path else 'v**2',
                        initcost=None)
    prob = grammar.build(spec)
    for i in range(nq):
        prob.quad('q%d' % i, ['v**2', 'x*k'][i], ['m**2/s', 'm'][i])
    if method == 'direct':
        from beluga.symbolic.data_classes import make_preprocessor, make_direct_method, make_postprocessor
        pre = make_preprocessor()(copy.deepcopy(prob))
        bvp = make_postprocessor()(make_direct_method(copy.deepcopy(pre), analytical_jacobian=False,
                                                      do_momentum_shift=ms, do_normalize_time=nt)(copy.deepcopy(pre)))
    else:
        bvp = ocp.pipeline(prob, method=method, control_method=control, do_momentum_shift=ms, do_normalize_time=nt)
    t = times(ctx, P)
    if nt and not ms:
        t = t - t[0]
    n = len(t)
    k = np.array([c.default_val for c in bvp.constants])
    V = np.array([grammar.grid_values(12, j) for j in range(n)])
    y, dual, u, q, dp = V[:, :2], V[:, 2:4].copy(), V[:, 4:5], V[:, 5:5 + nq], V[:, 7:7 + npar]
    if control == 'algebraic':
        u = -dual[:, 1:]
    user = ocp.make_traj(t, y, q=q, u=u, p=[0.35, -0.6][:npar], const=k, dual=dual)
    user.dual_t = V[:, 10]
    if copar:
        user.dual_parameters = dp
    mapped = bvp.map_sol(copy.deepcopy(user))
    names = [s.name for s in bvp.states]
    ctx.check(np.asarray(mapped.y).shape == (n, len(names)), 'not one column per solver state', shape=np.shape(mapped.y),
              names=names)
    col = {nm: np.asarray(mapped.y)[:, i] for i, nm in enumerate(names)}
    ctx.close(col['x'], y[:, 0], 'mapped x')
    ctx.close(col['v'], y[:, 1], 'mapped v')
    qn = [s.name for s in bvp.quads]
    mq = np.reshape(np.asarray(mapped.q, dtype=float), (n, -1))
    ctx.check(mq.shape == (n, len(qn)), 'not one column per solver quadrature', shape=mq.shape, names=qn)
    for i in range(nq):
        ctx.close(mq[:, qn.index('q%d' % i)], q[:, i], 'mapped quadrature q%d' % i)
    pn = [s.name for s in bvp.parameters]
    ctx.check(len(mapped.dynamical_parameters) == len(pn), 'not one value per solver parameter', names=pn)
    for i, a in enumerate(par):
        ctx.close(mapped.dynamical_parameters[pn.index(a)], [0.35, -0.6][i], 'mapped parameter ' + a)
        if copar:
            ctx.close(mq[:, qn.index('_lam_' + a)], dp[:, i], 'mapped costate of parameter ' + a)
    if nt:
        rest = [v for m, v in zip(pn, mapped.dynamical_parameters) if m not in par]
        ctx.close(rest, [t[-1] - t[0]], 'wrong duration parameter')
    back = bvp.inv_map_sol(copy.deepcopy(mapped))
    fields = [f for f in FIELDS if f != 'dual_t' or (ms and method != 'direct')]
    if copar:
        fields.append('dual_parameters')
    same(ctx, back, user, fields, 'round trip user-solver-user changed the trajectory', names=names)
    again = bvp.map_sol(copy.deepcopy(back))
    same(ctx, again, mapped, ['t', 'y', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const', 'q'],
         'round trip solver-user-solver changed the trajectory')
    ctx.state(npar, nq, method, control, ms, nt, path, mapped.y, mq, mapped.dynamical_parameters)


def multipliers(ctx, P):
    """Multipliers of the boundary conditions that come with the user's trajectory are the ones the solver starts from."""
    ini = [('t', 's'), ('x', 'm'), ('v', 'm/s')][:ctx.choose('initial conditions', [1, 2, 3])]
    ter = [('x - xf', 'm'), ('v', 'm/s')][:ctx.choose('terminal conditions', [0, 1, 2])]
    method = ctx.choose('method', ['traditional', 'diffyg'])
    control = ctx.choose('control', ['differential', 'algebraic'])
    given = ctx.flag('given')
    spec = grammar.Spec(name='mu', states=dict(x='v', v='u - k*v'), units=dict(x='m', v='m/s'), controls=dict(u='m/s**2'),
                        params={}, path='u**2/2', initial=ini, terminal=ter, termcost='v**2', initcost=None)
    bvp = ocp.pipeline(grammar.build(spec), method=method, control_method=control)
    t = times(ctx, P)
    n = len(t)
    V = np.array([grammar.grid_values(8, j) for j in range(n)])
    nu = np.array([(-1) ** i * (0.4 + 0.3 * i) for i in range(len(ini) + len(ter))])
    user = ocp.make_traj(t, V[:, :2], q=np.zeros((n, 0)), u=-V[:, 3:4], const=np.array([c.default_val for c in bvp.constants]),
                         dual=V[:, 2:4], nd=nu if given else [])
    user.dual_t = V[:, 5]
    mapped = bvp.map_sol(copy.deepcopy(user))
    mu = np.asarray(mapped.nondynamical_parameters, dtype=float)
    ctx.check(mu.shape == nu.shape == (len(bvp.constraint_parameters),), 'not one multiplier per boundary condition', got=mu)
    if given:
        ctx.close(mu, nu, 'the multipliers given with the trajectory are not the solver\'s')
    names = [s.name for s in bvp.states]
    ctx.close(np.asarray(mapped.y)[:, names.index('_lam_t')], user.dual_t, 'mapped costate of time')
    back = bvp.inv_map_sol(copy.deepcopy(mapped))
    same(ctx, back, user, FIELDS, 'round trip user-solver-user changed the trajectory', names=names)
    ctx.state(len(ini), len(ter), method, control, given, mu, mapped.y)


Q = dict(dyn=['single', 'double', 'timed', 'angle', 'two'], methods=['traditional', 'diffyg', 'direct'], shift=True,
         ineq=['none', 'utm', 'epstrig', 'epstrig_last', 'epstrig_all', 'both'], npts=[3], t0=[0.0, 1.5], dur=[2.0, -0.7])
HARNESSES = {
    'multipliers': dict(fn=multipliers, quick=dict(npts=[2, 3], t0=[0.0], dur=[2.0]), thorough=dict(npts=[2, 3, 5], t0=[0.0, 1.5], dur=[2.0, -0.7]),
                        rule='all numbers of conditions, with and without given multipliers'),
    'roundtrip': dict(fn=roundtrip, quick=Q, thorough=dict(Q, dyn=list(grammar.DYN), npts=[2, 3, 5], t0=[0.0, 1.5, -2.0],
                                                           dur=[2.0, -0.7, 1e-3]), rule='all option sets'),
    'user_data': dict(fn=user_data, quick=dict(params=[0, 1, 2], quads=[0, 1, 2], methods=['traditional', 'diffyg', 'direct'],
                                              npts=[3], t0=[0.0, 1.5], dur=[2.0]),
                      thorough=dict(params=[0, 1, 2], quads=[0, 1, 2], methods=['traditional', 'diffyg', 'direct'],
                                    npts=[2, 3, 5], t0=[0.0, 1.5], dur=[2.0, -0.7]), rule='free parameters and quadratures'),
    'reduced': dict(fn=reduced, quick=dict(npts=[3], t0=[0.0, 1.5], dur=[2.0]),
                    thorough=dict(npts=[2, 3, 5], t0=[0.0, 1.5], dur=[2.0, -0.7]), rule='symmetry reduction'),
}
