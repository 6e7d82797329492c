"""C05: the derived boundary-value problem is the set of first-order necessary conditions of the user's program."""
import numpy as np

from vmc import grammar, ocp

RULE = ('One execution = one program of the grammar taken through the real derivation with one method / control option; '
        'its compiled rates, control and boundary residuals are compared with the reference at every grid point.')
ASSUMPTIONS = ['programs are those of the bounded grammar (9 dynamics, 5 running costs, 4 initial and 4 terminal '
               'constraint sets, initial/terminal costs, optional free parameter)',
               'equality of expressions is decided on a fixed grid of generic points, not symbolically',
               'differential-geometric rates are compared on the manifold where the Hamiltonian is stationary']


def layout(ctx, bvp, spec, shift=True):
    names = [s.name for s in bvp.states]
    pos = {n: i for i, n in enumerate(names)}
    users = list(spec.states) + ['t'] * shift
    ctx.check(all(n in pos for n in users), 'a user state is missing from the derived problem', names=names)
    lam = [pos.get('_lam_' + n) for n in users]
    ctx.check(all(i is not None for i in lam), 'a costate is missing from the derived problem', names=names)
    return pos, [pos[n] for n in users], lam


def match(ctx, rows_got, rows_want, msg):
    """Same set of residuals up to order and sign, as functions over the grid."""
    G, W = np.array(rows_got, dtype=float), np.array(rows_want, dtype=float)
    ctx.check(G.shape == W.shape, msg + ': wrong number of conditions', got=G.shape, want=W.shape)
    free = list(range(W.shape[1]))
    for i in range(G.shape[1]):
        for j in free:
            if np.allclose(G[:, i], W[:, j], rtol=1e-8, atol=1e-9) or \
                    np.allclose(G[:, i], -W[:, j], rtol=1e-8, atol=1e-9):
                free.remove(j)
                break
        else:
            ctx.check(False, msg + ': a derived condition is not one of the necessary conditions', index=i,
                      values=G[:, i], unmatched=[W[:, j] for j in free])
    ctx.check(not free, msg + ': a necessary condition is missing')


def compare(ctx, P, spec, method, control, jac=False, prob=None, shift=True, norm=True):
    """``prob``: the user's program if it is not simply the text of ``spec`` (an equivalent program)."""
    opts = dict(control_method=control, do_momentum_shift=shift, do_normalize_time=norm)
    if jac:
        opts['analytical_jacobian'] = True
    prob = grammar.build(spec) if prob is None else prob
    bvp = ocp.pipeline(prob, method=method, **opts)
    fp = bvp.functional_problem
    ref = grammar.Ref(spec, shift)
    pos, ix, il = layout(ctx, bvp, spec, shift)
    k = np.array([c.default_val for c in bvp.constants])
    kn = [c.name for c in bvp.constants]
    kref = [dict(zip(kn, k))[str(s)] for s in ref.k]
    ny = len(bvp.states)
    pn = [p.name for p in bvp.parameters]
    n0, nf = len(ref.nu0), len(ref.nuf)
    ctx.check(len(bvp.constraint_parameters) == n0 + nf, 'wrong number of constraint multipliers',
              got=[c.name for c in bvp.constraint_parameters])
    ctx.check(len(pn) == len(ref.p) + norm, 'wrong number of parameters', got=pn)
    iu = [pos.get(str(u)) for u in ref.u]
    if control == 'differential':     # a substituted control keeps its place whatever it is called
        other = [i for i, s in enumerate(bvp.states) if i not in ix and i not in il and i not in iu
                 and not s.name.startswith('_lam_')]
        iu = [other.pop(0) if i is None and other else i for i in iu]
    extra = [i for i in range(ny) if i not in ix and i not in il and i not in iu]
    diff = control == 'differential'
    if diff:
        ctx.check(all(i is not None for i in iu), 'control is not carried as a state')
    else:
        ctx.check(fp.compute_u is not None and all(i is None for i in iu), 'no control law was derived')
    ctx.check(len(extra) == (len(ref.u) if diff and method == 'diffyg' else 0), 'unexpected states', extra=extra)

    rows = []
    rng = []
    npts = P['points']
    for j in range(2 * npts):
        nx, nu_, nl = len(ref.x), len(ref.u), len(ref.lam)
        v = grammar.grid_values(nx + nu_ + nl + len(ref.p) * 2 + n0 + nf + 1, j)
        parts = np.split(v, np.cumsum([nx, nu_, nl, len(ref.p), len(ref.p), n0, nf]))
        x, u, lam, lp, p, nu0, nuf, dt = parts
        u = u * (P.get('spread', 1.0) * (1 + j % 2) if 'spread' in P else 1.0)
        dt = abs(dt[0]) + 0.5 if norm else 1.0
        a = [x, u, lam, lp, p, nu0, nuf, kref]
        if diff and method == 'diffyg':
            a = ref.on_manifold(a)
        y = np.zeros(ny)
        y[ix] = a[0]
        y[il] = a[2]
        par = np.zeros(len(pn))
        for nm, val in zip(pn, par):
            pass
        pidx = {n: i for i, n in enumerate(pn)}
        for s, val in zip(ref.p, p):
            par[pidx[str(s)]] = val
        for i, n in enumerate(pn):
            if n not in pidx or n not in [str(s) for s in ref.p]:
                par[i] = dt
        if diff:
            y[iu] = a[1]
        else:
            y0_ = np.array(fp.compute_u(y, par, k), dtype=float)
            ctx.check(np.all(np.isfinite(y0_)), 'the derived control law is not finite', u=y0_, x=a[0], lam=a[2])
            a[1] = y0_
            ctx.close(ref.n_Hu(*a), np.zeros(nu_), 'the derived control does not make the Hamiltonian stationary',
                      atol=1e-8)
            if P.get('minimise', True):
                h0 = ref.n_H(*a)
                for c in np.linspace(-6, 6, 97):
                    for d in range(nu_):
                        b = list(a)
                        b[1] = np.array(a[1])
                        b[1][d] = c
                        hb = ref.n_H(*b)
                        if not (h0 <= hb + 1e-9 + 1e-9 * abs(hb)):
                            ctx.check(False, 'the derived control does not minimise the Hamiltonian', u=a[1],
                                      better=b[1], H=h0, Hb=hb)
                ctx.agree()
        got = np.array(fp.deriv_func(y, par, k), dtype=float)
        ctx.check(got.shape == (ny,), 'wrong number of rates', shape=got.shape)
        want = np.zeros(ny)
        want[ix] = np.array(ref.n_f(*a), dtype=float) * dt
        want[il] = np.array(ref.n_lamdot(*a), dtype=float) * dt
        if diff:
            want[iu] = ref.udot(a) * dt
        ctx.close(got, want, 'a derived rate is wrong', rtol=1e-8, atol=1e-9, states=[s.name for s in bvp.states])
        if len(ref.p):
            q = np.array(fp.quad_func(y, par, k), dtype=float)
            ctx.close(q, np.array(ref.n_lpdot(*a), dtype=float) * dt, 'a coparameter rate is wrong', rtol=1e-8,
                      atol=1e-9)
        rng.append((y, par, a, lp))
        ctx.state(spec.name, j, got)
    got_rows, want_rows = [], []
    for j in range(npts):
        (y0, par, a0, lp0), (yf, _, af, lpf) = rng[2 * j], rng[2 * j + 1]
        af = list(af)
        af[4], af[5], af[6] = a0[4], a0[5], a0[6]
        yf = np.array(yf)
        if not diff:
            af[1] = np.array(fp.compute_u(yf, par, k), dtype=float)
        nu = np.concatenate((a0[5], a0[6]))
        if len(ref.p):
            bc = fp.bc_func(y0, lp0, yf, lpf, par, nu, k)
        else:
            bc = fp.bc_func(y0, yf, par, nu, k)
        want = list(ref.n_bc0(*a0)) + list(ref.n_bcf(*af))
        if diff:
            want += list(np.array(ref.n_Hu(*af), dtype=float))
            want += [y0[i] for i in extra]
        got_rows.append(np.array(bc, dtype=float))
        want_rows.append(np.array(want, dtype=float))
    match(ctx, got_rows, want_rows, 'boundary conditions')
    if not diff:
        # the control reported with a solution is the one the dynamics used
        tr = ocp.make_traj(np.linspace(0, 1, len(rng)), [r[0] for r in rng], q=[r[3] for r in rng], u=np.zeros((len(rng), 0)),
                           p=rng[0][1], nd=np.ones(n0 + nf), const=k)
        want = [fp.compute_u(r[0], rng[0][1], k) for r in rng]
        back = bvp.inv_map_sol(tr)
        ctx.close(back.u, np.array(want, dtype=float), 'the reported control is not the one of the control law')
    ctx.state('done', spec.name, method, control, got_rows)


def programs(ctx, P):
    spec = grammar.choose(ctx, P)
    method = ctx.choose('method', P['methods'])
    control = ctx.choose('control', P['controls'])
    compare(ctx, P, spec, method, control)


def parameters(ctx, P):
    """A free (optimised) parameter enters dynamics, costs and constraints."""
    spec = grammar.Spec(name='param', states=dict(x='v', v='u - a*v'), units=dict(x='m', v='m/s'),
                        controls=dict(u='m/s**2'), params=dict(a='1/s'), initcost=None, termcost=None,
                        path='u**2/2' + ctx.choose('path', ['', ' + a**2/2', ' + a*x*t']),
                        initial=[('x - x0', 'm'), ('v' + ctx.choose('initial', ['', ' - a*x']), 'm/s'), ('t', 's')],
                        terminal=[('x - xf' + ctx.choose('terminal', ['', ' + a*v']), 'm'), ('t - tf', 's')])
    if ctx.flag('second parameter'):
        spec['params'] = dict(a='1/s', b='m')
        spec['states'] = dict(x='v', v='u - a*v + b*x')
    tc = ctx.choose('terminal cost', [None, 'a*x', 'v**2'])
    ic = ctx.choose('initial cost', [None, 'a**2*x'])
    spec['termcost'], spec['initcost'] = tc, ic
    control = ctx.choose('control', P['controls'])
    compare(ctx, P, spec, ctx.choose('method', P['methods']), control)


def options(ctx, P):
    """Time carried as a state or not, normalised or not; without it only programs that do not mention time exist."""
    shift = ctx.choose('time as state', [False, True])
    norm = ctx.choose('normalise time', [False, True] if not shift else [False])
    d = ctx.choose('dynamics', P['dyn'])
    states, controls = grammar.DYN[d]
    s = [(n, u) for n, (_, u) in states.items()]
    path = ctx.choose('path cost', [p for p in ['energy', 'energy+x', 'one', 'one+x'] if grammar.PATH[p](d) is not None])
    ini = ctx.choose('initial constraints', ['fixed', 'free_last'])
    ter = ctx.choose('terminal constraints', ['fixed', 'first+tf', 'moving'])
    spec = grammar.Spec(name=d, states={n: e for n, (e, _) in states.items()}, units={n: u for n, (_, u) in states.items()},
                        controls=dict(controls), path=grammar.PATH[path](d), initial=grammar.INITIAL[ini](s),
                        terminal=grammar.TERMINAL[ter](s), params={}, initcost=ctx.choose('initial cost', [None, s[-1][0] + '**2']),
                        termcost=ctx.choose('terminal cost', [None, 'x**2/2 + x*' + s[-1][0]]))
    if not shift:
        spec['initial'] = [e for e in spec.initial if e[0] != 't']
        spec['terminal'] = [(e.replace('*(1 + k*t)', '*(1 + k/k*%s/L)' % s[-1][0]), u) for e, u in spec.terminal if e != 't - tf']
    compare(ctx, P, spec, ctx.choose('method', ['traditional', 'diffyg']),
            ctx.choose('control', ['differential', 'algebraic']), shift=shift, norm=norm)


def several_controls(ctx, P):
    """Several controls make the Hamiltonian stationary: the law must pick the best of them."""
    def quartic(u, roots):
        # a quartic whose derivative vanishes exactly at the three roots
        a, b, c = roots
        return '(%s**4/4 - (%s + %s + %s)*%s**3/3 + ((%s)*(%s) + (%s)*(%s) + (%s)*(%s))*%s**2/2 - (%s)*(%s)*(%s)*%s)' % (
            u, a, b, c, u, a, b, b, c, a, c, u, a, b, c, u)
    shape = ctx.choose('controls', P['shapes'])
    roots = ctx.choose('roots', [('0', 'x', 'v'), ('x', '0', 'v + x'), ('x', 'v', 'y')])
    ctl = dict(u='1')
    path = quartic('u', roots)
    if shape == 'and a regular one':
        ctl['w2'] = '1'
        path += ' + (w2 - x)**2/2'
    elif shape == 'two of them':
        ctl = dict(u='1', w2='1')
        path += ' + ' + quartic('w2', ('0', 'y', 'v'))
    path = '(%s)*%s' % (path, ctx.choose('weight', P['weights']))
    spec = grammar.Spec(name='roots', states=dict(x='V - k*x', v='k*x*y', y='k*y + v'), units=dict(x='m', v='m', y='m'),
                        controls=ctl, path=path, initial=[('x', 'm'), ('v', 'm'), ('y', 'm'), ('t', 's')],
                        terminal=[('x - xf', 'm'), ('t - tf', 's')], params={}, initcost=None, termcost=None)
    compare(ctx, P, spec, ctx.choose('method', ['traditional', 'diffyg']), 'algebraic')


def many_controls(ctx, P):
    """Controls that act on each other through the cost and the dynamics, declared in any order."""
    import itertools
    n = ctx.choose('controls', P['numbers'])
    order = ctx.choose('order', list(itertools.permutations(range(n))))
    quad = ['u0**2/2*(1 + x**2)', 'k**2*u1**2 + u0*u1*k/3 + u1*x', 'u2**2 + u1*u2*v/3 - u0*u2/4'][:n]
    spec = grammar.Spec(name='coupled', states=dict(x=['v', 'v', 'v + k*u2'][n - 1], v=['u0', 'u0 + k*u1', 'u0 + k*u1 - u2*x'][n - 1],
                                                    y=['x*u0', 'u1 - k*y', 'u1*x - k*u2'][n - 1]),
                        units=dict(x='m', v='m/s', y='m'), controls={'u%d' % i: '1' for i in order}, path=' + '.join(quad),
                        initial=[('x', 'm'), ('v', 'm/s'), ('t', 's')], terminal=[('x - xf', 'm'), ('y - k*t', 'm')], params={},
                        initcost=None, termcost=ctx.choose('terminal cost', [None, 'v**2/2 + t']))
    compare(ctx, P, spec, ctx.choose('method', ['traditional', 'diffyg']), ctx.choose('control', ['differential', 'algebraic']))


def declared(ctx, P):
    """The order in which a program is declared, and which of the calls declares its cost, means nothing."""
    import itertools
    import beluga
    how = ctx.choose('cost declared with', ['set_cost', 'parts', 'parts, twice'])
    parts = ctx.choose('parts', [c for n in (1, 2, 3) for c in itertools.combinations(('initial', 'path', 'terminal'), n) if 'path' in c])
    order = ctx.choose('order', list(itertools.permutations(('states', 'controls', 'constants', 'cost', 'constraints')))
                       if how == 'parts' and len(parts) == 3 else [('states', 'controls', 'constants', 'cost', 'constraints'),
                                                                   ('cost', 'constraints', 'constants', 'controls', 'states')])
    calls = ctx.choose('order of the costs', list(itertools.permutations(parts))
                       if how != 'set_cost' and order[0] == 'states' and order[3] == 'cost' else [parts])
    text = dict(initial='x**2 + x*v', path='u**2/2 + k*x**2', terminal='v**2/2 - x')
    spec = grammar.Spec(name='declared', states=dict(x='v', v='u - k*x'), units=dict(x='m', v='m/s'), controls=dict(u='1'),
                        path=text['path'], initial=[('x - V', 'm'), ('t', 's')], terminal=[('x - xf', 'm'), ('t - tf', 's')],
                        params={}, initcost=text['initial'] if 'initial' in parts else None,
                        termcost=text['terminal'] if 'terminal' in parts else None)
    p = beluga.Problem('declared')
    p.independent('t', 's')

    def cost():
        if how == 'set_cost':
            p.set_cost(units='s', **{n: text[n] for n in parts})
            return
        for t in ([{n: 'x*3 + t' for n in text}] if 'twice' in how else []) + [text]:
            for n in calls:
                getattr(p, n + '_cost')(t[n], '1' if n == 'path' else 's')

    def constraints():
        for e, u in spec.initial:
            p.initial_constraint(e, u)
        for e, u in spec.terminal:
            p.terminal_constraint(e, u)
    blocks = dict(states=lambda: [p.state(n, e, spec.units[n]) for n, e in spec.states.items()],
                  controls=lambda: [p.control(n, u) for n, u in spec.controls.items()],
                  constants=lambda: [p.constant(n, v, u) for n, (v, u) in grammar.CONST.items()], cost=cost, constraints=constraints)
    for b in order:
        blocks[b]()
    usual = order[0] in ('states', 'cost') and order[3] in ('cost', 'controls')
    compare(ctx, P, spec, ctx.choose('method', ['traditional', 'diffyg'] if usual else ['traditional']),
            ctx.choose('control', ['differential', 'algebraic'] if usual else ['algebraic']), prob=p)


def spelling(ctx, P):
    """Methods are named in any capitalisation, and solve() knows them by other names too: same problem every time."""
    import copy
    import beluga
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm, BVPResult
    method, name = ctx.choose('method', [('traditional', n) for n in ('traditional', 'Traditional', 'indirect', 'Indirect', 'brysonho',
                                                                      'BrysonHo')] + [('diffyg', n) for n in ('diffyg', 'DiffyG', 'DIFFYG')])
    control = ctx.choose('control', ['differential', 'algebraic'])
    ctl = ctx.choose('spelling of the control', [control, control.capitalize(), control.upper()])
    jac = ctx.choose('analytical Jacobian', [False, True])
    con = ctx.choose('constraint', [None, ('utm', 'utm'), ('utm', 'UTM')] + ([('epstrig', 'epstrig'), ('epstrig', 'EpsTrig')]
                                                                             if control == 'differential' else []))

    def program(how):
        p = ocp.double_integrator()
        if con:
            p.constant('lo', -3, '1').constant('hi', 4, '1').constant('eps', 0.1, '1')
            p.path_constraint('x' if con[0] == 'utm' else 'u', '1', lower='lo', upper='hi', activator='eps', method=how)
        return p

    class Keep(BaseAlgorithm):
        def solve(self, solinit, pool=None, **kw):
            sol = copy.deepcopy(solinit)
            sol.converged = True
            return BVPResult(sol=sol, success=True, message='', niter=1)

    keep = Keep()
    gen = beluga.guess_generator('ones', start=[0.1, 0.2], costate_guess=0.3, control_guess=[0.4], time_integrate=0.5)
    beluga.solve(ocp=program(con and con[1]), method=name, optim_options=dict(control_method=ctl, analytical_jacobian=jac),
                 bvp_algorithm=keep, steps=None, guess_generator=gen, save_sols=False, autoscale=False)
    bvp = ocp.pipeline(program(con and con[0]), method=method, control_method=control, analytical_jacobian=jac)
    fp = bvp.functional_problem
    ny, npar, nnd = len(bvp.states), len(bvp.parameters), len(bvp.constraint_parameters)
    k = np.array([c.default_val for c in bvp.constants], dtype=float)
    v = grammar.grid_values(2 * ny + npar + nnd, 3)
    y0, yf, p, nd = np.split(v, np.cumsum([ny, ny, npar]))
    ctx.close(keep.derivative_function(y0, p, k), fp.deriv_func(y0, p, k), 'different rates under another name', rtol=1e-12)
    ctx.close(keep.boundarycondition_function(y0, yf, p, nd, k), fp.bc_func(y0, yf, p, nd, k),
              'different boundary conditions under another name', rtol=1e-12)
    ctx.check((keep.derivative_function_jac is None) == (fp.deriv_func_jac is None), 'Jacobians depend on the name')
    ctx.state(name, ctl, jac, con)


DYN = list(grammar.DYN)
Q = dict(dyn=DYN, path=['energy+x', 'energy*t', 'one', 'one+x'], initial=['free_last', 'timefree', 'coupled'],
         terminal=['first+tf', 'moving'], termcost=['none', 'quad', 'time'], initcost=['none', 'time'],
         methods=['traditional', 'diffyg'], controls=['differential', 'algebraic'], points=2)
T = dict(Q, initial=list(grammar.INITIAL), path=list(grammar.PATH), terminal=list(grammar.TERMINAL), termcost=list(grammar.TERMCOST),
         initcost=list(grammar.INITCOST), points=4)
HARNESSES = {
    'parameters': dict(fn=parameters, quick=dict(methods=['traditional', 'diffyg'], controls=['differential', 'algebraic'], points=2),
                       thorough=dict(methods=['traditional', 'diffyg'], controls=['differential', 'algebraic'], points=5), rule='free parameters'),
    'several_controls': dict(fn=several_controls, quick=dict(shapes=['alone', 'and a regular one'], points=8, weights=['1', '10000', '1/10000']),
                             thorough=dict(shapes=['alone', 'and a regular one', 'two of them'], points=20,
                                           weights=['1', '10000', '1/10000', 'k/1000']),
                             rule='control laws with several solutions'),
    'many_controls': dict(fn=many_controls, quick=dict(numbers=[2, 3], points=2), thorough=dict(numbers=[1, 2, 3], points=5),
                          rule='controls coupled with each other'),
    'spelling': dict(fn=spelling, quick={}, thorough={}, rule='all spellings of the options'),
    'declared': dict(fn=declared, quick=dict(points=2), thorough=dict(points=5), rule='all orders of declaration'),
    'options': dict(fn=options, quick=dict(dyn=['drag', 'angle', 'two'], points=2),
                    thorough=dict(dyn=[d for d in DYN if d != 'timed'], points=4), rule='without time as a state, without normalisation'),
    'programs': dict(fn=programs, quick=Q, thorough=T, rule='all programs x methods x control options'),
}
