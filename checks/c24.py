"""C24: the cost reported with a trajectory is the user's objective evaluated along it."""
import copy

import numpy as np
from scipy.integrate import quad

from vmc import grammar, ocp

RULE = ('One execution = one program x method x control option x trajectory; the trajectory is carried through the '
        'solver problem and its reported cost is compared with the objective integrated adaptively.')
ASSUMPTIONS = ['running costs vary smoothly between nodes (polynomial trajectories, 61 uneven nodes, relative 1e-4), or '
               'are constant (any number of nodes, exact)']

NODES = np.concatenate(([0.0], np.cumsum(1 + 0.3 * np.sin(np.arange(60)))))
NODES = NODES / NODES[-1]


def objective(ctx, P):
    spec = grammar.choose(ctx, P)
    method = ctx.choose('method', P['methods'])
    control = ctx.choose('control', P['controls'])
    bvp = ocp.pipeline(grammar.build(spec), method=method, control_method=control)
    ref = grammar.Ref(spec)
    t0, dur = ctx.choose('time span', P['spans'])
    t = t0 + dur * NODES
    nx, nu = len(spec.states), len(spec.controls)
    k = np.array([c.default_val for c in bvp.constants])
    kd = dict(zip([c.name for c in bvp.constants], k))
    kref = [kd[str(s)] for s in ref.k]
    C = grammar.grid_values(3 * (2 * nx + nu + 1), 3).reshape(-1, 3)

    def point(tt):
        s = (tt - t0) / dur
        v = C @ np.array([1, s, s * s])
        a = [np.append(v[:nx], tt), v[nx:nx + nu], v[nx + nu:], [], [], [0] * len(ref.nu0), [0] * len(ref.nuf), kref]
        if control == 'algebraic':
            a = ref.on_manifold(a)
            if np.any(np.linalg.eigvalsh(np.atleast_2d(np.array(ref.n_Huu(*a), dtype=float))) < 0):
                a[2] = -np.asarray(a[2])
        return a
    pts = [point(tt) for tt in t]
    user = ocp.make_traj(t, [a[0][:-1] for a in pts], q=np.zeros((len(t), 0)), u=[a[1] for a in pts], const=k,
                         dual=[a[2][:-1] for a in pts])
    user.dual_t = np.array([a[2][-1] for a in pts])
    back = bvp.inv_map_sol(bvp.map_sol(copy.deepcopy(user)))
    want = float(ref.n_c0(*pts[0])) + float(ref.n_cf(*pts[-1])) + \
        quad(lambda tt: float(ref.n_L(*point(tt))), t[0], t[-1], epsabs=1e-10, epsrel=1e-9, limit=200)[0]
    ctx.close(back.cost, want, 'the reported cost is not the objective along the trajectory', rtol=1e-4, atol=1e-4)
    ctx.state(spec.name, method, control, t0, dur, want)


def constant_rate(ctx, P):
    """A constant running cost integrates exactly on any mesh: minimum time."""
    d = ctx.choose('dynamics', ['angle', 'brach'])
    n = ctx.choose('nodes', P['nodes'])
    t0, dur = ctx.choose('time span', P['spans'])
    method = ctx.choose('method', ['traditional', 'diffyg'])
    states, controls = grammar.DYN[d]
    s = [(a, u) for a, (_, u) in states.items()]
    spec = grammar.Spec(name=d, states={a: e for a, (e, _) in states.items()}, units={a: u for a, (_, u) in states.items()},
                        controls=dict(controls), path='1', initial=grammar.INITIAL['fixed'](s),
                        terminal=grammar.TERMINAL['fixed'](s), params={}, termcost=None, initcost=None)
    bvp = ocp.pipeline(grammar.build(spec), method=method)
    t = t0 + dur * (np.linspace(0, 1, n) ** 1.5)
    k = np.array([c.default_val for c in bvp.constants])
    y = np.array([grammar.grid_values(len(states), j) for j in range(n)])
    user = ocp.make_traj(t, y, q=np.zeros((n, 0)), u=np.ones((n, 1)), const=k, dual=y)
    back = bvp.inv_map_sol(bvp.map_sol(copy.deepcopy(user)))
    ctx.close(back.cost, dur, 'minimum time: the reported cost is not the elapsed time', rtol=1e-9)
    ctx.state(d, n, t0, dur, method)


def user_data(ctx, P):
    """Objectives that involve free parameters and, at the ends, quadratures the user asked for."""
    npar = ctx.choose('parameters', P['params'])
    nq = ctx.choose('quadratures', P['quads'])
    method = ctx.choose('method', ['traditional', 'diffyg'])
    control = ctx.choose('control', ['differential', 'algebraic'])
    path = ctx.choose('path cost', ['u**2/2 + x*k*t'] + ['u**2/2 + a**2*x*L'] * (npar > 0))
    ends = [None, 'x*L + t*x'] + ['a*x'] * (npar > 0) + ['q0*L + x*t'] * (nq > 0) + ['q1**2 + q0*x'] * (nq > 1)
    ic = ctx.choose('initial cost', ends)
    tc = ctx.choose('terminal cost', ends)
    par = dict([('a', '1/s'), ('b', 'm')][:npar])
    spec = grammar.Spec(name='ud', states=dict(x='v', v='u - a*v' if npar else 'u - k*v'), units=dict(x='m', v='m/s'),
                        controls=dict(u='m/s**2'), params=par, path=path, initcost=ic, termcost=tc,
                        initial=[('t', 's'), ('x', 'm'), ('v', 'm/s')], terminal=[('v - vf' + (' - b*k' if npar > 1 else ''), 'm/s'), ('t - tf', 's')])
    prob = grammar.build(spec)
    for i in range(nq):
        prob.quad('q%d' % i, ['v**2', 'x*k'][i], ['m**2/s', 'm'][i])
    bvp = ocp.pipeline(prob, method=method, control_method=control)
    t0, dur = ctx.choose('time span', P['spans'])
    t = t0 + dur * NODES
    kd = {c.name: c.default_val for c in bvp.constants}
    C = grammar.grid_values(27, 5).reshape(-1, 3)
    env = dict(kd, a=0.35, b=-0.6)
    V = np.array([C @ [1, s, s * s] for s in NODES])
    y, dual, u, q = V[:, :2], V[:, 2:4].copy(), V[:, 4:5], V[:, 5:5 + nq]
    dual[:, 1] = -u[:, 0]                                        # stationary, so that both control options agree
    user = ocp.make_traj(t, y, q=q, u=u, p=[0.35, -0.6][:npar], const=list(kd.values()), dual=dual)
    user.dual_t = V[:, 8]
    back = bvp.inv_map_sol(bvp.map_sol(copy.deepcopy(user)))

    def at(e, s):
        v = C @ np.array([1, s, s * s])
        return 0.0 if e is None else float(eval(e, {}, dict(env, t=t0 + dur * s, x=v[0], v=v[1], u=v[4], q0=v[5], q1=v[6])))
    want = at(ic, 0.0) + at(tc, 1.0) + dur * quad(lambda s: at(path, s), 0, 1, epsabs=1e-11, epsrel=1e-10)[0]
    ctx.close(back.cost, want, 'the reported cost is not the objective along the trajectory', rtol=1e-4, atol=1e-4)
    ctx.state(npar, nq, method, control, path, ic, tc, t0, dur)


Q = dict(dyn=['single', 'double', 'timed', 'angle', 'two', 'brach'], path=['energy+x', 'energy*t', 'one+x'],
         initial=['fixed'], terminal=['first+tf'], termcost=['none', 'quad', 'time'], initcost=['none', 'quad', 'time'],
         methods=['traditional', 'diffyg'], controls=['differential', 'algebraic'], spans=[(0.0, 2.0), (1.2, 0.9)])
HARNESSES = {
    'objective': dict(fn=objective, quick=Q, thorough=dict(Q, dyn=list(grammar.DYN), path=list(grammar.PATH),
                                                           initial=['fixed', 'coupled'],
                                                           spans=[(0.0, 2.0), (1.2, 0.9), (0.5, -0.8)]),
                      rule='smooth trajectories'),
    'user_data': dict(fn=user_data, quick=dict(params=[0, 1, 2], quads=[0, 1, 2], spans=[(1.2, 0.9)]),
                      thorough=dict(params=[0, 1, 2], quads=[0, 1, 2], spans=[(0.0, 2.0), (1.2, 0.9), (0.5, -0.8)]),
                      rule='free parameters and quadratures'),
    'constant_rate': dict(fn=constant_rate, quick=dict(nodes=[2, 3, 4, 5, 6], spans=[(0.0, 2.0), (1.2, -0.9)]),
                          rule='minimum time on any mesh'),
}
