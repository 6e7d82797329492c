"""C16: initial guesses."""
import copy
import functools

import numpy as np
from scipy.integrate import solve_ivp
from scipy.interpolate import CubicSpline

from vmc import ocp

RULE = ('One execution = one problem x method x control treatment x kind of guess x every setting of the generator, run '
        'through the public solve() with a solver that returns the guess it was given; the guess is compared, in the '
        'user\'s variables, with the settings and with an independent integration of the problem\'s equations.')
ASSUMPTIONS = ['the equations are integrable over the requested span', 'independent integration at tolerance 1e-10']

CONST = {'di': dict(x_0=0.3, v_0=0.1, x_f=1.0, v_f=0.0, t_f=1.0), 'steer': dict(V=1.2, x_f=0.7, y_f=0.4),
         'energy': dict(x_0=0.3, E_f=0.4, t_f=1.0, kappa=0.5), 'tuned': dict(x_f=0.4, t_f=1.0, kappa=0.5), 'pair': dict(x_f=1.0, y_f=-1.0, t_0=0.0, t_f=2.0)}


def program(name):
    import beluga
    p = beluga.Problem(name)
    p.independent('t', 's')
    if name == 'di':
        p.state('x', 'v', 'm').state('v', 'u', 'm/s').control('u', 'm/s**2')
        p.path_cost('u**2/2', 'm**2/s**4')
        p.initial_constraint('x - x_0', 'm').initial_constraint('v - v_0', 'm/s').initial_constraint('t', 's')
        p.terminal_constraint('x - x_f', 'm').terminal_constraint('v - v_f', 'm/s').terminal_constraint('t - t_f', 's')
        units = dict(x_0='m', v_0='m/s', x_f='m', v_f='m/s', t_f='s')
    elif name == 'steer':
        p.state('x', 'V*cos(th)', 'm').state('y', 'V*sin(th)', 'm').control('th', '1')
        p.path_cost('1 + x**2/8', '1')
        p.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('t', 's')
        p.terminal_constraint('x - x_f', 'm').terminal_constraint('y - y_f', 'm')
        units = dict(V='m/s', x_f='m', y_f='m')
    elif name == 'tuned':
        p.state('x', 'c*x*kappa + u', 'm').control('u', 'm/s').parameter('c', '1').parameter('d', 's')
        p.path_cost('u**2/2 + c**2/2 + d**2*x**2/8', 'm**2/s**2')
        p.initial_constraint('x - 1', 'm').initial_constraint('t', 's')
        p.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
        units = dict(x_f='m', t_f='s', kappa='1/s')
    elif name == 'energy':
        p.state('x', 'u - kappa*x', 'm').control('u', 'm/s')
        p.quad('E', 'x*u + 1/4', 'm**2/s').quad('L', 'x', 'm')
        p.path_cost('u**2/2', 'm**2/s**2')
        p.initial_constraint('x - x_0', 'm').initial_constraint('t', 's').initial_constraint('E', 'm**2')
        p.terminal_constraint('E - E_f', 'm**2').terminal_constraint('t - t_f', 's')
        units = dict(x_0='m', E_f='m**2', t_f='s', kappa='1/s')
    else:
        p.state('x', 'u + y/4', 'm').state('y', 'w - x/4', 'm').control('u', 'm/s').control('w', 'm/s')
        p.path_cost('u**2/2 + w**2', 'm**2/s**2')
        p.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('t - t_0', 's')
        p.terminal_constraint('x - x_f', 'm').terminal_constraint('y - y_f', 'm').terminal_constraint('t - t_f', 's')
        units = dict(x_f='m', y_f='m', t_0='s', t_f='s')
    for n, v in CONST[name].items():
        p.constant(n, v, units[n])
    p.scale(m=1, s=1)
    return p


@functools.lru_cache(maxsize=None)
def bvp_of(name, method, control):
    return program(name), ocp.pipeline(program(name), method=method, control_method=control)


# what the derivative of the Hamiltonian with respect to the controls is: (states, costates, controls, constants)
STATION = {'di': lambda y, l, u, k: [u[0] + l[1]],
           'steer': lambda y, l, u, k: [-l[0] * np.sin(u[0]) + l[1] * np.cos(u[0]),
                                        max(0.0, l[0] * np.cos(u[0]) + l[1] * np.sin(u[0]))],
           'tuned': lambda y, l, u, k: [u[0] + l[0]], 'energy': lambda y, l, u, k: [u[0] + l[0]],
           'pair': lambda y, l, u, k: [u[0] + l[0], 2 * u[1] + l[1]]}
RATES = {'energy': lambda y, u: [y[0] * u[0] + 0.25, y[0]]}


def echo(keep):
    from beluga.numeric.bvp_solvers import BaseAlgorithm, BVPResult

    class Echo(BaseAlgorithm):
        def solve(self, solinit, pool=None, **kw):
            keep.append((copy.deepcopy(solinit), self.derivative_function))
            sol = copy.deepcopy(solinit)
            sol.converged = True
            return BVPResult(sol=sol, success=True, message='', niter=1)
    return Echo()


def guess(ctx, P):
    import beluga
    name = ctx.choose('program', P['programs'])
    method, control = ctx.choose('method', P['methods'][name])
    if P.get('raw'):
        prob, kw = program(name), dict(method=method, optim_options=dict(control_method=control))
    else:
        prob, bvp = bvp_of(name, method, control)
        kw = dict(bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol)
    names = [s.name for s in prob.states]
    n, nu, npar, nq = len(names), len(prob.controls), len(prob.parameters), len(prob.quads)
    const = np.array(list(CONST[name].values()), dtype=float)
    mode = ctx.choose('mode', P['modes'])
    helper = ctx.flag('initial helper')
    start = [0.4, -0.3][:n]
    back, T, lam0, u0, p0 = False, None, 0.1, None, None
    if mode in ('auto', 'ones'):
        g = dict(start=list(start))
        back = ctx.flag('reverse')
        if back or ctx.flag('say forward'):
            g['direction'] = 'reverse' if back else 'forward'
        T = ctx.choose('time_integrate', P['times'])
        g['time_integrate'] = T
        T = abs(T)
        lam0 = ctx.choose('costate_guess', [None, 0 if name != 'steer' else 1, -0.2, [0.3, -0.1][:n], np.array([0.05, 0.2][:n])])
        if lam0 is not None:
            g['costate_guess'] = copy.deepcopy(lam0)
        lam0 = 0.1 if lam0 is None else lam0
        u0 = ctx.choose('control_guess', [None, 1, 0.25, [0.5, -0.4][:nu]])
        if u0 is not None:
            g['control_guess'] = copy.deepcopy(u0)
        u0 = 0.1 if u0 is None else u0
        if npar:
            p0 = ctx.choose('param_guess', [None, [0.8], [0.8, 1.3], np.array([0.7])])
            if p0 is not None:
                g['param_guess'] = copy.deepcopy(p0)
        q0 = np.zeros(0)
        if nq:
            q0 = ctx.choose('quad_guess', [[0.3, -0.2], np.array([0.0, 0.7])])
            g['quad_guess'] = copy.deepcopy(q0)
        if P.get('raw') or ctx.choose('created by', ['helper', 'constructor']) == 'helper':
            gen = beluga.guess_generator(mode, **g)
        else:
            from beluga.continuation.guess_generators import GuessGenerator
            gen = GuessGenerator(mode=mode, **g)
        given = copy.deepcopy(g)
    else:
        t = np.array([0.0, 0.3, 0.9])
        st = ocp.make_traj(t, np.array([[0.1 + 0.2 * x, 0.3 - x][:n] for x in t]), q=np.array([[0.2 + x, 0.1 - x][:nq] for x in t]).reshape(3, nq),
                           u=np.array([[0.2 - x, 0.4 * x][:nu] for x in t]), p=[0.9, 1.1][:npar], const=const + 0.125,
                           dual=np.array([[0.5 + x, x - 0.2][:n] for x in t]))
        gen = beluga.guess_generator('static', solinit=st)
        given = copy.deepcopy(st)
    runs = []
    for _ in range(1 if P.get('raw') else 2):
        seen = []
        out = beluga.solve(ocp=prob, guess_generator=gen, bvp_algorithm=echo(seen), initial_helper=helper, steps=None,
                           autoscale=P.get('autoscale', False), save_sols=False, **kw)
        ctx.check(len(out) == 1 and len(out[0]) == 1 and len(seen) == 1, 'unexpected number of solutions')
        runs.append((out[0][0], seen[0]))
    sol, (bv, deriv) = runs[0]
    if len(runs) > 1:
        for f in ('t', 'y', 'dual', 'u', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
            ctx.close(getattr(runs[1][0], f), getattr(sol, f), 'the second guess of the same generator differs: ' + f)
    kk = const.copy()
    if mode == 'static':
        for f in ('t', 'y', 'dual', 'u', 'q', 'dynamical_parameters', 'const'):
            ctx.close(getattr(st, f), getattr(given, f), 'the user\'s guess was modified: ' + f)
            if f == 'const' and helper or f == 'u' and control == 'algebraic':
                continue
            ctx.close(getattr(sol, f), getattr(given, f), 'the static guess did not arrive unchanged: ' + f)
        kk = const + 0.125
    else:
        for k, v in given.items():
            ctx.check(np.array_equal(np.asarray(g[k]), np.asarray(v)), 'a setting was modified: ' + k)
        sg = -1 if back else 1
        ctx.close([sol.t[0], sol.t[-1]], [0, sg * T], 'wrong time span', atol=1e-9)
        ctx.check(np.all(np.diff(sol.t) * sg > 0), 'times are not monotone', t=sol.t)
        ctx.close(sol.y[0], start, 'the guess does not start at the given states', atol=1e-9)
        want = np.ones(n) * lam0 if np.isscalar(lam0) else np.asarray(lam0, dtype=float)
        ctx.close(sol.dual[0], want, 'the guess does not start at the given costates', atol=1e-9)
        if control == 'differential':
            want = np.ones(nu) * u0 if np.isscalar(u0) else np.asarray(u0, dtype=float)
            ctx.close(sol.u[0], want, 'the guess does not start at the given controls', atol=1e-9)
        want = np.ones(npar)
        if p0 is not None:
            want[:len(p0)] = p0
        ctx.close(sol.dynamical_parameters, want, 'the guess does not carry the given parameters', atol=1e-9)
        ctx.check(np.size(sol.q) == nq * len(sol.t), 'quadratures the problem does not have')
        if nq:
            ctx.close(sol.q[0], q0, 'the guess does not start at the given quadratures', atol=1e-9)
        if mode == 'ones':
            ctx.close(sol.dual, np.tile(sol.dual[0], (len(sol.t), 1)), 'the guess is not constant')
            ctx.close(sol.y, np.tile(start, (len(sol.t), 1)), 'the guess is not constant')
            if nq:
                ctx.close(sol.q, np.tile(q0, (len(sol.t), 1)), 'the guess is not constant')
        else:
            # the constants in force while propagating are the defaults (the helper changes them afterwards)
            ref = solve_ivp(lambda tt, y: deriv(y, bv.dynamical_parameters, const), (bv.t[0], bv.t[-1]), bv.y[0],
                            rtol=1e-10, atol=1e-10, t_eval=bv.t)
            sc = 1 + np.abs(ref.y.T)
            ctx.close(bv.y / sc, ref.y.T / sc, 'the guess does not follow the equations of motion', rtol=0, atol=1e-4)
            if nq:
                d = [RATES[name](y, u) for y, u in zip(sol.y, sol.u)]
                for j in range(nq):
                    want = q0[j] + CubicSpline(sol.t * sg, [sg * x[j] for x in d]).antiderivative()(sol.t * sg)
                    ctx.close(sol.q[:, j], want, 'the quadratures of the guess are not the integrals of their rates',
                              rtol=0, atol=1e-3)
    if control == 'algebraic':
        ctx.close(bv.u, sol.u, 'the solver is not given the controls of the guess')
        for y, l, u in zip(sol.y, sol.dual, sol.u):
            e = STATION[name](y, l, u, sol.const)
            ctx.close(e, np.zeros(len(e)), 'the controls of the guess do not follow the control law',
                      atol=1e-7)
    if helper:
        for j, c in enumerate(CONST[name]):
            base, _, end = c.rpartition('_')
            vals = dict(zip(names, sol.y.T), t=sol.t)
            if base in vals and end in ('0', 'f'):
                kk[j] = vals[base][0 if end == '0' else -1]
    ctx.close(sol.const, kk, 'wrong constants', rtol=1e-7, atol=1e-9)
    ctx.state(name, method, control, mode, helper, sol.t, sol.y, sol.dual, sol.u, sol.dynamical_parameters)


def refused(ctx, P):
    import beluga
    kind = ctx.choose('request', ['direction', 'no time', 'mode', 'unknown setting', 'too many parameters'])
    mode = ctx.choose('mode', ['auto', 'ones'])
    if kind == 'direction':
        d = ctx.choose('direction', ['Forward', 'backward', '', None, 1])
        ctx.raises(ValueError, lambda: beluga.guess_generator(mode, start=[0, 0], direction=d), 'bad direction accepted')
    elif kind == 'no time':
        z = ctx.choose('zero', [0, 0.0, -0.0])
        ctx.raises(ValueError, lambda: beluga.guess_generator(mode, start=[0, 0], time_integrate=z), 'zero time accepted')
    elif kind == 'mode':
        m = ctx.choose('name', ['zeros', 'Auto', '', 'one'])
        ctx.raises(ValueError, lambda: beluga.guess_generator(m, start=[0, 0]), 'bad mode accepted')
    elif kind == 'unknown setting':
        ctx.raises(TypeError, lambda: beluga.guess_generator(mode, begin=[0, 0]), 'unknown setting accepted')
    else:
        prob, bvp = bvp_of('tuned', 'traditional', 'algebraic')
        gen = beluga.guess_generator(mode, start=[0.3], param_guess=[1.0, 2.0, 3.0])
        ctx.raises(ValueError, lambda: beluga.solve(ocp=prob, bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol,
                                                    guess_generator=gen, bvp_algorithm=echo([]), save_sols=False),
                   'too many parameters accepted')
    ctx.state(kind, mode)


def matching(ctx, P):
    """Constants named after endpoint values take them; every other constant stays."""
    import beluga
    from beluga.continuation import match_constants_to_states
    pool = ['x_0', 'x_f', 'v_0', 'v_f', 't_0', 't_f', 'x_1', 'x0', 'y_f', 'x_f_f', 'u_0']
    perm = ctx.choose('order of constants', [1, 3, 7])
    drop = ctx.choose('without', [None] + pool)
    names = [pool[(i * perm) % len(pool)] for i in range(len(pool))]
    names = [m for m in names if m != drop]
    p = beluga.Problem('m')
    if ctx.flag('states swapped'):
        order = ['v', 'x']
    else:
        order = ['x', 'v']
    p.independent(ctx.choose('time is called', ['t', 'tau']), 's')
    for s in order:
        p.state(s, 'v' if s == 'x' else 'u', 'm')
    p.control('u', 'm')
    for i, m in enumerate(names):
        p.constant(m, 100.0 + i, 'm')
    n = ctx.choose('nodes', [2, 3])
    t = np.linspace(-0.5, 2.5, n)
    y = np.array([[1.0 + i, -2.0 - 3 * i] for i in range(n)])
    sol = ocp.make_traj(t, y, u=np.ones((n, 1)), const=[100.0 + i for i in range(len(names))])
    r = match_constants_to_states(p, sol)
    tn = p.independent_variable.name
    for i, m in enumerate(names):
        want = 100.0 + i
        base, _, end = m.rpartition('_')
        if end in ('0', 'f') and base in order + [tn]:
            k = 0 if end == '0' else -1
            want = t[k] if base == tn else y[k, order.index(base)]
        ctx.close(r.const[i], want, 'constant %s wrong' % m)
    ctx.close(r.y, y, 'states modified')
    ctx.close(r.t, t, 'time modified')
    ctx.state(order, tn, names, n)


ALL = [(m, c) for m in ('traditional', 'diffyg') for c in ('algebraic', 'differential')]
M = dict(energy=ALL, di=ALL, steer=[('traditional', 'algebraic'), ('diffyg', 'algebraic')], tuned=ALL[:2], pair=ALL)
HARNESSES = dict(
    guess=dict(fn=guess, rule='every combination of settings', timeout=120,
               quick=dict(programs=['di', 'steer', 'tuned', 'pair', 'energy'], modes=['auto', 'ones', 'static'], times=[0.7], methods=M),
               thorough=dict(programs=['di', 'steer', 'tuned', 'pair', 'energy'], modes=['auto', 'ones', 'static'],
                             times=[0.7, 1, -0.4, 2.5], methods=M)),
    spans=dict(fn=guess, rule='lengths and signs of the span', timeout=120,
               quick=dict(programs=['di'], modes=['auto', 'ones'], times=[1, -0.4, 2.5], methods=dict(di=ALL[:1]))),
    end_to_end=dict(fn=guess, rule='deriving the problem inside solve()', timeout=120,
                    quick=dict(raw=True, programs=['di'], modes=['auto', 'static'], times=[0.7], autoscale=True,
                               methods=dict(di=ALL[:2]))),
    refused=dict(fn=refused, rule='settings that mean nothing', quick={}),
    matching=dict(fn=matching, rule='all sets, orders and names of constants', quick={}),
)
