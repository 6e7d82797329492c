"""C14: propagation and quadratures."""
import copy

import numpy as np
from scipy.integrate import quad

from vmc import ocp

RULE = ('One execution = one system x time span (forward, backward, offset, degenerate step multiples) x stepper x step '
        'policy x reconstruction mode x initial point, propagated by the real propagator and compared with the closed-form '
        'solution and its integrals.')
ASSUMPTIONS = ['systems with closed-form solutions that exist over the whole span; tolerance 2e-4 (relative to magnitude); quadratures to the order of the step size (the documented Simpson rule on the nodes)']

W = 1.3
# name -> (rhs(y, p, k), exact(t, y0, p, k), number of states)
SYS = {
    'decay': (lambda y, p, k: np.array([-k[0] * y[0]]), lambda s, y0, p, k: np.array([y0[0] * np.exp(-k[0] * s)]), 1),
    'osc': (lambda y, p, k: np.array([y[1], -k[0] ** 2 * y[0]]),
            lambda s, y0, p, k: np.array([y0[0] * np.cos(k[0] * s) + y0[1] / k[0] * np.sin(k[0] * s),
                                          y0[1] * np.cos(k[0] * s) - y0[0] * k[0] * np.sin(k[0] * s)]), 2),
    'param': (lambda y, p, k: p[0] * np.array([y[1], k[1], 0 * y[0]]),
              lambda s, y0, p, k: np.array([y0[0] + p[0] * y0[1] * s + k[1] * (p[0] * s) ** 2 / 2, y0[1] + k[1] * p[0] * s,
                                            y0[2]]), 3),
    'rest': (lambda y, p, k: np.array([0 * y[0], 0 * y[1]]), lambda s, y0, p, k: np.array(y0), 2),
}
QUADS = {'none': None, 'one': lambda y, p, k: np.array([y[0] * k[0]]), 'two': lambda y, p, k: np.array([y[-1], y[0] ** 2 + p[0]]),
         'const': lambda y, p, k: np.array([1.0 + 0 * y[0]])}
P_, K_ = np.array([0.8]), np.array([W, -0.6])


def truth(sysname, qname, t, t0, y0, q0):
    f, ex, n = SYS[sysname]
    y = np.array([ex(x - t0, y0, P_, K_) for x in t])
    qf = QUADS[qname]
    if qf is None:
        return y, None
    nq = len(q0)
    Q = np.array([[q0[j] + quad(lambda x: float(qf(ex(x - t0, y0, P_, K_), P_, K_)[j]), t0, x, epsabs=1e-11)[0]
                   for j in range(nq)] for x in t])
    return y, Q


def propagate(ctx, P):
    from beluga.numeric.ivp_solvers import Propagator
    name = ctx.choose('system', P['systems'])
    f, ex, n = SYS[name]
    qn = ctx.choose('quadratures', P['quads'])
    tspan = ctx.choose('time span', P['spans'])
    kw = {}
    st = ctx.choose('stepper', P['steppers'])
    if st:
        kw['stepper'] = st
    ms = ctx.choose('maxstep', P['maxstep'])
    if ms:
        kw['maxstep'] = ms
    fixed = ctx.flag('fixed steps')
    if fixed:
        kw['variable_step'] = False
    quick = QUADS[qn] is not None and ctx.flag('quick reconstruction')
    if quick:
        kw['quick_reconstruct'] = True
    y0 = ctx.choose('initial point', [[1.0, -0.5, 0.3][:n], [2, 1, -1][:n]])
    q0 = {'none': [], 'one': [0.4], 'two': [-0.2, 0.7], 'const': [1.0]}[qn]
    kw['abstol'] = kw['reltol'] = 1e-7
    y_in, q_in, t_in = np.array(y0), np.array(q0), np.array(tspan, dtype=float)
    keep = copy.deepcopy((y_in, q_in, t_in))
    g = Propagator(**kw)(f, QUADS[qn], t_in, y_in, q_in, P_, K_)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keep, (y_in, q_in, t_in))), 'the arguments were modified')
    ctx.check(g.t.ndim == 1 and g.y.shape == (len(g.t), n), 'wrong shape', t=g.t.shape, y=g.y.shape)
    ctx.close([g.t[0], g.t[-1]], [tspan[0], tspan[-1]], 'the trajectory does not cover the time span', atol=1e-12)
    d = np.diff(g.t) * np.sign(tspan[-1] - tspan[0])
    ctx.check(np.all(d > 0), 'times are not monotone', t=g.t)
    ctx.check(np.max(d) <= (ms or 0.1) * (1 + 1e-9), 'a step is longer than allowed', longest=np.max(d))
    Y, Q = truth(name, qn, g.t if len(g.t) < 40 else g.t[[0, len(g.t) // 3, -1]], tspan[0], y0, q0)
    idx = range(len(g.t)) if len(g.t) < 40 else [0, len(g.t) // 3, len(g.t) - 1]
    sc = 1 + np.max(np.abs(Y))
    ctx.close(g.y[0], np.array(y0, dtype=float), 'the trajectory does not start at the initial point', atol=1e-12)
    ctx.close(g.y[list(idx)] / sc, Y / sc, 'the trajectory does not solve the equations', rtol=0, atol=2e-4)
    if Q is not None:
        ctx.check(np.asarray(g.q).shape == (len(g.t), len(q0)), 'wrong shape of quadratures', shape=np.shape(g.q))
        rows = [0, len(g.t) - 1] if quick else list(idx)
        pick = [0, len(Q) - 1] if quick else list(range(len(Q)))
        # error of a trapezoid on the largest interval (the composite rule is of higher order)
        s = np.linspace(tspan[0], tspan[-1], 41)
        r = np.array([QUADS[qn](ex(x - tspan[0], y0, P_, K_), P_, K_) for x in s])
        curv = np.max(np.abs(np.diff(r, 2, axis=0))) / (s[1] - s[0]) ** 2
        ctx.close(g.q[rows], Q[pick], 'the quadratures are not the integrals of their rates', rtol=1e-4,
                  atol=2e-4 + curv * np.max(d) ** 3 / 10)
    ctx.state(name, qn, tspan, st, ms, fixed, quick, y0, g.y[-1])


def reconstruction(ctx, P):
    """reconstruct and integrate_quads on given (polynomial) trajectories and every sub-interval of nodes and midpoints."""
    from beluga.numeric.ivp_solvers import reconstruct, integrate_quads
    from beluga.numeric.data_classes.Trajectory import Trajectory
    n = ctx.choose('nodes', P['nodes'])
    uneven = ctx.flag('uneven')
    t0 = ctx.choose('start', [0.0, -1.0])
    t = t0 + (np.linspace(0, 2, n) if not uneven else 2 * (np.arange(n) / (n - 1)) ** 1.5)
    deg = ctx.choose('degree', [0, 1])
    dims = ctx.choose('states', [1, 2])
    c = [(0.7, 0.0 if deg == 0 else -0.4), (-0.3, 0.0 if deg == 0 else 0.9)][:dims]
    y = np.array([[a + b * x for a, b in c] for x in t])
    if dims == 1 and ctx.flag('flat array'):
        y = y[:, 0]
    k = 1.5

    def F(a, b, i):            # integral of the rate of quadrature i
        A, B = c[i % dims]
        return k * (A * (b - a) + B * (b * b - a * a) / 2)
    nq = ctx.choose('quadratures', [1, 2])
    g = Trajectory(t, y)
    q0 = np.array([0.25, -0.5][:nq])
    before = copy.deepcopy(g.y)
    r = reconstruct(lambda yy, kk: np.array([kk * yy[i % dims] for i in range(nq)]), g, q0, k)
    want = np.array([[q0[i] + F(t[0], x, i) for i in range(nq)] for x in t])
    ctx.close(np.asarray(r.q), want, 'reconstruct: quadratures wrong', rtol=1e-9, atol=1e-9)
    ctx.check(np.array_equal(before, g.y), 'reconstruct modified the trajectory')
    pts = sorted(set(list(t) + [(a + b) / 2 for a, b in zip(t[:-1], t[1:])]))
    a = ctx.choose('from', pts[:-1])
    b = ctx.choose('to', [p for p in pts if p > a])
    if ctx.flag('carries quadratures'):
        g.q = np.array([[1.0 + 2 * x, -x][:nq] for x in t])
        base = np.array([1.0 + 2 * a, -a][:nq])
    else:
        base = np.zeros(nq)
    got = integrate_quads(lambda tt, yy, kk: np.array([kk * yy[i % dims] for i in range(nq)]), np.array([a, b]), g, k)
    ctx.close(np.atleast_1d(got), base + np.array([F(a, b, i) for i in range(nq)]), 'integrate_quads: wrong value',
              rtol=1e-9, atol=1e-9)
    out = ctx.choose('outside', ['no', 'left', 'right'])
    if out != 'no':
        sp = [t[0] - 0.1, b] if out == 'left' else [a, t[-1] + 0.1]
        ctx.raises(Exception, lambda: integrate_quads(lambda tt, yy, kk: np.array([yy[0]] * nq), np.array(sp), g, k),
                   'integration outside the trajectory was accepted')
    ctx.state(n, uneven, t0, deg, dims, nq, a, b, got)


SPANS = [(0.0, 1.0), (0.0, -1.0), (1.0, 1.3), (0.25, 0.95), (0.0, 0.05), (2.0, 0.7), (0.0, 0.3, 1.0)]
HARNESSES = dict(
    propagate=dict(fn=propagate, timeout=100, rule='all systems, spans, steppers and step policies',
                   quick=dict(systems=list(SYS), quads=list(QUADS), spans=SPANS, steppers=[None, 'LSODA'], maxstep=[None, 0.25]),
                   thorough=dict(systems=list(SYS), quads=list(QUADS), spans=SPANS + [(-3.0, -1.9), (0.0, 3.0)],
                                 steppers=[None, 'RK23', 'LSODA', 'DOP853', 'Radau', 'BDF', 'rk45'],
                                 maxstep=[None, 0.05, 0.25, 0.1])),
    long=dict(fn=propagate, timeout=100, rule='hundreds of steps',
              quick=dict(systems=['osc', 'param'], quads=['none', 'one'], spans=[(0.0, 25.0), (30.0, 12.0), (0.0, 1.0)], steppers=[None],
                         maxstep=[None, 0.004]),
              thorough=dict(systems=list(SYS), quads=['none', 'one', 'two'], spans=[(0.0, 25.0), (30.0, 12.0), (0.0, 1.0), (-40.0, 7.0)],
                            steppers=[None, 'LSODA', 'RK23'], maxstep=[None, 0.004, 0.02])),
    reconstruction=dict(fn=reconstruction, timeout=60, rule='every sub-interval of nodes and midpoints',
                        quick=dict(nodes=[3, 4]), thorough=dict(nodes=[2, 3, 4, 5, 6])),
)
