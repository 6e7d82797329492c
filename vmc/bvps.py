"""Small boundary-value problems with known answers, in the form the solvers take them (y, params, const)."""
import numpy as np


class BVP:
    """states, quads, dynamical and non-dynamical parameters, constants; ``exact(const, t)`` gives y(t) or None."""
    nq = 0
    const = np.array([])
    p = np.array([])
    nd = np.array([])
    exact = None
    feasible = True
    linear = False
    jac = False
    qtol = 0.0          # accuracy of the quadratures with the steps the propagator takes

    def __init__(self, name, **kw):
        self.name = name
        for k, v in kw.items():
            setattr(self, k, v)

    def residual(self, sol):
        if self.nq:
            return np.asarray(self.bc(sol.y[0], sol.q[0], sol.y[-1], sol.q[-1], sol.dynamical_parameters,
                                      sol.nondynamical_parameters, sol.const), dtype=float)
        return np.asarray(self.bc(sol.y[0], sol.y[-1], sol.dynamical_parameters, sol.nondynamical_parameters,
                                  sol.const), dtype=float)

    def guess(self, kind, span, const=None):
        from vmc import ocp
        t0, tf = span
        n = {'two': 2, 'five': 5, 'uneven': 4}[kind.split(':')[0]]
        t = np.linspace(t0, tf, n)
        if kind.startswith('uneven'):
            t = t0 + (tf - t0) * np.array([0, 0.1, 0.7, 1.0])
        far = kind.endswith(':far')
        s = (t - t0) / (tf - t0)
        y = np.array([(self.start + (0.6 if far else 0.05) * np.cos(np.arange(self.n) + si)) for si in s])
        q = np.array([[0.2 + 0.1 * j + 0.3 * si for j in range(self.nq)] for si in s]).reshape(n, self.nq)
        return ocp.make_traj(t, y, q=q, u=np.zeros((n, 0)), p=self.p * (1.15 if far else 1.02), nd=self.nd + 0.1,
                             const=self.const if const is None else const, dual=np.zeros_like(y))


A = np.array


def _osc(y, p, k):
    return A([y[1], -k[0] ** 2 * y[0]])


def _osc_j(y, p, k):
    return A([[0., 1.], [-k[0] ** 2, 0.]]), np.zeros((2, 0))


def _osc_bc(ya, yb, p, nd, k):
    return A([ya[0] - k[1], yb[0] - k[2]])


def _osc_bj(ya, yb, p, nd, k):
    return A([[1., 0.], [0., 0.]]), A([[0., 0.], [1., 0.]]), np.zeros((2, 0))


def _osc_x(k, t, span):
    w, a, b = k
    T = span[1] - span[0]
    c = (b - a * np.cos(w * T)) / np.sin(w * T)
    s = t - span[0]
    return np.stack([a * np.cos(w * s) + c * np.sin(w * s), w * (c * np.cos(w * s) - a * np.sin(w * s))], axis=1)


def _tf(y, p, k):          # double integrator over normalised time with free duration p[0]: x'' = k0
    return p[0] * A([y[1], k[0]])


def _tf_j(y, p, k):
    return p[0] * A([[0., 1.], [0., 0.]]), A([[y[1]], [k[0]]])


def _tf_bc(ya, yb, p, nd, k):
    return A([ya[0], ya[1] - k[1], yb[1] - k[2]])


def _tf_bj(ya, yb, p, nd, k):
    return A([[1., 0.], [0., 1.], [0., 0.]]), A([[0., 0.], [0., 0.], [0., 1.]]), np.zeros((3, 1))


def _tf_x(k, t, span):
    T = span[1] - span[0]
    p = (k[2] - k[1]) / k[0] / T
    s = (t - span[0]) * p
    return np.stack([k[1] * s + k[0] * s ** 2 / 2, k[1] + k[0] * s], axis=1)


def _nu(y, p, k):          # decay with a multiplier in the boundary conditions
    return A([-y[0], y[0] - y[1]])


def _nu_bc(ya, yb, p, nd, k):
    return A([ya[0] - 2 * nd[0], ya[1] - nd[0] + k[1], yb[0] - k[0]])


def _nu_x(k, t, span):
    s = t - span[0]
    y0 = k[0] * np.exp(span[1] - span[0])
    c = y0 / 2 - k[1]
    return np.stack([y0 * np.exp(-s), (c + y0 * s) * np.exp(-s)], axis=1)


def _q(y, p, k):
    return A([p[0], -y[1]])


def _qf(y, p, k):
    return A([y[0], y[1] + k[1]])


def _q_bc(ya, qa, yb, qb, p, nd, k):
    return A([ya[0], ya[1] - 1, qa[0] - k[2], qa[1], qb[0] - k[0]])


def _q_x(k, t, span):
    T = span[1] - span[0]
    p = 2 * (k[0] - k[2]) / T ** 2
    s = t - span[0]
    return np.stack([p * s, np.exp(-s)], axis=1)


def _qq(y, p, k):           # quadratures, no parameters: y constant along the arc, decided by the quadrature
    return A([0. * y[0]])


def _qq_f(y, p, k):
    return A([y[0] * k[0]])


def _qq_bc(ya, qa, yb, qb, p, nd, k):
    return A([qa[0] - k[1], qb[0] - k[2]])


def _qq_x(k, t, span):
    return np.stack([0 * t + (k[2] - k[1]) / k[0] / (span[1] - span[0])], axis=1)


def _duff(y, p, k):
    return A([y[1], -y[0] - k[0] * y[0] ** 3])


def _eig(y, p, k):
    return A([y[1], -p[0] ** 2 * y[0]])


def _eig_bc(ya, yb, p, nd, k):
    return A([ya[0], ya[1] - k[0], yb[0]])


def _no(y, p, k):           # nothing moves, yet different ends are asked for
    return A([0. * y[0], 0. * y[1]])


def _no_bc(ya, yb, p, nd, k):
    return A([ya[0] - k[0], yb[0] - k[0] - 1])


def _sq_bc(ya, yb, p, nd, k):
    return A([ya[0] ** 2 + 1, ya[1] - yb[0]])


def _par_bc(ya, yb, p, nd, k):   # parameter does nothing useful: overdetermined
    return A([ya[0], ya[1] - 1, yb[1] ** 2 + k[0] ** 2])


def _par(y, p, k):
    return A([p[0], 0. * y[1]])


def _mix(y, p, k):          # double integrator with free duration and acceleration, and a multiplier
    return p[0] * A([y[1], p[1]])


def _mix_bc(ya, yb, p, nd, k):
    return A([2 * nd[0] - k[3], ya[0] - nd[0], yb[0] - k[1], ya[1] - k[0], yb[1] - k[2]])


def _mix_x(k, t, span):
    T = span[1] - span[0]
    p = (k[1] - k[3] / 2) / T / ((k[0] + k[2]) / 2)
    s = (t - span[0]) * p
    a = (k[2] - k[0]) / (p * T)
    return np.stack([k[3] / 2 + k[0] * s + a * s ** 2 / 2, k[0] + a * s], axis=1)


def _many_bc(ya, yb, p, nd, k):
    return A([ya[0] - nd[0], nd[0] + nd[1] - k[0], nd[1] - nd[2] - k[1], 2 * nd[2] - nd[3] - k[2], nd[3] + nd[4] - k[3],
              ya[1] - nd[4], yb[0] - k[4]])


def _many_x(k, t, span):
    s = t - span[0]
    y0 = k[4] * np.exp(span[1] - span[0])
    n1 = k[0] - y0
    c = k[3] - (2 * (n1 - k[1]) - k[2])
    return np.stack([y0 * np.exp(-s), (c + y0 * s) * np.exp(-s)], axis=1)


def _steep(y, p, k):        # boundary layers, and the integral of the state
    return A([y[1], k[0] ** 2 * y[0]])


def _steep_f(y, p, k):
    return A([y[0], y[1] * y[0]])


def _steep_bc(ya, qa, yb, qb, p, nd, k):
    return A([ya[0] - k[1], yb[0] - k[2], qa[0] - k[3], qa[1]])


def _steep_x(k, t, span):
    w, a, b = k[:3]
    T = span[1] - span[0]
    s = t - span[0]
    d = np.sinh(w * T)
    return np.stack([(a * np.sinh(w * (T - s)) + b * np.sinh(w * s)) / d,
                     w * (-a * np.cosh(w * (T - s)) + b * np.cosh(w * s)) / d], axis=1)


def _columns(f, x, h=1e-6):
    x = np.asarray(x, dtype=float)
    cols = []
    for i in range(x.size):
        a, b = x.copy(), x.copy()
        a[i] += h
        b[i] -= h
        cols.append((np.asarray(f(a), dtype=float) - np.asarray(f(b), dtype=float)) / (2 * h))
    n = np.size(f(x))
    return np.array(cols).T.reshape(n, x.size) if cols else np.zeros((n, 0))


def jacobians(b):
    """Jacobians of the problem in the form the solvers take them (with respect to states and to all parameters)."""
    def fj(y, p, k):
        return _columns(lambda z: b.f(z, p, k), y), _columns(lambda z: b.f(y, z, k), p)

    def params(bc, p, nd):
        return np.hstack((_columns(lambda z: bc(z, nd), p), _columns(lambda z: bc(p, z), nd)))
    if b.nq:
        def bj(ya, qa, yb, qb, p, nd, k):
            return (_columns(lambda z: b.bc(z, qa, yb, qb, p, nd, k), ya), _columns(lambda z: b.bc(ya, qa, z, qb, p, nd, k), yb),
                    params(lambda r, s: b.bc(ya, qa, yb, qb, r, s, k), p, nd),
                    _columns(lambda z: b.bc(ya, z, yb, qb, p, nd, k), qa), _columns(lambda z: b.bc(ya, qa, yb, z, p, nd, k), qb))
    else:
        def bj(ya, yb, p, nd, k):
            return (_columns(lambda z: b.bc(z, yb, p, nd, k), ya), _columns(lambda z: b.bc(ya, z, p, nd, k), yb),
                    params(lambda r, s: b.bc(ya, yb, r, s, k), p, nd))
    return fj, bj


ALL = {b.name: b for b in [
    BVP('mixed', n=2, f=_mix, bc=_mix_bc, const=A([0.4, 1.6, 1.3, 0.3]), p=A([1.7, 0.5]), nd=A([0.2]), exact=_mix_x,
        start=A([0.8, 0.8])),
    BVP('oscillator', n=2, f=_osc, bc=_osc_bc, fj=_osc_j, bj=_osc_bj, const=A([0.9, 0.3, 1.1]), exact=_osc_x, linear=True,
        start=A([0.5, 0.5])),
    BVP('duration', n=2, f=_tf, bc=_tf_bc, fj=_tf_j, bj=_tf_bj, const=A([1.5, 0.5, 2.0]), p=A([1.2]), exact=_tf_x,
        start=A([0.4, 1.0])),
    BVP('multiplier', n=2, f=_nu, bc=_nu_bc, const=A([0.8, 0.3]), nd=A([0.7]), exact=_nu_x, linear=True,
        start=A([1.0, 0.5])),
    BVP('quadrature', n=2, nq=2, f=_q, qf=_qf, bc=_q_bc, const=A([1.4, 0.5, 0.25]), p=A([1.5]), exact=_q_x, linear=True,
        start=A([0.6, 0.8])),
    BVP('only-quad', n=1, nq=1, f=_qq, qf=_qq_f, bc=_qq_bc, const=A([0.8, 0.2, 1.3]), exact=_qq_x, linear=True,
        start=A([1.0])),
    BVP('duffing', n=2, f=_duff, bc=_osc_bc, const=A([0.5, 0.3, 1.1]), start=A([0.5, 0.5])),
    BVP('eigen', n=2, f=_eig, bc=_eig_bc, const=A([1.0]), p=A([2.6]), start=A([0.3, 0.5])),
    BVP('many', n=2, f=_nu, bc=_many_bc, const=A([1.9, 0.3, 0.4, 1.1, 0.4]), nd=A([0.9, 0.6, 0.4, 0.3, 0.6]), exact=_many_x,
        linear=True, start=A([1.0, 0.5])),
    BVP('steep', n=2, nq=2, f=_steep, qf=_steep_f, bc=_steep_bc, const=A([4.0, 1.0, 0.7, 0.25]), exact=_steep_x, qtol=2e-3,
        linear=True, start=A([0.5, -0.5])),
    BVP('stuck', n=2, f=_no, bc=_no_bc, const=A([0.4]), feasible=False, start=A([0.5, 0.5])),
    BVP('no-root', n=2, f=_osc, bc=_sq_bc, const=A([0.9]), feasible=False, start=A([0.5, 0.5])),
    BVP('no-root-param', n=2, f=_par, bc=_par_bc, const=A([0.7]), p=A([1.0]), feasible=False, start=A([0.3, 0.9])),
]}


def install(alg, b, jac=False):
    """Hand a problem to a solver through its setters, as the continuation driver does."""
    alg.set_derivative_function(b.f)
    alg.set_quadrature_function(b.qf if b.nq else None)
    alg.set_boundarycondition_function(b.bc)
    fj, bj = jacobians(b)
    if hasattr(b, 'fj'):
        fj, bj = b.fj, b.bj
    alg.set_derivative_jacobian(fj if jac else None)
    alg.set_boundarycondition_jacobian(bj if jac else None)
    return alg
