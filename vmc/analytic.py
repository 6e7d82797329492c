"""Optimal-control programs with closed-form answers, written through the public interface.

Each entry: build() -> Problem, guess keywords, exact(const) -> (t_f, cost, x(t) function, controls(t) or None)."""
import numpy as np


def _problem(name):
    import beluga
    p = beluga.Problem(name)
    p.independent('t', 's')
    return p


def _consts(p, c):
    for n, (v, u) in c.items():
        p.constant(n, v, u)


class Case:
    reducible = False
    symmetric = ()
    params = None

    def __init__(self, name, consts, build, exact, start, tg, methods, lam=0.1, u0=None, targets=None, free_time=False):
        self.name, self.consts, self._build, self.exact, self.start, self.tg = name, consts, build, exact, start, tg
        self.methods, self.lam, self.u0, self.targets, self.free_time = methods, lam, u0, targets or {}, free_time

    def problem(self, symmetry=False):
        p = _problem(self.name)
        self._build(p)
        _consts(p, self.consts)
        if symmetry:
            for field, units in self.symmetric:
                p.symmetry(field, units)
        return p

    def guess(self, mode='auto', **more):
        import beluga
        kw = dict(start=list(self.start), time_integrate=self.tg, costate_guess=self.lam)
        kw.update(more)
        if self.u0 is not None:
            kw['control_guess'] = list(self.u0)
        return beluga.guess_generator(mode, **kw)


ALL = [(m, c) for m in ('traditional', 'diffyg') for c in ('algebraic', 'differential')]


# --- rest-to-rest double integrator, least energy: x = xf(3s^2 - 2s^3), cost 6 xf^2/tf^3
def _b(p):
    p.state('x', 'v', 'm').state('v', 'u', 'm/s').control('u', 'm/s**2')
    p.path_cost('u**2/2', 'm**2/s**4')
    p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('v', 'm/s').terminal_constraint('t - t_f', 's')
    p.scale(m='x_f', s='t_f')


def _e(k):
    X, T = k['x_f'], k['t_f']
    return (T, 6 * X ** 2 / T ** 3,
            lambda t: np.array([X * (3 * (t / T) ** 2 - 2 * (t / T) ** 3), 6 * X / T * (t / T - (t / T) ** 2)]),
            lambda t: np.array([6 * X / T ** 2 * (1 - 2 * t / T)]))


DI = Case('di', dict(x_f=(1.0, 'm'), t_f=(1.0, 's')), _b, _e, [0.0, 0.0], 1.0, ALL, targets=dict(x_f=-1.5, t_f=1.6))


# --- scalar regulator, free end: x = x0 cosh(T-t)/cosh(T), cost x0^2/2 tanh(T)
def _b(p):
    p.state('x', 'a*u', 'm').control('u', 'm/s')
    p.path_cost('(x**2 + u**2)/2', 'm**2/s')
    p.initial_constraint('x - x_0', 'm').initial_constraint('t', 's')
    p.terminal_constraint('t - t_f', 's')
    p.scale(m=1, s=1)


def _e(k):
    X, T, a = k['x_0'], k['t_f'], k['a']
    return (T, X ** 2 / 2 * np.tanh(a * T) / a, lambda t: np.array([X * np.cosh(a * (T - t)) / np.cosh(a * T)]),
            lambda t: np.array([-X * np.sinh(a * (T - t)) / np.cosh(a * T)]))


LQR = Case('lqr', dict(x_0=(1.0, 'm'), t_f=(1.0, 's'), a=(1.0, '1')), _b, _e, [1.0], 1.0, ALL,
           targets=dict(x_0=2.0, a=1.5))


# --- terminal cost and initial constraint at a shifted time: x' = u, cost u^2/2 + c x(T)^2/2
def _b(p):
    p.state('x', 'u', 'm').control('u', 'm/s')
    p.path_cost('u**2/2', 'm**2/s**2')
    p.terminal_cost('c*x**2/2', 'm**2/s')
    p.initial_constraint('x - x_0', 'm').initial_constraint('t - t_0', 's')
    p.terminal_constraint('t - t_f', 's')
    p.scale(m='x_0', s=1)


def _e(k):
    X, T, c = k['x_0'], k['t_f'] - k['t_0'], k['c']
    return (k['t_f'], X ** 2 / 2 * c / (1 + c * T), lambda t: np.array([X - c * X / (1 + c * T) * (t - k['t_0'])]),
            lambda t: np.array([-c * X / (1 + c * T)]))


SOFT = Case('soft', dict(x_0=(1.0, 'm'), t_0=(0.0, 's'), t_f=(1.0, 's'), c=(2.0, '1/s')), _b, _e, [1.0], 1.0, ALL,
            targets=dict(c=5.0, t_f=2.0))


# --- least time at constant speed: straight line
def _b(p):
    p.state('x', 'V*cos(th)', 'm').state('y', 'V*sin(th)', 'm').control('th', '1')
    p.path_cost('1', '1')
    p.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('y - y_f', 'm')
    p.scale(m='x_f', s='x_f/V')


def _e(k):
    X, Y, V = k['x_f'], k['y_f'], k['V']
    T = np.hypot(X, Y) / V
    return T, T, lambda t: np.array([X, Y]) * t / T, lambda t: np.array([np.arctan2(Y, X)])


STEER = Case('steer', dict(x_f=(1.0, 'm'), y_f=(0.5, 'm'), V=(1.0, 'm/s')), _b, _e, [0.0, 0.0], 0.9,
             [('traditional', 'algebraic'), ('diffyg', 'algebraic'), ('traditional', 'differential')], lam=-0.7, u0=[0.4],
             targets=dict(x_f=2.0, y_f=1.5), free_time=True)


# --- free final time with energy and time weighed: x' = u, cost (w + u^2/2): u = sqrt(2 w)
def _b(p):
    p.state('x', 'u', 'm').control('u', 'm/s')
    p.path_cost('w + u**2/2', 'm**2/s**2')
    p.initial_constraint('x', 'm').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm')
    p.scale(m='x_f', s=1)


def _e(k):
    X, w = k['x_f'], k['w']
    u = np.sqrt(2 * w)
    return X / u, X * 2 * w / u, lambda t: np.array([u * t]), lambda t: np.array([u])


FREE = Case('free', dict(x_f=(1.0, 'm'), w=(0.5, 'm**2/s**2')), _b, _e, [0.0], 0.8, ALL, lam=-0.8, u0=[0.8],
            targets=dict(x_f=2.0, w=0.8), free_time=True)


# --- two controls, coupled through the cost of one constraint only
def _b(p):
    p.state('x', 'u', 'm').state('y', 'w', 'm').control('u', 'm/s').control('w', 'm/s')
    p.path_cost('(u**2 + 3*w**2)/2', 'm**2/s**2')
    p.initial_constraint('x', 'm').initial_constraint('y', 'm').initial_constraint('t', 's')
    p.terminal_constraint('x + y - d', 'm').terminal_constraint('t - t_f', 's')
    p.scale(m=1, s=1)


def _e(k):
    d, T = k['d'], k['t_f']
    # minimise (X^2 + 3 Y^2)/(2T), X + Y = d
    X, Y = 0.75 * d, 0.25 * d
    return T, (X ** 2 + 3 * Y ** 2) / 2 / T, lambda t: np.array([X, Y]) * t / T, lambda t: np.array([X, Y]) / T


PAIR = Case('pair', dict(d=(1.0, 'm'), t_f=(1.0, 's')), _b, _e, [0.0, 0.0], 1.0, ALL, targets=dict(d=3.0, t_f=0.7))


# --- symmetric problem: cyclic coordinate x (double integrator in v with drift in x)
def _b(p):
    p.state('x', 'v', 'm').state('v', 'u', 'm/s').control('u', 'm/s**2')
    p.path_cost('u**2/2', 'm**2/s**4')
    p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('v - v_f', 'm/s').terminal_constraint('t - t_f', 's')
    p.scale(m='x_f', s='t_f')


def _e(k):
    X, W, T = k['x_f'], k['v_f'], k['t_f']
    a, b = 6 * X / T ** 2 - 2 * W / T, -12 * X / T ** 3 + 6 * W / T ** 2     # u = a + b t
    J = (a * a * T + a * b * T ** 2 + b * b * T ** 3 / 3) / 2
    return (T, J, lambda t: np.array([a * t * t / 2 + b * t ** 3 / 6, a * t + b * t * t / 2]),
            lambda t: np.array([a + b * t]))


SYM = Case('sym', dict(x_f=(1.0, 'm'), v_f=(0.5, 'm/s'), t_f=(1.0, 's')), _b, _e, [0.0, 0.0], 1.0, ALL,
           targets=dict(x_f=2.0, v_f=-0.5))
SYM.symmetric = ((['1', '0'], 'm'),)


# --- a free parameter shares the work with the control: x' = u + p, cost (u^2 + c p^2)/2, so u = c p
def _b(p):
    p.state('x', 'u + r', 'm').control('u', 'm/s').parameter('r', 'm/s')
    p.path_cost('(u**2 + c*r**2)/2', 'm**2/s**2')
    p.initial_constraint('x', 'm').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
    p.scale(m='x_f', s=1)


def _e(k):
    X, T, c = k['x_f'], k['t_f'], k['c']
    r = X / T / (1 + c)
    return T, T * (c * c + c) * r * r / 2, lambda t: np.array([X * t / T]), lambda t: np.array([c * r])


SHARE = Case('share', dict(x_f=(1.0, 'm'), t_f=(1.0, 's'), c=(2.0, '1')), _b, _e, [0.0], 1.0, ALL,
             targets=dict(x_f=2.0, c=0.5))
SHARE.params = lambda k: [k['x_f'] / k['t_f'] / (1 + k['c'])]


# --- the start is free but costs: x' = u, cost c x(0)^2/2 + u^2/2, x(T) = x_f
def _b(p):
    p.state('x', 'u', 'm').control('u', 'm/s')
    p.path_cost('u**2/2', 'm**2/s**2')
    p.initial_cost('c*x**2/2', 'm**2/s')
    p.initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
    p.scale(m='x_f', s='t_f')


def _e(k):
    X, T, c = k['x_f'], k['t_f'], k['c']
    u = c * X / (1 + c * T)
    return T, X ** 2 / 2 * c / (1 + c * T), lambda t: np.array([X - u * (T - t)]), lambda t: np.array([u])


HEAD = Case('head', dict(x_f=(1.0, 'm'), t_f=(1.0, 's'), c=(2.0, '1/s')), _b, _e, [0.4], 1.0, ALL,
            targets=dict(c=5.0, x_f=-1.0))


# --- explicit time: x' = u/(1 + t), cost (1 + t) u^2/2: u = a/(1 + t)^2
def _b(p):
    p.state('x', 'u/(1 + t)', 'm').control('u', 'm/s')
    p.path_cost('(1 + t)*u**2/2', 'm**2/s**2')
    p.initial_constraint('x - x_0', 'm').initial_constraint('t - t_0', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
    p.scale(m=1, s=1)


def _e(k):
    X, t0, T = k['x_f'] - k['x_0'], k['t_0'], k['t_f']

    def g(t):       # integral of (1 + t)^-3
        return ((1 + t0) ** -2 - (1 + t) ** -2) / 2
    a = X / g(T)
    return T, a * a * g(T) / 2, lambda t: np.array([k['x_0'] + a * g(t)]), lambda t: np.array([a / (1 + t) ** 2])


TIMED = Case('timed', dict(x_0=(0.2, 'm'), x_f=(1.0, 'm'), t_0=(0.0, 's'), t_f=(1.0, 's')), _b, _e, [0.2], 1.0, ALL,
             targets=dict(x_f=-1.0, t_0=0.5, t_f=1.5))


# --- pursuit of a moving target, free time: u = c + sqrt(c^2 + 2 w)
def _b(p):
    p.state('x', 'u', 'm').control('u', 'm/s')
    p.path_cost('w + u**2/2', 'm**2/s**2')
    p.initial_constraint('x', 'm').initial_constraint('t', 's')
    p.terminal_constraint('x - d - c*t', 'm')
    p.scale(m='d', s=1)


def _e(k):
    d, c, w = k['d'], k['c'], k['w']
    u = c + np.sqrt(c * c + 2 * w)
    T = d / (u - c)
    return T, (w + u * u / 2) * T, lambda t: np.array([u * t]), lambda t: np.array([u])


CHASE = Case('chase', dict(d=(1.0, 'm'), c=(0.3, 'm/s'), w=(0.5, 'm**2/s**2')), _b, _e, [0.0], 0.8, ALL, lam=-1.0, u0=[1.0],
             targets=dict(d=1.6, c=-0.3), free_time=True)


# --- the regulator again, written with quantities, a user function and a table
def _sq(a):
    return a * a


def _b(p):
    p.state('x', 'au', 'm').control('u', 'm/s').quantity('au', 'id(a)*u').quantity('half', 'sq(x)/2')
    p.custom_function('sq', _sq, 'm**2', ['m'])
    p.table('id', '1d_spline', np.array([-4., 0., 1., 4.]), np.array([-4., 0., 1., 4.]), '1', ['1'])
    p.path_cost('half + u**2/2', 'm**2/s')
    p.initial_constraint('x - x_0', 'm').initial_constraint('t', 's')
    p.terminal_constraint('t - t_f', 's')
    p.scale(m='x_0', s='t_f')


NAMED = Case('named', dict(x_0=(1.0, 'm'), t_f=(1.0, 's'), a=(1.0, '1')), _b, LQR.exact, [1.0], 1.0, ALL,
             targets=dict(x_0=2.0, a=1.5))


# --- rest to rest with bounds that are far away and barely weighed
def _b(p):
    p.state('x', 'v', 'm').state('v', 'u', 'm/s').control('u', 'm/s**2')
    p.path_cost('u**2/2', 'm**2/s**4')
    p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('v', 'm/s').terminal_constraint('t - t_f', 's')
    p.path_constraint('v', 'm/s', lower='-lim', upper='lim', activator='eps', method='utm')
    p.scale(m=1, s=1)


WIDE = Case('wide', dict(x_f=(1.0, 'm'), t_f=(1.0, 's'), lim=(9.0, 'm/s'), eps=(1e-6, 'm**2/s**4')), _b, DI.exact, [0.0, 0.0],
            1.0, [(m, 'differential') for m in ('traditional', 'diffyg')] + [('traditional', 'algebraic')],
            targets=dict(x_f=-1.5, t_f=1.6))


def _b(p):
    DI._build(p)
    p.path_constraint('u', 'm/s**2', lower='-lim', upper='lim', activator='eps', method='epstrig')


BOXED = Case('boxed', dict(x_f=(1.0, 'm'), t_f=(1.0, 's'), lim=(20.0, 'm/s**2'), eps=(1e-6, 'm**2/s**4')), _b, DI.exact,
             [0.0, 0.0], 1.0, [(m, 'differential') for m in ('traditional', 'diffyg')], targets=dict(x_f=-1.5, t_f=1.6))


# --- brachistochrone: a cycloid, parameter h from 0 to H: x = R(h - sin h), y = -R(1 - cos h), t = h sqrt(R/g)
def _b(p):
    p.state('x', 'v*cos(th)', 'm').state('y', 'v*sin(th)', 'm').state('v', 'g*sin(th)', 'm/s').control('th', 'rad')
    p.path_cost('1', '1')
    for e, un in (('x', 'm'), ('y', 'm'), ('v', 'm/s'), ('t', 's')):
        p.initial_constraint(e, un)
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('y - y_f', 'm')
    p.scale(m='y', s='y/v', rad=1)


def _e(k):
    from scipy.optimize import brentq
    X, Y, g = k['x_f'], -k['y_f'], -k['g']
    H = brentq(lambda h: (h - np.sin(h)) * Y - (1 - np.cos(h)) * X, 1e-3, 2 * np.pi - 1e-6)
    R = Y / (1 - np.cos(H))
    T = H * np.sqrt(R / g)

    def xx(t):
        h = t * np.sqrt(g / R)
        y = R * (1 - np.cos(h))
        return np.array([R * (h - np.sin(h)), -y, np.sqrt(2 * g * y)])
    return T, T, xx, None


BRACH = Case('brach', dict(g=(-9.81, 'm/s**2'), x_f=(0.0, 'm'), y_f=(0.0, 'm')), _b, _e, [0.0, 0.0, 0.0], 0.1,
             ALL, lam=-0.1, u0=[-np.pi / 2], targets=dict(x_f=1.5, y_f=-1.2), free_time=True)
BRACH.symmetric = ((['1', '0', '0'], 'm'), (['0', '1', '0'], 'm'))

CASES = {c.name: c for c in (DI, LQR, SOFT, STEER, FREE, PAIR, SYM, SHARE, HEAD, TIMED, CHASE, NAMED, WIDE, BOXED, BRACH)}
BASIC = ['di', 'lqr', 'soft', 'steer', 'free', 'pair', 'sym']
MORE = ['share', 'head', 'timed', 'chase', 'named', 'wide', 'boxed']
