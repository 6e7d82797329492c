"""Shared driver for the continuation properties: the real continuation code closed with a scripted BVP solver."""
import copy

import numpy as np

from vmc import ocp


class Stop(Exception):
    pass


def make_mock(answer):
    """A BVP algorithm whose verdicts (converged or not) are given by the environment ``answer(guess)``.

    The returned solution carries a serial number so that every later use of it can be recognised; guesses and results
    are scribbled over afterwards, as a solver working in place is entitled to do."""
    from beluga.numeric.bvp_solvers import BaseAlgorithm, BVPResult

    class Mock(BaseAlgorithm):
        def __init__(self):
            BaseAlgorithm.__init__(self)
            self.calls = []     # (copy of guess, copy of result)
            self._last = []
            self.pools = []

        def solve(self, solinit, pool=None, **kw):
            for tr in self._last:   # the solver may reuse its buffers
                tr.y[...] = -7e7
                tr.t[...] = -7e7
                tr.const[...] = -7e7
            self.pools.append(pool)
            seen = copy.deepcopy(solinit)
            ok = answer(seen)
            sol = copy.deepcopy(solinit)
            serial = len(self.calls) + 1
            sol.y = np.ones((3, sol.y.shape[1])) * (1000.0 + serial)
            sol.t = np.linspace(0., 1., 3)
            sol.u = np.zeros((3, 0))
            sol.dual = np.zeros_like(sol.y)
            sol.q = np.zeros((3, 0))
            sol.dynamical_parameters = np.full_like(np.asarray(sol.dynamical_parameters, dtype=float), 10.0 + serial)
            sol.nondynamical_parameters = np.full_like(np.asarray(sol.nondynamical_parameters, dtype=float),
                                                       20.0 + serial)
            sol.converged = ok
            self.calls.append((seen, copy.deepcopy(sol)))
            self._last = [solinit, sol]
            return BVPResult(sol=sol, success=ok, message='scripted', niter=1)

    return Mock()


def start_guess(bvp, const=None):
    n = len(bvp.states)
    k = np.array([c.default_val for c in bvp.constants]) if const is None else np.array(const, dtype=float)
    return ocp.make_traj([0., 1.], np.ones((2, n)) * 1000.0, q=np.zeros((2, 0)), u=np.zeros((2, 0)),
                         p=np.ones(len(bvp.parameters)) * 10.0, nd=np.ones(len(bvp.constraint_parameters)) * 20.0,
                         const=k, dual=np.zeros((2, n)))


def names(bvp):
    return [c.name for c in bvp.constants]


def same_traj(a, b):
    return all(np.array_equal(np.asarray(getattr(a, f)), np.asarray(getattr(b, f)))
               for f in ('t', 'y', 'dynamical_parameters', 'nondynamical_parameters', 'const')) \
        and bool(a.converged) == bool(b.converged)


# ---------------------------------------------------------------- reference models of the strategies

def lin(a, b, n):
    return [a + (b - a) * k / (n - 1) for k in range(n)] if n > 1 else [a]


def log(a, b, n):
    return [10 ** v for v in lin(np.log10(a), np.log10(b), n)]


class Abort(Exception):
    pass


class ManualModel:
    tolerant = False

    def __init__(self, start, spec):
        sp = log if spec.get('spacing') == 'log' else lin
        cols = [sp(s, t, spec['n']) for s, t in zip(start, spec['targets'])]
        self.todo = [list(v) for v in zip(*cols)]

    def next(self):
        return self.todo.pop(0) if self.todo else None

    def answer(self, ok):
        if not ok:
            raise Abort('manual: case failed')


class BisectionModel:
    def __init__(self, start, spec):
        self.sp = log if spec.get('spacing') == 'log' else lin
        cols = [self.sp(s, t, spec['n']) for s, t in zip(start, spec['targets'])]
        self.todo = [list(v) for v in zip(*cols)]
        self.last_ok = None
        self.div = spec['div']
        self.maxdiv = spec['maxdiv']
        self.row = 0
        self.cur = None

    def next(self):
        if not self.todo:
            return None
        self.cur = self.todo.pop(0)
        return self.cur

    def answer(self, ok):
        if ok:
            self.last_ok, self.row = self.cur, 0
            return
        if self.last_ok is None:
            raise Abort('first case failed')
        if self.row > self.maxdiv:
            raise Abort('too many divisions')
        self.row += 1
        cols = [self.sp(a, b, self.div + 1) for a, b in zip(self.last_ok, self.cur)]
        self.todo = [list(v) for v in zip(*cols)][1:] + self.todo


class ListModel:
    """Product-type strategies: a fixed list of points; only the first one has to converge."""

    def __init__(self, points):
        self.todo = [list(p) for p in points]
        self.first = True

    def next(self):
        return self.todo.pop(0) if self.todo else None

    def answer(self, ok):
        if self.first and not ok:
            raise Abort('first case failed')
        self.first = False


def product_points(start, spec):
    pts = [[]]
    for s, t in zip(start, spec['targets']):
        pts = [p + [v] for p in pts for v in lin(s, t, spec['n'])]
    return pts


def sparse_points(start, spec):
    """Lattice lines: along variable 0 from the start, then along variable 1 from every major point so far, ..."""
    major = [list(start)]
    out = [list(start)]
    for i, (t, nmaj, nmin) in enumerate(zip(spec['targets'], spec['major'], spec['minor'])):
        vals = lin(start[i], t, nmaj)
        new = []
        for p in major:
            for a, b in zip(vals[:-1], vals[1:]):
                for k in range(1, nmin + 2):
                    q = list(p)
                    q[i] = a + (b - a) * k / (nmin + 1)
                    out.append(q)
                q = list(p)
                q[i] = b
                new.append(q)
        major = major + new
    return out


def model_for(start, spec):
    k = spec['kind']
    if k == 'manual':
        return ManualModel(start, spec)
    if k == 'bisection':
        return BisectionModel(start, spec)
    if k == 'productspace':
        return ListModel(product_points(start, spec))
    return ListModel(sparse_points(start, spec))


def configure(steps, spec):
    """Create the real strategy through the public interface."""
    k = spec['kind']
    if k == 'manual':
        s = steps.add_step('manual').num_cases(spec['n'], spacing=spec.get('spacing', 'linear'))
    elif k == 'bisection':
        s = steps.add_step('bisection', max_divisions=spec['maxdiv'], num_divisions=spec['div']) \
            .num_cases(spec['n'], spacing=spec.get('spacing', 'linear'))
    elif k == 'productspace':
        s = steps.add_step('productspace').num_subdivisions(spec['n'])
    else:
        s = steps.add_step('sparse_product', num_subdivisions=(tuple(spec['major']), tuple(spec['minor'])))
    for nm, t in zip(spec['vars'], spec['targets']):
        s.const(nm, t)
    return s


def choose_spec(ctx, P, tag, allow_repeat=True):
    kind = ctx.choose(tag + '.kind', P['kinds'])
    nv = ctx.choose(tag + '.nvars', P['nvars'])
    vars_ = ctx.choose(tag + '.vars', P['varsets'][nv])
    spec = dict(kind=kind, vars=vars_)
    if kind == 'manual':
        spec['n'] = ctx.choose(tag + '.cases', P['cases'])
        spec['spacing'] = ctx.choose(tag + '.spacing', ['linear', 'log'])
    elif kind == 'bisection':
        spec['n'] = ctx.choose(tag + '.cases', P['cases'])
        spec['spacing'] = ctx.choose(tag + '.spacing', ['linear', 'log'])
        spec['div'] = ctx.choose(tag + '.divisions', P['divs'])
        spec['maxdiv'] = ctx.choose(tag + '.max_divisions', P['maxdivs'])
    elif kind == 'productspace':
        spec['n'] = ctx.choose(tag + '.subdivisions', P['subs'])
    else:
        spec['major'] = [ctx.choose(tag + '.major%d' % i, P['majors']) for i in range(nv)]
        spec['minor'] = [ctx.choose(tag + '.minor%d' % i, P['minors']) for i in range(nv)]
    tg = P['targets'][nv]
    if spec.get('spacing') == 'log':
        tg = [t for t in tg if min(t) > 0]
    spec['targets'] = ctx.choose(tag + '.targets', tg)
    return spec
