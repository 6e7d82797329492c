"""C13: shooting with a pool of processes gives the serial answer, whatever the order the pool runs the arcs in."""
import copy
import itertools

import numpy as np

from vmc import bvps

RULE = ('One execution = one problem x number of arcs x algorithm x the order in which the pool executes the tasks of each '
        'parallel map (all permutations; the schedule repeats over the maps of a solve) x isolation of the tasks '
        '(shared memory or serialised like a process pool); the result is compared bit for bit with the serial run.')
ASSUMPTIONS = ['a pool runs every task once and returns the results in the order of the tasks; the tasks may run in any order '
               'and in any process', 'the schedule of the maps within one solve is periodic with period 1 or 2']


class Boom(Exception):
    pass


class Result:
    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    def get(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.error is None


class Pool:
    """A process pool under the control of the explorer."""

    def __init__(self, schedules, isolate, fail_at=None):
        self.schedules, self.isolate, self.fail_at = schedules, isolate, fail_at
        self.maps = 0
        self.tasks = 0

    def map(self, fn, items, chunksize=None):
        import dill
        items = list(items)
        order = list(self.schedules[self.maps % len(self.schedules)])
        if len(order) != len(items):
            order = list(range(len(items)))
        self.maps += 1
        if self.isolate:
            payload = [dill.dumps((fn, it)) for it in items]
        out = [None] * len(items)
        for i in order:
            if self.fail_at is not None and self.tasks == self.fail_at:
                raise Boom()
            self.tasks += 1
            if self.isolate:
                f, it = dill.loads(payload[i])
                out[i] = dill.loads(dill.dumps(f(it)))
            else:
                out[i] = fn(items[i])
        return out

    imap = map

    def imap_unordered(self, fn, items, chunksize=None):
        items = list(items)
        order = list(self.schedules[self.maps % len(self.schedules)])
        out = self.map(fn, items)
        return iter([out[i] for i in order] if len(order) == len(out) else out)      # results in the order they finish

    uimap = imap_unordered

    def starmap(self, fn, items, chunksize=None):
        return self.map(lambda a: fn(*a), items)

    def map_async(self, fn, items, chunksize=None, callback=None, error_callback=None):
        try:
            r = Result(self.map(fn, items))
        except Exception as e:
            if error_callback is not None:
                error_callback(e)
            return Result(error=e)
        if callback is not None:
            callback(r.value)
        return r

    amap = map_async

    def apply(self, fn, args=(), kwds=None):
        return self.map(lambda a: fn(*a, **(kwds or {})), [args])[0]

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        try:
            v = self.apply(fn, args, kwds)
        except Exception as e:
            if error_callback is not None:
                error_callback(e)
            return Result(error=e)
        if callback is not None:
            callback(v)
        return Result(v)

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass


FIELDS = ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def run(b, arcs, alg, pool, kind='uneven', iters=12):
    from beluga.numeric.bvp_solvers import Shooting
    s = Shooting(num_arcs=arcs, algorithm=alg, max_iterations=iters)
    bvps.install(s, b)
    g = b.guess(kind, (0.0, 1.0))
    keep = copy.deepcopy(g)
    r = s.solve(g, pool=pool)
    assert all(np.array_equal(getattr(g, f), getattr(keep, f)) for f in FIELDS), 'guess modified'
    return r


def compare(ctx, a, b, what):
    ctx.check(bool(a['success']) == bool(b['success']), what + ': verdicts differ', parallel=a['message'],
              serial=b['message'])
    for f in FIELDS:
        x, y = np.asarray(getattr(a['sol'], f)), np.asarray(getattr(b['sol'], f))
        ctx.check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), what + ': %s differs' % f, parallel=x,
                  serial=y)
    ctx.check(a['niter'] == b['niter'], what + ': number of iterations differs')


def schedules(ctx, P):
    b = bvps.ALL[ctx.choose('problem', P['problems'])]
    arcs = ctx.choose('arcs', P['arcs'])
    alg = ctx.choose('algorithm', P['algorithms'])
    kind = ctx.choose('guess', P['guesses'])
    serial = run(b, arcs, alg, None, kind)
    perms = list(itertools.permutations(range(arcs)))
    first = ctx.choose('order', perms)
    sched = [first]
    if arcs <= P['second']:
        sched.append(ctx.choose('order of every other map', perms))
    pool = Pool(sched, ctx.choose('isolated', P['isolate']))
    par = run(b, arcs, alg, pool, kind)
    ctx.check(pool.maps > 0, 'the pool was not used')
    compare(ctx, par, serial, 'pool')
    ctx.step(pool.tasks)
    ctx.state(b.name, arcs, alg, kind, sched, par['sol'].y[-1])


def faults(ctx, P):
    """A worker that fails at any task surfaces as an error (never as a wrong answer), and the next solve is right."""
    b = bvps.ALL[ctx.choose('problem', P['problems'])]
    arcs = ctx.choose('arcs', P['arcs'])
    serial = run(b, arcs, 'Armijo', None)
    probe = Pool([tuple(range(arcs))], False)
    run(b, arcs, 'Armijo', probe)
    at = ctx.choose('failing task', list(range(min(probe.tasks, P['tasks']))))
    from beluga.numeric.bvp_solvers import Shooting
    s = Shooting(num_arcs=arcs, algorithm='Armijo', max_iterations=12)
    bvps.install(s, b)
    g = b.guess('uneven', (0.0, 1.0))
    ctx.raises(Boom, lambda: s.solve(g, pool=Pool([tuple(range(arcs))], False, fail_at=at)),
               'a failing worker went unnoticed')
    r = s.solve(g, pool=Pool([tuple(reversed(range(arcs)))], False))
    compare(ctx, r, serial, 'after a failure')
    ctx.state(b.name, arcs, at)


def real(ctx, P):
    """The real process pool, with problems compiled from a user's program."""
    import pathos
    b = bvps.ALL[ctx.choose('problem', P['problems'])]
    arcs = ctx.choose('arcs', P['arcs'])
    n = ctx.choose('processes', P['procs'])
    serial = run(b, arcs, 'Armijo', None)
    pool = pathos.multiprocessing.Pool(processes=n)
    try:
        compare(ctx, run(b, arcs, 'Armijo', pool), serial, 'process pool')
    finally:
        pool.terminate()
        pool.join()
    ctx.state(b.name, arcs, n, serial['sol'].y[-1])


def compiled(ctx, P):
    """Functions compiled from a user's program in a pool, through the continuation driver."""
    from beluga.continuation import run_continuation_set, ContinuationList
    from beluga.numeric.bvp_solvers import Shooting
    from vmc import ocp
    import beluga
    opts = dict(ctx.choose('options', [(('method', 'traditional'),), (('method', 'diffyg'),)]))
    bvp = ocp.pipeline(ocp.double_integrator(), **opts)
    arcs = ctx.choose('arcs', P['arcs'])
    perm = ctx.choose('order', list(itertools.permutations(range(arcs))))
    iso = ctx.choose('isolated', P['isolate'])
    gg = beluga.guess_generator('auto', start=[0., 0.], costate_guess=-0.1, control_guess=[0.1], time_integrate=1.0)
    tr = ocp.make_traj([0., 1.], np.zeros((2, 0)), const=[c.default_val for c in bvp.constants])
    guess = gg.generate(bvp.functional_problem, tr, bvp.map_sol, bvp.inv_map_sol)

    def go(pool):
        steps = beluga.init_continuation()
        steps.add_step('manual').num_cases(2).const('x_f', 1.2)
        alg = Shooting(num_arcs=arcs, max_iterations=20)
        return run_continuation_set(alg, steps, copy.deepcopy(guess), bvp, pool, True)
    serial = go(None)
    par = go(Pool([perm], iso))
    ctx.check([len(x) for x in serial] == [len(x) for x in par], 'different number of solutions')
    for x, y in zip(serial, par):
        for s, p in zip(x, y):
            ctx.check(bool(s.converged) == bool(p.converged), 'verdicts differ')
            for f in FIELDS:
                ctx.check(np.array_equal(np.asarray(getattr(s, f)), np.asarray(getattr(p, f)), equal_nan=True),
                          'continuation with a pool: %s differs' % f)
    ctx.state(opts, arcs, perm, iso, serial[-1][-1].y[-1])


PR = ['oscillator', 'duration', 'quadrature', 'only-quad', 'multiplier', 'duffing', 'stuck']
HARNESSES = dict(
    schedules=dict(fn=schedules, timeout=100, rule='all execution orders of the arcs',
                   quick=dict(problems=PR, arcs=[1, 2, 3, 4], algorithms=['Armijo'], guesses=['uneven'], second=2,
                              isolate=[False]),
                   thorough=dict(problems=PR, arcs=[1, 2, 3, 4, 5], algorithms=['Armijo', 'hybr', 'SLSQP'],
                                 guesses=['uneven', 'five:far'], second=3, isolate=[False])),
    isolated=dict(fn=schedules, timeout=200, rule='tasks serialised as for a process pool',
                  quick=dict(problems=['duration', 'quadrature'], arcs=[2], algorithms=['Armijo'], guesses=['uneven'],
                             second=0, isolate=[True]),
                  thorough=dict(problems=PR, arcs=[2, 3, 4], algorithms=['Armijo', 'fsolve'], guesses=['uneven'],
                                second=2, isolate=[True])),
    faults=dict(fn=faults, timeout=100, rule='failing workers',
                quick=dict(problems=['oscillator', 'quadrature'], arcs=[2, 3], tasks=30),
                thorough=dict(problems=PR[:-1], arcs=[2, 3], tasks=1000)),
    compiled=dict(fn=compiled, timeout=200, rule='compiled programs under the continuation driver',
                  quick=dict(arcs=[2], isolate=[False]), thorough=dict(arcs=[1, 2, 3], isolate=[False, True])),
    real=dict(fn=real, timeout=60, procs=3, rule='real process pools',
              quick=dict(problems=['oscillator', 'quadrature'], arcs=[3], procs=[2]),
              thorough=dict(problems=PR, arcs=[2, 3], procs=[2, 3])),
)
