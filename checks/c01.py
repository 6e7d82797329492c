"""C01: every continuation strategy visits the advertised cases, for every convergence history of the solver."""
import copy

import numpy as np

from vmc import cont, ocp
from vmc.engine import Violation

RULE = ('One execution = one complete continuation run of the real driver; a branch at every solver call (converged / '
        'failed, failures bounded), at every strategy option and at every re-run of the same steps.')
ASSUMPTIONS = ['the BVP solver is replaced by a scripted environment that answers converged/failed',
               'at most F failures per run, at most 2 chained steps, at most 2 continued constants (F in the evidence)']


class LockStep:
    """Runs the reference models next to the real strategies."""

    def __init__(self, ctx, bvp, specs, start, maxfail):
        self.ctx, self.nm, self.specs = ctx, cont.names(bvp), specs
        self.const = np.array(start, dtype=float)
        self.i, self.model, self.abort = -1, None, None
        self.fails, self.maxfail = 0, maxfail
        self.counts = []
        self.done = False

    def expect(self):
        """Constants the next solver call must see, or None when everything has been visited."""
        if self.abort:
            return None
        while True:
            if self.model is not None:
                v = self.model.next()
                if v is not None:
                    for nm, x in zip(self.specs[self.i]['vars'], v):
                        self.const[self.nm.index(nm)] = x
                    return self.const
            self.i += 1
            if self.i >= len(self.specs):
                self.done = True
                return None
            sp = self.specs[self.i]
            self.counts.append(0)
            self.model = cont.model_for([self.const[self.nm.index(n)] for n in sp['vars']], sp)

    def answer(self, guess):
        want = self.expect()
        if want is None:
            raise Violation('the solver was called again after the strategy %s'
                            % ('must have given up' if self.abort else 'had visited every case'),
                            detail={'const': repr(guess.const)})
        self.ctx.close(guess.const, want, 'a continuation case has the wrong constants', rtol=1e-9, atol=1e-12,
                       spec=self.specs[self.i], case=self.counts[-1])
        self.counts[-1] += 1
        ok = True
        if self.fails < self.maxfail:
            ok = self.ctx.choose('solver', [True, False])
        if not ok:
            self.fails += 1
        self.ctx.state(self.specs[self.i], want, ok, self.fails)
        try:
            self.model.answer(ok)
        except cont.Abort as e:
            self.abort = str(e)
        return ok


def one_run(ctx, bvp, steps, specs, const, maxfail, autoscale=False):
    from beluga.continuation import run_continuation_set
    ls = LockStep(ctx, bvp, specs, const, maxfail)
    alg = cont.make_mock(ls.answer)
    guess = cont.start_guess(bvp, const)
    try:
        out = run_continuation_set(alg, steps, guess, bvp, None, autoscale)
        raised = None
    except RuntimeError as e:
        raised = e
    if ls.abort is None:
        ctx.check(raised is None, 'the run was aborted although no strategy had to give up', raised=raised)
        ctx.check(ls.expect() is None, 'the run stopped before the target was reached', last=ls.const,
                  visited=ls.counts)
        ctx.check([len(s) for s in out] == ls.counts, 'wrong number of solutions recorded per step',
                  got=[len(s) for s in out], want=ls.counts)
        for sp, sols in zip(specs, out):
            nm = cont.names(bvp)
            ctx.close([sols[-1].const[nm.index(v)] for v in sp['vars']], sp['targets'],
                      'the last case of a step is not the target', rtol=1e-9, atol=1e-12)
    else:
        ctx.check(raised is not None, 'the strategy must give up (%s) but the run went on' % ls.abort)
    ctx.state('end', ls.abort or 'target', len(alg.calls))
    return ls


def single(ctx, P):
    import beluga
    bvp = ocp.cont_bvp()
    spec = cont.choose_spec(ctx, P, 's')
    steps = beluga.init_continuation()
    cont.configure(steps, spec)
    one_run(ctx, bvp, steps, [spec], [c.default_val for c in bvp.constants], P['F'])


def chain(ctx, P):
    import beluga
    bvp = ocp.cont_bvp()
    specs = [cont.choose_spec(ctx, P, 's1'), cont.choose_spec(ctx, P, 's2')]
    steps = beluga.init_continuation()
    for s in specs:
        cont.configure(steps, s)
    one_run(ctx, bvp, steps, specs, [c.default_val for c in bvp.constants], P['F'])


def rerun(ctx, P):
    """The same list of steps is used again: it must behave exactly like a fresh one, whatever happened before."""
    import beluga
    bvp = ocp.cont_bvp()
    spec = cont.choose_spec(ctx, P, 's')
    steps = beluga.init_continuation()
    cont.configure(steps, spec)
    base = np.array([c.default_val for c in bvp.constants])
    one_run(ctx, bvp, steps, [spec], base, P['F'])
    for k in range(P['reruns']):
        const = base * ctx.choose('start of run %d' % (k + 2), [1.0, 1.5])
        one_run(ctx, bvp, steps, [spec], const, P['F'])


def options(ctx, P):
    """Rejections: unknown strategy names and unknown constants are errors, and nothing is added by them."""
    import beluga
    from beluga.continuation import run_continuation_set
    bvp = ocp.cont_bvp()
    steps = beluga.init_continuation()
    kind = ctx.choose('kind', ['manual', 'bisection', 'productspace', 'sparse_product', 'nonsense', 'Manual ', ''])
    if kind not in ('manual', 'bisection', 'productspace', 'sparse_product'):
        ctx.raises(ValueError, lambda: steps.add_step(kind), 'unknown strategy accepted')
        ctx.check(len(steps) == 0, 'a rejected strategy was added')
        ctx.state(kind, 'rejected')
        return
    good = ctx.choose('constant', ['a', 'no_such_constant'])
    spec = dict(kind=kind, vars=[good], targets=[4.0], n=2, div=2, maxdiv=2, major=[2], minor=[1])
    cont.configure(steps, spec)
    alg = cont.make_mock(lambda g: True)
    guess = cont.start_guess(bvp)
    if good == 'a':
        run_continuation_set(alg, steps, guess, bvp, None, False)
        ctx.check(len(alg.calls) >= 2, 'no case was solved')
    else:
        ctx.raises(ValueError, lambda: run_continuation_set(alg, steps, guess, bvp, None, False),
                   'a constant that does not exist was accepted as continuation variable')
        ctx.check(len(alg.calls) == 0, 'the solver ran although the continuation variable does not exist')
    ctx.state(kind, good, len(alg.calls))


_T1 = [[4.0], [0.5], [2.0], [-1.0]]
_T2 = [[4.0, 1.0], [2.0, 0.25], [-3.0, 3.0]]
_V = {1: [['a'], ['b']], 2: [['a', 'b'], ['b', 'c']]}
FULL = dict(kinds=['manual', 'bisection', 'productspace', 'sparse_product'], nvars=[1, 2], varsets=_V,
            targets={1: _T1, 2: _T2}, cases=[2, 3], divs=[2, 3], maxdivs=[0, 1, 2], subs=[2, 3], majors=[2, 3],
            minors=[0, 1], F=3)
FULLQ = dict(FULL, varsets={1: [['b']], 2: [['a', 'c']]}, targets={1: [[4.0], [0.5], [-1.0]], 2: [[4.0, 1.0]]})
SMALL = dict(kinds=['manual', 'bisection', 'productspace', 'sparse_product'], nvars=[1], varsets={1: [['a'], ['b']]},
             targets={1: [[4.0]]}, cases=[2], divs=[2], maxdivs=[1], subs=[2], majors=[2], minors=[1], F=2)
RER = dict(kinds=['manual', 'bisection', 'productspace', 'sparse_product'], nvars=[1, 2],
           varsets={1: [['a']], 2: [['b', 'a']]}, targets={1: [[4.0]], 2: [[4.0, 0.5]]}, cases=[2, 3], divs=[2],
           maxdivs=[1], subs=[2, 3], majors=[2], minors=[1], F=1, reruns=1)

THREE = dict(kinds=['manual', 'bisection', 'productspace', 'sparse_product'], nvars=[3], varsets={3: [['a', 'b', 'c'], ['c', 'a', 'b']]},
             targets={3: [[4.0, 0.5, -1.0]]}, cases=[3], divs=[2], maxdivs=[1], subs=[2, 3], majors=[2, 3], minors=[0, 1], F=1)

HARNESSES = {
    'three': dict(fn=single, quick=dict(THREE, F=0), thorough=THREE, rule='one step over three constants'),
    'single': dict(fn=single, quick=FULLQ, thorough=dict(FULL, F=5, cases=[2, 3, 4]), rule='one step, all options'),
    'chain': dict(fn=chain, quick=SMALL, thorough=dict(SMALL, cases=[2, 3], divs=[2, 3], F=3), rule='two steps'),
    'rerun': dict(fn=rerun, quick=RER, thorough=dict(RER, F=2, reruns=2), rule='same steps used again'),
    'options': dict(fn=options, quick={}, rule='rejections'),
}
