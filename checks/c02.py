"""C02: the continuation driver warm-starts, records and chains correctly for every convergence history."""
import copy

import numpy as np

from vmc import cont, ocp
from vmc.engine import Violation

RULE = ('One execution = one continuation run of the real driver with a scripted solver that tags every solution and '
        'scribbles over the buffers it was given; branches at every solver verdict and every option.')
ASSUMPTIONS = ['scripted solver; distances between cases are compared in the 1-norm of the constants',
               'when several converged solutions are equally close any of them is accepted']

UNITS = {'x': 'm', 'v': 'm/s'}


def factors(bvp, traj):
    """Reference scale factors of the fixed problem used here (m = |x_f|, s = |t_f|): by variable name."""
    nm = cont.names(bvp)
    m, s = abs(traj.const[nm.index('x_f')]), abs(traj.const[nm.index('t_f')])
    c = m ** 2 / s ** 3
    dim = {'x': m, 'v': m / s, 'u': m / s ** 2, 't': s, 'x_f': m, 'v_f': m / s, 't_f': s, 'a': m, 'b': 1.0, 'c': s}
    st = []
    for y in bvp.states:
        n = y.name
        st.append(c / dim[n[5:]] if n.startswith('_lam_') else dim[n])
    par = [s for _ in bvp.parameters]
    # adjoints of (x, v, t) at the start, then (x, v, t) at the end
    nu = [c / m, c / (m / s), c / s] * 2
    return np.array(st), np.array(par), np.array(nu), np.array([dim[n] for n in nm])


def drive(ctx, P, specs, autoscale, const0):
    import beluga
    from beluga.continuation import run_continuation_set
    bvp = ocp.cont_bvp()
    steps = None
    if specs is not None:
        steps = beluga.init_continuation()
        for s in specs:
            cont.configure(steps, s)
    guess0 = cont.start_guess(bvp, const0)
    keep = copy.deepcopy(guess0)
    st = dict(history=[], fails=0, origin=copy.deepcopy(guess0), pend=None, expect_step=0, lens=[0])
    nsteps = 1 if specs is None else len(specs)
    sets = [[] for _ in range(nsteps)]     # reference record, unscaled
    cur = dict(i=0, origin=copy.deepcopy(guess0), fails=0, models=None)

    nm = cont.names(bvp)

    def begin(i):
        sp = specs[i]
        cur['model'] = cont.model_for([cur['origin'].const[nm.index(n)] for n in sp['vars']], sp)

    if specs is not None:
        begin(0)

    def answer(seen):
        # which step does this call belong to?
        if specs is not None:
            v = cur['model'].next()
            while v is None:
                if cur['i'] + 1 >= nsteps:
                    raise Violation('more solver calls than cases')
                # chaining: the next step starts from the last solution of this one
                if sets[cur['i']]:
                    cur['origin'] = sets[cur['i']][-1]
                cur['i'] += 1
                begin(cur['i'])
                v = cur['model'].next()
            k = np.array((sets[cur['i']][-1] if sets[cur['i']] else cur['origin']).const)
            for n, x in zip(specs[cur['i']]['vars'], v):
                k[nm.index(n)] = x
        else:
            k = np.array(cur['origin'].const)
        # candidates for the warm start
        conv = [s for s in sets[cur['i']] if s.converged]
        if conv:
            d = [np.sum(np.abs(s.const - k)) for s in conv]
            cand = [s for s, di in zip(conv, d) if di <= min(d) * (1 + 1e-9) + 1e-12]
        else:
            cand = [cur['origin']]
        plain = copy.deepcopy(seen)
        ref = copy.deepcopy(cand[0])
        ref.const = k
        if autoscale:
            fy, fp, fn, fk = factors(bvp, ref)
            plain.y, plain.dynamical_parameters = plain.y * fy, plain.dynamical_parameters * fp
            plain.nondynamical_parameters, plain.const = plain.nondynamical_parameters * fn, plain.const * fk
        ctx.close(plain.const, k, 'the guess carries the wrong constants', rtol=1e-9)
        ok = any(np.allclose(plain.y, s.y, rtol=1e-9) if plain.y.shape == s.y.shape else False for s in cand)
        ctx.check(ok, 'the warm start is not the closest converged solution (or the chained start)',
                  got=plain.y[0], want=[s.y[0] for s in cand], case=len(sets[cur['i']]), step=cur['i'])
        hit = [s for s in cand if plain.y.shape == s.y.shape and np.allclose(plain.y, s.y, rtol=1e-9)][0]
        ctx.close(plain.dynamical_parameters, hit.dynamical_parameters, 'warm start with foreign parameters')
        ctx.close(plain.nondynamical_parameters, hit.nondynamical_parameters, 'warm start with foreign multipliers')
        good = True
        if cur['fails'] < P['F']:
            good = ctx.choose('solver', [True, False])
        cur['fails'] += not good
        # reference record of what this call returns (the scripted solver's tags, unscaled)
        serial = 1 + sum(len(s) for s in sets)
        rec = cont.start_guess(bvp, k)
        rec.y = np.ones((3, rec.y.shape[1])) * (1000.0 + serial)
        rec.t = np.linspace(0., 1., 3)
        rec.dynamical_parameters = np.full_like(rec.dynamical_parameters, 10.0 + serial)
        rec.nondynamical_parameters = np.full_like(rec.nondynamical_parameters, 20.0 + serial)
        if autoscale:
            rec.y, rec.dynamical_parameters = rec.y * fy, rec.dynamical_parameters * fp
            rec.nondynamical_parameters = rec.nondynamical_parameters * fn
        rec.converged = good
        sets[cur['i']].append(rec)
        ctx.state(cur['i'], k, good, hit.y[0, 0], autoscale)
        if specs is not None:
            try:
                cur['model'].answer(good)
            except cont.Abort:
                cur['abort'] = True
        return np.bool_(good) if numpy_verdict else good

    numpy_verdict = ctx.choose('verdict is', ['bool', 'numpy.bool_']) != 'bool'
    alg = cont.make_mock(answer)
    pool = object() if ctx.choose('pool', P['pools']) else None
    try:
        out = run_continuation_set(alg, steps, guess0, bvp, pool, autoscale)
    except RuntimeError as e:
        ctx.check(cur.get('abort'), 'run aborted without reason', raised=e)
        ctx.state('abort', len(alg.calls))
        return
    ctx.check(not cur.get('abort'), 'the run went on although the strategy had to give up')
    ctx.check(all(p is pool for p in alg.pools), 'the processing pool was not handed to the solver')
    ctx.check(cont.same_traj(guess0, keep), 'the caller\'s initial guess was modified', got=guess0.const)
    ctx.check(len(out) == nsteps, 'one list of solutions per step expected', got=len(out))
    for i, (got, want) in enumerate(zip(out, sets)):
        ctx.check(len(got) == len(want), 'a solution is missing from the record', step=i, got=len(got), want=len(want))
        for j, (g, w) in enumerate(zip(got, want)):
            ctx.close(g.const, w.const, 'recorded solution has wrong constants', rtol=1e-9, step=i, case=j)
            ctx.close(g.y, w.y, 'recorded solution is not the one the solver returned for this case', rtol=1e-9,
                      step=i, case=j)
            ctx.close(g.t, w.t, 'recorded times differ', rtol=1e-9)
            ctx.close(g.dynamical_parameters, w.dynamical_parameters, 'recorded parameters differ', rtol=1e-9)
            ctx.close(g.nondynamical_parameters, w.nondynamical_parameters, 'recorded multipliers differ', rtol=1e-9)
            ctx.check(bool(g.converged) == bool(w.converged), 'convergence flag lost', step=i, case=j)
    arrs = [id(s.y) for o in out for s in o] + [id(s.const) for o in out for s in o]
    ctx.check(len(set(arrs)) == len(arrs), 'recorded solutions share their data')
    ctx.state('end', [len(s) for s in out], [[bool(x.converged) for x in s] for s in out])


CONSTS = [None, [2.0, 0.5, 4.0, 3.0, 3.0, 0.5]]


def single(ctx, P):
    spec = cont.choose_spec(ctx, P, 's')
    drive(ctx, P, [spec], ctx.choose('autoscale', [False, True]), ctx.choose('start', CONSTS))


def chain(ctx, P):
    specs = [cont.choose_spec(ctx, P, 's%d' % i) for i in range(ctx.choose('steps', P['nsteps']))]
    drive(ctx, P, specs, ctx.choose('autoscale', [False, True]), None)


def nosteps(ctx, P):
    drive(ctx, P, None, ctx.choose('autoscale', [False, True]), ctx.choose('start', CONSTS))


K4 = ['manual', 'bisection', 'productspace', 'sparse_product']
BASE = dict(kinds=K4, nvars=[1, 2], varsets={1: [['b'], ['x_f'], ['t_f']], 2: [['a', 't_f']]},
            targets={1: [[4.0], [0.5]], 2: [[4.0, 2.5]]}, cases=[2, 3], divs=[2], maxdivs=[1], subs=[2, 3], majors=[2],
            minors=[1], F=2, pools=[False])
CH = dict(BASE, nvars=[1], varsets={1: [['b'], ['t_f']]}, targets={1: [[4.0]]}, cases=[2], subs=[2], nsteps=[2], F=1)

HARNESSES = {
    'single': dict(fn=single, quick=dict(BASE, F=2), thorough=dict(BASE, F=4, divs=[2, 3], maxdivs=[0, 1, 2],
                                                                  pools=[False, True])),
    'chain': dict(fn=chain, quick=CH, thorough=dict(CH, F=2, nsteps=[2, 3], varsets={1: [['b'], ['t_f'], ['x_f']]})),
    'nosteps': dict(fn=nosteps, quick=dict(F=1, pools=[False, True])),
}
