"""C18: what is saved is what is loaded; a save that fails costs nothing."""
import copy
import os
import tempfile

import numpy as np
import sympy as sp

from vmc import ocp

RULE = ('One execution = one history of saves and loads (subset of contents, file names, overwriting, failing saves) on a '
        'scratch directory; after every operation the directory is compared with a reference map file -> contents.')
ASSUMPTIONS = ['a failing save is one whose contents cannot be serialised']


class Unpicklable:
    def __reduce__(self):
        raise TypeError('cannot be serialised')


def traj(i):
    t = ocp.make_traj([0.0, 0.5, 1.0 + i], [[i, 1.0], [2.0, 3.0 + i], [4.0, 5.0]], q=[[0.1 * i], [0.2], [0.3]],
                      u=[[1.0], [2.0], [3.0 + i]], p=[0.5 * i], nd=[0.25, i], const=[1.0, 2.0, 3.0 + i],
                      dual=[[9.0, 8.0], [7.0, 6.0], [5.0, i]])
    t.dual_t = np.array([1.0, 2.0, 3.0]) * i
    t.converged = bool(i % 2)
    t.cost = 1.5 * i
    return t


FIELDS = ['t', 'y', 'q', 'u', 'dual', 'dual_t', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const',
          'converged', 'cost']


def same_traj(ctx, a, b, msg):
    for f in FIELDS:
        ctx.check(np.array_equal(np.asarray(getattr(a, f), dtype=float), np.asarray(getattr(b, f), dtype=float),
                                 equal_nan=True), msg + ': ' + f)
    # still a working trajectory
    ya, qa, ua = a(0.25)
    yb, qb, ub = b(0.25)
    ctx.check(np.array_equal(ya, yb) and np.array_equal(qa, qb) and np.array_equal(ua, ub), msg + ': interpolation')


def history(ctx, P):
    from beluga.utils import save, load
    n = P['depth']
    with tempfile.TemporaryDirectory(dir=os.environ.get('VMC_SCRATCH', '/tmp')) as d:
        cwd = os.getcwd()
        os.chdir(d)
        try:
            ref = {}
            for i in range(n):
                op = ctx.choose('op %d' % i, ['save', 'fail', 'stop'])
                if op == 'stop':
                    break
                name = ctx.choose('file', [None, 'other.dat'])
                what = ctx.choose('contents', P['what'])
                sols = [[traj(i), traj(i + 1)], [traj(i + 2)]]
                kw = {}
                if 's' in what:
                    kw['sol_set'] = sols
                if 'e' in what:      # nothing solved yet: empty is not absent
                    sols = [[]] if i % 2 else []
                    kw['sol_set'] = sols
                if 'o' in what:
                    kw['ocp'] = ('ocp', i)
                if 'b' in what:
                    kw['bvp'] = {'bvp': i}
                if '0' in what:
                    kw['ocp'], kw['bvp'] = (), {}
                if name:
                    kw['filename'] = name
                fn = name or 'data.beluga'
                if op == 'fail':
                    bad = ctx.choose('which cannot be serialised', P['bad'])
                    kw[bad] = [[traj(i), Unpicklable()]] if bad == 'sol_set' else Unpicklable()
                    ctx.raises(Exception, lambda: save(**kw), 'a save that cannot be serialised reported no error')
                else:
                    keep = copy.deepcopy(sols)
                    save(**kw)
                    ref[fn] = dict(kw, keep=keep)
                    for a, b in zip(sum(sols, []), sum(keep, [])):
                        same_traj(ctx, a, b, 'saving changed the solutions')
                    for a in sum(sols, []):       # what happens to the objects later does not concern the file
                        a.y[:] = -1.0
                        a.const[:] = -2.0
                ctx.check(sorted(f for f in os.listdir(d)) == sorted(ref), 'unexpected files after ' + op,
                          files=os.listdir(d), want=sorted(ref))
                for f, want in ref.items():
                    got = load(f)
                    keys = {'sol_set': 'solutions', 'ocp': 'ocp', 'bvp': 'bvp'}
                    ctx.check(sorted(got) == sorted(keys[k] for k in want if k in keys), 'wrong entries in ' + f,
                              got=sorted(got))
                    for k, kk in keys.items():
                        if k not in want:
                            continue
                        if k == 'sol_set':
                            ctx.check([len(x) for x in got[kk]] == [len(x) for x in want['keep']], 'solution lists differ')
                            for a, b in zip(sum(got[kk], []), sum(want['keep'], [])):
                                same_traj(ctx, a, b, 'loaded solution differs')
                        else:
                            ctx.check(got[kk] == want[k], 'loaded %s differs' % kk)
                ctx.state(sorted((f, sorted(w)) for f, w in ref.items()), op)
        finally:
            os.chdir(cwd)


def problems(ctx, P):
    """Real problems and compiled boundary-value problems survive the round trip and compute the same numbers."""
    import beluga
    from beluga.utils import save, load
    method = ctx.choose('method', ['traditional', 'diffyg'])
    control = ctx.choose('control', ['differential', 'algebraic'])
    extra = ctx.choose('feature', ['plain', 'quantity', 'function', 'switch', 'bounded'])
    p = ocp.double_integrator(extra=(('lo', -2, 'm'), ('hi', 3, 'm'), ('eps', 0.1, 'm**2/s**4'), ('e2', 0.3, '1')))
    if extra == 'quantity':
        p.quantity('w2', 'x**2 + v')
        p.path_cost('u**2/2 + w2**2', 'm**2/s**4')
    elif extra == 'function':
        p.custom_function('ff', _cube, 'm', ['m'])
        p.path_cost('u**2/2 + ff(x)', 'm**2/s**4')
    elif extra == 'switch':
        p.switch('sw', ['x', 'v'], [['x - 1'], ['1 - x']], 'e2')
        p.path_cost('u**2/2 + sw', 'm**2/s**4')
    elif extra == 'bounded':
        p.path_constraint('x', 'm', lower='lo', upper='hi', activator='eps', method='utm')
    bvp = ocp.pipeline(p, method=method, control_method=control)
    with tempfile.TemporaryDirectory(dir=os.environ.get('VMC_SCRATCH', '/tmp')) as d:
        fn = os.path.join(d, 'x.beluga')
        try:
            save(sol_set=[[traj(1)]], ocp=p, bvp=bvp, filename=fn)
        except Exception as e:
            from vmc.engine import Violation
            raise Violation('a solved problem cannot be saved: %s: %s' % (type(e).__name__, str(e)[:200]))
        got = load(fn)
    b2, p2 = got['bvp'], got['ocp']
    same_traj(ctx, got['solutions'][0][0], traj(1), 'solution')
    ctx.check([s.name for s in p2.states] == ['x', 'v'] and [str(s.eom) for s in p2.states] == [str(s.eom) for s in p.states],
              'problem states differ')
    ctx.check([c.default_val for c in p2.constants] == [c.default_val for c in p.constants], 'constants differ')
    ctx.check([s.name for s in b2.states] == [s.name for s in bvp.states], 'solver states differ')
    f, g = bvp.functional_problem, b2.functional_problem
    k = np.array([c.default_val for c in bvp.constants])
    ny = len(bvp.states)
    y0, y1 = 0.3 + 0.1 * np.arange(ny), 0.7 - 0.05 * np.arange(ny)
    par = 1.0 + 0.5 * np.arange(len(bvp.parameters))
    nu = 0.1 * np.arange(len(bvp.constraint_parameters))
    ctx.close(g.deriv_func(y0, par, k), f.deriv_func(y0, par, k), 'loaded equations of motion differ')
    ctx.close(g.bc_func(y0, y1, par, nu, k), f.bc_func(y0, y1, par, nu, k), 'loaded boundary conditions differ')
    tr = ocp.make_traj([0, 1.0], [y0[:2], y1[:2]], q=np.zeros((2, 0)), u=[[0.1], [0.2]], const=k, dual=[[1, 2], [3, 4.]])
    a, b = bvp.map_sol(copy.deepcopy(tr)), b2.map_sol(copy.deepcopy(tr))
    ctx.close(b.y, a.y, 'the loaded map differs')
    # and the loaded problem can be derived again
    b3 = ocp.pipeline(p2, method=method, control_method=control)
    ctx.close(b3.functional_problem.deriv_func(y0, par, k), f.deriv_func(y0, par, k), 'the loaded problem derives differently')
    ctx.state(method, control, extra, np.asarray(f.deriv_func(y0, par, k)))


def _cube(a):
    return a ** 3


HARNESSES = {
    'history': dict(fn=history, quick=dict(depth=3, what=['s', 'sob', 'eo', '0'], bad=['bvp']),
                    thorough=dict(depth=4, what=['s', 'sob', 'eo', '0', '', 'o'], bad=['bvp', 'sol_set', 'ocp']),
                    rule='all save/fail histories'),
    'failures': dict(fn=history, quick=dict(depth=2, what=['s', 'sob', 'eo', 'b', ''], bad=['bvp', 'sol_set', 'ocp']),
                     rule='failures in every slot'),
    'problems': dict(fn=problems, quick={}, thorough={}, rule='real problems'),
    'problems_jit': dict(fn=problems, quick={}, thorough={}, jit=True, thorough_only=True, rule='real problems, compiled'),
}
