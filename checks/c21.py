"""C21: solving is a function of its inputs."""
import copy
import os
import shutil
import tempfile

import numpy as np

from checks.c19 import view
from vmc import analytic, ocp

RULE = ('One execution = one history of solve() calls over a pool of problems, continuation plans, guess generators and '
        'solvers that are shared between the calls; every call must return what it returns as the first call of a fresh '
        'history, and leave every input as it was.')
ASSUMPTIONS = ['solves are compared to 1e-9 (they are deterministic)', 'problems with closed-form optima']

FIELDS = ('t', 'y', 'dual', 'u', 'q', 'dynamical_parameters', 'const')
_ref = {}


class Pool:
    """The objects a user would keep in a session."""
    def __init__(self, share):
        self.share = share
        self.made = {}

    def get(self, key, make):
        if not self.share:
            return make()
        if key not in self.made:
            self.made[key] = make()
        return self.made[key]


def plan(case, how):
    import beluga
    if how == 'none':
        return None
    s = beluga.init_continuation()
    st = s.add_step('manual' if how != 'bisection' else how).num_cases(3)
    for k, v in case.targets.items():
        st.const(k, v)
    if how == 'two':
        st = s.add_step('bisection').num_cases(3)
        for k, (v, _) in case.consts.items():
            if k in case.targets:
                st.const(k, v)
    return s


def options(o):
    return dict(control_method=o)


def algorithm(a):
    import beluga
    return beluga.bvp_algorithm('spbvp') if a == 'spbvp' else beluga.bvp_algorithm('Shooting', num_arcs=2)


def run(pool, call):
    import beluga
    name, control, how, alg, auto, route, method, helper = call + ('indirect', False)[len(call) - 6:]
    case = analytic.CASES[name]
    prob = pool.get(('p', name), case.problem)
    steps = pool.get(('s', name, how), lambda: plan(case, how))
    gen = pool.get(('g', name), case.guess)
    sol = pool.get(('a', alg), lambda: algorithm(alg))
    opts = pool.get(('o', control), lambda: options(control))
    before = (raw(prob), copy.deepcopy(opts))
    kw = dict(ocp=prob, bvp_algorithm=sol, steps=steps, guess_generator=gen, autoscale=auto, save_sols=False)
    if helper:
        kw['initial_helper'] = True
    if route == 'explicit':
        bvp = pool.get(('b', name, control, method), lambda: ocp.pipeline(case.problem(), control_method=control, method='traditional' if method == 'indirect' else method))
        kw.update(bvp=bvp, ocp_map=bvp.map_sol, ocp_map_inverse=bvp.inv_map_sol)
    else:
        kw.update(method=method, optim_options=opts)
    out = beluga.solve(**kw)
    after = (raw(prob), opts)
    return out, before, after, prob


def raw(p):
    def v(x):
        return [(type(s).__name__,) + tuple(sorted((k, str(val)) for k, val in vars(s).items()
                                                            if k != 'local_compiler' and not k.startswith('_')))
                for s in x]
    return [v(getattr(p, f, [])) for f in ('states', 'controls', 'constants', 'parameters', 'quantities', 'switches', 'symmetries',
                                       'units')] + \
        [v(p.constraints[k]) for k in ('initial', 'path', 'terminal')] + \
        [str(p.cost.path), str(p.cost.initial), str(p.cost.terminal), getattr(p, 'sympified', None), len(getattr(p, 'sol_map_chain', []))]


def same(ctx, a, b, what):
    ctx.check([len(x) for x in a] == [len(x) for x in b], what + ': different number of solutions', got=[len(x) for x in a],
              want=[len(x) for x in b])
    for i, (x, y) in enumerate(zip(a, b)):
        for j, (s, r) in enumerate(zip(x, y)):
            ctx.check(bool(s.converged) == bool(r.converged), what + ': different verdict')
            for f in FIELDS:
                ctx.close(getattr(s, f), getattr(r, f), what + ': different ' + f, rtol=1e-9, atol=1e-9, where=(i, j))
            ctx.close(s.cost, r.cost, what + ': different cost', rtol=1e-9)


def history(ctx, P):
    pool = Pool(True)
    kept = []
    for i in range(P['depth']):
        call = tuple(ctx.choose('%s %d' % (w, i), P[w]) for w in ('problem', 'control', 'plan', 'solver', 'autoscale', 'route') + (('method', 'helper') if 'helper' in P else ()))
        if call not in _ref:
            _ref[call] = run(Pool(False), call)[0]
        out, before, after, prob = run(pool, call)
        ctx.check(before == after, 'solve() modified one of its inputs', before=before, after=after)
        same(ctx, out, _ref[call], 'call %d' % i)
        kept.append((call, out))
        for c, o in kept:
            same(ctx, o, _ref[c], 'an earlier result after call %d' % i)
        ctx.state([c for c, _ in kept], out[-1][-1].cost)


def meaning(kind, expanded):
    """Problems whose texts agree although the name f in them means something else each time."""
    import beluga
    p = beluga.Problem('meaning')
    p.independent('t', 's')
    form = {'line': lambda a: 0.7 * a, 'cube': lambda a: a ** 3 / 2 + a, 'root': lambda a: (a ** 2 + 1) ** 0.5}
    text = {'line': '0.7*{0}', 'cube': '({0}**3/2 + {0})', 'root': '(({0})**2 + 1)**0.5', 'table': '(0.3*{0} + 0.2)',
            'quantity': '(0.4*x - 0.1)', 'constant': '0.35'}[kind]
    call = 'f(x)' if kind not in ('quantity', 'constant') else 'f'
    if not expanded and kind in form:
        p.custom_function('f', form[kind], '1', ['1'])
    elif not expanded and kind == 'table':
        a = np.linspace(-4, 4, 9)
        p.table('f', '1d_spline', 0.3 * a + 0.2, a, '1', '1')
    elif not expanded and kind == 'quantity':
        p.quantity('f', '0.4*x - 0.1')
    elif not expanded:
        p.constant('f', 0.35, '1')
    p.state('x', 'u - ' + (text.format('x') if expanded else call), 'm').control('u', 'm/s')
    p.constant('x_f', 1.2, 'm').constant('t_f', 1.0, 's')
    p.path_cost('u**2/2 + x**2/4', '1')
    p.initial_constraint('x - 1/2', 'm').initial_constraint('t', 's')
    p.terminal_constraint('x - x_f', 'm').terminal_constraint('t - t_f', 's')
    return p


def meanings(ctx, P):
    """A name means what the problem at hand says it means, whatever it meant in the problems before."""
    import beluga

    def go(p, control):
        gen = beluga.guess_generator('auto', start=[0.5], time_integrate=1.0, costate_guess=0.1, control_guess=[0.1])
        return beluga.solve(ocp=p, bvp_algorithm=algorithm('spbvp'), guess_generator=gen, save_sols=False, autoscale=False,
                            optim_options=options(control))
    control = ctx.choose('control', P['control'])
    for i in range(P['depth']):
        kind = ctx.choose('meaning %d' % i, P['meanings'])
        if (kind, control) not in _ref:
            _ref[kind, control] = go(meaning(kind, True), control)[-1][-1]
        want = _ref[kind, control]
        got = go(meaning(kind, False), control)[-1][-1]
        ctx.check(bool(want.converged) and bool(got.converged), 'not solved', kind=kind, got=got.converged)
        s = np.linspace(0.0, 1.0, 7)
        for f, tol in (('t', 1e-6), ('y', 1e-3), ('dual', 2e-3), ('u', 2e-3)):
            a, b = (np.array([np.interp(s, x.t, np.asarray(getattr(x, f))[:, 0]) for x in (got, want)])
                    if f != 't' else (got.t[-1], want.t[-1]))
            ctx.close(a, b, 'call %d: %s is not that of the formula written out' % (i, f), rtol=0, atol=tol, kind=kind)
        ctx.close(got.cost, want.cost, 'call %d: cost' % i, rtol=1e-3)
        ctx.state(control, i, kind, round(float(got.cost), 4))


def routes(ctx, P):
    """Deriving inside solve() or beforehand: the same solutions."""
    name = ctx.choose('problem', analytic.BASIC + ['share', 'timed', 'named'])
    control = ctx.choose('control', ['algebraic', 'differential'])
    how = ctx.choose('plan', ['none', 'manual', 'two'])
    auto = ctx.flag('autoscale')
    if name == 'steer' and control == 'differential' and how == 'two':
        how = 'manual'
    a = run(Pool(False), (name, control, how, 'spbvp', auto, 'derive'))[0]
    b = run(Pool(False), (name, control, how, 'spbvp', auto, 'explicit'))[0]
    same(ctx, a, b, 'explicit problem and maps')
    ctx.state(name, control, how, auto, a[-1][-1].cost)


def saving(ctx, P):
    """A file appears exactly when asked for, under the name asked for, and holds what solve() returned."""
    import beluga
    case = analytic.CASES['lqr']
    how = ctx.choose('save_sols', ['default', True, False, 'mine.beluga', 'sub/other.bin'])
    plan_ = ctx.choose('plan', ['none', 'manual'])
    here = os.getcwd()
    d = tempfile.mkdtemp()
    try:
        os.chdir(d)
        os.mkdir('sub')
        kw = {} if how == 'default' else dict(save_sols=how)
        prob = case.problem()
        out = beluga.solve(ocp=prob, bvp_algorithm=algorithm('spbvp'), steps=plan(case, plan_), guess_generator=case.guess(),
                           optim_options=options('algebraic'), **kw)
        files = sorted(os.path.join(os.path.relpath(b, d), f) for b, _, fs in os.walk(d) for f in fs)
        want = {'default': ['./data.beluga'], True: ['./data.beluga'], False: [], 'mine.beluga': ['./mine.beluga'],
                'sub/other.bin': ['sub/other.bin']}[how]
        ctx.check(files == want, 'wrong files', got=files, want=want)
        if files:
            r = beluga.utils.load(files[0])
            ctx.check(set(r) == {'solutions', 'ocp', 'bvp'}, 'wrong contents', keys=list(r))
            same(ctx, r['solutions'], out, 'saved solutions')
            ctx.check(raw(r['ocp']) == raw(prob), 'the saved problem differs')
            bvp = ocp.pipeline(case.problem(), control_method='algebraic')
            ctx.check(view(r['bvp']) == view(bvp), 'the saved boundary-value problem differs')
        ctx.state(how, plan_, files)
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def refused(ctx, P):
    import beluga
    case = analytic.CASES['lqr']
    kind = ctx.choose('request', ['no problem', 'no cpus', 'negative cpus', 'method', 'bvp without maps', 'bvp without inverse',
                                  'control method', 'unknown option'])
    kw = dict(ocp=case.problem(), bvp_algorithm=algorithm('spbvp'), guess_generator=case.guess(), save_sols=False,
              optim_options=options('algebraic'))
    exc = (ValueError, NotImplementedError, TypeError)
    if kind == 'no problem':
        kw['ocp'] = None
    elif kind == 'no cpus':
        kw['n_cpus'] = 0
    elif kind == 'negative cpus':
        kw['n_cpus'] = -2
    elif kind == 'method':
        kw['method'] = ctx.choose('method', ['magic', '', 'tradition'])
    elif kind.startswith('bvp'):
        b = ocp.pipeline(case.problem(), control_method='algebraic')
        kw['bvp'] = b
        if kind.endswith('inverse'):
            kw['ocp_map'] = b.map_sol
        elif ctx.flag('inverse only'):
            kw['ocp_map_inverse'] = b.inv_map_sol
    elif kind == 'control method':
        kw['optim_options'] = dict(control_method='numerical')
    else:
        kw['optim_options'] = dict(control='algebraic')
    before = raw(kw['ocp']) if kw['ocp'] is not None else None
    ctx.raises(exc, lambda: beluga.solve(**kw), 'accepted: ' + kind)
    if before is not None:
        ctx.check(raw(kw['ocp']) == before, 'the problem changed')
    ctx.state(kind)


def names(ctx, P):
    """The accepted spellings of the indirect method mean the same."""
    import beluga
    case = analytic.CASES[ctx.choose('problem', ['lqr', 'free'])]
    res = []
    m = ctx.choose('spelling', ['indirect', 'traditional', 'brysonho', 'Indirect', 'TRADITIONAL', 'BrysonHo', 'default'])
    for x in ('traditional', m):
        kw = {} if x == 'default' else dict(method=x)
        res.append(beluga.solve(ocp=case.problem(), bvp_algorithm=algorithm('spbvp'), guess_generator=case.guess(),
                                save_sols=False, optim_options=options('algebraic'), **kw))
    same(ctx, res[1], res[0], m)
    ctx.state(case.name, m)


HARNESSES = dict(
    history=dict(fn=history, rule='all histories of calls on shared objects', timeout=300,
                 quick=dict(depth=2, problem=['lqr', 'free'], control=['algebraic', 'differential'], plan=['none', 'two'],
                            solver=['spbvp', 'shooting'], autoscale=[True], route=['derive']),
                 thorough=dict(depth=2, problem=['lqr', 'free', 'di'], control=['algebraic', 'differential'],
                               plan=['none', 'manual', 'two'], solver=['spbvp', 'shooting'], autoscale=[True, False],
                               route=['derive', 'explicit'])),
    long_history=dict(fn=history, rule='all longer histories over fewer calls', timeout=300,
                      quick=dict(depth=3, problem=['lqr', 'free'], control=['algebraic'], plan=['manual', 'two'],
                                 solver=['spbvp'], autoscale=[True], route=['derive']),
                      thorough=dict(depth=4, problem=['lqr', 'free'], control=['algebraic'], plan=['manual', 'two'],
                                    solver=['spbvp'], autoscale=[True], route=['derive'])),
    helper=dict(fn=history, rule='histories with constants matched to the guess, both formulations', timeout=300,
                quick=dict(depth=2, problem=['di', 'free'], control=['algebraic'], plan=['none', 'manual'], solver=['spbvp'],
                           autoscale=[True], route=['derive'], method=['indirect', 'diffyg'], helper=[True, False]),
                thorough=dict(depth=2, problem=['lqr', 'free', 'di'], control=['algebraic', 'differential'], plan=['none', 'manual'],
                              solver=['spbvp'], autoscale=[True], route=['derive', 'explicit'], method=['indirect', 'diffyg'],
                              helper=[True, False])),
    meanings=dict(fn=meanings, rule='all histories of problems that use one name for different things', timeout=300,
                  quick=dict(depth=2, control=['algebraic'], meanings=['line', 'cube', 'root', 'table', 'quantity', 'constant']),
                  thorough=dict(depth=3, control=['algebraic', 'differential'],
                                meanings=['line', 'cube', 'root', 'table', 'quantity', 'constant'])),
    routes=dict(fn=routes, rule='all problems, derived inside or beforehand', timeout=300, quick={}),
    saving=dict(fn=saving, rule='all ways of asking for a file', quick={}),
    refused=dict(fn=refused, rule='requests that mean nothing', quick={}),
    names=dict(fn=names, rule='all spellings', quick={}),
)
