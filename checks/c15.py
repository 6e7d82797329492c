"""C15: trajectories as functions of time and as sequences."""
import copy
import itertools

import numpy as np

RULE = ('One execution = one shape of trajectory (numbers of nodes, states, quadratures, controls; flat or column arrays; '
        'direction of time) x interpolation x query times x history of mutations and copies; compared with a reference '
        'interpolation and with plain indexing.')
ASSUMPTIONS = ['queries lie within the time span (outside is refused)']


def data(t, dims, flat, seed):
    if dims == 0:
        return None
    v = np.array([[np.sin(1.7 * x * (j + 1) + seed) + 0.3 * j for j in range(dims)] for x in t])
    return v[:, 0] if flat and dims == 1 else v


def ref(t, v, q):
    if v is None:
        return np.zeros((len(q), 0))
    v = np.asarray(v).reshape(len(t), -1)
    o = np.argsort(t)
    return np.array([[np.interp(x, t[o], v[o, j]) for j in range(v.shape[1])] for x in q])


def interpolation(ctx, P):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    n = ctx.choose('nodes', P['nodes'])
    back = ctx.flag('backward')
    dims = [ctx.choose(w, P['dims']) for w in ('states', 'quads', 'controls')]
    if dims[0] == 0:
        dims[0] = 1
    flat = 1 in dims and ctx.flag('flat')
    t = np.linspace(0, 1, n) ** 1.5 * 2 + 0.5
    if back:
        t = t[::-1].copy()
    y, q, u = (data(t, d, flat, i) for i, d in enumerate(dims))
    args = [t, y]
    if q is not None or u is not None:
        args.append(q if q is not None else np.array([]))
    if u is not None:
        args.append(u)
    tr = Trajectory(*args)
    ctx.check(len(tr) == n, 'wrong length')
    lo, hi = min(t), max(t)
    queries = sorted(set(list(t) + list((t[1:] + t[:-1]) / 2) + [lo + 0.3 * (hi - lo)]))
    kind = ctx.choose('query', ['scalar', 'vector'])
    Q = [ref(t, v, queries) for v in (y, q, u)]
    if kind == 'scalar':
        for i, x in enumerate(queries):
            got = tr(x)
            for g, w, nm in zip(got, Q, 'yqu'):
                ctx.close(np.asarray(g, dtype=float).reshape(-1), w[i].reshape(-1), 'interpolated %s wrong' % nm, rtol=1e-12,
                          at=x)
    else:
        got = tr(np.array(queries))
        for g, w, nm in zip(got, Q, 'yqu'):
            ctx.check(np.asarray(g).size == w.size, 'interpolated %s has the wrong size' % nm)
            ctx.close(np.asarray(g, dtype=float).reshape(w.shape), w, 'interpolated %s wrong' % nm, rtol=1e-12)
    # indexing
    for item in [0, -1, n - 1, slice(0, 2), slice(None, None, -1)]:
        tt, yy, qq, uu = tr[item]
        ctx.close(tt, t[item], 'indexing: time wrong')
        ctx.close(yy, y[item], 'indexing: states wrong')
        for g, v in ((qq, q), (uu, u)):
            ctx.close(g, v[item] if v is not None else np.array([]), 'indexing: quads or controls wrong')
    bad = ctx.choose('outside', ['no', 'before', 'after'])
    if bad != 'no':
        ctx.raises(ValueError, lambda: tr(lo - 0.1 if bad == 'before' else hi + 0.1), 'evaluated outside its span')
    ctx.state(n, back, dims, flat, kind)


def mutation(ctx, P):
    """The interpolation always reflects the current data; copies are independent; the interpolation style is kept."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    import cloudpickle
    t = np.array([0., 0.5, 1.5, 2., 3.])
    y = np.stack([t ** 2, t], axis=1)
    style = ctx.choose('style', ['default', 'linear', 'cubic', 'nearest', 'callable', 'constructor'])
    tr = Trajectory(t.copy(), y.copy()) if style != 'constructor' else Trajectory(t.copy(), y.copy(), interpolation_type='cubic')
    if style == 'callable':
        tr.set_interpolate_function(lambda a, b: (lambda x: np.interp(x, a, b) + 1.0))
    elif style not in ('default', 'constructor'):
        tr.set_interpolate_function(style)

    def expect(t, y, x):
        lin = np.array([np.interp(x, t, y[:, j]) for j in range(y.shape[1])])
        if style in ('default', 'linear'):
            return lin
        if style == 'callable':
            return lin + 1.0
        if style == 'nearest':
            return None
        from scipy.interpolate import interp1d
        return np.array([float(interp1d(t, y[:, j], kind='cubic')(x)) for j in range(y.shape[1])])

    def check(tr, t, y, what):
        for x in (0.0, 0.3, 1.9, 3.0):
            w = expect(t, y, x)
            if w is None:
                w = y[np.argmin(np.abs(t - x))]
            ctx.close(np.asarray(tr(x)[0], dtype=float), w, what + ': wrong value', rtol=1e-10, at=x, style=style)
    check(tr, t, y, 'fresh')
    cur_t, cur_y = t.copy(), y.copy()
    for i in range(P['depth']):
        op = ctx.choose('operation %d' % i, ['evaluate', 'in place', 'replace', 'deepcopy', 'wrap', 'copy back', 'pickle'])
        if op == 'evaluate':
            tr(np.array([0.1, 0.2]))
        elif op == 'in place':
            tr.y[1:3] += 0.5 + i
            cur_y[1:3] += 0.5 + i
        elif op == 'replace':
            tr.t, tr.y = cur_t * 1.0, cur_y[::-1] * 1.0
            cur_y = cur_y[::-1].copy()
        elif op == 'deepcopy':
            other = copy.deepcopy(tr)
            tr.y[...] = -99.0
            tr.t = tr.t + 5
            tr = other
        elif op == 'wrap':
            tr = Trajectory(tr)
        elif op == 'copy back':
            other = copy.deepcopy(tr)
            other.y[...] = 1e9
            other.const = np.array([1.0])
        else:
            tr = cloudpickle.loads(cloudpickle.dumps(tr))
        check(tr, cur_t, cur_y, op)
        ctx.state(style, cur_y, op)


def styles(ctx, P):
    """Every interpolation applies to every state, quadrature and control alike; single nodes can be indexed."""
    from beluga.numeric.data_classes.Trajectory import Trajectory
    from scipy.interpolate import interp1d
    dims = [ctx.choose(w, P['dims']) for w in ('states', 'quads', 'controls')]
    style = ctx.choose('style', ['linear', 'quadratic', 'cubic', 'nearest', 'zero', 'Cubic'])
    n = ctx.choose('nodes', P['nodes'])
    t = 0.5 + np.linspace(0, 1, n) ** 1.5 * 2
    y, q, u = (data(t, d, False, i) if d else np.zeros((n, 0)) for i, d in enumerate(dims))
    tr = Trajectory(t, y, q, u)
    tr.set_interpolate_function(style)
    xs = np.sort(np.hstack((t, t[:-1] + 0.3 * np.diff(t))))
    one = ctx.choose('query', ['scalar', 'vector', 'one in a vector'])
    for x in ([xs] if one == 'vector' else list(xs) if one == 'scalar' else [xs[i:i + 1] for i in range(len(xs))]):
        got = tr(x)
        for g, v, nm in zip(got, (y, q, u), 'yqu'):
            w = np.array([interp1d(t, v[:, j], kind=style.lower())(x) for j in range(v.shape[1])]).T
            ctx.check(np.asarray(g).size == w.size, 'interpolated %s has the wrong size' % nm)
            if not v.shape[1]:
                continue
            # one state gives a vector over the times, several give one row per time
            ok = [w.shape] if v.shape[1] > 1 else [w.shape, w.reshape(-1).shape]
            ctx.check(np.shape(g) in ok, 'interpolated %s has the wrong shape' % nm, got=np.shape(g), want=ok)
            ctx.close(np.asarray(g, dtype=float).reshape(w.shape), w, 'interpolated %s wrong' % nm, rtol=1e-10, at=x, style=style)
    single = Trajectory(t[:1], y[:1], q[:1], u[:1])
    ctx.check(len(single) == 1, 'wrong length')
    for item in (0, -1):
        for g, v, nm in zip(single[item], (t, y, q, u), 'tyqu'):
            ctx.close(g, v[0], 'indexing a single node: %s wrong' % nm)
    ctx.state(dims, style, n, one)


HARNESSES = dict(
    styles=dict(fn=styles, rule='all styles and shapes', quick=dict(dims=[1, 2, 3], nodes=[4, 6]),
                thorough=dict(dims=[0, 1, 2, 3, 4], nodes=[4, 5, 6, 9])),
    interpolation=dict(fn=interpolation, rule='all shapes',
                       quick=dict(nodes=[2, 3, 5], dims=[0, 1, 2, 3]), thorough=dict(nodes=[2, 3, 4, 5, 8], dims=[0, 1, 2, 3])),
    mutation=dict(fn=mutation, rule='all histories of mutations and copies', quick=dict(depth=3), thorough=dict(depth=5)),
)
