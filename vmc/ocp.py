"""Small optimal-control programs used by several harnesses, and the public pipeline around them."""
import copy
import functools

import numpy as np


def pipeline(ocp, method='traditional', **options):
    """The public route from a user's problem to a compiled boundary-value problem (what solve() does)."""
    from beluga.symbolic.data_classes import make_preprocessor, make_indirect_method, make_postprocessor
    pre = make_preprocessor()(copy.deepcopy(ocp))
    functor = make_indirect_method(copy.deepcopy(pre), method=method, **options)
    prob = functor(copy.deepcopy(pre))
    return make_postprocessor()(copy.deepcopy(prob))


def double_integrator(extra=(), scale=True, cost_units='m**2/s**4'):
    import beluga
    p = beluga.Problem('di')
    p.independent('t', 's')
    p.state('x', 'v', 'm').state('v', 'u', 'm/s')
    p.control('u', 'm/s**2')
    p.constant('x_f', 1, 'm').constant('v_f', 0, 'm/s').constant('t_f', 1, 's')
    for name, val, units in extra:
        p.constant(name, val, units)
    p.path_cost('u**2/2', cost_units)
    p.initial_constraint('x', 'm').initial_constraint('v', 'm/s').initial_constraint('t', 's')
    p.terminal_constraint('x-x_f', 'm').terminal_constraint('v-v_f', 'm/s').terminal_constraint('t-t_f', 's')
    if scale:
        p.scale(m='x_f', s='t_f')
    return p


@functools.lru_cache(maxsize=None)
def cont_bvp():
    return pipeline(double_integrator(extra=(('a', 2.0, 'm'), ('b', 3.0, '1'), ('c', 5.0, 's'))))


def make_traj(t, y, q=None, u=None, p=(), nd=(), const=(), dual=None):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    tr = Trajectory(np.array(t, dtype=float), np.array(y, dtype=float))
    if q is not None:
        tr.q = np.array(q, dtype=float)
    if u is not None:
        tr.u = np.array(u, dtype=float)
    if dual is not None:
        tr.dual = np.array(dual, dtype=float)
    tr.dynamical_parameters = np.array(p, dtype=float)
    tr.nondynamical_parameters = np.array(nd, dtype=float)
    tr.const = np.array(const, dtype=float)
    return tr
