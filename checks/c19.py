"""C19: composing transformations."""
import itertools

RULE = ('One execution = one sequence of composition operations (product, both shifts, powers, copies), each applied to any '
        'of the functors made so far, with augmented assignment or without; after every operation every functor made so far is applied to a '
        'fresh problem and must perform exactly its own list of transformations in order.')
ASSUMPTIONS = []


class Box:
    """Stands for a problem: records what was done to it."""
    def __init__(self):
        self.trace = []


def make(tag, kind):
    from beluga.symbolic.data_classes.mapping_functions import GenericFunctor
    if kind == 'class':
        class F(GenericFunctor):
            strrep = tag

            def transformation(self, prob):
                prob.trace.append(self.tag)
                return prob
        f = F(tag)
        f.tag = tag
    elif kind == 'data':
        class F(GenericFunctor):
            strrep = tag

            def transformation(self, prob):
                prob.trace.append(self.data)
                return prob
        f = F(tag)
    elif kind == 'new':
        class F(GenericFunctor):
            strrep = tag

            def transformation(self, prob):      # hands on another object
                new = Box()
                new.trace = prob.trace + [tag]
                return new
        f = F()
    elif kind == 'set':
        f = GenericFunctor(tag)
        f.strrep = tag

        def transformation(self, prob):
            prob.trace.append(self.data)
            return prob
        f.set_transformation(transformation)
    else:
        f = GenericFunctor()
    return f


def algebra(ctx, P):
    from beluga.symbolic.data_classes.mapping_functions import GenericFunctor
    kinds = ctx.choose('kinds', P['kinds'])
    made = [(make(t, k), [] if k == 'id' else [t]) for t, k in zip('ABC', kinds)]

    def verify(what):
        for i, (f, want) in enumerate(made):
            got = f(Box()).trace
            ctx.check(got == want, what + ': a functor performs the wrong transformations', functor=i, got=got, want=want)
            text = [w for w in repr(f).split(' . ') if w != 'Id']
            ctx.check(text == want[::-1], what + ': the printed form does not match', got=repr(f), want=want)
    verify('start')
    for i in range(P['depth']):
        op = ctx.choose('operation %d' % i, ['mul', 'lshift', 'rshift', 'imul', 'ilshift', 'irshift', 'pow', 'copy'])
        a = ctx.choose('left %d' % i, range(len(made)))
        f, wa = made[a]
        if op in ('pow', 'copy'):
            if op == 'copy':
                r, w = GenericFunctor(f), list(wa)
            else:
                e = ctx.choose('exponent %d' % i, [0, 1, 2, 3])
                r, w = f ** e, wa * e
            made.append((r, w))
        else:
            b = ctx.choose('right %d' % i, range(len(made)))
            g, wb = made[b]
            if op == 'mul':
                r, w = f * g, wb + wa
            elif op == 'lshift':
                r, w = f << g, wb + wa
            elif op == 'rshift':
                r, w = f >> g, wa + wb
            else:
                r, w = f, wa
                if op == 'imul':
                    r *= g
                    w = wb + wa
                elif op == 'ilshift':
                    r <<= g
                    w = wb + wa
                else:
                    r >>= g
                    w = wa + wb
            made.append((r, w))
        verify(op)
    ctx.state(kinds, [w for _, w in made])


def refusal(ctx, P):
    f = make('A', 'class')
    e = ctx.choose('exponent', [-1, -3, 1.0, 0.5, '2', None])
    ctx.raises(ValueError if isinstance(e, int) else TypeError, lambda: f ** e, 'power accepted')
    ctx.check(f(Box()).trace == ['A'], 'the functor changed')
    ctx.state(str(e))


def real(ctx, P):
    """The real transformations: every bracketing and operator gives the problem that applying them in turn gives."""
    from vmc import ocp
    from beluga.symbolic.data_classes import mapping_functions as m
    import copy
    stages = [m.Sympify, m.ApplyQuantities, m.MomentumShift, m.Dualize, m.AlgebraicControlLaw, m.SquashToBVP, m.NormalizeTime]
    n = ctx.choose('number of transformations', [3, 5, 7])
    fs = [c() for c in stages[:n]]
    ref = ocp.double_integrator()
    for f in fs:
        ref = f(ref)
    split = ctx.choose('bracket', range(1, n))
    op = ctx.choose('operator', ['mul', 'lshift', 'rshift'])

    def comp(xs):
        r = xs[0]
        for x in xs[1:]:
            r = x * r if op == 'mul' else x << r if op == 'lshift' else r >> x
        return r
    a, b = comp(fs[:split]), comp(fs[split:])
    whole = b * a if op == 'mul' else b << a if op == 'lshift' else a >> b
    for _ in range(2):                                   # a composition can be used again
        got = whole(ocp.double_integrator())
        ctx.check(view(got) == view(ref), 'composition and successive application differ', got=view(got), want=view(ref))
    part = a(ocp.double_integrator())
    ctx.check(view(b(part)) == view(ref), 'the parts of a composition changed')
    ctx.state(n, split, op)


def view(p):
    def v(x):
        return [(s.name, str(getattr(s, 'eom', '')), str(getattr(s, 'units', ''))) for s in x]
    return dict(states=v(p.states), costates=v(p.costates), controls=v(p.controls), parameters=v(p.parameters),
                constants=v(p.constants), ind=p.independent_variable.name, law=str(p.control_law),
                bc=[str(c.expr) for c in p.constraints['initial'] + p.constraints['terminal']],
                maps=[type(x).__name__ for x in p.sol_map_chain], cost=str(p.cost.path) + str(p.cost.terminal))


ALL3 = list(itertools.product(['class', 'data', 'new', 'set', 'id'], repeat=2))
HARNESSES = dict(
    algebra=dict(fn=algebra, rule='all sequences of composition operations', quick=dict(depth=2, kinds=ALL3),
                 thorough=dict(depth=3, kinds=ALL3 + [('class', 'set', 'data'), ('new', 'id', 'class')])),
    real=dict(fn=real, rule='all bracketings of the real transformations', quick={}),
    refusal=dict(fn=refusal, rule='exponents that mean nothing', quick={}),
)
