"""Stateless explicit-state explorer.

A harness is a function ``h(ctx, P)`` that drives the real code and asks ``ctx.choose(label, options)`` every time
the environment, the scheduler or the user could have done something different.  The engine enumerates *every*
sequence of answers (depth-first over choice indices), so a finished run is a statement about the whole bounded tree,
not about a sample of it.  ``ctx.state(...)`` records canonical states (deduplicated over the whole run),
``ctx.check`` evaluates the property.
"""
import hashlib
import os
import signal
import sys
import time
import traceback

import numpy as np


class Violation(Exception):
    def __init__(self, msg, sig=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig
        self.detail = detail or {}


class Prune(Exception):
    """This branch denotes nothing (e.g. a duplicate of another branch): counted, not executed further."""


class HarnessTimeout(BaseException):
    pass


class ReplayDivergence(Exception):
    pass


def canon(x, nd=9):
    """Canonical, hashable, process-independent rendering of a state component."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if np.isnan(x):
            return 'nan'
        return float('%.*g' % (nd, float(x))) + 0.0
    if isinstance(x, complex):
        return canon(x.real, nd), canon(x.imag, nd)
    if isinstance(x, np.ndarray):
        return tuple(x.shape), tuple(canon(v, nd) for v in x.ravel().tolist())
    if isinstance(x, dict):
        return tuple(sorted((str(k), canon(v, nd)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, nd) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(repr, (canon(v, nd) for v in x))))
    if x is None or isinstance(x, (str, bytes)):
        return x
    return str(x)


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Ctx:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.points = []          # [(label, n_options, chosen_index, repr(option))]
        self.states = set()
        self.obs = hashlib.blake2b(digest_size=8)
        self.transitions = 0
        self.validated = 0
        self.notes = {}
        self.findings = []

    # -- exploration
    def choose(self, label, options):
        options = list(options)
        n = len(options)
        i = len(self.points)
        if n == 0:
            raise Prune('no option for ' + label)
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n:
                raise ReplayDivergence('choice %d (%s): recorded index %d but only %d options' % (i, label, k, n))
        else:
            k = 0
        opt = options[k]
        self.points.append((label, n, k, repr(opt)[:120]))
        self.transitions += 1
        return opt

    def flag(self, label):
        return self.choose(label, [False, True])

    # -- observation
    def state(self, *key):
        d = digest(canon(key))
        self.states.add(d)
        self.obs.update(d)

    def step(self, n=1):
        self.transitions += n

    def agree(self, n=1):
        """One observation of the real code that was compared with the reference model and agreed."""
        self.validated += n

    def check(self, cond, msg, sig=None, **detail):
        if not cond:
            raise Violation(msg, sig=sig, detail={k: repr(v)[:600] for k, v in detail.items()})
        self.validated += 1

    def close(self, a, b, msg, rtol=1e-9, atol=1e-12, sig=None, **detail):
        a = np.asarray(a, dtype=complex) if np.iscomplexobj(a) else np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=complex) if np.iscomplexobj(b) else np.asarray(b, dtype=float)
        ok = a.shape == b.shape and bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))
        self.check(ok, msg, sig=sig, got=a, want=b, **detail)

    def finding(self, sig, msg, **detail):
        """A recognised defect: the execution goes on, the defect is reported at its end under this signature."""
        self.findings.append(dict(msg=msg, sig=sig, detail={k: repr(v)[:600] for k, v in detail.items()}))

    def raises(self, exc, fn, msg, sig=None):
        try:
            r = fn()
        except exc as e:
            self.validated += 1
            return e
        raise Violation(msg + ' (no exception, returned %r)' % (r,), sig=sig)

    def picked(self):
        return [(p[0], p[3]) for p in self.points]


def _alarm(signum, frame):
    raise HarnessTimeout()


def run_one(fn, P, prefix, timeout):
    """Run one execution.  Returns (ctx, violation-dict-or-None, pruned)."""
    ctx = Ctx(prefix)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    vio, pruned = None, False
    try:
        fn(ctx, P)
    except Prune:
        pruned = True
    except Violation as v:
        vio = dict(msg=v.msg, sig=v.sig, detail=v.detail)
    except HarnessTimeout:
        vio = dict(msg='execution did not finish within %.0f s' % timeout, sig=None, detail={})
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # an unexpected exception of the code under test breaks the property
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join('%s:%d %s' % (os.path.relpath(f.filename, '/') if f.filename.startswith('/') else f.filename,
                                          f.lineno, f.name) for f in reversed(tb[-8:]))
        vio = dict(msg='unexpected %s: %s' % (type(e).__name__, str(e)[:300]), sig=None, detail={'where': where})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if len(ctx.points) < len(prefix) and vio is None and not pruned:
        vio = dict(msg='replay diverged: the execution made fewer choices than the recorded prefix', sig=None, detail={})
    if vio is None and ctx.findings:
        vio = ctx.findings[0]
    if vio is not None:
        vio['choices'] = [p[2] for p in ctx.points]
        vio['picked'] = [(p[0], p[3]) for p in ctx.points]
    return ctx, vio, pruned


def explore_slice(fn, P, work, budget_s, timeout, max_viol, seed):
    """Depth-first exploration of the subtrees rooted at the prefixes in ``work`` for at most ``budget_s`` seconds."""
    t0 = time.time()
    st = dict(executions=0, pruned=0, transitions=0, validated=0, states=set(), outcomes=set(), violations=[],
              replays=0, samples=[], maxdepth=0)
    stack = list(work)
    while stack:
        prefix = stack.pop()
        ctx, vio, pruned = run_one(fn, P, prefix, timeout)
        st['executions'] += 1
        st['pruned'] += pruned
        st['transitions'] += ctx.transitions
        st['validated'] += ctx.validated
        st['states'] |= ctx.states
        st['outcomes'].add(ctx.obs.digest())
        st['maxdepth'] = max(st['maxdepth'], len(ctx.points))
        if len(st['samples']) < 1:
            st['samples'].append(ctx.picked()[:40])
        # determinism: replay the first execution of every slice, same choices, and compare the observations
        if vio is None and not pruned and st['executions'] == 1:
            ctx2, vio2, _ = run_one(fn, P, [p[2] for p in ctx.points], timeout)
            st['replays'] += 1
            if vio2 is not None:
                vio = vio2
                vio['msg'] = 'second run of the same history failed: ' + vio['msg']
            elif ctx2.obs.digest() != ctx.obs.digest():
                vio = dict(msg='two runs of the same history gave different observations', sig=None, detail={},
                           choices=[p[2] for p in ctx.points], picked=ctx.picked())
        if vio is not None:
            st['violations'].append(vio)
            if vio['sig'] is None and len([v for v in st['violations'] if v['sig'] is None]) >= max_viol:
                stack = stack + _children(ctx, len(prefix))
                break
        stack.extend(_children(ctx, len(prefix)))
        if time.time() - t0 > budget_s:
            break
    st['left'] = stack
    return st


def _children(ctx, plen):
    out = []
    idx = [p[2] for p in ctx.points]
    for i in range(len(ctx.points) - 1, plen - 1, -1):
        for alt in range(ctx.points[i][1] - 1, 0, -1):
            out.append(idx[:i] + [alt])
    return out
