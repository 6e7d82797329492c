"""Driver: ``python -m vmc.main C01 quick`` explores every harness of one property and writes its evidence."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VMC_EVIDENCE') or os.path.join(VERIF, 'evidence')      # redirected for mutants only
NPROC = int(os.environ.get('VMC_PROCS', '8'))
MAX_VIOL = int(os.environ.get('VMC_MAX_VIOL', '5'))


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def _cover(root, out):
    """Record the lines of the package each worker executes (to look for code no check reaches)."""
    import dis
    seen, codes = {}, {}

    def local(frame, event, arg):
        if event == 'line':
            seen.setdefault(frame.f_code.co_filename, set()).add(frame.f_lineno)
            codes.get(frame.f_code, set()).discard(frame.f_lineno)
        return local

    def trace(frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(root):
            return None
        if c not in codes:
            codes[c] = {l for _, l in dis.findlinestarts(c)}
        return local if codes[c] else None

    def dump():
        json.dump({k: sorted(v) for k, v in seen.items()}, open(os.path.join(out, '%d.json' % os.getpid()), 'w'))
    _cover.dump = dump
    sys.settrace(trace)


def _init(repo_path):
    if os.environ.get('VMC_COVER'):
        _cover(os.path.join(os.path.realpath(repo_path), 'beluga'), os.environ['VMC_COVER'])
    sys.path.insert(0, repo_path)
    # import the package straight from the tree: the loader of the editable installation cannot be serialised
    sys.meta_path[:] = [f for f in sys.meta_path
                        if not (type(f).__module__ + getattr(f, '__module__', '')).count('editable')]
    os.chdir(os.environ['VMC_SCRATCH'])
    import warnings
    warnings.filterwarnings('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import logging
    import beluga
    assert os.path.dirname(os.path.dirname(os.path.realpath(beluga.__file__))) == os.path.realpath(repo_path), beluga.__file__
    # keep the code under test quiet (no progress bars, no console output); C20 re-initialises logging itself
    beluga.add_logger(display_level=logging.CRITICAL, file_level=logging.CRITICAL,
                      filename=os.path.join(os.environ['VMC_SCRATCH'], 'beluga.log'))
    logging.getLogger().setLevel(logging.CRITICAL)


def _work(prop, harness, tier, prefixes, budget, timeout, seed):
    from vmc.engine import explore_slice
    m = load(prop)
    h = m.HARNESSES[harness]
    r = explore_slice(h['fn'], h.get(tier, h.get('quick', {})), prefixes, budget, timeout, MAX_VIOL, seed)
    if hasattr(_cover, 'dump'):
        _cover.dump()
    return r


def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e['property'] == prop and e['status'] == 'known':
                out.append(e)
    return out


def run_harness(prop, name, h, tier, seed, deadline):
    """Explore one harness completely (or until the deadline); returns merged statistics."""
    jit = bool(h.get('jit'))
    env = dict(NUMBA_DISABLE_JIT='0' if jit else '1')
    os.environ.update(env)
    timeout = h.get('timeout', 120.0)
    nproc = min(NPROC, h.get('procs', NPROC))
    tot = dict(executions=0, pruned=0, transitions=0, validated=0, states=set(), outcomes=set(), violations=[],
               replays=0, samples=[], maxdepth=0, exhausted=True, died=None)
    t0 = time.time()
    ctx = mp.get_context('spawn')
    ex = cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctx, initializer=_init,
                                initargs=(os.environ.get('VMC_REPO', '/repo'),))
    pending = {}
    queue = [[[]]]
    known_sigs = {e['sig'] for e in known(prop)}
    stop = False
    try:
        budget = 0.3
        while (queue or pending) and not stop:
            while queue and len(pending) < nproc * 2:
                w = queue.pop()
                pending[ex.submit(_work, prop, name, tier, w, budget, timeout, seed)] = w
            done, _ = cf.wait(list(pending), timeout=5.0, return_when=cf.FIRST_COMPLETED)
            if time.time() > deadline:
                tot['exhausted'] = False
                break
            for f in done:
                w = pending.pop(f)
                r = f.result()
                for k in ('executions', 'pruned', 'transitions', 'validated', 'replays'):
                    tot[k] += r[k]
                tot['states'] |= r['states']
                tot['outcomes'] |= r['outcomes']
                tot['maxdepth'] = max(tot['maxdepth'], r['maxdepth'])
                tot['violations'] += r['violations']
                if len(tot['samples']) < 40:
                    tot['samples'] += r['samples']
                left = r['left']
                if left:
                    # hand the remaining subtrees out again, biggest (shallowest) first
                    n = max(1, min(len(left), nproc))
                    for i in range(n):
                        part = left[i::n]
                        if part:
                            queue.append(part)
                unknown = [v for v in tot['violations'] if v['sig'] not in known_sigs]
                if len(unknown) >= MAX_VIOL:
                    tot['exhausted'] = False
                    stop = True
            budget = min(2.0, budget * 1.3)
    except cf.process.BrokenProcessPool as e:
        tot['died'] = str(e)
        tot['exhausted'] = False
        tot['violations'].append(dict(msg='a worker process died while exploring (crash of the code under test)',
                                      sig=None, detail={'pending': repr(list(pending.values())[:3])[:500]},
                                      choices=(list(pending.values()) or [[[]]])[0][0], picked=[]))
    finally:
        procs = list((ex._processes or {}).values())
        ex.shutdown(wait=False, cancel_futures=True)
        for p in procs:
            p.terminate()
        for p in procs:
            p.join(5)
    tot['wall'] = time.time() - t0
    return tot


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[3:] 
    m = load(prop)
    t0 = time.time()
    cap = 780 if tier == 'quick' else 4 * 3600
    deadline = t0 + cap
    merged = dict(executions=0, pruned=0, transitions=0, validated=0, replays=0, states=0, outcomes=0)
    per, samples, assumptions = {}, [], list(getattr(m, 'ASSUMPTIONS', []))
    exhaustive = True
    violations, knowns = [], []
    ksigs = {e['sig']: e for e in known(prop)}
    for name, h in m.HARNESSES.items():
        if only and name not in only:
            continue
        if tier not in h and 'quick' in h and tier == 'thorough':
            pass
        if tier == 'quick' and h.get('thorough_only'):
            continue
        r = run_harness(prop, name, h, tier, seed, deadline)
        per[name] = dict(executions=r['executions'], pruned=r['pruned'], states=len(r['states']),
                         transitions=r['transitions'], outcomes=len(r['outcomes']), max_depth=r['maxdepth'],
                         determinism_replays=r['replays'], exhaustive=r['exhausted'], wall_s=round(r['wall'], 2),
                         bound={k: repr(v)[:200] for k, v in h.get(tier, h.get('quick', {})).items()},
                         rule=h.get('rule', ''))
        for k in ('executions', 'pruned', 'transitions', 'validated', 'replays'):
            merged[k] += r[k]
        merged['states'] += len(r['states'])
        merged['outcomes'] += len(r['outcomes'])
        exhaustive &= r['exhausted']
        r['samples'].sort(key=lambda s: (len(s), s))
        if r['samples']:
            pick = sorted({0, len(r['samples']) // 2, len(r['samples']) - 1} | {seed % len(r['samples'])})
            samples += [dict(harness=name, choices=r['samples'][i]) for i in pick]
        for v in r['violations']:
            v['harness'] = name
            (knowns if v['sig'] in ksigs else violations).append(v)
        if violations:      # decided: the remaining harnesses cannot change the verdict
            exhaustive &= name == list(m.HARNESSES)[-1]
            break
    violations.sort(key=lambda v: (len(v['choices']), v['choices']))
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=merged['states'], transitions=merged['transitions'],
                            traces_validated_against_impl=merged['executions'] - merged['pruned'],
                            executions=merged['executions'], pruned=merged['pruned'],
                            distinct_outcomes=merged['outcomes'], model_comparisons=merged['validated'],
                            determinism_replays=merged['replays'], exhaustive=bool(exhaustive),
                            samples=samples[:12], rule=getattr(m, 'RULE', ''), harnesses=per),
              wall_s=round(wall, 2), violations=len(violations), assumptions=assumptions)
    os.makedirs(EVIDENCE, exist_ok=True)
    json.dump(ev, open(os.path.join(EVIDENCE, prop + '.json'), 'w'), indent=1)
    for s in sorted({v['sig'] for v in knowns}):
        print('KNOWN-FINDING: property=%s %s' % (prop, ksigs[s]['what']))
    print('%s %s: %d executions, %d states, %d transitions, %d outcomes, %d comparisons, exhaustive=%s, %.1f s'
          % (prop, tier, merged['executions'], merged['states'], merged['transitions'], merged['outcomes'],
             merged['validated'], exhaustive, wall))
    for name, p in per.items():
        print('   %-28s exec=%d states=%d outcomes=%d exhaustive=%s %.1fs' % (
            name, p['executions'], p['states'], p['outcomes'], p['exhaustive'], p['wall_s']))
    if violations:
        rdir = os.path.join(EVIDENCE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for v in violations[:3]:
            hsh = hashlib.sha1(json.dumps([v['harness'], v['choices'], v['msg']]).encode()).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s.json' % (prop, hsh))
            json.dump(dict(property=prop, tier=tier, **v), open(path, 'w'), indent=1)
            print('--- %s / %s: %s' % (prop, v['harness'], v['msg']))
            for l, o in v['picked'][-25:]:
                print('      %s = %s' % (l, o))
            for k, d in v['detail'].items():
                print('      %s: %s' % (k, d[:800]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


def replay(path):
    """Re-run one recorded history without the explorer."""
    r = json.load(open(path))
    m = load(r['property'])
    h = m.HARNESSES[r['harness']]
    os.environ['NUMBA_DISABLE_JIT'] = '0' if h.get('jit') else '1'
    _init(os.environ.get('VMC_REPO', '/repo'))
    from vmc.engine import run_one
    ctx, vio, _ = run_one(h['fn'], h.get(r['tier'], h.get('quick', {})), r['choices'], h.get('timeout', 120.0))
    print(json.dumps(vio, indent=1))
    if vio:
        print('VIOLATION property=%s replay=%s' % (r['property'], path))
        return 1
    return 0


def selftest():
    """The explorer itself: every leaf of a known tree is visited exactly once, and a planted failure is found."""
    from vmc.engine import explore_slice
    seen = []

    def tree(ctx, P):
        a = ctx.choose('a', [0, 1, 2])
        b = [ctx.choose('b%d' % i, [0, 1]) for i in range(a + 1)]
        seen.append((a, tuple(b)))
        ctx.state(a, b)
        ctx.check((a, b) != (P.get('bad_a'), P.get('bad_b')), 'planted')
    r = explore_slice(tree, {}, [[]], 60, 60, 5, 1)
    assert r['executions'] == 14 and len(set(seen)) == 14 and len(r['states']) == 14, r
    assert not r['violations'] and not r['left']
    r = explore_slice(tree, dict(bad_a=2, bad_b=[1, 0, 1]), [[]], 60, 60, 5, 1)
    assert len(r['violations']) == 1 and r['violations'][0]['choices'] == [2, 1, 0, 1], r
    print('explorer self-test passed')
    return 0


if __name__ == '__main__':
    if sys.argv[1] == 'selftest':
        sys.exit(selftest())
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main())
