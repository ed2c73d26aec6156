"""C14: calls running at the same time in several threads answer as if they ran alone."""
import sys, threading
import numpy as np
from simlib import *
import forest as F, treecase as T, ops, det

SEEDS = {'quick': 520, 'thorough': 4000}
REAL = ['ACXplainer', 'ACVTree', 'BaseAgnosTree', 'BaseTree', 'utils', 'cyext_acv', 'cyext_acv_nopa', 'cyext_acv_cache', 'cext_acv']
STUB = ['interpreter threads -> caller threads scheduled at every executed line of /repo, every access of a parallel region and every release of the interpreter lock',
        'GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitting a ranger forest -> given trees']
NONTRIVIAL = 'at least two caller threads ran and control passed between them or their teams at least five times'
NAMES = [n for n in ops.ACX if n not in ('maxrule', 'rules')]     # those two draw from the process-wide random generator


def gen(rng, tier):
    c = F.gen_forest_case(rng, updown=True, cond=True, d=rng.choice([1, 2, 3, 3]), n=rng.choice([5, 10]), npts=rng.randint(1, 2), ntrees=rng.randint(1, 2))
    t = T.gen_tree_case(rng, small=True, d=rng.choice([1, 2, 3]))
    if len(t['trees']) > 2:
        t['trees'] = t['trees'][:2]
    if rng.random() < .15:
        T.boosted(rng, t)
    th = []
    for _ in range(rng.choice([2, 2, 2, 3])):
        L = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.55:
                L.append({'on': 'acx', 'o': ops.gen_acx_op(rng, c, NAMES)})
            else:
                L.append({'on': 'tree', 'o': ops.gen_tree_op(rng, t)})
            if rng.random() < 0.12:
                L[-1]['fault'] = int(2 ** rng.uniform(0, 7))
        th.append(L)
    if rng.random() < 0.4:
        # the same operation, on different rows, at the same time
        o = {k: v for k, v in th[0][0].items() if k != 'fault'}
        for L in th[1:]:
            L[0] = dict(o)
    s = c['sched']
    s['quantum'] = rng.choice([1, 2, 5, 15, 50, 200])
    if s['strat'] == det.SERIAL and rng.random() < .8:
        s['strat'] = det.RANDOM
    return {'c': c, 't': t, 'threads': th, 'warm': int(rng.random() < 0.4), 'rot': int(rng.random() < 0.5), 'sched': s}


def rotate(c, k):
    """the same case with the observations in another order: what each thread asks differs"""
    n = len(c['X'])
    r = [(i + k) % n for i in range(n)]
    c = dict(c)
    for f in ('X', 'y', 't', 'down', 'up', 'cond', 'S'):
        if isinstance(c.get(f), list) and len(c[f]) == n and f in c and not (f == 'S' and 'tX' in c):
            c[f] = [c[f][i] for i in r]
    return c


def run(case, ctx):
    c, t = case['c'], case['t']
    if t['clf'] and T.near_tie(t, t['X'] + t['data']):
        return 'tie'
    fit = (np.array(c['data'], dtype=float), np.array(c['y_data'], dtype=float))

    def mk():
        a = F.acx(c)
        a.fit(*fit)
        return a
    jobs = []
    for k, L in enumerate(case['threads']):
        J = []
        for q in L:
            kk = k if case['rot'] else 0
            if q['on'] == 'acx':
                P = ops.acx_arrays(rotate(c, kk))
            else:
                P = ops.tree_arrays(rotate(t, kk))
            J.append((q, P))
        jobs.append(J)

    def ask(objs, q, P):
        if q['on'] == 'acx':
            return ops.acx_apply(objs[0], P, q['o'], ctx)
        return ops.tree_apply(objs[1], P, q['o'], t['clf'])
    want = []
    with quiet():
        for J in jobs:
            want.append([ask((mk(), T.build(t)), q, P) for q, P in J])
        shared = (mk(), T.build(t))
        if case['warm']:
            ask(shared, *jobs[0][0])
    got = [[None] * len(J) for J in jobs]

    def body(tid, J, out):
        det.lib.det_attach(tid)
        try:
            for i, (q, P) in enumerate(J):
                n = [0]
                k = q.get('fault')

                def loc(frame, event, arg):
                    if event == 'line':
                        n[0] += 1
                        det.lib.det_yield()
                        if n[0] == k and type(frame.f_locals.get('self')).__name__ not in ('ACXplainer', 'ACVTree'):
                            raise InjectedInterrupt('planted')
                    return loc

                def glob(frame, event, arg):
                    return loc if frame.f_code.co_filename.startswith(REPO) else None
                sys.settrace(glob)
                try:
                    out[i] = ('ok', ask(shared, q, P))
                except InjectedInterrupt:
                    out[i] = ('planted',)
                except BaseException as e:
                    out[i] = ('raise', e)
                finally:
                    sys.settrace(None)
        finally:
            det.lib.det_exit()
    ctx.begin()
    try:
        with quiet():
            th = []
            for J, out in zip(jobs, got):
                tid = det.lib.det_reserve()
                x = threading.Thread(target=body, args=(tid, J, out))
                th.append(x)
            for x in th:
                x.start()
            det.lib.det_join()
            for x in th:
                x.join()
    finally:
        ctx.end()
    for k, J in enumerate(jobs):
        for i, (q, P) in enumerate(J):
            g, o = got[k][i], q['o']
            name = o['op']
            ctx.trace.append(name)
            if g is None:
                raise RuntimeError('thread %d did not get to its operation %d' % (k, i))
            if g[0] == 'planted':
                ctx.fault('interrupted-caller')
                continue
            if g[0] == 'raise':
                raise Violation('concurrent:raises:%s:%s' % (name, type(g[1]).__name__), where(g[1]))
            ops.same('concurrent', o, g[1], want[k][i])
            ctx.probe('answers')
            ctx.note(digest(ops.flat(g[1])) if name not in ops.SEARCH else 0)
    ctx.probe('callers', len(jobs))
    # and the objects are fit for use afterwards
    q, P = jobs[-1][-1]
    ops.same('concurrent:after', q['o'], ctx.call(ask, shared, q, P), want[-1][-1])
    return 'ok'


def nontrivial(ctx):
    return ctx.probes.get('callers', 0) > 1 and ctx.tot.get('switches', 0) >= 5


def shrinks(case):
    for y in shrink_list(case['threads'], 2):
        yield dict(case, threads=y)
    for i, L in enumerate(case['threads']):
        for y in shrink_list(L, 1):
            yield dict(case, threads=case['threads'][:i] + [y] + case['threads'][i + 1:])
        for j, q in enumerate(L):
            if 'fault' in q:
                M = L[:j] + [{k: v for k, v in q.items() if k != 'fault'}] + L[j + 1:]
                yield dict(case, threads=case['threads'][:i] + [M] + case['threads'][i + 1:])
