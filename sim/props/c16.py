"""C16: marginal same-decision probabilities and explanations of a model that is only called."""
import random, threading
import numpy as np
from simlib import *
import forest as F
import ops

SEEDS = {'quick': 4500, 'thorough': 30000}
REAL = ['ACXplainer.compute_msdp_*/importance_msdp_*_search', 'ACVTree.compute_msdp_*/importance_msdp_{clf,reg}{,_search}', 'ACVTreeAgnostic (same)', 'utils_sdp']
STUB = ['model -> given trees behind a simulated service: every call of predict may fail, be interrupted, or hand control to another caller']
NONTRIVIAL = 'some probability was strictly between 0 and 1, and a call failed, or two callers took turns, or several questions followed each other'
KINDS = ['error', 'memory', 'interrupt']


def gen(rng, tier):
    wide = rng.random() < 0.06
    groups = rng.random() < 0.3
    d = rng.randint(16, 18) if wide else rng.choice([4, 5, 5, 6]) if groups else rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    n = rng.choice([1, 4, 8, 16, 20])
    long = not wide and d <= 4 and rng.random() < .05        # more rows or points than usual
    n = rng.choice([n, 150]) if long else n
    X = gen_data(rng, max(n, 4), d, 'grid' if wide else None)
    used = rng.sample(range(d), rng.randint(1, 4)) if wide else list(range(d))
    clf = int(rng.random() < 0.55)
    ncls = rng.choice([2, 3])

    def vals(r, rows):
        return [r.randrange(ncls)] if clf else [r.randint(-6, 6) / 4]
    trees = [gen_tree(rng, [[x[j] if j in used else 0.0 for j in range(d)] for x in X], rng.choice([1, 2, 3, 4]), 1,
                      p_leaf=rng.choice([0, .1, .3]), values=vals) for _ in range(1 if clf else rng.randint(1, 3))]
    bg = X[:n] if rng.random() < 0.6 else gen_data(rng, n, d, 'grid' if wide else None)
    P = gen_points(rng, X + bg, rng.randint(1, 4) if not long else rng.choice([2, 20]))
    c = {'d': d, 'clf': clf, 'trees': trees, 'data': bg, 'X': P, 'train': X, 'label': rng.choice(['int', 'int', 'str']) if clf else 'float',
         'thr': rng.choice([0.25, 0.5, 1.0, 0.2, 0.0]), 'ask': [], 'turns': rng.randrange(1 << 30), 'sched': gen_sched(rng)}
    for _ in range(rng.randint(1, 3)):
        o = {'via': rng.choice(['acx', 'tree', 'tree', 'agn', 'tree-own']), 'who': rng.choice([0, 0, 1]),
             'what': rng.choice(['prob', 'search', 'search', 'auto']), 'rows': sorted(rng.sample(range(len(P)), rng.randint(1, len(P))))}
        if o['what'] == 'auto' or wide:
            o['via'] = rng.choice(['tree', 'tree-own'])
        if wide and o['what'] == 'search':
            o['what'] = 'auto'
        if o['what'] == 'prob':
            o['S'] = rng.sample(range(d), rng.randint(0, d))
        else:
            o.update(C=gen_coalitions(rng, d) if not wide else [[]], pi=rng.choice([0.25, 0.5, 0.75, 0.9, 1.0, 0.3137, 0.6371]), minimal=rng.choice([1, 1, 1, 0, 2]),
                     stop=rng.choice([0, 1, 1]))
            if groups and not wide:      # explanations that are never found, and groups of different sizes
                while o['C'] == [[]]:
                    o['C'] = gen_coalitions(rng, d)
                o['pi'] = rng.choice([1.0, 1.0, 0.9, o['pi']])
                alone = [j for j in range(d) if not any(j in g for g in o['C'])]
                if o['what'] == 'search' and alone and rng.random() < 0.7:
                    o['stop'] = 0
                    out = rng.choice(alone)
                    o['space'] = rng.sample([j for j in range(d) if j != out], d - 1)
            if o['what'] == 'search':
                o['space'] = None if rng.random() < 0.5 else rng.sample(range(d), rng.randint(1, d))
        if rng.random() < 0.35:
            o['fail'] = {'at': rng.choice([1, 2, 3, 5, 9, 20]), 'kind': rng.choice(KINDS)}
        c['ask'].append(o)
    return c


class Service:
    """the model as the library sees it"""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.plan = threading.local()
        self.turn = None

    def out(self, x):
        v = sum(tree_predict(t, x)[0] for t in self.case['trees'])
        return ('class %d' % v if self.case['label'] == 'str' else int(v)) if self.case['clf'] else v

    def predict(self, Z):
        Z = np.asarray(Z)
        if Z.ndim != 2 or Z.shape[1] != self.case['d']:
            raise Violation('msdp:call', 'the model was called with an array of shape %s' % (Z.shape,))
        if self.turn is not None:
            self.turn()
        p = self.plan.__dict__
        p['calls'] = p.get('calls', 0) + 1
        if p.get('fail') and p['calls'] == p['fail']['at']:
            k = p['fail']['kind']
            p['fired'] = True
            self.ctx.fault('model-' + k)
            raise {'error': Injected, 'memory': MemoryError, 'interrupt': InjectedInterrupt}[k]('planted in predict')
        return np.array([self.out(z) for z in Z.tolist()])


class Turns:
    """callers take turns: control passes at calls of the model, to the caller the seed picks"""

    def __init__(self, n, seed):
        self.n, self.rng, self.cv, self.cur, self.live, self.switches = n, random.Random(seed), threading.Condition(), 0, set(range(n)), 0
        self.me = threading.local()

    def pick(self):
        new = self.rng.choice(sorted(self.live)) if self.live else None
        if new != self.cur:
            self.switches += 1
        self.cur = new
        self.cv.notify_all()

    def start(self, k):
        self.me.k = k
        with self.cv:
            while self.cur != k:
                self.cv.wait()

    def step(self):
        with self.cv:
            self.pick()
            while self.cur != self.me.k:
                self.cv.wait()

    def end(self):
        with self.cv:
            self.live.discard(self.me.k)
            self.pick()


def used_features(case):
    return sorted(set(f for t in case['trees'] for f, l in zip(t['f'], t['cl']) if l >= 0))


def make(case, ctx):
    s = Service(case, ctx)
    m = acvtree([dict(t, v=[[float(v) for v in r] for r in t['v']]) for t in case['trees']], case['train'])
    m.model = s
    return s, m


def ask(case, s, m, o, X, D):
    from acv_explainers import ACXplainer
    from acv_explainers.acv_tree import ACVTreeAgnostic
    t = 'clf' if case['clf'] else 'reg'
    obj = {'acx': ACXplainer, 'agn': ACVTreeAgnostic}.get(o['via'], m)
    kw = {} if o['via'] == 'tree-own' else {'model': s}
    if t == 'reg':
        kw['threshold'] = case['thr']
    if o['what'] == 'prob':
        return getattr(obj, 'compute_msdp_' + t)(X, list(o['S']) if len(o['S']) else np.array([], dtype=int), D, **kw)
    kw.update(C=[list(c) for c in o['C']], pi_level=o['pi'], minimal=o['minimal'], stop=bool(o['stop']))
    if o['what'] == 'auto':
        return getattr(obj, 'importance_msdp_' + t)(X, D, **kw)
    return getattr(obj, 'importance_msdp_%s_search' % t)(X, D, r_search_space=None if o['space'] is None else list(o['space']), **kw)


def judge(case, s, o, got, ctx):
    d, n = case['d'], len(case['data'])
    X = [case['X'][r] for r in o['rows']]
    memo = {}
    f0 = [s.out(x) for x in X]

    def prob(i, S):
        k = (i, frozenset(S))
        if k not in memo:
            if len(S) == d:
                memo[k] = 1.0
            else:
                h = [s.out([X[i][j] if j in k[1] else y[j] for j in range(d)]) for y in case['data']]
                memo[k] = sum(1 for v in h if (v == f0[i] if case['clf'] else abs(v - f0[i]) <= case['thr'])) / n
        return memo[k]
    if o['what'] == 'prob':
        g = np.asarray(got)
        if g.shape != (len(X),):
            raise Violation('msdp:shape', g.shape)
        for i, v in enumerate(g.tolist()):
            if not close(v, prob(i, o['S']), 1e-12):
                raise Violation('msdp', 'observation %d given %s: got %r, it is %r' % (o['rows'][i], o['S'], v, prob(i, o['S'])))
    else:
        space = o.get('space')
        if space is None:
            space = list(range(d))
        if o['what'] == 'auto' and d > 15:
            space = used_features(case)
        c = dict(case, X=X)
        F.check_importance('msdp-search', c, got, prob, space, o['C'], o['pi'], o['minimal'], bool(o['stop']), eps=0, half=d / 2)
    if any(0 < v < 1 for v in memo.values()):
        ctx.probe('inside')


def run(case, ctx):
    s, m = make(case, ctx)
    D = np.array(case['data'], dtype=float)
    jobs = [[o for o in case['ask'] if o['who'] == w] for w in (0, 1)]
    jobs = [j for j in jobs if j]
    if any(o['what'] == 'auto' and case['d'] > 15 and not used_features(case) for o in case['ask']):
        return 'constant'
    T = Turns(len(jobs), case['turns'])
    results, errors = {}, []

    def body(k):
        if len(jobs) > 1:
            T.start(k)
        try:
            for q, o in enumerate(jobs[k]):
                X = np.array([case['X'][r] for r in o['rows']], dtype=float)
                x0, d0 = X.copy(), D.copy()
                s.plan.calls, s.plan.fail, s.plan.fired = 0, o.get('fail'), False
                try:
                    got = ask(case, s, m, o, X, D)
                except (Injected, InjectedInterrupt, MemoryError):
                    if not s.plan.fired:
                        raise
                    got = None
                if s.plan.fired and got is not None:
                    raise Violation('msdp:fault-swallowed', '%s answered although the model failed' % o['what'])
                if not np.array_equal(X, x0) or not np.array_equal(D, d0):
                    raise Violation('msdp:arguments', '%s changed the arrays it was given' % o['what'])
                if got is None:        # asked again, it answers as if nothing had happened
                    s.plan.calls, s.plan.fail, s.plan.fired = 0, None, False
                    got = ask(case, s, m, o, X, D)
                    if not np.array_equal(X, x0) or not np.array_equal(D, d0):
                        raise Violation('msdp:arguments', '%s changed the arrays it was given' % o['what'])
                results[k, q] = got
        except Violation as e:
            errors.append((k, e))
        except Exception as e:
            errors.append((k, Violation('raises:%s:%s' % (o['what'], type(e).__name__), where(e))))
        finally:
            if len(jobs) > 1:
                T.end()

    def all_():
        if len(jobs) == 1:
            body(0)
            return
        s.turn = T.step
        th = [threading.Thread(target=body, args=(k,)) for k in range(len(jobs))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        s.turn = None
    with quiet():
        all_()
    if errors:
        raise sorted(errors, key=lambda e: e[0])[0][1]
    for k, L in enumerate(jobs):
        for q, o in enumerate(L):
            judge(case, s, o, results[k, q], ctx)
    if T.switches:
        ctx.probe('turns', T.switches)
    if len(case['ask']) > 1:
        ctx.probe('several')
    return digest([[results[k, q] for q in range(len(L))] for k, L in enumerate(jobs)] + [T.switches])


def nontrivial(ctx):
    return ctx.probes.get('inside', 0) > 0 and (any(k.startswith('model-') for k in ctx.faults) or ctx.probes.get('turns') or ctx.probes.get('several'))


def shrinks(case):
    for y in shrink_list(case['ask'], 1):
        yield dict(case, ask=y)
    for i, o in enumerate(case['ask']):
        for r in shrink_list(o['rows'], 1):
            yield dict(case, ask=case['ask'][:i] + [dict(o, rows=r)] + case['ask'][i + 1:])
        if o.get('C', [[]]) != [[]]:
            yield dict(case, ask=case['ask'][:i] + [dict(o, C=[[]])] + case['ask'][i + 1:])
        if 'fail' in o:
            yield dict(case, ask=case['ask'][:i] + [{k: v for k, v in o.items() if k != 'fail'}] + case['ask'][i + 1:])
    for y in shrink_list(case['data'], 1):
        yield dict(case, data=y)
    for y in shrink_list(case['trees'], 1):
        yield dict(case, trees=y)
