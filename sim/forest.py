"""Synthetic ranger forests for ACXplainer, and the reference model of the projected forest."""
import math
import numpy as np
from simlib import *
from itertools import combinations


class _Tree:
    pass


class _Est:
    pass


def est(t, ncls):
    """one tree in the form skranger exposes it"""
    e, r = _Est(), _Tree()
    r.children_left = np.array(t['cl']); r.children_right = np.array(t['cr'])
    r.feature = np.array([f if f != 0 or t['cl'][i] < 0 else -2 for i, f in enumerate(t['f'])])  # skranger writes feature 0 as -2
    r.threshold = np.array(t['t'], dtype=float)
    r.value = np.array(t['v'], dtype=float).reshape(len(t['v']), 1, -1)
    r.weighted_n_node_samples = np.array(t['n'], dtype=float)
    e.tree_ = r
    return e


_cls = {}


def quantile_shift(q):
    return {0.05: -1.0, 0.95: 1.0}.get(q, 4 * q - 2)


def default_interval(case, x):
    p = sum(tree_predict(t, x)[0] for t in case['trees']) / len(case['trees'])
    return [p + quantile_shift(q) * case['width'] for q in (0.05, 0.95)]


def classes():
    """ranger models whose fitted trees are given, not learnt"""
    if not _cls:
        from skranger.ensemble import RangerForestClassifier, RangerForestRegressor

        class Given:
            estimators_ = property(lambda self: self.est_)
            feature_importances_ = property(lambda self: np.array(self.imp_, dtype=float))

        class SynthClf(Given, RangerForestClassifier):
            def predict_proba(self, X):
                X = np.asarray(X, dtype=float).tolist()
                return np.array([[sum(tree_predict(t, x)[k] for t in self.dict_) / len(self.dict_) for k in range(len(self.dict_[0]['v'][0]))] for x in X])

            def predict(self, X):
                return np.argmax(self.predict_proba(X), axis=1).astype(float)

        class SynthReg(Given, RangerForestRegressor):
            def predict(self, X):
                X = np.asarray(X, dtype=float).tolist()
                return np.array([sum(tree_predict(t, x)[0] for t in self.dict_) / len(self.dict_) for x in X])

            def predict_quantiles(self, X, quantiles):
                p = self.predict(X)
                return np.array([[v + quantile_shift(q) * self.width_ for q in quantiles] for v in p.tolist()])
        _cls[1], _cls[0] = SynthClf, SynthReg
        for k in (SynthClf, SynthReg):      # so that they can be stored and loaded
            k.__module__, k.__qualname__ = __name__, k.__name__
            globals()[k.__name__] = k
    return _cls


def acx(case):
    """the real ACXplainer, on the forest of the case"""
    from acv_explainers import ACXplainer
    with quiet():
        a = ACXplainer(classifier=bool(case['clf']), n_estimators=len(case['trees']))
    m = classes()[1 if case['clf'] else 0].__new__(classes()[1 if case['clf'] else 0])
    m.__dict__.update(a.model.__dict__)
    set_forest(m, case['trees'], case.get('imp'))
    m.width_ = case.get('width', 0.5)
    a.model = m
    a.d = case['d']
    return a


def explainer(case):
    """the explainer of the case: ACXplainer on its ranger forest, or ACVTree (or ACVTreeAgnostic) on the same trees"""
    if not case.get('via'):
        return acx(case)
    a = acvtree(case['trees'], case['data'], agnostic=case['via'] == 'agn')
    if case.get('imp') is not None:
        a.model = _Est()
        a.model.feature_importances_ = np.array(case['imp'], dtype=float)
    return a


def t_args(case, t):
    """how the decision interval is handed over to that explainer"""
    if not case.get('via'):
        return {} if case.get('tdef') else {'t': case['level'] if case.get('level') is not None else t}
    if case['via'] == 'agn' and case['clf']:
        return {'classifier': 1, 't': np.zeros((len(case['X']), 2))} if case['d'] % 2 else {'classifier': 1}
    if case['clf']:
        return {'classifier': 1}
    return {'classifier': 0, 't': case['level'] if case.get('level') is not None else t}


def gen_via(rng, c):
    """about one case in three goes through ACVTree, one in seven through ACVTreeAgnostic"""
    r = rng.random()
    if r < 0.5:
        c['via'] = 'tree' if r < 0.35 else 'agn'
        c.pop('tdef', None)
        if c['via'] == 'agn' and c['d'] > 10:
            c['imp'] = None
        elif not c['clf'] and rng.random() < 0.6:
            c['level'] = rng.choice([0.1, 0.5, 1.0, 3])
            c['t'] = [[v - c['level'], v + c['level']] for v in c['y']]
        if c['d'] > 10 and rng.random() < 0.5:
            c['imp'] = None
    return c


def only_agn(rng, c):
    """for the questions ACVTreeAgnostic answers but ACVTree does not"""
    if rng.random() < 0.15:
        c['via'] = 'agn'
        c.pop('tdef', None)
    return c


def set_forest(m, trees, imp=None):
    m.dict_ = trees
    m.est_ = [est(t, 0) for t in trees]
    m.imp_ = imp


def gen_forest(rng, d, n, clf, ntrees=None, depth=None, ncls=2):
    X = gen_data(rng, n, d)
    if clf:
        def vals(r, rows):
            p = [r.random() + 0.05 for _ in range(ncls)]
            s = sum(p)
            return [round(x / s, 6) for x in p]
    else:
        def vals(r, rows):
            return [round(r.uniform(-2, 2), 3)]
    trees = [gen_tree(rng, X, depth or rng.choice([1, 2, 3, 3, 4, 5]), ncls, p_leaf=rng.choice([0, .1, .3]), values=vals)
             for _ in range(ntrees or rng.randint(1, 5))]
    return X, trees


def gen_forest_case(rng, **kw):
    z = gen_size(rng)
    d = kw.get('d') or (rng.choice([8, 11, 14]) if kw.get('wide') and z['features'] else rng.choice([1, 2, 3, 3, 4, 5, 6]))
    n = kw.get('n') or (z['rows'] or rng.choice([5, 10, 20, 30]))
    clf = kw['clf'] if 'clf' in kw else rng.random() < 0.55
    ncls = rng.choice([2, 2, 3])
    X, trees = gen_forest(rng, d, n, clf, kw.get('ntrees') or (z['trees'] or None), kw.get('depth') or (9 if z['depth'] else None), ncls)
    # the data may be other rows than the ones the trees come from
    data = X if rng.random() < 0.75 else gen_data(rng, rng.randint(3, 25), d)
    k = kw.get('npts') or (z['points'] or rng.randint(1, 4))
    P = gen_points(rng, X + data, k)
    if clf:
        y_data = [float(rng.randrange(ncls)) for _ in data]
        y = [float(rng.randrange(ncls)) for _ in P]
        if rng.random() < 0.5:
            y_data = [float(max(range(ncls), key=lambda c: sum(tree_predict(t, x)[c] for t in trees))) for x in data]
            y = [float(max(range(ncls), key=lambda c: sum(tree_predict(t, x)[c] for t in trees))) for x in P]
        t = None
    else:
        y_data = [round(rng.gauss(0, 1), 2) for _ in data]
        y = [round(rng.gauss(0, 1), 2) for _ in P]
        t = []
        for v in y:
            a = rng.choice([0.1, 0.5, 1.0, 3.0])
            t.append([v - a, v + a] if rng.random() < .8 else sorted([rng.choice(y_data), rng.choice(y_data)]))
    mns = rng.choice([0, 1, 1, 2, 5, 5, 8] + [20, 45] * bool(z['rows']))
    c = {'d': d, 'clf': int(clf), 'trees': trees, 'data': data, 'y_data': y_data, 'X': P, 'y': y, 't': t, 'mns': mns,
         'S': [gen_subset(rng, d) for _ in P], 'imp': [round(rng.random(), 4) for _ in range(d)], 'sched': gen_sched(rng)}
    c['imp'] = dedupe(c['imp'])
    if not clf:
        c['width'] = rng.choice([0.1, 0.5, 1.5])
        if rng.random() < 0.25:
            c['tdef'] = 1
            arrays(c)
        elif rng.random() < 0.2:
            # one level of variation for all
            c['level'] = rng.choice([0.1, 0.5, 1.0, 3])
            c['t'] = [[v - c['level'], v + c['level']] for v in y]
    if kw.get('updown'):
        c['down'] = [round(v - rng.choice([0.2, 0.7, 1.5]) + rng.choice([0, 1]), 3) for v in y]
        c['up'] = [c['down'][i] + rng.choice([0.4, 1.0, 2.0]) for i in range(len(y))]
    if kw.get('cond'):
        c['cond'] = [gen_cond(rng, P[i], d, data) for i in range(len(P))]
    return c


def relabel(rng, c):
    """classes called otherwise than 0, 1, 2"""
    if c['clf'] and rng.random() < .2:
        # percentiles are single precision
        names = rng.choice([[-1., 1., 2.], [1., 2., 3.]] + ([] if c.get('via') else [[10., 0., 5.], [0., 1e6, 300.]]))
        for k in ('y', 'y_data'):
            c[k] = [names[int(v)] for v in c[k]]
    return c


def dedupe(v):
    v = list(v)
    seen = set()
    for i in range(len(v)):
        while v[i] in seen:
            v[i] = round(v[i] + 0.0001, 4)
        seen.add(v[i])
    return v


def gen_cond(rng, x, d, data):
    out = []
    for j in range(d):
        r = rng.random()
        if r < 0.4:
            out.append([-1e10, 1e10])
        elif r < 0.6:
            out.append([x[j], x[j]])
        else:
            a, b = sorted([rng.choice(data)[j], x[j]])
            out.append([a, b] if rng.random() < .7 else [a - 0.25, b + 0.25])
    return out


def gen_subset(rng, d, lo=0):
    k = rng.choice([lo, 1, 1, 2, 2, 3, d]) if d else 0
    k = max(lo, min(k, d))
    s = rng.sample(range(d), k)
    return sorted(s) if rng.random() < 0.7 else s


def tree_depth(t, i=0):
    return 0 if t['cl'][i] < 0 else 1 + max(tree_depth(t, t['cl'][i]), tree_depth(t, t['cr'][i]))


# ------------------------------------------------------------------ the projected forest
def project(case, x, S, cond=None, mode='x'):
    """per tree: the training rows kept when only the splits on S are followed (mode 'x': x decides on S; 'intv': S is
    free), plus the splits decided by the box `cond` elsewhere; a level stops at the first node after which fewer than
    mns rows are left.  Returns ([rows per tree], box)"""
    data, mns = case['data'], case['mns']
    maxd = max(tree_depth(t) for t in case['trees'])
    d = case['d']
    box = [[-1e10, 1e10] for _ in range(d)]
    S = set(S)
    out = []
    for t in case['trees']:
        rows = list(range(len(data)))
        nodes = [0]
        seen = set()
        for lev in range(maxd):
            for k in nodes:
                if k < 0:
                    if len(rows) < mns:
                        break
                    continue
                f = t['f'][k]
                side = 0
                if t['cl'][k] >= 0:
                    th = t['t'][k]
                    if f in S:
                        if mode == 'x':
                            side = 1 if x[f] <= th else 2
                    elif cond is not None:
                        side = 1 if cond[f][1] <= th else 2 if cond[f][0] > th else 0
                if side == 1:
                    seen.add(t['cl'][k])
                    rows = [r for r in rows if data[r][f] <= th]
                    box[f][1] = min(box[f][1], th)
                elif side == 2:
                    seen.add(t['cr'][k])
                    rows = [r for r in rows if data[r][f] > th]
                    box[f][0] = max(box[f][0], th)
                else:
                    seen.add(t['cl'][k]); seen.add(t['cr'][k])
                if len(rows) < mns:
                    break
            nodes = sorted(seen)
        out.append(rows)
    return out, box


def project_plain(case, x, S, strict=True):
    """per tree: the training rows kept when only the splits on S are followed, level by level, in the order the nodes
    are met; a level stops at the first node that would leave (strict) or has left fewer than mns rows"""
    data, mns = case['data'], case['mns']
    maxd = max(tree_depth(t) for t in case['trees'])
    S = set(S)
    out = []
    for t in case['trees']:
        rows, nodes, met = list(range(len(data))), [0], []
        for lev in range(maxd):
            for k in nodes:
                f, left, kept, leaf = t['f'][k], None, rows, t['cl'][k] < 0
                if f in S and not leaf:
                    left = x[f] <= t['t'][k]
                    kept = [r for r in rows if (data[r][f] <= t['t'][k]) == left]
                for c in [] if leaf else [t['cl'][k], t['cr'][k]] if left is None else [t['cl'][k] if left else t['cr'][k]]:
                    if c not in met:
                        met.append(c)
                if not strict:
                    rows = kept
                if len(kept) < mns:
                    break
                rows = kept
            nodes = list(met)
        out.append(rows)
    return out


def quantile(values, w, q):
    """the q-th percentile of weighted values without ties, interpolated between the middles of their weights; as it is
    computed in single precision, the range it may be in"""
    o = sorted((v, u) for v, u in zip(values, w) if u)
    tot, cum, P = math.fsum(u for v, u in o), 0.0, []
    for v, u in o:
        cum += u
        P.append(100.0 / tot * (cum - u / 2.0))
    return [float(np.interp(q + e, P, [v for v, u in o])) for e in (-2e-3, 2e-3)] if tot else None


def weights(case, rows):
    w = [0.0] * len(case['data'])
    for r in rows:
        for j in r:
            w[j] += 1.0 / (len(rows) * len(r))
    return w


def mean_over(case, rows, f):
    """average over the trees of the average of f over the rows kept (a tree with no row counts 0)"""
    return math.fsum(math.fsum(f(case['y_data'][j]) for j in r) / len(r) for r in rows if r) / len(rows)


def dyadic(case, rows):
    """sums over these rows and trees involve no rounding: every weight is a power of two"""
    two = lambda v: v & (v - 1) == 0
    return two(len(rows)) and all(two(len(r)) for r in rows)


def inside(case, i):
    """the indicator 'same decision' of observation i"""
    if case['clf']:
        return lambda y: float(y == case['y'][i])
    lo, hi = case['t'][i]
    return lambda y: float(lo <= y <= hi)


def sdp(case, i, S, **kw):
    r, b = project(case, case['X'][i], S, **kw)
    return mean_over(case, r, inside(case, i))


def ddp(case, i, S, **kw):
    r, b = project(case, case['X'][i], S, **kw)
    g = inside(case, i)
    return mean_over(case, r, lambda y: 1.0 - g(y))


def cdp(case, i, S, **kw):
    r, b = project(case, case['X'][i], S, **kw)
    if case['clf']:
        return mean_over(case, r, lambda y: float(y == case['y'][i]))
    return mean_over(case, r, lambda y: float(case['down'][i] <= y <= case['up'][i]))


# ------------------------------------------------------------------ the searches
def blocks(space, C):
    """the units of a search: single features of the search space, then the groups touching it"""
    if not C or not C[0]:
        return [[j] for j in space]
    g = set(j for c in C for j in c)
    return [[j] for j in space if j not in g] + [list(c) for c in C if any(j in space for j in c)]


def search_space(case):
    d = case['d']
    if d <= 10:
        return list(range(d))
    if case['imp'] is None:     # by how many leaves depend on the feature; features in no leaf are left out
        from treecase import usage
        u = usage(case)
        o = sorted((j for j in range(d) if u[j]), key=lambda j: -u[j])
        return None if len(o) > 10 and u[o[9]] == u[o[10]] else o[:10]
    return sorted(range(d), key=lambda j: -case['imp'][j])[:10]


def check_importance(tag, case, got, prob, space, C, pi, minimal, stop, eps=1e-9, half=None, exact=None):
    """the result of a minimal-explanation search against exact probabilities prob(i, S); exact(i, S): no rounding is involved"""
    exact = exact or (lambda i, T: eps == 0)
    d, n = case['d'], len(case['X'])
    imp, s_star, size, val = [np.asarray(v) for v in got]
    if s_star.shape != (n, d) or size.shape != (n,) or val.shape != (n,) or imp.shape != (d,):
        raise Violation(tag + ':shape', 'shapes %s %s %s %s' % (imp.shape, s_star.shape, size.shape, val.shape))
    bl = blocks(space, C)
    s_star, size, val, imp = s_star.tolist(), size.tolist(), val.tolist(), imp.tolist()
    count = [0.0] * d
    sure = True
    for i in range(n):
        k = int(size[i])
        S = s_star[i][:k]
        if any(v != -1 for v in s_star[i][k:]) or len(set(S)) != k or any(not 0 <= v < d for v in S):
            raise Violation(tag + ':malformed', 'observation %d: s_star %s size %s' % (i, s_star[i], k))
        best, found, amb, level = -1.0, None, False, {}
        last, near = None, False
        for sz in range(minimal, len(bl) + 1):
            big = 0
            for co in combinations(bl, sz):
                T = [j for b in co for j in b]
                p = 1.0 if len(T) == d else prob(i, T)
                level.setdefault(sz, []).append((p, T))
                big = len(T)
                if abs(p - pi) <= eps and len(T) < d and not exact(i, T):
                    near = True
            b = max(p for p, T in level[sz])
            best = max(best, b)
            if abs(best - pi) <= eps and near:
                amb = True
                break
            if best >= pi:
                found = sz
                break
            last = sz
            if stop and big >= (d // 2 if half is None else half):
                break
        if amb:
            sure = False
            continue
        allp = [(p, T) for v in level.values() for p, T in v]
        full = len(S) == d
        mine = 1.0 if full else prob(i, S)
        if allp:
            if abs(val[i] - mine) > max(eps * 10, 1e-12):
                raise Violation(tag + ':probability', 'observation %d: explanation %s reported with %r, its probability is %r' % (i, S, val[i], mine))
            if frozenset(S) not in set(frozenset(T) for p, T in allp):
                raise Violation(tag + ':size', 'observation %d: %s is not one of the candidate sets of size <= %s (blocks %s, minimal %s, pi %s)' % (i, S, found if found is not None else last, bl, minimal, pi))
            if max(best, 0) - val[i] > max(eps * 10, 1e-12):
                raise Violation(tag + ':not-best', 'observation %d: %s has %r, but %r is reached at size %s' % (i, S, val[i], best, found))
        if found is not None:
            if val[i] < pi - eps:
                raise Violation(tag + ':missed', 'observation %d: no explanation, but %r >= %r exists at size %d' % (i, best, pi, found))
            for j in S:
                count[j] += 1
    if sure:
        check_equal(tag + ':global', imp, [c / n for c in count], what='global importance')
    return sure


def check_antichain(tag, case, got, prob, space, C, pi, minimal, eps=1e-9, exact=None):
    """all minimal sets: exactly the sets reaching pi that contain no smaller set reaching it"""
    exact = exact or (lambda i, T: False)
    expl, val, glob = got
    d, n = case['d'], len(case['X'])
    bl = blocks(space, C)
    if len(expl) != n or len(val) != n:
        raise Violation(tag + ':shape', '%d explanations, %d probabilities for %d observations' % (len(expl), len(val), n))
    total, K, sure = [0.0] * d, 0, True
    for i in range(n):
        want, amb = [], False
        for sz in range(minimal, len(bl) + 1):
            for co in combinations(bl, sz):
                T = [j for b in co for j in b]
                if any(set(w) <= set(T) for w, p in want):
                    continue
                p = prob(i, T)
                if abs(p - pi) <= eps and not exact(i, T):
                    amb = True
                if p >= pi:
                    want.append((T, p))
        if amb:
            sure = False
            continue
        g = [list(int(v) for v in s) for s in expl[i]]
        if sorted(sorted(s) for s in g) != sorted(sorted(s) for s, p in want):
            raise Violation(tag + ':sets', 'observation %d: got %s, the minimal sets at level %s are %s' % (i, g, pi, [s for s, p in want]))
        if len(val[i]) != len(g):
            raise Violation(tag + ':probabilities', 'observation %d: %d sets, %d probabilities' % (i, len(g), len(val[i])))
        for s, v in zip(g, val[i]):
            p = prob(i, s)
            if abs(p - v) > 1e-8:
                raise Violation(tag + ':probability', 'observation %d: %s reported with %r, it is %r' % (i, s, v, p))
        for s in g:
            K += 1
            for j in s:
                total[j] += 1
    if sure and K:
        check_equal(tag + ':global', glob, [v / K for v in total], what='global frequency')
    return sure


def forest_shrinks(case):
    n = len(case['X'])
    per = [k for k in ('X', 'y', 't', 'S', 'down', 'up', 'cond') if case.get(k) is not None]
    for keep in shrink_list(list(range(n)), 1):
        yield dict(case, **{k: [case[k][i] for i in keep] for k in per})
    for keep in shrink_list(list(range(len(case['data']))), 2):
        yield dict(case, data=[case['data'][i] for i in keep], y_data=[case['y_data'][i] for i in keep])
    for t in shrink_list(case['trees'], 1):
        yield dict(case, trees=t)
    if case.get('C', [[]]) != [[]]:
        yield dict(case, C=[[]])


def arrays(case):
    A = lambda v: np.array(v, dtype=float)
    if case.get('tdef'):        # the interval the explainer takes from the model when none is given
        case['t'] = [list(default_interval(case, x)) for x in case['X']]
    return A(case['X']), A(case['y']), A(case['data']), A(case['y_data']), (None if case['clf'] else A(case['t']))
