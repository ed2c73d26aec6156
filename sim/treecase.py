"""Given tree ensembles for ACVTree, and the reference model of its SDP / conditional-expectation estimators."""
import math
import numpy as np
from simlib import *
from forest import gen_subset
import oracle


def gen_tree_case(rng, clf=None, small=False, d=None, ntrees=None, wide=False):
    z = gen_size(rng)
    d = d or (rng.choice([7, 9, 12]) if wide and z['features'] else rng.choice([1, 2, 2, 3, 3, 4, 4, 5]))
    n = (25 if small else z['rows']) if z['rows'] else rng.choice([5, 8, 12] if small else [6, 12, 20, 30])
    clf = rng.random() < 0.55 if clf is None else clf
    X = gen_data(rng, n, d)
    ncls = rng.choice([2, 2, 3])
    if clf:
        def vals(r, rows):
            p = [r.random() + 0.05 for _ in range(ncls)]
            s = sum(p)
            return [round(x / s, 6) for x in p]
    else:
        grid = rng.random() < 0.4     # deviations exactly at the tolerance, several leaves of the same value

        def vals(r, rows):
            return [r.randint(-4, 4) / 2 if grid else round(r.uniform(-2, 2), 3)]
    trees = [gen_tree(rng, X, (5 if small else 7) if z['depth'] else rng.choice([1, 2, 3] if small else [1, 2, 3, 3, 4]), ncls, p_leaf=rng.choice([0, .1, .3]), values=vals)
             for _ in range(ntrees or ((6 if small else z['trees']) if z['trees'] else rng.randint(1, 3 if small else 4)))]
    bg = X if rng.random() < 0.7 else gen_data(rng, rng.randint(3, 15), d)
    return {'d': d, 'clf': int(clf), 'trees': trees, 'train': X, 'data': bg, 'X': gen_points(rng, X + bg, z['points'] or rng.randint(1, 4)),
            'S': gen_subset(rng, d), 'tX': rng.choice([0.25, 1.0, 2.25, 4.0] if not clf and grid else [0.05, 0.5, 1.0, 3.0]), 'C': gen_coalitions(rng, d), 'sched': gen_sched(rng)}


def boosted(rng, case):
    """make of a case with two classes the one of a binary boosting model: its trees hold margins, each is read as the probability the margin stands for"""
    if not case['clf'] or len(case['trees'][0]['v'][0]) != 2:
        return case
    lr = rng.choice([.1, .5, 1.0])
    m = rng.choice([1.0, 4.0])
    case['boost'] = {'lr': lr, 'prior': rng.choice([.5, .3, .8])}
    for t in case['trees']:
        t['m'] = [round(rng.uniform(-m, m) / lr, 3) for _ in t['f']]
        t['v'] = [[1 - q, q] for q in (1 / (1 + math.exp(-z * lr)) for z in t['m'])]
    return case


def scores(case, x):
    """the probability of each class"""
    T = case['trees']
    if 'boost' in case:
        b = case['boost']
        z = math.log(b['prior'] / (1 - b['prior'])) + sum(b['lr'] * t['m'][tree_leaf(t, x)] for t in T)
        q = 1 / (1 + math.exp(-z))
        return [1 - q, q]
    return [sum(tree_predict(t, x)[k] for t in T) / len(T) for k in range(len(T[0]['v'][0]))]


def boosting(case):
    """a GradientBoostingClassifier whose fitted trees are the given ones"""
    from sklearn.ensemble import GradientBoostingClassifier
    from sklearn.dummy import DummyClassifier

    class Boosting(GradientBoostingClassifier):
        def predict_proba(self, X):
            return np.array([scores(case, x) for x in np.asarray(X, dtype=float).tolist()])

    class Grown:
        def __init__(self, t):
            self.tree_ = np_tree(dict(t, v=[[z] for z in t['m']]))
    b, T = case['boost'], case['trees']
    e = Boosting(n_estimators=len(T), learning_rate=b['lr'])
    e.estimators_ = np.array([[Grown(t)] for t in T], dtype=object)
    e.init_ = DummyClassifier(strategy='prior')
    e.init_.class_prior_ = np.array([1 - b['prior'], b['prior']])
    e.classes_, e.n_classes_, e.n_features_in_ = np.array([0, 1]), 2, case['d']
    return e


class Stub:
    """the predictive model behind the trees"""

    def __init__(self, trees):
        self.trees = trees

    def predict_proba(self, X):
        return np.array([[sum(tree_predict(t, x)[k] for t in self.trees) / len(self.trees) for k in range(len(self.trees[0]['v'][0]))]
                         for x in np.asarray(X, dtype=float).tolist()])


def build(case, **kw):
    trees = case['trees']
    if 'boost' in case:
        from acv_explainers import ACVTree
        with quiet():
            return ACVTree(boosting(case), np.array(case['train'], dtype=float), **kw)
    if case['clf']:
        k = len(trees)
        trees = [dict(t, v=[[v / k for v in r] for r in t['v']]) for t in trees]
    m = acvtree(trees, case['train'], **kw)
    m.model = Stub(case['trees'])
    return m


def outputs(case, P):
    """class (classifier) or value (regressor) predicted for the points P"""
    T = case['trees']
    if case['clf']:
        o = []
        for x in P:
            s = scores(case, x)
            o.append(s.index(max(s)))
        return o
    return [sum(tree_predict(t, x)[0] for t in T) for x in P]


def near_tie(case, P):
    """the class of some point hangs on rounding"""
    if not case['clf']:
        return False
    for x in P:
        s = sorted(scores(case, x), reverse=True)
        if s[0] - s[1] < 1e-9:
            return True
    return False


class SDP:
    """the terms A (all rows), U (same decision / far rows) and D (the others) of the tree SDP estimators"""

    def __init__(self, case):
        self.case = case
        d = self.d = case['d']
        self.full = (1 << d) - 1
        self.k = len(case['trees']) if case['clf'] else 1
        self.fX, self.yp = outputs(case, case['X']), outputs(case, case['data'])
        self.T = []
        for t in case['trees']:
            L = []
            for v, box in leaves(t, d):
                L.append((v, box, [oracle.close_mask(r, box) for r in case['data']], [oracle.close_mask(x, box) for x in case['X']]))
            self.T.append(L)
        self.memo = {}

    def groups(self, i):
        """the three populations of observation i: 0 all, 1 'up', 2 'down'"""
        c = self.case
        if c['clf']:
            up = [y == self.fX[i] for y in self.yp]
        else:
            up = [(self.fX[i] - y) ** 2 > c['tX'] for y in self.yp]
        n = len(up)
        return [list(range(n)), [j for j in range(n) if up[j]], [j for j in range(n) if not up[j]]]

    def clf(self, i, S, cat=False):
        m = oracle.mask(S)
        out = []
        x = self.case['X'][i]
        for g in self.groups(i):
            tot = 0.0
            for L in self.T:
                num = den = 0.0
                for v, box, dm, xm in L:
                    if xm[i] & m != m:
                        continue
                    if cat:
                        r = [j for j in g if all(self.case['data'][j][s] == x[s] for s in S)]
                        ps, p = len(r), sum(1 for j in r if dm[j] == self.full)
                    else:
                        ps = sum(1 for j in g if dm[j] & m == m)
                        p = sum(1 for j in g if dm[j] == self.full)
                    if ps:
                        num += p / ps * v[self.fX[i]] / self.k
                        den += p / ps
                tot += num if cat else (num / den if den else 0.0)
            out.append(tot)
        A, U, D = out
        return A - D, U - D, max(abs(A), abs(U), abs(D))

    def reg(self, i, S, cat=False):
        m = oracle.mask(S)
        x, fx = self.case['X'][i], self.fX[i]
        out, mag = [], 0.0
        for g in self.groups(i):
            tot = 0.0
            same = [j for j in g if all(self.case['data'][j][s] == x[s] for s in S)]

            def ratio(dm1, dm2):
                if cat:
                    ps, p = len(same), sum(1 for j in same if dm1[j] & dm2[j] == self.full)
                else:
                    ps = sum(1 for j in g if dm1[j] & dm2[j] & m == m)
                    p = sum(1 for j in g if dm1[j] & dm2[j] == self.full)
                return p / ps if ps else 0.0
            for b, L in enumerate(self.T):
                ok = [l for l in L if l[3][i] & m == m]
                diag = [ratio(l[2], l[2]) for l in ok]
                norm = sum(diag)
                s = sum(w * (l[0][0] ** 2 - 2 * fx * l[0][0]) for w, l in zip(diag, ok))
                tot += s if cat else (s / norm if norm else 0.0)
                mag += sum(abs(w * l[0][0] * fx) + abs(w * l[0][0] ** 2) for w, l in zip(diag, ok))
                for b2, L2 in enumerate(self.T):
                    if b2 == b:
                        continue
                    ok2 = [l for l in L2 if l[3][i] & m == m]
                    for w, l in zip(diag, ok):
                        q = [ratio(l[2], l2[2]) for l2 in ok2]
                        s = sum(z * l[0][0] * l2[0][0] for z, l2 in zip(q, ok2))
                        nq = sum(q)
                        mag += sum(abs(z * l[0][0] * l2[0][0]) for z, l2 in zip(q, ok2))
                        if cat:
                            tot += s
                        elif norm and nq:
                            tot += w / norm * s / nq
            out.append(tot)
        A, U, D = out
        return U - A, U - D, mag    # mag: what may cancel

    def terms(self, i, S, cat=False):
        k = (i, frozenset(S), cat)
        if k not in self.memo:
            self.memo[k] = self.clf(i, S, cat) if self.case['clf'] else self.reg(i, S, cat)
        return self.memo[k]

    def exact(self, i, S, plain=False):
        """the exact value of the estimator of a classifier (per tree normalised, or not), None unless every intermediate number is exact in
        floating point too; 'zero' when the code must see a denominator of zero"""
        from fractions import Fraction as F
        m, out, fx = oracle.mask(S), [], self.fX[i]
        if not self.case['clf']:
            return self.exact_reg(i, m)
        for g in self.groups(i):
            tot = F(0)
            for L in self.T:
                num, den, ws = F(0), F(0), []
                for v, box, dm, xm in L:
                    if xm[i] & m != m:
                        continue
                    ps = sum(1 for j in g if dm[j] & m == m)
                    if not ps:
                        continue
                    p = F(sum(1 for j in g if dm[j] == self.full), ps)
                    w = F(v[fx]) / self.k
                    num, den = num + p * w, den + p
                    ws.append(p * w)
                    if not all(dyadic(q) for q in (p, w, p * w, num, den)):
                        return None
                if plain:
                    tot += num
                elif den:
                    if not all(dyadic(w / den) for w in ws):
                        return None
                    tot += num / den
            out.append(tot)
        A, U, D = out
        if U == D:
            return 0
        return (A - D) / (U - D) if dyadic((A - D) / (U - D)) else None

    def exact_reg(self, i, m):
        """the same for a regressor of one tree"""
        from fractions import Fraction as F
        out, fx = [], F(self.fX[i])
        if len(self.T) > 1 or not dyadic(fx):
            return None
        for g in self.groups(i):
            num, den, ws = F(0), F(0), []
            for v, box, dm, xm in self.T[0]:
                if xm[i] & m != m:
                    continue
                ps = sum(1 for j in g if dm[j] & m == m)
                if not ps:
                    continue
                p, w = F(sum(1 for j in g if dm[j] == self.full), ps), F(v[0])
                num, den = num + p * (w * w - 2 * fx * w), den + p
                ws.append(p * (w * w - 2 * fx * w))
                if not all(dyadic(q) for q in (p, w, p * w, p * w * w, 2 * fx * p * w, num, den)):
                    return None
            if den and not all(dyadic(w / den) for w in ws):
                return None
            out.append(num / den if den else F(0))
        A, U, D = out
        if U == D:
            return 0
        return (U - A) / (U - D) if dyadic((U - A) / (U - D)) else None

    def value(self, i, S, cat=False):
        """the estimator, or None when it hangs on rounding"""
        num, den, sc = self.terms(i, S, cat)
        if abs(den) <= 1e-7 * (1 + sc):
            return 0.0 if (num == 0 and den == 0 and sc == 0) else None
        return num / den


def dyadic(f):
    """f is a sum of few powers of two: every operation that gives it is exact"""
    return f.denominator & (f.denominator - 1) == 0 and f.denominator <= 1 << 20 and abs(f.numerator) < 1 << 30


def gen_grid_case(rng, d, clf=True):
    """a case whose numbers are all exact in floating point: binary features, every combination equally often, dyadic values"""
    data = [[float(i >> j & 1) for j in range(d)] for i in range(1 << d)] * rng.choice([1, 1, 2])
    rng.shuffle(data)

    def vals(r, rows):
        p = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8]) / 8
        return [p, 1 - p] if clf else [r.randint(-3, 3) / 2]
    trees = [gen_tree(rng, data, rng.choice([1, 2, 2, 3, 4]), 1 + clf, p_leaf=rng.choice([0, .1, .3]), values=vals) for _ in range(rng.choice([1, 1, 1, 2, 2, 4]) if clf else 1)]
    return {'d': d, 'clf': int(clf), 'trees': trees, 'train': data, 'data': data, 'X': [list(rng.choice(data)) for _ in range(rng.randint(1, 4))], 'S': gen_subset(rng, d), 'tX': rng.choice([.25, 1.0, 2.25]),
            'C': gen_coalitions(rng, d), 'sched': gen_sched(rng)}


def expectation(case, x, S, kind):
    """compute_exp ('leaf'), compute_exp_normalized ('norm'), compute_exp_cat ('cat')"""
    d = case['d']
    m, full = oracle.mask(S), (1 << d) - 1
    k = len(case['trees']) if case['clf'] else 1
    data = case['data']
    nout = len(case['trees'][0]['v'][0])
    out = [0.0] * nout
    for t in case['trees']:
        num, den = [0.0] * nout, 0.0
        for v, box in leaves(t, d):
            if kind == 'cat':
                if oracle.in_mask(x, box) & m != m:
                    continue
                r = [y for y in data if all(y[s] == x[s] for s in S)]
                ps, p = len(r), sum(1 for y in r if oracle.in_mask(y, box) == full)
            else:
                if oracle.close_mask(x, box) & m != m:
                    continue
                ps = sum(1 for y in data if oracle.in_mask(y, box) & m == m)
                p = sum(1 for y in data if oracle.close_mask(y, box) == full)
            if ps:
                for q in range(nout):
                    num[q] += p * v[q] / k / ps
                den += p / ps
        for q in range(nout):
            out[q] += (num[q] / den if den else 0.0) if kind == 'norm' else num[q]
    return out


def usage(case):
    """how many leaves of the ensemble have each feature on their path"""
    n = [0] * case['d']
    for t in case['trees']:
        def go(i, seen):
            if t['cl'][i] < 0:
                for j in seen:
                    n[j] += 1
                return
            s = seen | {t['f'][i]}
            go(t['cl'][i], s); go(t['cr'][i], s)
        go(0, frozenset())
    return n


def check_search(tag, case, got, sdp, units, pi, minimal, stop, cat=False, eps=1e-7):
    """the minimal sufficient explanations returned, against the exact value of every candidate set"""
    from itertools import combinations
    d, n = case['d'], len(case['X'])
    imp, s_star, size, val = [np.asarray(v) for v in got]
    if s_star.shape != (n, d) or size.shape != (n,) or val.shape != (n,) or imp.shape != (d,):
        raise Violation(tag + ':shape', 'shapes %s %s %s %s' % (imp.shape, s_star.shape, size.shape, val.shape))
    s_star, size, val = s_star.tolist(), size.tolist(), val.tolist()
    count, sure, nsure = [0.0] * d, True, 0
    for i in range(n):
        k = int(size[i])
        S = s_star[i][:k]
        if any(v != -1 for v in s_star[i][k:]) or len(set(S)) != k or any(not 0 <= v < d for v in S):
            raise Violation(tag + ':malformed', 'observation %d: s_star %s size %s' % (i, s_star[i], k))
        best, amb, found, seen, near = 0.0, False, None, [], False
        for sz in range(minimal, len(units) + 1):
            for co in combinations(units, sz):
                T = [j for b in co for j in b]
                p = 1.0 if len(T) == d else sdp.value(i, T, cat)
                if T and len(T) < d and not cat and (p is None or abs(p - pi) <= eps):
                    e = sdp.exact(i, T)
                    if e is not None:
                        p = float(e)
                    elif p is not None and (pi != 1.0 or sdp.groups(i)[2 if case['clf'] else 1]):
                        near = True         # not exactly 1: some row is decided otherwise
                elif p is not None and len(T) < d and abs(p - pi) <= eps and (pi != 1.0 or sdp.groups(i)[2 if case['clf'] else 1]):
                    near = True
                if p is None:
                    amb = True
                    break
                seen.append((p, T))
                if p > best - eps:
                    best = max(best, p)
            if amb or abs(best - pi) <= eps and near:
                amb = True
                break
            if best >= pi - (eps if pi == 1.0 else 0):
                found = sz
                break
            if stop and len(T) >= d // 2:
                break
        if amb:
            sure = False
            continue
        nsure += 1
        if not seen:
            continue
        top = max(p for p, T in seen)
        if top < -eps:
            if k or val[i] != 0:
                raise Violation(tag + ':spurious', 'observation %d: %s with %r, every candidate is below 0' % (i, S, val[i]))
            continue
        if abs(val[i] - best) > eps * 10:
            raise Violation(tag + ':not-best', 'observation %d: %s reported with %r; the best candidate up to size %s has %r' % (i, S, val[i], found, best))
        if top > eps:
            m = [p for p, T in seen if set(T) == set(S)]
            if not m:
                raise Violation(tag + ':size', 'observation %d: %s is not a candidate (units %s, minimal %s, pi %s, found at size %s)' % (i, S, units, minimal, pi, found))
            if abs(m[0] - val[i]) > eps * 10:
                raise Violation(tag + ':probability', 'observation %d: %s reported with %r, its value is %r' % (i, S, val[i], m[0]))
        if found is not None:
            for j in S:
                count[j] += 1
    if sure:
        check_equal(tag + ':global', imp, [c / n for c in count], what='global importance')
    return nsure


def tree_shrinks(case):
    for k in ('X', 'data', 'train'):
        for y in shrink_list(case[k], 2 if k != 'X' else 1):
            yield dict(case, **{k: y})
    for t in shrink_list(case['trees'], 1):
        yield dict(case, trees=t)
    if case.get('C', [[]]) != [[]]:
        yield dict(case, C=[[]])
    if len(case.get('S', [])) > 1:
        for s in shrink_list(case['S'], 1):
            yield dict(case, S=s)
