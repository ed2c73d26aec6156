"""C20: swing values: the Shapley values of the game 'the features given keep the decision with probability at least the threshold'."""
import math
import numpy as np
from simlib import *
import oracle
import treecase as T

SEEDS = {'quick': 1280, 'thorough': 8000}
REAL = ['ACVTree.swing_sv_clf', 'ACVTree.swing_sv_clf_nopa', 'ACVTree.swing_sv_clf_slow', 'ACVTree.demo_swing_sv_clf', 'ACVTree.demo_swing_sv_clf_cat', 'cyext_acv', 'cyext_acv_nopa', 'py_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'predictive model -> its trees']
NONTRIVIAL = 'two team members ran, at least one switch happened and some observation had a swing and every coalition decided'


def gen(rng, tier):
    c = T.gen_tree_case(rng, True, small=True, d=rng.choice([1, 2, 2, 3, 3, 3, 4] + [5] * (tier == 'thorough')))
    if rng.random() < 0.5:      # observations and rows exactly on the thresholds
        on = [t['t'][i] for t in c['trees'] for i in range(len(t['f'])) if t['cl'][i] >= 0]
        for x in c['X']:
            if on and rng.random() < 0.5:
                t = rng.choice(c['trees'])
                k = [i for i in range(len(t['f'])) if t['cl'][i] >= 0]
                if k:
                    i = rng.choice(k)
                    x[t['f'][i]] = t['t'][i]
    grid = rng.random() < .3
    if grid:
        c = T.gen_grid_case(rng, rng.choice([1, 2, 2, 3, 3, 4]))
    elif rng.random() < .25:
        T.boosted(rng, c)
    c['kind'] = rng.choice(['direct', 'direct', 'nopa', 'slow', 'demo', 'demo_cat'])
    if c['kind'].startswith('demo') and any(len(g) == 1 for g in c['C']):    # refused by the variant in Python
        c['kind'] = 'nopa'
    c['level'] = 0.9 if c['kind'].startswith('demo') else rng.choice([1.0, 1.0, .75, .5, .25] if grid else [0.9, 0.8137, 0.6371, 0.5193, 0.2719])
    c['threads'] = rng.choice([1, 2, 5, 10])
    if c['kind'] == 'demo_cat':     # the discrete estimator conditions on equality
        c['X'] = [list(rng.choice(c['data'])) if rng.random() < .8 else x for x in c['X']]
    return c


def plain(o, i, S):
    """the estimator without the normalisation of each tree (the slow variant): its numerator, denominator and size"""
    m = oracle.mask(S)
    out = []
    for g in o.groups(i):
        tot = 0.0
        for L in o.T:
            for v, box, dm, xm in L:
                if xm[i] & m != m:
                    continue
                ps = sum(1 for j in g if dm[j] & m == m)
                if ps:
                    tot += sum(1 for j in g if dm[j] == o.full) / ps * v[o.fX[i]] / o.k
        out.append(tot)
    A, U, D = out
    return A - D, U - D, max(abs(A), abs(U), abs(D))


def game(case, o, i, S):
    """the bounds of the game at S (0 or 1; both when it hangs on rounding)"""
    d, level = case['d'], case['level']
    if len(S) == d:
        return 1, 1
    if not S:
        return 0, 0
    if case['kind'] == 'slow':
        num, den, sc = plain(o, i, S)
        if abs(den) <= 1e-7 * (1 + sc):
            v = 0.0 if (num == 0 and den == 0 and sc == 0) else None
        else:
            v = num / den
    else:
        v = o.value(i, S, case['kind'] == 'demo_cat')
    if v is None or abs(v - level) < 1e-7 * (1 + abs(v)):
        e = None if case['kind'] == 'demo_cat' else o.exact(i, S, case['kind'] == 'slow')
        if e is not None:
            return (1, 1) if e >= level else (0, 0)
        return 0, 1
    return (1, 1) if v >= level else (0, 0)


def run(case, ctx):
    if T.near_tie(case, case['X'] + case['data']):
        ctx.probe('borderline')
        return 'tie'
    m = T.build(case)
    X, D = np.array(case['X'], dtype=float), np.array(case['data'], dtype=float)
    d, C, n = case['d'], case['C'], len(case['X'])
    kw = {'thresholds': case['level'], 'num_threads': case['threads']}
    if case['kind'].startswith('demo'):
        got = ctx.call(getattr(m, 'demo_swing_sv_clf' + case['kind'][4:]), X, D, C)
    else:
        got = ctx.call({'direct': m.swing_sv_clf, 'nopa': m.swing_sv_clf_nopa, 'slow': m.swing_sv_clf_slow}[case['kind']], X, D, C=C, **kw)
    phi, sw, prop = [np.asarray(v) for v in got]
    if phi.shape != (n, d) or sw.shape != (n, d, 2) or prop.shape != (n, d, 3):
        raise Violation('swing:shape', 'shapes %s %s %s' % (phi.shape, sw.shape, prop.shape))
    phi, sw, prop = phi.tolist(), sw.tolist(), prop.tolist()
    o = T.SDP(case)
    units = oracle.players_of(d, C)
    k = len(units)
    for i in range(n):
        v = [game(case, o, i, [j for u in range(k) if s >> u & 1 for j in units[u]]) for s in range(1 << k)]
        sure = all(a == b for a, b in v)
        ctx.probe('decided' if sure else 'borderline')
        for u in range(k):
            lo, hi = [0.0] * 6, [0.0] * 6      # value, positive part, negative part, numbers of positive, negative and null swings
            for s in range(1 << k):
                if s >> u & 1:
                    continue
                w = 1.0 / math.comb(k - 1, bin(s).count('1')) / k
                ch = sorted(set(b - a for b in set(v[s | 1 << u]) for a in set(v[s])))
                terms = [(w * c, w * max(c, 0), w * min(c, 0), c > 0, c < 0, c == 0) for c in ch]
                for q in range(6):
                    lo[q] += min(t[q] for t in terms)
                    hi[q] += max(t[q] for t in terms)
            for j in units[u]:
                g = [phi[i][j]] + sw[i][j] + prop[i][j]
                for q, name in enumerate(['value', 'positive', 'negative', 'positive-count', 'negative-count', 'null-count']):
                    if not lo[q] - 1e-9 <= g[q] <= hi[q] + 1e-9:
                        raise Violation('swing:' + name, 'observation %d, feature %d (unit %s) at level %s: got %r, expected %s' % (
                            i, j, units[u], case['level'], g[q], lo[q] if hi[q] - lo[q] < 1e-9 else [lo[q], hi[q]]))
        if sure:
            tot = sum(phi[i][u[0]] for u in units)
            if abs(tot - 1) > 1e-9:
                raise Violation('swing:total', 'observation %d: the values add up to %r' % (i, tot))
            if k > 1:
                ctx.probe('swings')
    return digest([np.asarray(g) for g in got])


def nontrivial(ctx):
    return ctx.probes.get('swings', 0) > 0 and (ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 or not ctx.tot.get('team_max'))


def shrinks(case):
    for c in T.tree_shrinks(case):
        yield c
    if case['threads'] > 1:
        yield dict(case, threads=1)
