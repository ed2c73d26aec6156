"""C03: the parallel, sequential and cached estimators are interchangeable."""
import numpy as np
from simlib import *
import treecase as T
import oracle

SEEDS = {'quick': 1400, 'thorough': 8000}
REAL = ['ACVTree.shap_values*', 'ACVTree.leaves_cache*', 'ACVTree.compute_* and *_nopa', 'ACVTree.importance_* and *_nopa', 'ACVTree.swing_sv_clf*',
        'cyext_acv', 'cyext_acv_nopa', 'cyext_acv_cache', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'predictive model -> its trees']
NONTRIVIAL = 'two team members ran, at least one switch happened and some value is not zero'
KINDS = ['shap', 'shap', 'shap_cache', 'shap_cache', 'normalized', 'acv', 'acv_adap', 'sdp', 'sdp_cat', 'exp', 'exp_cat', 'exp_normalized', 'swing', 'search', 'search_cat']


def gen(rng, tier):
    kind = rng.choice(KINDS)
    clf = kind == 'swing' or rng.random() < 0.5
    if kind == 'search_cat':
        clf = False
    small = (not clf and kind in ('sdp', 'sdp_cat', 'search', 'search_cat')) or kind in ('swing', 'normalized')
    d = rng.choice([1, 2, 3, 4]) if small else rng.choice([1, 2, 3, 4, 5, 6])
    c = T.gen_tree_case(rng, clf, small=small, d=d)
    c['kind'] = kind
    c['threads'] = rng.choice([1, 2, 5])
    c['C'] = gen_coalitions(rng, d)
    if kind in ('acv', 'acv_adap'):
        units = oracle.players_of(d, c['C'])
        c['A'] = [[j for g in rng.sample(units, rng.randint(0 if rng.random() < .15 else 1, len(units))) for j in g] for _ in c['X']]
    if kind in ('normalized', 'shap_cache'):
        c['multi'] = rng.choice([0, 1])
        c['Ccache'] = c['C'] if rng.random() < .6 else gen_coalitions(rng, d)
    c['pi'] = rng.choice([0.3, 0.6, 0.9, 1.0])
    c['minimal'] = rng.choice([0, 1])
    c['th'] = rng.choice([0.3, 0.6, 0.9])
    if kind in ('sdp', 'sdp_cat', 'swing', 'search') and rng.random() < .25:
        T.boosted(rng, c)
    if kind.endswith('cat'):
        c['X'] = [list(rng.choice(c['data'])) if rng.random() < .8 else x for x in c['X']]
    return c


def run(case, ctx):
    if T.near_tie(case, case['X'] + case['data']):
        return 'tie'
    X, D = np.array(case['X'], dtype=float), np.array(case['data'], dtype=float)
    k, C, d, nt = case['kind'], case['C'], case['d'], case['threads']
    S = np.array(case['S'], dtype=np.int64)
    kw = {}
    m = T.build(case)

    def cached(**flags):
        # the constructor fills the caches
        from acv_explainers import ACVTree
        tr = case['trees']
        if case['clf']:
            tr = [dict(t, v=[[v / len(tr) for v in r] for r in t['v']]) for t in tr]
        return ctx.call(ACVTree, {'trees': [np_tree(t) for t in tr]}, data=np.array(case['train'], dtype=float), C=case['Ccache'],
                        multi_threads=bool(case['multi']), _name='ACVTree', **flags)
    tol = 1e-9
    if k == 'shap':
        r = [ctx.call(m.shap_values, X, C, nt), ctx.call(m.shap_values_nopa, X, C, nt)]
        if all(len(g) != 1 for g in C):         # the variants in Python refuse a group of one feature
            r += [ctx.call(m.py_shap_values, X, C), ctx.call(m.py_shap_valuesv2, X, C)]
    elif k == 'shap_cache':
        b = cached(cache=True)
        r = [ctx.call(m.shap_values, X, C, nt), ctx.call(b.shap_values, X, C, nt), ctx.call(b.shap_values_cache_nopa, X, C, nt),
             ctx.call(b.shap_values_nopa, X, C, nt), ctx.call(b.shap_values, X, C, nt)]
    elif k == 'normalized':
        b = cached(cache=True, cache_normalized=True)
        r = [ctx.call(m.shap_values_normalized, X, C, nt), ctx.call(b.shap_values_normalized, X, C, nt), ctx.call(b.shap_values_normalized_cache_nopa, X, C, nt)]
    elif k == 'acv':
        A = case['A'][0]
        s, n = np.array(A, dtype=np.int64), np.array([j for j in range(d) if j not in A], dtype=np.int64)
        r = [ctx.call(m.shap_values_acv, X, s, n, C, nt), ctx.call(m.shap_values_acv_nopa, X, s, n, C, nt)]
    elif k == 'acv_adap':
        from acv_explainers.utils import get_null_coalition
        s = -np.ones((len(X), d), dtype=np.int64)
        size = np.array([len(a) for a in case['A']], dtype=np.int64)
        for i, a in enumerate(case['A']):
            s[i, :len(a)] = a
        s, n = get_null_coalition(s, size)
        r = [ctx.call(m.shap_values_acv_adap, X, s, n, size, C, nt), ctx.call(m.shap_values_acv_adap_nopa, X, s, n, size, C, nt)]
    elif k in ('sdp', 'sdp_cat'):
        e = '_cat' if k == 'sdp_cat' else ''
        if case['clf']:
            r = [ctx.call(getattr(m, 'compute_sdp_clf' + e + z), X, S, D, nt) for z in ('', '_nopa')]
        else:
            r = [ctx.call(getattr(m, 'compute_sdp_reg' + e + z), X, case['tX'], S, D, nt) for z in ('', '_nopa')]
        tol = 1e-7
    elif k in ('exp', 'exp_cat', 'exp_normalized'):
        r = [ctx.call(getattr(m, 'compute_' + k + z), X, S, D, nt) for z in ('', '_nopa')]
    elif k == 'swing':
        r = [ctx.call(f, X, D, C, case['th'], nt) for f in (m.swing_sv_clf, m.swing_sv_clf_nopa)]
    else:
        a = (X, D) if case['clf'] else (X, case['tX'], D)
        f = 'importance_sdp_clf' if case['clf'] else 'importance_sdp_reg' + ('_cat' if k == 'search_cat' else '')
        p = dict(C=C, pi_level=case['pi'], minimal=case['minimal'])
        r = [ctx.call(getattr(m, f), *a, stop=False, **p), ctx.call(getattr(m, f), *a, stop=True, **p), ctx.call(getattr(m, f + '_nopa'), *a, **p)]
    first = r[0]
    if isinstance(first, tuple):
        if k == 'swing':
            for j in range(len(first)):
                check_equal('interchange:swing', r[1][j], first[j], 1e-9, 'sequential and parallel swing values')
        else:
            check_search_pair(case, r)
    else:
        for q in r[1:]:
            if k in ('sdp', 'sdp_cat'):
                compare_sdp(case, first, q, tol)
            else:
                check_equal('interchange:' + k, q, first, tol, 'variants of ' + k)
    flat = first[0] if isinstance(first, tuple) else first
    if np.any(np.asarray(flat) != 0):
        ctx.probe('nonzero')
    return digest([first[0], first[1]] if isinstance(first, tuple) else first)


def compare_sdp(case, a, b, tol):
    o = None
    for i, (x, y) in enumerate(zip(np.asarray(a).tolist(), np.asarray(b).tolist())):
        if not close(x, y, tol):
            o = o or T.SDP(case)
            num, den, sc = o.terms(i, case['S'], case['kind'] == 'sdp_cat')
            multi = not case['clf'] and len(case['trees']) > 1
            if abs(den) <= 1e-7 * (1 + sc) or multi and max(abs(x), abs(y)) > 1e6:
                continue
            raise Violation('interchange:sdp', 'observation %d: %r and %r' % (i, x, y))


def check_search_pair(case, r):
    """sequential search = parallel search with stop=True, up to candidates that tie"""
    from itertools import combinations
    import forest as F
    p, q = [[np.asarray(v).tolist() for v in x] for x in r[1:]]
    if [np.asarray(v).shape for v in r[1]] != [np.asarray(v).shape for v in r[2]]:
        raise Violation('interchange:search:shape', '')
    if p == q:
        return
    cat = case['kind'] == 'search_cat'
    units = F.blocks(list(range(case['d'])), case['C'])
    multi = not case['clf'] and len(case['trees']) > 1 and not cat
    o = T.SDP(case)
    ok = True
    for i in range(len(case['X'])):
        if p[1][i] == q[1][i] and close(p[3][i], q[3][i], 1e-9):
            continue
        ok = False
        if multi and close(p[3][i], q[3][i], 1e-6):
            continue
        if not multi:
            vals = [o.value(i, [j for b in co for j in b], cat) for z in range(case['minimal'], len(units) + 1) for co in combinations(units, z)]
            if None in vals or any(abs(v - case['pi']) < 1e-7 for v in vals):
                continue
            if close(p[3][i], q[3][i], 1e-7) and p[2][i] == q[2][i]:
                continue
        raise Violation('interchange:search', 'observation %d: parallel %s, sequential %s' % (i, (p[1][i], p[3][i]), (q[1][i], q[3][i])))
    if ok:
        check_equal('interchange:search:global', q[0], p[0], 1e-9, 'global importance')


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('nonzero')


def shrinks(case):
    n = len(case['X'])
    for keep in shrink_list(list(range(n)), 1):
        c = dict(case, X=[case['X'][i] for i in keep])
        if 'A' in case:
            c['A'] = [case['A'][i] for i in keep]
        yield c
    for c in T.tree_shrinks(case):
        if len(c['X']) == n and c['C'] == case['C']:
            yield c
    if case['C'] != [[]]:
        yield dict(case, C=[[]])
    if case.get('Ccache', [[]]) != [[]]:
        yield dict(case, Ccache=[[]])
