"""C05: minimal sufficient explanations of tree ensembles."""
import numpy as np
from simlib import *
import treecase as T
import forest as F

SEEDS = {'quick': 1400, 'thorough': 8000}
REAL = ['ACVTree.importance_sdp_{clf,clf_greedy,clf_search,reg,reg_cat}', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'predictive model -> its trees']
NONTRIVIAL = 'two team members ran, at least one switch happened and some explanation was smaller than the full set'


def gen(rng, tier):
    kind = rng.choice(['clf', 'clf', 'search', 'reg', 'reg_cat'])
    big = kind == 'clf' and rng.random() < 0.06
    if kind in ('clf', 'search'):
        c = T.gen_tree_case(rng, True, d=rng.choice([11, 12]) if big else rng.choice([1, 2, 3, 4, 5, 6]))
    else:
        c = T.gen_tree_case(rng, False, small=kind == 'reg_cat', d=rng.choice([1, 2, 3, 4, 5, 5] if kind == 'reg' else [1, 2, 3, 4]),
                            ntrees=1 if kind == 'reg' else None)
    if big:
        c['X'] = c['X'][:1]
    if kind == 'reg_cat':
        c['X'] = [list(rng.choice(c['data'])) if rng.random() < .8 else x for x in c['X']]
    grid = not big and kind != 'reg_cat' and rng.random() < .25
    if grid:
        c = T.gen_grid_case(rng, rng.choice([2, 3, 3, 4]), kind != 'reg')
    elif not big and kind in ('clf', 'search') and rng.random() < .25:
        T.boosted(rng, c)
    c['kind'] = kind
    c['C'] = gen_coalitions(rng, c['d'])
    c['pi'] = rng.choice([0.3, 0.6, 0.8, 0.9, 0.9, 0.95, 1.0])
    c['minimal'] = rng.choice([1, 1, 1, 0, 2])
    c['stop'] = 1 if big else rng.choice([0, 1])
    if grid:
        c['pi'] = rng.choice([.25, .5, .5, .75, .75, 1.0])
    if not big and not grid and c['d'] >= 4 and rng.random() < 0.3:
        # a wide group that smaller explanations compete with
        c['C'] = [rng.sample(range(c['d']), rng.randint(c['d'] // 2, c['d'] - 2))]
        c['pi'], c['stop'], c['minimal'] = rng.choice([0.9, 0.95, 1.0]), 0, 1
    if kind == 'search':
        c['space'] = rng.sample(range(c['d']), rng.randint(1, c['d']))
    return c


def run(case, ctx):
    if T.near_tie(case, case['X'] + case['data']):
        ctx.probe('borderline')
        return 'tie'
    m = T.build(case)
    X, D = np.array(case['X'], dtype=float), np.array(case['data'], dtype=float)
    d, kind, C = case['d'], case['kind'], case['C']
    kw = dict(C=C, pi_level=case['pi'], minimal=case['minimal'], stop=bool(case['stop']))
    space = list(range(d))
    sure = True
    if kind == 'clf':
        got = ctx.call(m.importance_sdp_clf, X, D, **kw)
        if d > 10:
            u = T.usage(case)
            o = sorted((j for j in range(d) if u[j]), key=lambda j: -u[j])
            if len(o) > 10 and u[o[9]] == u[o[10]]:
                ctx.probe('borderline')
                return digest(list(got))
            space = o[:10]
            ctx.probe('search-space')
    elif kind == 'search':
        space = case['space']
        got = ctx.call(m.importance_sdp_clf_search, X, D, search_space=list(space), **kw)
    elif kind == 'reg':
        got = ctx.call(m.importance_sdp_reg, X, case['tX'], D, **kw)
    else:
        got = ctx.call(m.importance_sdp_reg_cat, X, case['tX'], D, **kw)
    n = T.check_search(kind, case, got, T.SDP(case), F.blocks(space, C), case['pi'], case['minimal'], bool(case['stop']), cat=kind == 'reg_cat')
    ctx.probe('checked', n)
    ctx.probe('borderline', len(X) - n)
    if any(0 < s < d for s in np.asarray(got[2]).tolist()):
        ctx.probe('proper')
    return digest(list(got))


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('proper', 0) > 0


shrinks = T.tree_shrinks
