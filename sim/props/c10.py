"""C10: all minimal sufficient (counterfactual) explanations, and the local importance they give."""
import numpy as np
from simlib import *
import forest as F

SEEDS = {'quick': 1200, 'thorough': 8000}
REAL = ['ACXplainer.sufficient_{expl,cxpl}_rf', 'ACVTree and ACVTreeAgnostic sufficient_expl_rf', 'ACXplainer.compute_local_sdp', 'BaseAgnosTree', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitted ranger forest -> given trees in ranger\'s format']
NONTRIVIAL = 'two team members ran, at least one switch happened and some observation had an explanation'


def gen(rng, tier):
    big = rng.random() < 0.05
    c = F.gen_forest_case(rng, **({'d': rng.choice([11, 12]), 'n': 12, 'ntrees': rng.randint(1, 2), 'npts': 1, 'depth': 3} if big else {'d': rng.choice([1, 2, 3, 3, 4, 4, 5])}))
    c['kind'] = rng.choice(['expl', 'expl', 'cxpl'])
    c['C'] = gen_coalitions(rng, c['d'])
    c['pi'] = rng.choice([0.3, 0.5, 0.5, 0.7, 0.75, 0.85, 0.9, 0.95, 1.0])
    c['minimal'] = rng.choice([1, 1, 1, 0, 2])
    F.gen_via(rng, c)
    if c.get('via'):
        c['kind'] = 'expl'
    return F.relabel(rng, c)


def run(case, ctx):
    a = F.explainer(case)
    X, y, D, yd, t = F.arrays(case)
    kw = dict(min_node_size=case['mns'], **F.t_args(case, t), C=case['C'], pi_level=case['pi'], minimal=case['minimal'])
    memo = {}

    def prob(i, S):
        key = (i, frozenset(S))
        if key not in memo:
            memo[key] = F.sdp(case, i, S) if case['kind'] == 'expl' else F.ddp(case, i, S)
        return memo[key]
    got = ctx.call(a.sufficient_expl_rf if case['kind'] == 'expl' else a.sufficient_cxpl_rf, X, y, D, yd, **kw)
    space = F.search_space(case)
    if space is None:       # several features tie for the last place
        ctx.probe('tied-space')
        return digest([[list(s) for s in e] for e in got[0]])
    sure = F.check_antichain(case['kind'], case, got, prob, space, case['C'], case['pi'], case['minimal'], exact=lambda i, S: F.dyadic(case, F.project(case, case['X'][i], S)[0]))
    ctx.probe('checked' if sure else 'borderline')
    if any(len(e) for e in got[0]):
        ctx.probe('proper')
        if case['minimal'] > 0:
            # share of the observation's explanations each feature is in, averaged over the observations that have one
            from acv_explainers import ACXplainer
            loc = ctx.call(ACXplainer.compute_local_sdp, case['d'], got[0], _name='compute_local_sdp')
            n, w = 0, [0.0] * case['d']
            for e in got[0]:
                if len(e):
                    n += 1
                    for s in e:
                        for j in s:
                            w[int(j)] += 1.0 / len(e)
            check_equal('local-importance', loc, [v / n for v in w], what='local importance')
    return digest([[list(s) for s in e] for e in got[0]])


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('proper', 0) > 0


shrinks = F.forest_shrinks
