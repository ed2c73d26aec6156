"""C09: minimal sufficient / counterfactual explanations on the projected forest."""
import numpy as np
from simlib import *
import forest as F

SEEDS = {'quick': 1400, 'thorough': 8000}
REAL = ['ACXplainer.importance_{sdp,ddp,cdp}_rf', 'ACVTree and ACVTreeAgnostic importance_sdp_rf', 'BaseAgnosTree', 'cyext_acv.global_{sdp,ddp,cdp}_rf', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitted ranger forest -> given trees in ranger\'s format']
NONTRIVIAL = 'two team members ran, at least one switch happened and some observation had an explanation smaller than all features'


def gen(rng, tier):
    big = rng.random() < 0.12
    c = F.gen_forest_case(rng, updown=True, **({'d': rng.choice([11, 12, 13]), 'n': 12, 'ntrees': rng.randint(1, 2), 'npts': rng.randint(1, 2), 'depth': 3} if big else {}))
    c['kind'] = rng.choice(['sdp', 'sdp', 'ddp', 'cdp'])
    c['C'] = gen_coalitions(rng, c['d'])
    c['pi'] = rng.choice([0.3, 0.5, 0.5, 0.7, 0.75, 0.85, 0.9, 0.95, 1.0])
    c['minimal'] = rng.choice([1, 1, 1, 0, 2])
    c['stop'] = rng.choice([0, 1])
    if big:
        c['stop'] = 1
    F.gen_via(rng, c)
    if c.get('via'):
        c['kind'] = 'sdp'
    return F.relabel(rng, c)


def run(case, ctx):
    a = F.explainer(case)
    X, y, D, yd, t = F.arrays(case)
    kw = dict(min_node_size=case['mns'], **F.t_args(case, t), C=case['C'], pi_level=case['pi'], minimal=case['minimal'], stop=bool(case['stop']))
    k = case['kind']
    memo = {}

    def exact(i, S):
        R = S if k == 'sdp' else [j for j in range(case['d']) if j not in S]
        ctx.probe('on-the-level')
        return F.dyadic(case, F.project(case, case['X'][i], R)[0])

    def prob(i, S):
        key = (i, frozenset(S))
        if key not in memo:
            if k == 'sdp':
                memo[key] = F.sdp(case, i, S)
            else:
                R = [j for j in range(case['d']) if j not in key[1]]
                memo[key] = F.ddp(case, i, R) if k == 'ddp' else F.cdp(case, i, R)
        return memo[key]
    if k == 'cdp':
        got = ctx.call(a.importance_cdp_rf, X, y, np.array(case['down']), np.array(case['up']), D, yd, **kw)
    else:
        got = ctx.call(getattr(a, 'importance_%s_rf' % k), X, y, D, yd, **kw)
    space = F.search_space(case)
    if space is None:       # several features tie for the last place
        ctx.probe('tied-space')
        return digest(list(got))
    sure = F.check_importance(k, case, got, prob, space, case['C'], case['pi'], case['minimal'], bool(case['stop']), exact=exact)
    ctx.probe('checked' if sure else 'borderline')
    if any(0 < s < case['d'] for s in np.asarray(got[2]).tolist()):
        ctx.probe('proper')
    return digest(list(got))


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('proper', 0) > 0


shrinks = F.forest_shrinks
