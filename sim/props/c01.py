"""C01: Shapley values are the exact Shapley values of the leaf game, whatever the schedule and the team size."""
import numpy as np
from simlib import *
import oracle

SEEDS = {'quick': 1280, 'thorough': 8000}
REAL = ['ACVTree / BaseTree construction', 'cyext_acv.shap_values_leaves_pa', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap']
NONTRIVIAL = 'two team members ran (team_max>1), at least one switch happened and some value is not zero'


def gen(rng, tier):
    z = gen_size(rng)
    d = rng.choice([8, 9]) if z['features'] else rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    n = z['rows'] or rng.choice([6, 12, 20, 35])
    X = gen_data(rng, n, d)
    nout = rng.choice([1, 1, 2, 3])
    trees = [gen_tree(rng, X, 8 if z['depth'] else rng.choice([1, 2, 3, 3, 4]), nout, p_leaf=rng.choice([0, .15, .4])) for _ in range(z['trees'] or rng.randint(1, 4))]
    bg = X if rng.random() < 0.6 else gen_data(rng, rng.randint(3, 20), d)
    return {'d': d, 'data': bg, 'trees': trees, 'C': gen_coalitions(rng, d), 'X': gen_points(rng, X + bg, z['points'] or rng.randint(1, 5)),
            'sched': gen_sched(rng), 'threads': rng.choice([1, 2, 5, 10])}


def run(case, ctx):
    m = acvtree(case['trees'], case['data'])
    X = np.array(case['X'], dtype=float)
    got = ctx.call(m.shap_values, X, case['C'], case['threads'])
    got = np.asarray(got)
    want = oracle.shap(case['trees'], case['data'], case['X'], case['C'])
    check_equal('shapley-value', got, want, what='Shapley value (observation, feature, output)')
    if np.any(got != 0):
        ctx.probe('nonzero')
    # efficiency against the ensemble itself, when every leaf reached is populated
    return digest(got)


def shrinks(case):
    for k in ('X', 'trees', 'data'):
        for y in shrink_list(case[k], 1):
            yield dict(case, **{k: y})
    if case['C'] != [[]]:
        yield dict(case, C=[[]])
