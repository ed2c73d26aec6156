"""C02: Active Shapley values."""
import numpy as np
from simlib import *
import oracle

SEEDS = {'quick': 1280, 'thorough': 8000}
REAL = ['ACVTree.shap_values_acv', 'ACVTree.shap_values_acv_adap', 'utils.get_null_coalition', 'utils.get_active_null_coalition_list', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap']
NONTRIVIAL = 'two team members ran, at least one switch happened, some feature was null and some active value was not zero'


def gen(rng, tier):
    z = gen_size(rng)
    d = rng.choice([8, 9]) if z['features'] else rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    X = gen_data(rng, z['rows'] or rng.choice([6, 12, 20]), d)
    nout = rng.choice([1, 1, 2, 3])
    trees = [gen_tree(rng, X, 8 if z['depth'] else rng.choice([1, 2, 3, 3, 4]), nout, p_leaf=rng.choice([0, .15, .4])) for _ in range(z['trees'] or rng.randint(1, 4))]
    bg = X if rng.random() < 0.6 else gen_data(rng, rng.randint(3, 20), d)
    C = gen_coalitions(rng, d)
    P = gen_points(rng, X + bg, z['points'] or rng.randint(1, 5))
    kind = rng.choice(['acv', 'adap', 'adap'])
    units = oracle.players_of(d, C)

    def part():
        k = rng.randint(0 if rng.random() < .15 else 1, len(units))
        u = rng.sample(units, k)
        S = [j for g in u for j in g]
        return S
    return {'d': d, 'data': bg, 'trees': trees, 'C': C, 'X': P, 'kind': kind, 'S': [part() for _ in P], 'sched': gen_sched(rng)}


def run(case, ctx):
    m = acvtree(case['trees'], case['data'])
    X = np.array(case['X'], dtype=float)
    d, C = case['d'], case['C']
    if case['kind'] == 'acv':
        S = case['S'][0]
        N = [j for j in range(d) if j not in S]
        got = np.asarray(ctx.call(m.shap_values_acv, X, np.array(S, dtype=np.int64), np.array(N, dtype=np.int64), C))
        want = oracle.shap_active(case['trees'], case['data'], case['X'], S, N, C)
        if N:
            ctx.probe('null')
    else:
        from acv_explainers.utils import get_null_coalition, get_active_null_coalition_list
        s = -np.ones((len(X), d), dtype=np.int64)
        size = np.zeros(len(X), dtype=np.int64)
        for i, S in enumerate(case['S']):
            s[i, :len(S)] = S
            size[i] = len(S)
        ls, ln = ctx.call(get_active_null_coalition_list, s, size)
        if [[int(j) for j in q] for q in ls] != case['S'] or [sorted(int(j) for j in q) for q in ln] != [[j for j in range(d) if j not in S] for S in case['S']]:
            raise Violation('active-null-lists', 'explanations %s: active %s, null %s' % (case['S'], ls, ln))
        s, nl = ctx.call(get_null_coalition, s, size)
        got = np.asarray(ctx.call(m.shap_values_acv_adap, X, s, nl, size, C))
        want = []
        for i, S in enumerate(case['S']):
            N = [j for j in range(d) if j not in S]
            want += oracle.shap_active(case['trees'], case['data'], [case['X'][i]], S, N, C)
            if N:
                ctx.probe('null')
    check_equal('active-shapley-value', got, want, what='active Shapley value (observation, feature, output)')
    if np.any(got != 0):
        ctx.probe('nonzero')
    return digest(got)


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('null') and ctx.probes.get('nonzero')


def shrinks(case):
    n = len(case['X'])
    for keep in shrink_list(list(range(n)), 1):
        yield dict(case, X=[case['X'][i] for i in keep], S=[case['S'][i] for i in keep])
    for k in ('trees', 'data'):
        for y in shrink_list(case[k], 1):
            yield dict(case, **{k: y})
    if case['C'] != [[]]:
        yield dict(case, C=[[]])
