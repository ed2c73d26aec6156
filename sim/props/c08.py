"""C08: maximal rules, whatever the random stream of the annealing and the schedule of the kernel."""
import numpy as np
from simlib import *
import forest as F
import rngsim

SEEDS = {'quick': 840, 'thorough': 6000}
REAL = ['ACXplainer.compute_sdp_maxrules', 'ACVTreeAgnostic.compute_sdp_maxrules', 'utils.rules_by_annealing', 'utils.extend_partition', 'cyext_acv.compute_sdp_maxrule{,_verbose}', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'numpy\'s random stream -> simulated stream', 'fitted ranger forest -> given trees in ranger\'s format']
NONTRIVIAL = 'some rule was really extended'


def gen(rng, tier):
    large = rng.choice([''] * 20 + ['rows', 'points', 'trees', 'features', 'steps'])      # now and then one dimension of a case is larger
    c = F.gen_forest_case(rng, n=rng.choice([5, 10, 18]) if large != 'rows' else 60, npts=rng.randint(1, 2) if large != 'points' else 9, ntrees=rng.randint(1, 3) if large != 'trees' else 11,
                          d=rng.choice([1, 2, 2, 3, 3, 4]) if large != 'features' else rng.choice([7, 11]))
    c['pi'] = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9, 1.0])
    c['algo2'] = int(rng.random() < 0.3)
    c['verbose'] = rng.choice([0, 1])
    c['stream'] = rngsim.gen_stream(rng)
    c['p'] = {'p_best': rng.choice([0, 0.5, 0.85, 1]), 'n_try': rng.choice([0, 1, 4]), 'batch': rng.choice([1, 2, 4]), 'max_iter': rng.choice([0, 1, 4, 8]),
              'temp': rng.choice([0.1, 1, 10]), 'max_iter_convergence': rng.choice([1, 3])}
    if large == 'steps':
        c['p'].update(batch=rng.choice([4, 50]), max_iter=rng.choice([25, 60]), max_iter_convergence=rng.choice([3, 10]), n_try=rng.choice([4, 50]))
    if rng.random() < 0.7:
        # labels that the forest predicts: neighbouring cells with high probability
        S0 = rng.sample(range(c['d']), rng.randint(1, c['d']))
        c['S'] = [S0 for _ in c['S']] if rng.random() < .5 else [s or S0 for s in c['S']]
    return F.only_agn(rng, c)


def inbox(r, box, closed=False):
    return all((lo <= v if closed else lo < v) and v <= hi for v, (lo, hi) in zip(r, box))


def run(case, ctx):
    a = F.explainer(case)
    X, y, D, yd, t = F.arrays(case)
    n, d, pi = len(case['X']), case['d'], case['pi']
    kw = dict(pi=pi) if case.get('via') else dict(pi_level=pi, verbose=bool(case['verbose']), algo2=bool(case['algo2']), **case['p'])
    with rngsim.stream(case['stream'], ctx):
        out = ctx.call(a.compute_sdp_maxrules, X, y, D, yd, case['S'], min_node_size=case['mns'], **F.t_args(case, t), **kw)
    p, R = np.asarray(out[0]).tolist(), np.asarray(out[1])
    if R.shape != (n, d, 2):
        raise Violation('maxrule:shape', R.shape)
    R = R.tolist()
    for i in range(n):
        rows, box = F.project(case, case['X'][i], case['S'][i])
        if abs(p[i] - F.mean_over(case, rows, F.inside(case, i))) > 1e-9:
            raise Violation('maxrule:probability', 'observation %d: %r, the rule has %r' % (i, p[i], F.mean_over(case, rows, F.inside(case, i))))
        for j in range(d):
            if R[i][j][0] > box[j][0] or R[i][j][1] < box[j][1]:
                raise Violation('maxrule:shrunk', 'observation %d feature %d: %s does not contain the starting %s' % (i, j, R[i][j], box[j]))
        if not inbox(case['X'][i], R[i]):
            raise Violation('maxrule:outside', 'observation %d not in its rule %s' % (i, R[i]))
        for r in case['data']:
            if inbox(r, R[i]) and not inbox(r, box):
                q, b = F.project(case, r, case['S'][i])
                pr = F.mean_over(case, q, F.inside(case, i))
                if pr < pi - 1e-9:
                    raise Violation('maxrule:impure', 'observation %d: the extended rule %s admits the row %s, whose rule has %r < %r' % (i, R[i], r, pr, pi))
        if R[i] != box:
            ctx.probe('extended')
    return digest([np.asarray(R)])


def nontrivial(ctx):
    return ctx.probes.get('extended', 0) > 0


def shrinks(case):
    yield from F.forest_shrinks(case)
    for k, v in (('max_iter', 0), ('batch', 1), ('n_try', 0)):
        if case['p'][k] != v:
            yield dict(case, p=dict(case['p'], **{k: v}))
