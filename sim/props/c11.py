"""C11: probabilities under a condition on, or an intervention of, the other features, and the searches built on them."""
import numpy as np
from simlib import *
import forest as F

SEEDS = {'quick': 1800, 'thorough': 10000}
REAL = ['ACXplainer.compute_{ddp,cdp}_{cond,intv}_weights', 'compute_{ddp,cdp}_intv_same', 'importance_{ddp,cdp}_intv', 'BaseAgnosTree', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitted ranger forest -> given trees in ranger\'s format']
NONTRIVIAL = 'two team members ran, at least one switch happened and the condition changed some probability or weight'


def gen(rng, tier):
    big = rng.random() < .06
    c = F.gen_forest_case(rng, updown=True, cond=True, **({'d': rng.choice([11, 12]), 'n': 12, 'ntrees': rng.randint(1, 2), 'npts': rng.randint(1, 2), 'depth': 3} if big else {}))
    c['ops'] = rng.sample(['ddp_cond', 'cdp_cond', 'ddp_intv', 'ddp_same', 'cdp_intv', 'cdp_same', 'ddp_search', 'cdp_search'], rng.randint(1, 3))
    c['C'] = gen_coalitions(rng, c['d'])
    c['pi'] = rng.choice([0.3, 0.5, 0.7, 0.9, 1.0])
    c['minimal'] = rng.choice([1, 1, 0])
    c['stop'] = rng.choice([0, 1])
    if big:         # more features than the search looks at
        c['ops'] = [rng.choice(['ddp_search', 'cdp_search'])]
        c['stop'] = 1
    return F.relabel(rng, c)


def run(case, ctx):
    a = F.acx(case)
    X, y, D, yd, t = F.arrays(case)
    cond = np.array(case['cond'], dtype=float)
    n = len(case['X'])
    kw = dict(min_node_size=case['mns'], **F.t_args(case, t))
    out = []
    down, up = np.array(case['down']), np.array(case['up'])
    for op in case['ops']:
        if op.startswith('cdp_') and op != 'cdp_cond' and case['clf']:
            continue  # the classification branch of the interventional cdp has no documented meaning
        if op == 'ddp_cond':
            p, w = ctx.call(a.compute_ddp_cond_weights, X, y, D, yd, case['S'], cond, **kw)
            want = [F.ddp(case, i, case['S'][i], cond=case['cond'][i]) for i in range(n)]
            ww = [F.weights(case, F.project(case, case['X'][i], case['S'][i], cond=case['cond'][i])[0]) for i in range(n)]
        elif op == 'cdp_cond':
            p, w = ctx.call(a.compute_cdp_cond_weights, X, y, down, up, D, yd, case['S'], cond, **kw)
            want = [F.cdp(case, i, case['S'][i], cond=case['cond'][i]) for i in range(n)]
            ww = [F.weights(case, F.project(case, case['X'][i], case['S'][i], cond=case['cond'][i])[0]) for i in range(n)]
        else:
            pr = F.ddp if op.startswith('ddp') else F.sdp
            P = lambda i, S: pr(case, i, S, cond=case['cond'][i], mode='intv')
            if op.endswith('_intv'):
                p, w = ctx.call(getattr(a, 'compute_%s_weights' % op), X, y, D, yd, case['S'], cond, **kw)
                want = [P(i, case['S'][i]) for i in range(n)]
                ww = [F.weights(case, F.project(case, case['X'][i], case['S'][i], cond=case['cond'][i], mode='intv')[0]) for i in range(n)]
            elif op.endswith('_same'):
                p = ctx.call(getattr(a, 'compute_%s_intv_same' % op[:3]), X, y, D, yd, case['S'][0], cond, **kw)
                want = [P(i, case['S'][0]) for i in range(n)]
                w = ww = None
            else:
                got = ctx.call(getattr(a, 'importance_%s_intv' % op[:3]), X, y, D, yd, cond, C=case['C'], pi_level=case['pi'],
                               minimal=case['minimal'], stop=bool(case['stop']), **kw)
                space = F.search_space(case)
                if space is None:       # several features tie for the last place
                    ctx.probe('tied-space'); out.append(digest(list(got)))
                    continue
                memo = {}

                def prob(i, S):
                    k = (i, frozenset(S))
                    if k not in memo:
                        memo[k] = P(i, S)
                    return memo[k]
                F.check_importance(op, case, got, prob, space, case['C'], case['pi'], case['minimal'], bool(case['stop']),
                                   exact=lambda i, S: F.dyadic(case, F.project(case, case['X'][i], S, cond=case['cond'][i], mode='intv')[0]))
                ctx.probe('cond'); out.append(digest(list(got)))
                continue
        check_equal(op, p, want, what=op)
        if ww is not None:
            check_equal(op + ':weights', w, ww, what=op + ' weights')
        base = [F.ddp(case, i, case['S'][i]) for i in range(n)]
        if want != base:
            ctx.probe('cond')
        out.append(digest([np.asarray(p)]))
    return out


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('cond', 0) > 0


shrinks = F.forest_shrinks
