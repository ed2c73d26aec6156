"""C06: probabilities, expectations and distribution functions of the projected forest."""
import numpy as np
from simlib import *
import forest as F

SEEDS = {'quick': 1800, 'thorough': 12000}
REAL = ['ACXplainer wrappers', 'ACVTree and ACVTreeAgnostic compute_{sdp,exp,cdf,quantile,quantile_diff}_rf', 'ACVTree.compute_{exp,sdp,quantile}_shaff', 'BaseAgnosTree', 'cyext_acv.compute_{sdp,ddp,cdp,exp,cdf}_rf', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitted ranger forest -> given trees in ranger\'s format']
NONTRIVIAL = 'two team members ran, at least one switch happened and some probability is neither 0 nor 1'


def gen(rng, tier):
    c = F.gen_forest_case(rng, updown=True, wide=True)
    c['ops'] = rng.sample(['sdp', 'ddp', 'cdp', 'exp', 'cdf'], rng.randint(1, 3))
    F.gen_via(rng, c)
    if c.get('via'):        # what ACVTree offers
        c['ops'] = rng.sample(['sdp', 'exp', 'cdf', 'quantile', 'quantile_diff'] + (['shaff'] if c['via'] == 'tree' else []), rng.randint(1, 3))
        c['q'] = rng.choice([95, 95, 50, 5, 0, 100, 33.3])
        c['shaff'] = [rng.choice(['exp', 'sdp', 'quantile']), F.gen_subset(rng, c['d']), rng.choice([0.05, 0.3, 1.0])]
    return F.relabel(rng, c)


def between(got, want):
    """the value expected: the one got, when it is in the range"""
    return [g if r is None or r[0] <= g <= r[1] else r[0] if g < r[0] else r[1] for g, r in zip(got, want)]


def plain(case, ctx, a, X, y, D, yd, op):
    """the estimators that follow the projected forest without threads"""
    n, N, q = len(case['X']), len(case['data']), case['q']
    c1 = dict(case, mns=max(case['mns'], 1))        # an empty projection has no distribution
    v = [b + 1e-6 * j for j, b in enumerate(case['y_data'])]     # no ties
    w1 = lambda i, S, strict=True: F.weights(c1, F.project_plain(c1, case['X'][i], S, strict))
    if op == 'shaff':
        k, S, t = case['shaff']
        W = [w1(i, S) for i in range(n)]
        if k == 'exp':
            got = ctx.call(a.compute_exp_shaff, X, D, np.array(v), S, c1['mns'])
            want = [sum(u * b for u, b in zip(w, v)) for w in W]
        elif k == 'quantile':
            got = ctx.call(a.compute_quantile_shaff, X, D, np.array(v), S, c1['mns'], q)
            want = [F.quantile(v, w, q) for w in W]
        elif case['clf']:
            got = ctx.call(a.compute_sdp_clf_shaff, X, y, D, yd, S, c1['mns'])
            want = [sum(u for u, b in zip(w, case['y_data']) if b == case['y'][i]) for i, w in enumerate(W)]
        else:
            got = ctx.call(a.compute_sdp_shaff, X, y, t, D, yd, S, c1['mns'])
            want = [sum(u for u, b in zip(w, case['y_data']) if (b - case['y'][i]) ** 2 <= t) for i, w in enumerate(W)]
        return np.asarray(got)[:, 0], between(np.asarray(got)[:, 0], want) if k == 'quantile' else want
    got = ctx.call(getattr(a, 'compute_%s_rf' % op), X, y, D, np.array(v), case['S'], min_node_size=c1['mns'], classifier=case['clf'], quantile=q)
    if op == 'quantile':
        want = [F.quantile(v, w1(i, case['S'][i]), q) for i in range(n)]
    else:
        want = [F.quantile([case['y'][i] - b for b in v], w1(i, case['S'][i], False), q) for i in range(n)]
    got = np.asarray(got).tolist()
    if len(got) != n:
        raise Violation(op + ':shape', len(got))
    return got, between(got, want)


def run(case, ctx):
    a = F.explainer(case)
    X, y, D, yd, t = F.arrays(case)
    n = len(case['X'])
    kw = dict(min_node_size=case['mns'], **F.t_args(case, t))
    out = []
    for op in case['ops']:
        if op in ('quantile', 'quantile_diff', 'shaff'):
            got, want = plain(case, ctx, a, X, y, D, yd, op)
            ctx.probe(op)
        elif op == 'sdp':
            got = ctx.call(a.compute_sdp_rf, X, y, D, yd, case['S'], **kw)
            want = [F.sdp(case, i, case['S'][i]) for i in range(n)]
        elif op == 'ddp':
            got = ctx.call(a.compute_ddp_rf, X, y, D, yd, case['S'], **kw)
            want = [F.ddp(case, i, case['S'][i]) for i in range(n)]
        elif op == 'cdp':
            got = ctx.call(a.compute_cdp_rf, X, y, np.array(case['down']), np.array(case['up']), D, yd, case['S'], **kw)
            want = [F.cdp(case, i, case['S'][i]) for i in range(n)]
        elif op == 'exp':
            got = ctx.call(a.compute_exp_rf, X, y, D, yd, case['S'], **kw)
            want = [F.mean_over(case, F.project(case, case['X'][i], case['S'][i])[0], lambda v: v) for i in range(n)]
        else:
            if case['clf']:
                continue
            # thresholds of the distribution function; node order does not matter without a minimal node size
            c1 = dict(case, mns=min(case['mns'], 1))
            th, kc = [v[1] for v in case['t']], {}
            if case.get('via'):
                kc = {'classifier': 0}
            if case.get('level') is not None:
                th = [float(case['level'])] * n
            got = ctx.call(a.compute_cdf_rf, X, y, D, yd, case['S'], min_node_size=c1['mns'], t=case['level'] if case.get('level') is not None else np.array(th), **kc)
            want = [F.mean_over(case, F.project(c1, case['X'][i], case['S'][i])[0], lambda v: float(v <= th[i])) for i in range(n)]
        check_equal(op, got, want, tol=1e-6 if 'quantile' in op or op == 'shaff' else 1e-9, what='%s_rf' % op)      # percentiles are single precision
        if any(0 < v < 1 for v in want):
            ctx.probe('fractional')
        out.append(digest(got))
    return out


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('fractional', 0) > 0


shrinks = F.forest_shrinks
