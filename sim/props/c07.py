"""C07: the rule of a sufficient explanation, its weights and its probability."""
import numpy as np
from simlib import *
import forest as F

SEEDS = {'quick': 1600, 'thorough': 10000}
REAL = ['ACXplainer.compute_{sdp,ddp,cdp}_rule', 'ACVTreeAgnostic.compute_sdp_rule', 'compute_{ddp,cdp}_weights', 'BaseAgnosTree', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitted ranger forest -> given trees in ranger\'s format']
NONTRIVIAL = 'two team members ran, at least one switch happened and some rule has a finite bound'


def gen(rng, tier):
    c = F.gen_forest_case(rng, updown=True, wide=True)
    c['ops'] = rng.sample(['sdp_rule', 'ddp_rule', 'cdp_rule', 'ddp_weights', 'cdp_weights', 'sdp_maxrule'], rng.randint(1, 3))
    c['verbose'] = rng.choice([0, 1])
    if F.only_agn(rng, c).get('via'):
        c['ops'] = rng.sample(['sdp_rule', 'sdp_maxrule'], rng.randint(1, 2))
    return F.relabel(rng, c)


def run(case, ctx):
    a = F.explainer(case)
    X, y, D, yd, t = F.arrays(case)
    n = len(case['X'])
    kw = dict(min_node_size=case['mns'], **F.t_args(case, t))
    down, up = np.array(case['down']), np.array(case['up'])
    S = case['S']
    pj = [F.project(case, case['X'][i], S[i]) for i in range(n)]
    out = []
    for op in case['ops']:
        k, f = op.split('_')
        want = [{'sdp': F.sdp, 'ddp': F.ddp, 'cdp': F.cdp}[k](case, i, S[i]) for i in range(n)]
        a2 = (X, y, down, up, D, yd, S) if k == 'cdp' else (X, y, D, yd, S)
        if f == 'rule':
            p, r = ctx.call(getattr(a, 'compute_' + op), *a2, **kw)
            check_equal(op + ':bounds', r, [b for q, b in pj], tol=0, what='rule (observation, feature, side)')
            w = None
        elif f == 'weights':
            p, w = ctx.call(getattr(a, 'compute_' + op), *a2, verbose=bool(case['verbose']), **kw)
            r = None
        else:
            # the unextended result of the maximal-rule search: algo2 with no rule to join keeps the rule, so ask the kernel
            import cyext_acv
            if not case.get('via'):
                a.check_is_explainer()
            A = a if case.get('via') else a.ACXplainer
            tt = np.zeros((n, 2)) if case['clf'] else t
            fn = cyext_acv.compute_sdp_maxrule_verbose if case['verbose'] else cyext_acv.compute_sdp_maxrule
            p, r, pd, rd, w = ctx.call(fn, X, y, D, yd, S, A.features, A.thresholds, A.children_left, A.children_right, A.max_depth,
                                       case['mns'], case['clf'], tt, 0.9, _name='compute_sdp_maxrule')
            check_equal(op + ':bounds', r, [b for q, b in pj], tol=0, what='rule (observation, feature, side)')
            wp, wr = [], []
            for i in range(n):
                ws = F.weights(case, pj[i][0])
                lp, lr = [], []
                for j in range(len(case['data'])):
                    if ws[j] > 0:
                        q, b = F.project(case, case['data'][j], S[i])
                        lp.append(F.mean_over(case, q, F.inside(case, i))); lr.append(b)
                    else:
                        lp.append(0.0); lr.append([[-1e10, 1e10]] * case['d'])
                wp.append(lp); wr.append(lr)
            check_equal(op + ':row-probability', pd, wp, what='probability of the rules of the data rows')
            check_equal(op + ':row-bounds', rd, wr, tol=0, what='rules of the data rows')
        check_equal(op, p, want, what=op)
        if w is not None:
            ww = [F.weights(case, q) for q, b in pj]
            check_equal(op + ':weights', w, ww, what=op + ' weights')
        if r is not None:
            R = np.asarray(r).tolist()
            for i in range(n):
                x = case['X'][i]
                for j in range(case['d']):
                    lo, hi = R[i][j]
                    if (lo, hi) != (-1e10, 1e10):
                        ctx.probe('finite')
                        if j not in S[i]:
                            raise Violation(op + ':foreign', 'the rule of observation %d bounds feature %d outside its explanation %s' % (i, j, S[i]))
                        if not lo < x[j] <= hi:
                            raise Violation(op + ':outside', 'observation %d, feature %d: %r not in (%r, %r]' % (i, j, x[j], lo, hi))
        out.append(digest([np.asarray(p)]))
    return out


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('finite', 0) > 0


shrinks = F.forest_shrinks
