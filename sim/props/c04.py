"""C04: same-decision probabilities and conditional expectations of tree ensembles."""
import numpy as np
from simlib import *
import treecase as T

SEEDS = {'quick': 1800, 'thorough': 9000}
REAL = ['ACVTree.compute_sdp_{clf,clf_cat,reg,reg_cat}', 'ACVTree.compute_exp{,_normalized,_cat}', 'ACVTree.predict', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'predictive model -> its trees']
NONTRIVIAL = 'two team members ran, at least one switch happened and some result was strictly inside its range'


def gen(rng, tier):
    kind = rng.choice(['sdp', 'sdp', 'cat', 'exp'])
    clf = rng.random() < 0.55
    # the leaf estimator of the regression SDP is defined for one tree (see DESIGN.md)
    c = T.gen_tree_case(rng, clf, small=(not clf and kind == 'cat'), ntrees=1 if not clf and kind == 'sdp' else None, wide=True)
    c['kind'] = kind
    if kind == 'exp':
        c['exp'] = rng.choice(['leaf', 'norm', 'cat'])
    if kind != 'exp' and rng.random() < .25:
        T.boosted(rng, c)
    if kind == 'cat' or c.get('exp') == 'cat':
        # the discrete estimator conditions on equality
        c['X'] = [list(rng.choice(c['data'])) if rng.random() < .8 else x for x in c['X']]
    if rng.random() < 0.08:
        c['S'] = []
    return c


def run(case, ctx):
    m = T.build(case)
    X, D = np.array(case['X'], dtype=float), np.array(case['data'], dtype=float)
    S = np.array(case['S'], dtype=np.int64)
    d, kind = case['d'], case['kind']
    if kind == 'exp':
        fn = {'leaf': m.compute_exp, 'norm': m.compute_exp_normalized, 'cat': m.compute_exp_cat}[case['exp']]
        got = np.asarray(ctx.call(fn, X, S, D))
        want = [T.expectation(case, x, case['S'], case['exp']) for x in case['X']]
        check_equal('expectation:' + case['exp'], got, want, what='conditional expectation given %s (observation, output)' % case['S'])
        ctx.probe('inside')
        return digest(got)
    if T.near_tie(case, case['X'] + case['data']):
        ctx.probe('borderline')
        return 'tie'
    k = 1.0 if case['clf'] else 1.0
    if not case['clf']:
        pr = np.asarray(ctx.call(m.predict, X))
        check_equal('prediction', pr, T.outputs(case, case['X']), what='prediction of the ensemble')
    cat = kind == 'cat'
    if case['clf']:
        got = np.asarray(ctx.call(m.compute_sdp_clf_cat if cat else m.compute_sdp_clf, X, S, D))
    else:
        got = np.asarray(ctx.call(m.compute_sdp_reg_cat if cat else m.compute_sdp_reg, X, case['tX'], S, D))
    if got.shape != (len(X),):
        raise Violation('sdp:shape', got.shape)
    o = T.SDP(case)
    for i, g in enumerate(got.tolist()):
        if case['clf'] and len(S) in (0, d):
            w = 1.0 if len(S) == d else 0.0
        else:
            w = o.value(i, case['S'], cat)
            if w is None:
                ctx.probe('borderline')
                continue
            if case['clf'] and cat:
                w = min(1.0, max(0.0, w))
        if w not in (0.0, 1.0):
            ctx.probe('inside')
        if not close(g, w, 1e-7):
            raise Violation('sdp' + ('-cat' if cat else ''), 'observation %d given %s: got %r, expected %r' % (i, case['S'], g, w))
    return digest(got)


def nontrivial(ctx):
    return ctx.tot.get('team_max', 0) > 1 and ctx.tot.get('switches', 0) > 0 and ctx.probes.get('inside', 0) > 0


shrinks = T.tree_shrinks
