"""C19: an explainer is about exactly the model it is given: same outputs, contributions that add up to them, for every kind of
model, and whatever happens to the model, the conversion or the explainer's file meanwhile."""
import io, os, pickle, tempfile
import numpy as np
from simlib import *
import faults

SEEDS = {'quick': 320, 'thorough': 2500}
REAL = ['BaseTree (conversion of models)', 'XGBTreeModelLoader', 'BaseAgnosTree', 'ACVTree', 'ACXplainer.fit', 'cext_acv', 'cyext_acv', 'scikit-learn, xgboost and ranger models']
STUB = ['randomness of the training of the models -> seeded', 'GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap',
        'line execution and array allocation of the Python code -> may raise at a chosen point']
NONTRIVIAL = 'a converted model with at least one split was compared with the model on observations it was not trained on'
KINDS = ['dtc', 'dtr', 'rfc', 'rfr', 'etc', 'etr', 'gbc', 'gbr', 'hgbr', 'xgbc', 'xgbr', 'booster', 'xgbrank', 'xgbrf', 'iso', 'ranger']
WEIGHTS = [2, 2, 3, 3, 2, 2, 3, 3, 2, 5, 5, 3, 1, 1, 1, 3]
CLF = ('dtc', 'rfc', 'etc', 'gbc', 'xgbc')
XGB = ('xgbc', 'xgbr', 'booster', 'xgbrank', 'xgbrf')
# objectives of xgboost by what their targets must be
POSITIVE = ('count:poisson', 'reg:gamma', 'reg:tweedie', 'survival:cox', 'reg:squaredlogerror')
OBJECTIVES = POSITIVE + ('reg:squarederror', 'reg:logistic', 'reg:pseudohubererror')


def gen_model(rng, kind=None):
    k = kind or rng.choices(KINDS, WEIGHTS)[0]
    d, n = rng.choice([1, 2, 2, 3, 4]), rng.choice([8, 12, 20, 40])
    if k == 'hgbr':
        n = 40
    X = [[float(np.float32(v)) for v in r] for r in gen_data(rng, n, d)]
    clf = k in CLF or k in ('booster', 'ranger') and rng.random() < .5
    K = rng.choice([2, 2, 2, 3, 4]) if clf else 0
    if k == 'gbc':
        K = 2
    if clf:
        y = [i % K for i in range(n)]
        if rng.random() < .7:
            y = sorted(y, key=lambda _: rng.random())
    else:
        s = rng.choice([1, 1, 10, 1e3])
        y = [round(rng.uniform(-1, 1) * s + s * x[0], 4) for x in X]
    p = {'seed': rng.randrange(1000), 'trees': rng.choice([1, 2, 3, 5]), 'depth': rng.choice([1, 2, 3, 4]), 'rate': rng.choice([.1, .3, 1.0]), 'sub': rng.choice([1.0, .7])}
    if k in CLF and k != 'xgbc' and rng.random() < .3:
        p['labels'] = rng.choice([[-1, 1, 5, 7], ['b', 'a', 'd', 'c'], [3, 2, 1, 0]])
    if k in ('gbc', 'gbr'):
        p['loss'] = rng.choice(['log_loss', 'log_loss', 'exponential'] if clf else ['squared_error', 'squared_error', 'absolute_error', 'huber', 'quantile'])
    if k == 'hgbr':
        p['loss'] = rng.choice(['squared_error', 'squared_error', 'absolute_error', 'poisson', 'quantile'])
        p['cat'] = int(d > 1 and rng.random() < .2)
    if k == 'ranger':
        p['cat'] = int(d > 1 and rng.random() < .25)
        p['rule'] = rng.choice(['gini', 'gini', 'gini', 'extratrees'] + ['hellinger'] * (K == 2))
        if p['cat'] and rng.random() < .7:
            p['rule'] = 'extratrees'
    if k in ('dtr', 'rfr', 'etr') and rng.random() < .2:
        p['multi'] = 1
    if k in XGB:
        p['obj'] = None
        if k in ('xgbr', 'xgbrf') or k == 'booster' and not clf:
            p['obj'] = rng.choice([None, None, *OBJECTIVES])
        elif k == 'xgbc' and K == 2 and rng.random() < .3:
            p['obj'] = rng.choice(['binary:logitraw', 'binary:hinge'])
        elif k == 'booster' and K > 2 and rng.random() < .3:
            p['obj'] = 'multi:softmax'
        p['base'] = rng.choice([.5, .5, round(rng.uniform(.05, .95), rng.choice([1, 2, 3, 6]))])
        if not clf and p['obj'] in (None, 'reg:squarederror', 'reg:pseudohubererror') and rng.random() < .3:
            p['base'] = round(rng.uniform(-50, 50), 3)
        if rng.random() < .2:
            # numbers whose bytes are those of the header of the model file
            import struct
            p['base'] = struct.unpack('<f', bytes([rng.choice(b'binf'), rng.choice(b'binf'), rng.randrange(256), 0x3e]))[0]
        p['method'] = rng.choice(['exact', 'exact', 'hist', 'approx'])
        p['stop'] = int(k in ('xgbc', 'xgbr') and rng.random() < .35)
        p['par'] = rng.choice([1, 1, 1, 2])
        p['missing'] = int(rng.random() < .3)
        if p['stop']:
            p['trees'] = rng.choice([5, 12])
    if k in ('rfc', 'rfr', 'etc', 'etr', 'dtc', 'dtr', 'gbc', 'gbr') and rng.random() < .3:
        p['w'] = [rng.choice([1.0, 1.0, 2.0, 3.5]) for _ in range(n)]
    T = gen_points(rng, X, rng.randint(2, 5))
    T = [[float(np.float32(v)) for v in r] for r in T] + [list(X[rng.randrange(n)])]
    return {'kind': k, 'clf': int(clf), 'K': K, 'X': X, 'y': y, 'p': p, 'T': T}


def gen(rng, tier):
    m = gen_model(rng)
    acts = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        acts.append(rng.choice([{'do': 'refit', 'seed': rng.randrange(1000)}, {'do': 'cut', 'k': int(2 ** rng.uniform(2, 13)), 'how': rng.choice(['line', 'alloc'])}, {'do': 'store'}, {'do': 'again'},
                                {'do': 'other', 'm': gen_model(rng)}]))
    return {'m': m, 'acts': acts, 'nopa': int(rng.random() < .3), 'sched': gen_sched(rng)}


# ------------------------------------------------------------------ the models
def targets(m):
    p, y = m['p'], np.array(m['y'])
    if 'labels' in p:
        return np.array([p['labels'][v] for v in m['y']])
    if p.get('obj') in POSITIVE or m['kind'] == 'hgbr' and p['loss'] == 'poisson':
        return np.exp(np.tanh(y))
    if p.get('obj') == 'reg:logistic':
        return 1 / (1 + np.exp(-np.tanh(y)))
    if m['kind'] == 'xgbrank':
        return (y > np.median(y)).astype(int)
    if p.get('multi'):
        return np.stack([y, y[::-1] * 2], axis=1)
    return y


def train(m, seed=None, old=None):
    """(model, its outputs for the rows of an array): what the library of the model says"""
    k, p = m['kind'], m['p']
    s = p['seed'] if seed is None else seed
    X, y = np.array(m['X']), targets(m)
    if p.get('cat'):
        X[:, 0] = np.abs(np.floor(X[:, 0] * 3)) % 4
        y = y if m['clf'] else y + 3 * (X[:, 0] % 2)
    if seed is not None:
        r = np.random.RandomState(seed)
        o = r.permutation(len(X))
        y = y[o]
    rs = np.random.RandomState(s)
    w = {'sample_weight': np.array(p['w'])} if 'w' in p else {}
    if k in ('dtc', 'dtr'):
        from sklearn.tree import DecisionTreeClassifier as C, DecisionTreeRegressor as R
        e = (C if k == 'dtc' else R)(max_depth=p['depth'], random_state=rs)
    elif k in ('rfc', 'rfr'):
        from sklearn.ensemble import RandomForestClassifier as C, RandomForestRegressor as R
        e = (C if k == 'rfc' else R)(n_estimators=p['trees'], max_depth=p['depth'], random_state=rs, bootstrap=p['sub'] < 1 or bool(s % 2))
    elif k in ('etc', 'etr'):
        from sklearn.ensemble import ExtraTreesClassifier as C, ExtraTreesRegressor as R
        e = (C if k == 'etc' else R)(n_estimators=p['trees'], max_depth=p['depth'], random_state=rs)
    elif k in ('gbc', 'gbr'):
        from sklearn.ensemble import GradientBoostingClassifier as C, GradientBoostingRegressor as R
        e = (C if k == 'gbc' else R)(n_estimators=p['trees'], max_depth=p['depth'], random_state=rs, learning_rate=p['rate'], loss=p['loss'], subsample=p['sub'])
    elif k == 'hgbr':
        from sklearn.ensemble import HistGradientBoostingRegressor as R
        e = R(max_iter=p['trees'], max_depth=p['depth'], random_state=s, learning_rate=p['rate'], min_samples_leaf=3, early_stopping=False, loss=p['loss'], quantile=.3,
              **({'categorical_features': [0]} if p['cat'] else {}))
        e.fit(X, y)
        return e, (lambda Z: np.log(e.predict(Z))) if p['loss'] == 'poisson' else e.predict
    elif k == 'iso':
        from sklearn.ensemble import IsolationForest
        e = IsolationForest(n_estimators=p['trees'], random_state=rs, max_samples=len(X), max_features=max(1, X.shape[1] - s % 2))
        e.fit(X)
        from sklearn.ensemble._iforest import _average_path_length
        c = float(_average_path_length(np.array([len(X)]))[0])
        return e, lambda Z: -np.log2(-e.score_samples(Z)) * c
    if k in ('dtc', 'dtr', 'rfc', 'rfr', 'etc', 'etr', 'gbc', 'gbr'):
        e.fit(X, y, **w)
        if k == 'gbc':
            return e, e.decision_function
        return e, (e.predict_proba if k in CLF else e.predict)
    if k == 'ranger':
        from acv_explainers import ACXplainer
        a = ACXplainer(classifier=bool(m['clf']), n_estimators=p['trees'], max_depth=p['depth'], seed=s + 1, min_node_size=2, split_rule=p.get('rule', 'gini'))
        a.fit(X, y.astype(float), categorical_features=[0] if p.get('cat') else None)
        # the trees ranger gives out (their leaves hold the mean of the rows that reach them, not only of those they were grown on)
        return a, lambda Z: np.mean([[t.value[k].reshape(-1) / (t.value[k].sum() if m['clf'] else 1) for k in t.apply(Z)] for t in [q.tree_ for q in a.model.estimators_]], axis=0)
    import xgboost as xgb
    if p['missing']:
        X = X.copy()
        X[::4, 0] = np.nan
    kw = dict(max_depth=p['depth'], learning_rate=p['rate'], base_score=p['base'], subsample=p['sub'], num_parallel_tree=p['par'], tree_method=p['method'], min_child_weight=0, reg_lambda=.1)
    if k == 'booster':
        kw = dict(kw, seed=s, nthread=1, verbosity=0)
        if m['clf']:
            kw.update(objective='binary:logistic' if m['K'] == 2 else p['obj'] or 'multi:softprob', **({} if m['K'] == 2 else {'num_class': m['K']}))
        elif p['obj']:
            kw['objective'] = p['obj']
        e = xgb.train(kw, xgb.DMatrix(X, label=y), num_boost_round=p['trees'])
        return e, lambda Z: e.predict(xgb.DMatrix(Z), output_margin=True)
    kw = dict(kw, n_estimators=p['trees'], random_state=s, n_jobs=1, verbosity=0)
    if p['obj']:
        kw['objective'] = p['obj']
    if k == 'xgbrank':
        e = xgb.XGBRanker(**kw)
        e.fit(X, y, group=[len(X) // 2, len(X) - len(X) // 2])
        return e, lambda Z: e.predict(Z, output_margin=True)
    if k == 'xgbrf':
        e = xgb.XGBRFRegressor(**{q: v for q, v in kw.items() if q not in ('num_parallel_tree',)})
    else:
        e = xgb.XGBClassifier(use_label_encoder=False, **kw) if k == 'xgbc' else xgb.XGBRegressor(**kw)
    if p['stop']:
        h = len(X) // 2
        e.fit(X, y, eval_set=[(X[::-1], np.roll(y, 3))], early_stopping_rounds=1, verbose=False)
    else:
        e.fit(X, y)
    return e, lambda Z: e.predict(Z, output_margin=True)


def convert(m, model, ctx, nopa=False):
    from acv_explainers import ACVTree
    if m['kind'] == 'ranger':
        model.check_is_explain = False
        cat = not all(model.model.ranger_forest_['forest']['is_ordered'])
        try:
            ctx.call(model.check_is_explainer, _allow=(AssertionError,) if cat else ())
        except AssertionError:
            if cat:
                raise Refused()
            raise
        e, forest = model.ACXplainer, model.model.ranger_forest_['forest']
        for b in range(len(e.features) if cat else 0):
            sets = [v for j, v in zip(forest['split_var_ids'][b], forest['split_values'][b]) if j == 0]
            if any(e.children_left[b][k] >= 0 and e.features[b][k] == 0 and e.thresholds[b][k] in sets for k in range(int(e.num_nodes[b]))):
                raise Violation('model:ranger:categories', 'tree %d: the sets of categories %s are taken for thresholds' % (b, sets[:5]))
        if cat:
            raise Refused()
        return e
    if m['p'].get('cat') and any(q[0].nodes['is_categorical'].any() for q in model._predictors):
        # such trees cannot be written as thresholds: the model is refused, or explained as it is
        try:
            return ctx.call(ACVTree, model, np.array(m['X']), multi_threads=not nopa, _name='convert', _allow=(AssertionError,))
        except AssertionError:
            raise Refused()
    return ctx.call(ACVTree, model, np.array(m['X']), multi_threads=not nopa, _name='convert')


class Refused(Exception):
    pass


TOL = dict({k: 2e-5 for k in XGB}, iso=1e-9)


def outputs(m, e, T, ctx):
    if m['kind'] != 'ranger':
        return ctx.call(e.predict, T)
    # the forest behind an ACXplainer has no such operation: its trees are evaluated here
    return np.array([sum(e.values[b][leaf(e, b, x)] for b in range(e.values.shape[0])) for x in T.tolist()])


def judge(m, want, e, ctx, nopa, contributions=True):
    tol = TOL.get(m['kind'], 1e-9)
    T = np.array(m['T'] + m['X'])
    w = np.asarray(want(T), dtype=float)
    w = w.reshape(len(T), -1)
    p = np.asarray(outputs(m, e, T, ctx), dtype=float)
    p = p.reshape(len(T), -1)
    check_equal('model:%s:output' % m['kind'], p, w, tol, what='output of the explainer for a %s' % m['kind'])
    if m['kind'] in XGB:
        Z = T.copy()
        Z[::2, -1] = np.nan
        w2 = np.asarray(want(Z), dtype=float).reshape(len(Z), -1)
        p2 = np.asarray(ctx.call(e.predict, Z), dtype=float).reshape(len(Z), -1)
        check_equal('model:%s:output-missing' % m['kind'], p2, w2, tol, what='output of the explainer for a %s with missing values' % m['kind'])
    if m['kind'] != 'ranger':
        forms(m, e, T, p, ctx)
        edges(m, want, e, T, tol, ctx)
    if int(np.max(e.num_nodes)) > 1:
        ctx.probe('compared')
    ctx.probe('kind-' + m['kind'])
    if not contributions:
        return
    if m['kind'] == 'ranger':
        sv = np.asarray(ctx.call(e.shap_values, T[:len(m['T'])], np.array(m['X'])))
    elif nopa:
        sv = np.asarray(ctx.call(e.shap_values_nopa, T[:len(m['T'])], C=[[]]))
    else:
        sv = np.asarray(ctx.call(e.shap_values, T[:len(m['T'])], C=[[]], num_threads=3))
    # a leaf without a background row has no share: such observations are set aside
    D = np.array(m['X'])
    base = w[len(m['T']):].mean(axis=0)
    for i in range(len(m['T'])):
        if not all(shared(e, b, T[i], D) for b in range(e.values.shape[0])):
            ctx.probe('leaf-without-background')
            continue
        check_equal('model:%s:contributions' % m['kind'], sv[i].sum(axis=0), w[i] - base, max(tol * 5, 1e-9), what='sum of the contributions for observation %d of a %s' % (i, m['kind']))
        ctx.probe('contributions')


def forms(m, e, T, p, ctx):
    """a limit on the trees, and the forms in which observations are given"""
    nb = e.values.shape[0]
    off = np.asarray(e.base_offset, dtype=float).reshape(-1)
    for k in (-1, 1 + nb // 2, nb, nb + 3):
        q = np.asarray(ctx.call(e.predict, T, tree_limit=k, _name='predict:limit'), dtype=float).reshape(len(T), -1)
        n = nb if k < 0 else min(k, nb)
        w = np.array([off + sum(e.values[b][leaf(e, b, x)] for b in range(n)) for x in T.astype(e.input_dtype).tolist()])
        check_equal('model:%s:limited' % m['kind'], q, w, TOL.get(m['kind'], 1e-9), what='output of the first %d of %d trees of a %s' % (n, nb, m['kind']))
    import pandas as pd
    i = len(T) // 2
    for how, Z in (('a data frame', pd.DataFrame(T)), ('one observation', T[i]), ('a series', pd.Series(T[i])), ('a transposed array', np.asfortranarray(T))):
        q = np.asarray(ctx.call(e.predict, Z, _name='predict:form'), dtype=float).reshape(-1, p.shape[1])
        check_same('model:%s:form' % m['kind'], q, p if len(q) == len(p) else p[i:i + 1], 'outputs for the same observations given as %s' % how)


def edges(m, want, e, T, tol, ctx):
    """observations a rounding error away from the thresholds of the trees: the models compare in their own precision"""
    Z = []
    for b in range(min(3, len(e.features))):
        for i in range(int(e.num_nodes[b])):
            if e.children_left[b, i] >= 0 and len(Z) < 30:
                t = float(e.thresholds[b, i])
                for u in (0, 1, -1):
                    z = np.array(T[(i + b) % len(T)])
                    z[e.features[b, i]] = t + u * max(abs(t), 1e-30) * 2e-9
                    Z.append(z)
    if Z:
        Z = np.array(Z)
        w = np.asarray(want(Z), dtype=float).reshape(len(Z), -1)
        p = np.asarray(ctx.call(e.predict, Z, _name='predict:edges'), dtype=float).reshape(len(Z), -1)
        check_equal('model:%s:output-edge' % m['kind'], p, w, tol, what='output of the explainer for a %s at the thresholds of its trees' % m['kind'])
        ctx.probe('edges')


def shared(e, b, x, D):
    """some row of D is in the leaf of x (as the explainer's tree says: its outputs have been compared with the model's)"""
    k = leaf(e, b, x)
    return any(leaf(e, b, z) == k for z in D)


def leaf(e, b, z):
    cl, cr, f, t = [v[b].tolist() for v in (e.children_left, e.children_right, e.features, e.thresholds)]
    i = 0
    while cl[i] >= 0:
        i = cl[i] if z[f[i]] <= t[i] else cr[i]
    return i


def run(case, ctx):
    try:
        return play(case, ctx)
    except Refused:
        ctx.probe('refused')


def play(case, ctx):
    m, nopa = case['m'], bool(case['nopa'])
    with quiet():
        model, want = train(m)
    e = convert(m, model, ctx, nopa)
    judge(m, want, e, ctx, nopa)
    T = np.array(m['T'])
    first = np.array(outputs(m, e, T, ctx))
    for a in case['acts']:
        if a['do'] == 'refit':
            # the model is trained again: the explainer is still about the model it was given, a new one about the new model
            import copy
            with quiet():
                other, want2 = train(m, a['seed'])
                if m['kind'] in ('rfc', 'rfr', 'dtc', 'dtr', 'xgbc', 'xgbr', 'gbr'):
                    o = np.random.RandomState(a['seed']).permutation(len(m['y']))
                    y = targets(m)
                    X = np.array(m['X'])
                    if m['kind'] in ('xgbc', 'xgbr'):
                        model.fit(X, y[o], eval_set=[(X, y)], verbose=False)
                    else:
                        model.fit(X, y[o])
            judge(m, want2, convert(m, other, ctx, nopa), ctx, nopa)
            ctx.fault('model-refitted')
        elif a['do'] == 'cut':
            f = faults.at_line(a['k'], InjectedInterrupt, ctx, 'conversion-cut') if a['how'] == 'line' else faults.at_alloc(1 + a['k'] % 40, ctx)
            with quiet():
                mm, want2 = train(m)
            try:
                with f:
                    convert(m, mm, ctx, nopa)
            except (InjectedInterrupt, MemoryError):
                pass
            except Violation as v:
                if not f.fired:
                    raise
            judge(m, want2, convert(m, mm, ctx, nopa), ctx, nopa)
        elif a['do'] == 'store':
            buf = io.BytesIO()
            pickle.dump(e, buf)
            e = pickle.loads(buf.getvalue())
            ctx.fault('stored-and-loaded')
        elif a['do'] == 'again':
            with quiet():
                mm, want2 = train(m)
            judge(m, want2, convert(m, mm, ctx, not nopa), ctx, not nopa)
        else:
            with quiet():
                mm, want2 = train(a['m'])
            judge(a['m'], want2, convert(a['m'], mm, ctx, nopa), ctx, nopa)
        check_same('model:%s:changed' % m['kind'], np.asarray(outputs(m, e, T, ctx)), first, 'outputs of the explainer before and after %s' % a['do'])
    return digest(first)


def nontrivial(ctx):
    return ctx.probes.get('compared', 0) > 0


def shrinks(case):
    for i in range(len(case['acts'])):
        yield dict(case, acts=case['acts'][:i] + case['acts'][i + 1:])
    m = case['m']
    for a in case['acts']:
        if a['do'] == 'other':
            yield dict(case, m=a['m'], acts=[])
    if len(m['T']) > 1:
        for t in shrink_list(m['T'], 1):
            yield dict(case, m=dict(m, T=t))
    p = m['p']
    for k, v in (('trees', 1), ('depth', 1), ('base', .5), ('stop', 0), ('par', 1), ('missing', 0), ('sub', 1.0), ('method', 'exact')):
        if k in p and p[k] != v and p.get('obj') is None:
            yield dict(case, m=dict(m, p=dict(p, **{k: v})))
    for k in ('w', 'labels'):
        if k in p:
            yield dict(case, m=dict(m, p={q: v for q, v in p.items() if q != k}))
