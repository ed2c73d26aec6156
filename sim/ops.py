"""The operations a user performs on an explainer, as data: one table used by the history, concurrency, containment and batch
checks.  An operation is {'op': name, ...parameters}; P holds the arrays of the case."""
import numpy as np
from simlib import *
import forest as F
import treecase as T
import oracle
import rngsim

PI = [0.3137, 0.5371, 0.7193, 0.9041]     # levels no probability of a small case is equal to


# ------------------------------------------------------------------ agnostic explainer
def acx_arrays(case):
    X, y, D, yd, t = F.arrays(case)
    A = lambda k: np.array(case[k], dtype=float)
    return {'X': X, 'y': y, 'D': D, 'yd': yd, 't': t, 'tdef': int(bool(case.get('tdef'))), 'down': A('down'), 'up': A('up'), 'cond': A('cond'), 'S': [list(s) for s in case['S']]}


ACX = ['sdp', 'ddp', 'cdp', 'exp', 'cdf', 'sdp_rule', 'ddp_rule', 'cdp_rule', 'ddp_w', 'cdp_w', 'ddp_cond', 'cdp_cond', 'ddp_intv', 'cdp_intv',
       'imp_sdp', 'imp_ddp', 'imp_cdp', 'imp_ddp_intv', 'expl', 'cxpl', 'maxrule', 'rules']


def gen_acx_op(rng, case, names=ACX):
    o = {'op': rng.choice(names), 'mns': case['mns'] if rng.random() < .7 else rng.choice([0, 1, 2, 5])}
    if o['op'] == 'cdf' and case['clf'] or o['op'] == 'cdp_intv' and case['clf']:
        o['op'] = 'exp'
    if o['op'].startswith('imp') or o['op'] in ('expl', 'cxpl'):
        o.update(C=gen_coalitions(rng, case['d']), pi=rng.choice(PI), minimal=rng.choice([1, 1, 0]), stop=rng.choice([0, 1]))
    if o['op'] in ('maxrule', 'rules'):
        o.update(pi=rng.choice(PI), algo2=int(rng.random() < .25), stream=rngsim.gen_stream(rng), verbose=rng.choice([0, 1]),
                 p={'n_try': rng.choice([1, 3]), 'batch': rng.choice([1, 3]), 'max_iter': rng.choice([0, 3]), 'max_iter_convergence': 2})
    if o['op'] == 'rules':
        o.update(cov=rng.choice([0.0, 0.1, 0.3]), acc=rng.choice([0.0, 0.3, 0.6]), reg=rng.choice([0.1, 1.0, 1000]))
    return o


def acx_apply(a, P, o, ctx=None, clf=None):
    k = o['op']
    X, y, D, yd, t, S = P['X'], P['y'], P['D'], P['yd'], P['t'], P['S']
    kw = dict(min_node_size=o['mns'])
    if not P.get('tdef'):
        kw['t'] = t
    full = (X, y, P['down'], P['up'], D, yd)
    std = (X, y, D, yd)
    if k in ('sdp', 'ddp', 'exp'):
        return getattr(a, 'compute_%s_rf' % k)(*std, S, **kw)
    if k == 'cdp':
        return a.compute_cdp_rf(*full, S, **kw)
    if k == 'cdf':
        return a.compute_cdf_rf(*std, S, min_node_size=min(1, o['mns']), t=np.ascontiguousarray(t[:, 1]))
    if k in ('sdp_rule', 'ddp_rule'):
        return getattr(a, 'compute_' + k)(*std, S, **kw)
    if k == 'cdp_rule':
        return a.compute_cdp_rule(*full, S, **kw)
    if k == 'ddp_w':
        return a.compute_ddp_weights(*std, S, **kw)
    if k == 'cdp_w':
        return a.compute_cdp_weights(*full, S, **kw)
    if k == 'ddp_cond':
        return a.compute_ddp_cond_weights(*std, S, P['cond'], **kw)
    if k == 'cdp_cond':
        return a.compute_cdp_cond_weights(*full, S, P['cond'], **kw)
    if k in ('ddp_intv', 'cdp_intv'):
        return getattr(a, 'compute_%s_weights' % k)(*std, S, P['cond'], **kw)
    if k.startswith('imp'):
        kw.update(C=o['C'], pi_level=o['pi'], minimal=o['minimal'], stop=bool(o['stop']))
        if k == 'imp_cdp':
            return a.importance_cdp_rf(*full, **kw)
        if k == 'imp_ddp_intv':
            return a.importance_ddp_intv(*std, P['cond'], **kw)
        return getattr(a, 'importance_%s_rf' % k[4:])(*std, **kw)
    if k in ('expl', 'cxpl'):
        return getattr(a, 'sufficient_%s_rf' % k)(*std, C=o['C'], pi_level=o['pi'], minimal=o['minimal'], **kw)
    if k in ('maxrule', 'rules'):
        with rngsim.stream(o['stream'], ctx or _Null()):
            r = a.compute_sdp_maxrules(*std, S, pi_level=o['pi'], algo2=bool(o['algo2']), verbose=bool(o['verbose']), **kw, **o['p'])
        if k == 'maxrule':
            return r
        a.fit_global_rules(D, yd, r[1], S)
        kw = dict(coverage=o['cov'])
        kw.update(min_acc=o['acc'], min_reg=o['reg'])
        return a.predict_global_rules(D, **kw)
    raise KeyError(k)


def gen_vary(rng, c):
    """other observations (and background rows) to ask the same explainer about"""
    n, m = len(c['X']), len(c['data'])
    k = n if rng.random() < .7 else rng.randint(1, n)
    v = {'X': [rng.randrange(n + m) for _ in range(k)]}
    if rng.random() < .3:
        v['D'] = [rng.randrange(m) for _ in range(m if rng.random() < .5 else rng.randint(max(2, m // 2), m))]
    return v


def vary(c, v):
    if not v:
        return c
    n, m = len(c['X']), len(c['data'])
    ix = [i % (n + m) for i in v['X']][:n]
    o = dict(c)
    for k in ('t', 'down', 'up', 'S'):
        if isinstance(c.get(k), list) and not (k == 'S' and 'tX' in c):
            o[k] = [c[k][i % n] for i in ix]
    o['X'] = [list(c['X'][i]) if i < n else list(c['data'][i - n]) for i in ix]
    if 'y' in c:
        o['y'] = [c['y'][i] if i < n else c['y_data'][i - n] for i in ix]
    if 'cond' in c:
        o['cond'] = [[[min(b[0], x), max(b[1], x)] for b, x in zip(c['cond'][i % n], o['X'][k])] for k, i in enumerate(ix)]
    if 'D' in v:
        o['data'] = [c['data'][i % m] for i in v['D']]
        if 'y_data' in c:
            o['y_data'] = [c['y_data'][i % m] for i in v['D']]
    return o


class _Null:
    def fault(self, *a):
        pass


SEARCH = ('rf_imp', 'imp_sdp', 'imp_ddp', 'imp_cdp', 'imp_ddp_intv', 'clf', 'clf_nopa', 'reg', 'reg_cat', 'search')


def same(tag, o, got, want, tol=1e-9):
    """two results of one operation agree (up to the order of additions, and to the choice among equal candidates)"""
    if o['op'] in SEARCH:
        g, w = [[np.asarray(v).tolist() for v in z] for z in (got, want)]
        for a, b in zip(got, want):
            if np.asarray(a).shape != np.asarray(b).shape:
                raise Violation(tag + ':shape', '%s: %s / %s' % (o['op'], np.asarray(a).shape, np.asarray(b).shape))
        ties = False
        for i in range(len(g[1])):
            if g[1][i] == w[1][i] and g[2][i] == w[2][i] and close(g[3][i], w[3][i], 1e-7):
                continue
            if g[2][i] == w[2][i] and close(g[3][i], w[3][i], 1e-7):
                ties = True
                continue
            raise Violation(tag, '%s, observation %d: %s / %s' % (o['op'], i, (g[1][i], g[2][i], g[3][i]), (w[1][i], w[2][i], w[3][i])))
        if not ties:
            check_equal(tag + ':global', g[0], w[0], tol, o['op'] + ' global importance')
        return
    fg, fw = flat(got), flat(want)
    if len(fg) != len(fw):
        raise Violation(tag + ':shape', '%s: %d values / %d values' % (o['op'], len(fg), len(fw)))
    for k, (a, b) in enumerate(zip(fg, fw)):
        if a is None or b is None or isinstance(a, str):
            if a != b:
                raise Violation(tag, '%s: value %d: %r / %r' % (o['op'], k, a, b))
        elif not (a == b or close(a, b, tol if o['op'] not in ('tsdp', 'tsdp_cat') else 1e-6)):
            raise Violation(tag, '%s: value %d: %r / %r' % (o['op'], k, a, b))


def flat(x):
    out = []

    def go(v):
        if isinstance(v, np.ndarray):
            out.append('shape%s' % (v.shape,))
            for e in v.ravel().tolist():
                go(e)
        elif isinstance(v, (list, tuple)):
            out.append('len%d' % len(v))
            for e in v:
                go(e)
        elif isinstance(v, dict):
            for k in sorted(v, key=repr):
                out.append(repr(k)); go(v[k])
        elif hasattr(v, 'tolist'):
            go(v.tolist())
        else:
            out.append(v if v is None or isinstance(v, str) else float(v))
    go(x)
    return out


# ------------------------------------------------------------------ tree explainer
TREE = ['shap', 'shap_nopa', 'acv', 'adap', 'tsdp', 'tsdp_cat', 'texp', 'texp_cat', 'texp_norm', 'clf', 'clf_nopa', 'search', 'reg', 'reg_cat', 'swing', 'predict',
        'rf_sdp', 'rf_exp', 'rf_cdf', 'rf_imp', 'rf_expl']


def gen_tree_op(rng, case, names=TREE):
    k = rng.choice(names)
    if k in ('clf', 'clf_nopa', 'search', 'swing') and not case['clf']:
        k = rng.choice(['reg', 'reg_cat', 'tsdp', 'texp'])
    if k in ('reg', 'reg_cat') and case['clf']:
        k = 'tsdp'
    if (k == 'reg' or k == 'tsdp') and not case['clf'] and len(case['trees']) > 1:
        k = 'shap'
    if k == 'predict' and case['clf']:
        k = 'texp'
    d = case['d']
    o = {'op': k, 'S': T.gen_subset(rng, d), 'C': gen_coalitions(rng, d), 'nt': rng.choice([1, 2, 5])}
    if k in ('acv', 'adap'):
        units = oracle.players_of(d, o['C'])
        o['A'] = [[j for g in rng.sample(units, rng.randint(1, len(units))) for j in g] for _ in case['X']]
    if k in SEARCH:
        o.update(pi=rng.choice(PI), minimal=rng.choice([1, 1, 0]), stop=rng.choice([0, 1]), space=rng.sample(range(d), rng.randint(1, d)))
    o['th'] = rng.choice([0.3, 0.6, 0.9])
    if k.startswith('rf_'):
        o.update(mns=rng.choice([0, 1, 2, 5]), Sx=[T.gen_subset(rng, d) for _ in case['X']], lev=rng.choice([0.5, 1.0]))
        o.update(pi=rng.choice(PI), minimal=rng.choice([1, 1, 0]), stop=rng.choice([0, 1]))
    return o


def tree_arrays(case):
    A = lambda k: np.array(case[k], dtype=float)
    f = lambda P: np.array(T.outputs(case, P), dtype=float)
    return {'X': A('X'), 'D': A('data'), 'tX': case['tX'], 'y': f(case['X']), 'yd': f(case['data'])}


def tree_apply(m, P, o, clf):
    k, X, D = o['op'], P['X'], P['D']
    S = np.array(o['S'], dtype=np.int64)
    d = X.shape[1]
    if k == 'shap':
        return m.shap_values(X, o['C'], o['nt'])
    if k == 'shap_nopa':
        return m.shap_values_nopa(X, o['C'], o['nt'])
    if k == 'acv':
        A = o['A'][0]
        return m.shap_values_acv(X, np.array(A, dtype=np.int64), np.array([j for j in range(d) if j not in A], dtype=np.int64), o['C'], o['nt'])
    if k == 'adap':
        from acv_explainers.utils import get_null_coalition
        s = -np.ones((len(X), d), dtype=np.int64)
        size = np.array([len(a) for a in o['A'][:len(X)]], dtype=np.int64)
        for i, a in enumerate(o['A'][:len(X)]):
            s[i, :len(a)] = a
        s, n = get_null_coalition(s, size)
        return m.shap_values_acv_adap(X, s, n, size, o['C'], o['nt'])
    if k in ('tsdp', 'tsdp_cat'):
        e = '_cat' if k == 'tsdp_cat' else ''
        if clf:
            return getattr(m, 'compute_sdp_clf' + e)(X, S, D, o['nt'])
        return getattr(m, 'compute_sdp_reg' + e)(X, P['tX'], S, D, o['nt'])
    if k.startswith('texp'):
        return {'texp': m.compute_exp, 'texp_cat': m.compute_exp_cat, 'texp_norm': m.compute_exp_normalized}[k](X, S, D)
    kw = dict(C=o.get('C'), pi_level=o.get('pi'), minimal=o.get('minimal'), stop=bool(o.get('stop')))
    if k.startswith('rf_'):
        std, w = (X, P['y'], D, P['yd']), dict(min_node_size=o['mns'], classifier=int(clf), t=o['lev'])
        if k == 'rf_imp':
            return m.importance_sdp_rf(*std, **w, **kw)
        if k == 'rf_expl':
            return m.sufficient_expl_rf(*std, **w, **kw)
        if k == 'rf_cdf':
            w['min_node_size'] = min(1, o['mns'])
        return getattr(m, 'compute_%s_rf' % k[3:])(*std, [list(s) for s in o['Sx'][:len(X)]], **w)
    if k == 'clf':
        return m.importance_sdp_clf(X, D, **kw)
    if k == 'clf_nopa':
        kw.pop('stop')
        return m.importance_sdp_clf_nopa(X, D, **kw)
    if k == 'search':
        return m.importance_sdp_clf_search(X, D, search_space=list(o['space']), **kw)
    if k in ('reg', 'reg_cat'):
        return getattr(m, 'importance_sdp_' + k)(X, P['tX'], D, **kw)
    if k == 'swing':
        return m.swing_sv_clf(X, D, o['C'], o['th'], o['nt'])
    if k == 'predict':
        return m.predict(X)
    raise KeyError(k)
