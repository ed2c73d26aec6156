"""C18: the counterfactual rules workflow (local and regional rules, and the points sampled from them)."""
import numpy as np
from simlib import *
import forest as F, rngsim, faults

SEEDS = {'quick': 900, 'thorough': 5000}
REAL = ['CR (counterfactual_rules)', 'utils_cr', 'ACXplainer', 'BaseAgnosTree', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'numpy\'s random stream -> simulated stream',
        'isolation forest -> a fixed score', 'fitted ranger forest -> given trees in ranger\'s format', 'line execution of the Python code -> may raise at a chosen point']
NONTRIVIAL = 'at least one counterfactual rule that is bounded was checked'
FLOW = {'local': ['ldiv', 'lrules', 'lsample'], 'regional': ['suf', 'rdiv', 'rrules', 'rsample', 'rall']}


def gen(rng, tier):
    c = F.gen_forest_case(rng, updown=True, n=rng.choice([5, 8, 14, 20]), npts=rng.choice([1, 1, 2, 2, 3]), ntrees=rng.randint(1, 3), d=rng.choice([1, 2, 2, 3, 3, 4]))
    c['mns'] = 5                       # the workflow uses the default
    if rng.random() < 0.35:            # observations close to each other: their rules overlap
        c['X'] = [[v if rng.random() < 0.7 else w for v, w in zip(c['X'][0], x)] for x in c['X']]
    ys = c['y_data']
    target = [rng.choice(ys) for _ in c['X']]
    if not c['clf']:
        for i, v in enumerate(target):
            a = rng.choice([0.1, 0.5, 1.0])
            c['down'][i], c['up'][i] = round(v - a, 3), round(v + a, 3)
            if rng.random() < 0.4:     # an end of the interval is a value the forest predicts
                x = rng.choice(c['data'])
                p = sum(tree_predict(t, x)[0] for t in c['trees']) / len(c['trees'])
                c['down'][i], c['up'][i] = (p, c['up'][i]) if p <= v else (c['down'][i], p)
    c['dflt'] = int(rng.random() < 0.3)        # leave out what has a default: the target class 0; the interval, for a classifier
    if c['dflt'] and c['clf']:
        c['dflt'] = int(0.0 in ys)
        target = [0.0 for _ in target] if c['dflt'] else target
    c['target'] = target
    c['pi'] = rng.choice([0.3, 0.51, 0.7, 0.9])
    c['rpi'] = rng.choice([0.3, 0.51, 0.7, 0.9])
    c['acc'] = rng.choice([0.3, 0.6, 0.8, 0.95])
    c['stop'] = rng.choice([0, 1])
    c['algo2'] = int(rng.random() < 0.2)
    c['stream'] = rngsim.gen_stream(rng)
    c['p'] = {'p_best': rng.choice([0, 0.5, 0.85, 1]), 'n_try': rng.choice([0, 1, 4]), 'batch': rng.choice([1, 2, 3]), 'max_iter': rng.choice([0, 1, 3]),
              'temp': rng.choice([0.1, 1, 10]), 'max_iter_convergence': rng.choice([1, 3])}
    c['sp'] = {'batch': rng.choice([1, 3]), 'max_iter': rng.choice([0, 1, 3, 12]), 'temp': rng.choice([0.5, 1])}
    c['max_obs'] = rng.choice([1, 2, 5])
    c['xtest'] = gen_points(rng, c['data'] + c['X'], rng.randint(1, 4)) + c['X'][:1]
    thr = [(f, v) for t in c['trees'] for f, v, l in zip(t['f'], t['t'], t['cl']) if l >= 0]
    if thr and rng.random() < 0.5:     # points on the bounds of the rules
        for x in list(c['xtest']) + [list(x) for x in c['X']]:
            j, v = rng.choice(thr)
            c['xtest'].append([v if q == j else w for q, w in enumerate(x)])
    c['model'] = rng.choice([0, 1])
    L = list(FLOW['local']) if rng.random() < 0.8 else []
    R = list(FLOW['regional']) if rng.random() < 0.6 or not L else []
    steps = []
    while L or R:
        q = L if L and (not R or rng.random() < 0.5) else R
        s = {'do': q.pop(0)}
        if rng.random() < 0.1:
            s['fault'] = int(2 ** rng.uniform(0, 9))
        if rng.random() < 0.1:
            s['twice'] = 1
        steps.append(s)
    c['steps'] = steps
    return c


class Score:
    """stands for the isolation forest: deterministic, learnt from what it is fitted on"""

    def __enter__(self):
        from sklearn.ensemble import IsolationForest as I
        self.old = I.fit, I.decision_function

        def fit(s, X, *a, **k):
            s.mid_ = np.asarray(X, dtype=float).mean(axis=0)
            return s

        def score(s, X):
            X = np.asarray(X, dtype=float)
            return np.array([0.4 - 0.1 * sum(abs(v - m) for v, m in zip(r, s.mid_.tolist())) for r in X.tolist()])
        I.fit, I.decision_function = fit, score
        self.score = score
        return self

    def __exit__(self, *a):
        from sklearn.ensemble import IsolationForest as I
        I.fit, I.decision_function = self.old


class Other:
    """a model to explain that differs from the forest"""

    def predict(self, X):
        return np.array([float(sum(r) > 0.3) for r in np.asarray(X, dtype=float).tolist()])


def run(case, ctx):
    from acv_explainers.counterfactual_rules import CR
    a = F.acx(case)
    X, y, D, yd, t = F.arrays(case)
    d = case['d']
    with quiet():
        cr = CR(a, D, np.array(case['xtest'], dtype=float), yd, np.zeros(len(case['xtest'])), ['f%d' % j for j in range(d)], Other() if case['model'] else None)
    seen = {}      # counterfactual probabilities asked of the explainer, by condition

    class Asked(type(a)):
        def compute_cdp_cond_weights(self, *args, **k):
            r = super().compute_cdp_cond_weights(*args, **k)
            if 'cond' in k and len(r[0]) == 1:
                seen.setdefault(now[0], []).append((np.array(k['cond'][0]).tolist(), float(r[0][0])))
            return r
    a.__class__ = Asked
    now = [None]
    held = {}
    target = np.array(case['target'], dtype=float)
    down, up = np.array(case['down']), np.array(case['up'])
    kw, rkw = dict(y_target=target, down=down, up=up), dict(y_rules_target=target, down_up=np.stack([down, up], axis=1))
    if case['dflt']:
        for k, r in ((kw, ('y_target', 'down', 'up')), (rkw, ('y_rules_target', 'down_up'))):
            for v in (r if case['clf'] else r[:1]):
                k.pop(v)
    rp = dict(acc_level=case['acc'], pi_level=case['pi'], **case['p'])
    rk = dict(rp, pi_level=case['rpi'])
    ops = {
        'ldiv': lambda: cr.run_local_divergent_set(X, **F.t_args(case, t), stop=bool(case['stop']), pi_level=case['pi'], **kw),
        'lrules': lambda: cr.run_local_counterfactual_rules(X, **kw, **rp),
        'lsample': lambda: cr.run_sampling_local_counterfactuals(X, **kw, **case['sp']),
        'suf': lambda: cr.run_sufficient_rules(X, y, **F.t_args(case, t), pi_level=case['pi'], algo2=bool(case['algo2']), **case['p']),
        'rdiv': lambda: cr.run_regional_divergent_set(**rkw, stop=bool(case['stop']), pi_level=case['pi']),
        'rrules': lambda: cr.run_regional_counterfactual_rules(**rk),
        'rsample': lambda: cr.run_sampling_regional_counterfactuals(max_obs=case['max_obs'], **case['sp']),
        'rall': lambda: cr.run_sampling_regional_counterfactuals_alltests(max_obs=case['max_obs'], **case['sp']),
    }
    with Score() as sc, rngsim.stream(case['stream'], ctx):
        for s in case['steps']:
            fn = ops[s['do']]
            now[0] = s['do']
            if 'fault' in s:
                try:
                    with faults.at_line(s['fault'], InjectedInterrupt, ctx, 'interrupted-step'):
                        ctx.call(fn, _name=s['do'])
                except InjectedInterrupt:
                    pass
            for _ in range(2 if s.get('twice') else 1):
                seen[s['do']] = []
                ctx.call(fn, _name=s['do'])
            check_step(case, ctx, cr, s['do'], sc)
            best_of(case, cr, s['do'], seen.get(s['do'], []))
            if s['do'] in ('lrules', 'rrules'):
                shown(case, ctx, cr, s['do'] == 'lrules', X, target)
            for k, v in held.items():
                if k not in OWN[s['do']] and digest(getattr(cr, k)) != v:
                    raise Violation('cr:disturbed', 'step %s changed %s, the result of another step' % (s['do'], k))
            held.update({k: digest(getattr(cr, k)) for k in OWN[s['do']]})
        # what one workflow found is not disturbed by the other
        for s in case['steps']:
            if s['do'] in ('lrules', 'rrules', 'lsample'):
                check_step(case, ctx, cr, s['do'], sc)
    return digest([np.asarray(v) for k in ('local', 'regional') for v in (getattr(cr, 'counterfactuals_samples_' + k) or [])])


def shown(case, ctx, cr, local, X, target):
    """what is printed for the user: every rule found, with its bounds, output and probability, and nothing else"""
    import io, contextlib, re
    buf = io.StringIO()

    def show():
        with contextlib.redirect_stdout(buf):
            cr.show_local_counterfactuals(X, target) if local else cr.show_global_counterfactuals()
    ctx.call(show, _name='show_local' if local else 'show_global')
    num = lambda v: float(str(v).strip('[] '))
    got = []
    for line in buf.getvalue().splitlines():
        for pat, f in ((r'Example (\d+)( = .*)?$', lambda m: ['example', int(m[1])]), (r'Example (\d+) - Counterfactual (\d+)', lambda m: ['counterfactual', int(m[1]), int(m[2])]),
                       (r'If f(\d+) in \[(.*), (.*)\] and', lambda m: ['bound', int(m[1]), num(m[2]), num(m[3])]),
                       (r'Then the output is *=? *(.*)', lambda m: ['output', num(m[1])]), (r'(SDP|Counterfactual CDP) Probability = (.*)', lambda m: [m[1], num(m[2])])):
            m = re.match(pat, line)
            if m:
                got.append(f(m))
    kind = 'local' if local else 'regional'
    L, P, W = [getattr(cr, 'counterfactuals_samples%s_%s' % (k, kind)) for k in ('', '_sdp', '_w')]
    want = []
    yd = case['y_data']

    def rule(r, p, name, out):
        for j, (lo, hi) in enumerate(np.asarray(r).tolist()):
            if not (lo <= -1e10 and hi >= 1e10):
                want.append(['bound', j, lo, hi])
        want.append(['output', out])
        want.append([name, float(p)])
    for i in range(len(case['X'])):
        want.append(['example', i])
        if not local:
            rule(cr.rules[i], cr.sdp_rules[i], 'SDP', case['y'][i])
        for k in range(len(P[i])):
            want.append(['counterfactual', i, k])
            w = np.asarray(W[i][k]).tolist()
            ys = [v for v, q in zip(yd, w) if q != 0]
            rule(L[i][k], P[i][k], 'Counterfactual CDP', case['target'][i] if case['clf'] else sum(ys) / len(ys) if ys else float('nan'))
    same = lambda a, b: len(a) == len(b) and a[0] == b[0] and all(u == v or u != u and v != v or close(u, v, 1e-7) for u, v in zip(a[1:], b[1:]))
    for k, (a, b) in enumerate(zip(got + [['end']], want + [['end']])):
        if not same(a, b):
            raise Violation('cr:%s:shown' % kind, 'line %d shows %s, the rules found give %s' % (k, a, b))
    ctx.probe('shown')


def own(suffix, *names):
    return [n + suffix for n in names]


SAMPLE = ('dist', 'score', 'errs', 'accuracy', 'coverage')
OWN = {'ldiv': own('_local', 'ddp', 'w', 'S_star', 'S_bar_set', 'ddp_index', 'size'),
       'lrules': own('_local', 'counterfactuals_samples') + ['counterfactuals_samples_sdp_local', 'counterfactuals_samples_w_local'],
       'lsample': own('_local', *SAMPLE), 'rsample': own('_regional', *SAMPLE), 'rall': own('_regional', *SAMPLE),
       'suf': own('_se', 'S_star', 'N_star', 'sdp') + ['sdp_rules', 'rules', 'sdp_all', 'rules_data', 'w_rules'],
       'rdiv': own('_regional', 'ddp', 'w', 'S_star', 'S_bar_set', 'ddp_index', 'size'),
       'rrules': own('_regional', 'counterfactuals_samples') + ['counterfactuals_samples_sdp_regional', 'counterfactuals_samples_w_regional']}


def best_of(case, cr, what, seen):
    """when no rule reaches the level, the one returned is the best of those tried"""
    if what not in ('lrules', 'rrules'):
        return
    kind, pi = ('local', case['pi']) if what == 'lrules' else ('regional', case['rpi'])
    n = len(case['X'])
    L, P = getattr(cr, 'counterfactuals_samples_' + kind), getattr(cr, 'counterfactuals_samples_sdp_' + kind)
    rest = [[[v, v] for v in x] for x in case['X']] if what == 'lrules' else np.asarray(cr.rules).tolist()
    star = getattr(cr, 'S_star_' + kind)
    mine = lambda i, r: all(list(r[j]) == list(rest[i][j]) for j in range(case['d']) if j not in [int(s) for s in star[i]])
    for i in range(n):
        if any(mine(k, r) for k in range(n) if k != i for r, _ in seen if mine(i, r)):
            continue                # another observation has the same null features: not clear whose they were
        p = np.asarray(P[i]).tolist()
        tried = [q for r, q in seen if mine(i, r)]
        if p and max(p) < pi - 1e-9 and tried and max(p) < max(tried) - 1e-9:
            raise Violation('cr:%s:not-best' % kind, 'observation %d: no rule at the level %r; returned one with %r, one with %r was tried' % (i, pi, max(p), max(tried)))


def check_step(case, ctx, cr, what, sc):
    n, d = len(case['X']), case['d']
    C = dict(case, y=case['target'])
    if what == 'ldiv':
        N = cr.S_bar_set_local
        if [sorted(list(a) + list(b)) for a, b in zip(cr.S_star_local, N)] != [list(range(d))] * n:
            raise Violation('cr:divergent-set', 'the active %s and null %s features do not make up all %d' % (cr.S_star_local, N, d))
        check_equal('cr:divergent-probability', cr.ddp_local, [F.cdp(C, i, list(N[i])) for i in range(n)], what='probability of the counterfactual given the null features')
        check_equal('cr:divergent-weights', cr.w_local, [F.weights(C, F.project(C, case['X'][i], list(N[i]))[0]) for i in range(n)], what='weights given the null features')
    elif what in ('suf', 'rdiv'):
        A, N, ind, size = [getattr(cr, k + ('_se' if what == 'suf' else '_regional')) for k in ('S_star', 'N_star' if what == 'suf' else 'S_bar_set', 'sdp_index' if what == 'suf' else 'ddp_index', 'size')]
        if [sorted(list(a) + list(b)) for a, b in zip(A, N)] != [list(range(d))] * n or [list(a) for a in A] != [np.asarray(v).tolist()[:int(k)] for v, k in zip(ind, size)]:
            raise Violation('cr:%s:partition' % what, 'active %s and null %s features, the search found %s of sizes %s' % (A, N, np.asarray(ind).tolist(), np.asarray(size).tolist()))
        if what == 'suf':
            check_equal('cr:sufficient-probability', cr.sdp_rules, [F.sdp(case, i, list(A[i])) for i in range(n)], what='probability of the sufficient rules')
        elif not case['clf']:
            Ci, R = dict(case, t=[[a, b] for a, b in zip(case['down'], case['up'])]), np.asarray(cr.rules).tolist()
            check_equal('cr:regional-divergent-probability', cr.ddp_regional, [F.sdp(Ci, i, list(N[i]), cond=R[i], mode='intv') for i in range(n)], what='probability of the counterfactual inside the rule')
            check_equal('cr:regional-divergent-weights', cr.w_regional, [F.weights(Ci, F.project(Ci, case['X'][i], list(N[i]), cond=R[i], mode='intv')[0]) for i in range(n)], what='weights inside the rule')
    elif what == 'lrules':
        rules(case, C, ctx, cr, 'local', case['pi'], lambda i: [[v, v] for v in case['X'][i]], True)
    elif what == 'rrules':
        R = np.asarray(cr.rules).tolist()
        rules(case, C, ctx, cr, 'regional', case['rpi'], lambda i: R[i], False)
    elif what == 'lsample':
        ask = [(i, case['X'][i], i) for i in range(n)]
        samples(case, ctx, cr, 'local', ask, n, sc)
    elif what == 'rsample':
        ask = []
        nb = 0
        R = np.asarray(cr.rules).tolist()
        for i in range(n):
            q = [x for x in case['xtest'] if all(lo <= v <= hi for v, (lo, hi) in zip(x, R[i]))]
            ask += [(i, x, i) for x in q[:case['max_obs']]]
        samples(case, ctx, cr, 'regional', ask, len(ask), sc)
    elif what == 'rall':
        R = np.asarray(cr.rules).tolist()
        ask = []
        for x in case['xtest']:
            p = [max(np.asarray(cr.counterfactuals_samples_sdp_regional[i]).tolist()) if all(lo < v <= hi for v, (lo, hi) in zip(x, R[i])) else 0 for i in range(n)]
            if max(p) <= 0:
                ask.append(None)       # in none of the rules: nothing is said about such a point
            else:
                ask.append(([i for i in range(n) if p[i] == max(p)], x, None))
        samples(case, ctx, cr, 'regional', ask, len(ask), sc)


def rules(case, C, ctx, cr, kind, pi, rest, local):
    n, d = len(case['X']), case['d']
    L, P, W = [getattr(cr, 'counterfactuals_samples%s_%s' % (k, kind)) for k in ('', '_sdp', '_w')]
    star, bar = getattr(cr, 'S_star_' + kind), getattr(cr, 'S_bar_set_' + kind)
    if not len(L) == len(P) == len(W) == n:
        raise Violation('cr:%s:shape' % kind, 'rules of %d, probabilities of %d, weights of %d observations for %d' % (len(L), len(P), len(W), n))
    for i in range(n):
        R, p, w = [np.asarray(v[i]).tolist() for v in (L, P, W)]
        if not R or not len(R) == len(p) == len(w):
            raise Violation('cr:%s:shape' % kind, 'observation %d: %d rules, %d probabilities, %d rows of weights' % (i, len(R), len(p), len(w)))
        S = [int(j) for j in star[i]]
        want = rest(i)
        for k, r in enumerate(R):
            for j in range(d):
                if j not in S and list(r[j]) != list(want[j]):
                    raise Violation('cr:%s:bounds' % kind, 'observation %d rule %d: feature %d (not in %s) has %s, expected %s' % (i, k, j, S, r[j], want[j]))
                if r[j][0] > r[j][1]:
                    raise Violation('cr:%s:empty' % kind, 'observation %d rule %d: feature %d has %s' % (i, k, j, r[j]))
            given = [int(j) for j in bar[i]] if local else [-6]
            q = F.cdp(C, i, given, cond=r)
            if not close(p[k], q):
                raise Violation('cr:%s:probability' % kind, 'observation %d rule %s: reported with %r, it has %r' % (i, r, p[k], q))
            check_equal('cr:%s:weights' % kind, w[k], F.weights(C, F.project(C, case['X'][i], given, cond=r)[0]), what='weights of rule %d of observation %d' % (k, i))
            if case['clf']:
                ok = [x for x, v in zip(case['data'], case['y_data']) if v == case['target'][i]]
            else:
                ok = [x for x, v in zip(case['data'], case['y_data']) if case['down'][i] <= v <= case['up'][i]]
            if not any(all(r[j][0] - 0.0051 <= x[j] <= r[j][1] + 0.0051 for j in S) for x in ok):
                raise Violation('cr:%s:unsupported' % kind, 'observation %d rule %s: no training row with the target output agrees with it on %s' % (i, r, S))
            if S and any(r[j] != [-1e10, 1e10] for j in S):
                ctx.probe('bounded')
        if any(v >= pi + 1e-9 for v in p) and any(v < pi - 1e-9 for v in p):
            raise Violation('cr:%s:below-level' % kind, 'observation %d: probabilities %s, level %r' % (i, p, pi))
        if all(v < pi - 1e-9 for v in p) and len(p) > 1:
            raise Violation('cr:%s:below-level' % kind, 'observation %d: several rules %s, none at the level %r' % (i, p, pi))
        for u in range(len(R)):
            for v in range(len(R)):
                if u != v and all(R[v][j][0] <= R[u][j][0] and R[u][j][1] <= R[v][j][1] for j in range(d)):
                    raise Violation('cr:%s:redundant' % kind, 'observation %d: rule %s is contained in %s' % (i, R[u], R[v]))
        ctx.probe('rules', len(R))


def samples(case, ctx, cr, kind, ask, total, sc):
    d = case['d']
    check_equal('cr:sample:isolation', cr.isolation.mid_, np.asarray(case['data'], dtype=float).mean(axis=0), what='the rows the outlier score was learnt from: their mean')
    dist, score, errs, errs0 = [getattr(cr, '%s_%s' % (k, kind)) for k in ('dist', 'score', 'errs')] + [getattr(cr, 'errs_%s_original' % kind)]
    if not len(dist) == len(score) == len(errs) == len(ask) or case['model'] and len(errs0) != len(ask):
        raise Violation('cr:sample:count', '%s: %d points, %d scores, %d outcomes for %d observations' % (kind, len(dist), len(score), len(errs), len(ask)))
    L, P = [getattr(cr, 'counterfactuals_samples%s_%s' % (k, kind)) for k in ('', '_sdp')]
    star = getattr(cr, 'S_star_' + kind)
    m = F.classes()[1 if case['clf'] else 0]
    for k, q in enumerate(ask):
        if q is None:
            continue
        i, x, _ = q
        z = np.asarray(dist[k], dtype=float).reshape(-1).tolist()
        if len(z) != d:
            raise Violation('cr:sample:shape', '%s point %d: %s' % (kind, k, z))
        cands = []
        for ii in (i if isinstance(i, list) else [i]):
            p = np.asarray(P[ii]).tolist()
            cands += [(ii, r) for r, v in zip(np.asarray(L[ii]).tolist(), p) if v == max(p)]
        fit = [(ii, r) for ii, r in cands if all((r[j][0] <= z[j] <= r[j][1]) if j in [int(s) for s in star[ii]] else z[j] == x[j] for j in range(d))]
        if not fit:
            raise Violation('cr:sample:outside', '%s point %d: %s, sampled for %s, is not in its rule %s (features %s)' % (kind, k, z, x, cands[0][1], star[cands[0][0]]))
        s = sc.score(cr.isolation, [z])[0]
        if not close(score[k], s):
            raise Violation('cr:sample:score', '%s point %d: reported %r, its score is %r' % (kind, k, score[k], s))
        out = lambda v: float(cr.acv_explainer.model.predict(np.array([v]))[0])
        wants = [(out(z) != out(x)) if case['clf'] else case['down'][ii] <= out(z) <= case['up'][ii] for ii, r in fit]
        if bool(np.asarray(errs[k]).reshape(-1)[0]) not in wants:
            raise Violation('cr:sample:outcome', '%s point %d: the prediction of %s is %r, of %s is %r, reported %r' % (kind, k, z, out(z), x, out(x), errs[k]))
        if case['model']:
            o = lambda v: cr.model.predict(np.array([v]))[0]
            if bool(np.asarray(errs0[k]).reshape(-1)[0]) != (o(z) != o(x)):
                raise Violation('cr:sample:outcome-original', '%s point %d' % (kind, k))
        ctx.probe('samples')
    if ask:
        acc = sum(float(np.asarray(e).reshape(-1)[0]) for e in errs) / len(errs)
        if not close(getattr(cr, 'accuracy_' + kind), acc):
            raise Violation('cr:sample:accuracy', '%s: %r, the outcomes give %r' % (kind, getattr(cr, 'accuracy_' + kind), acc))
        if total and not close(getattr(cr, 'coverage_' + kind), len(errs) / total):
            raise Violation('cr:sample:coverage', '%s: %r, expected %r' % (kind, getattr(cr, 'coverage_' + kind), len(errs) / total))


def nontrivial(ctx):
    return ctx.probes.get('bounded', 0) > 0


def shrinks(case):
    n = len(case['X'])
    st = case['steps']
    for i, s in enumerate(st):
        for k in ('fault', 'twice'):
            if k in s:
                yield dict(case, steps=st[:i] + [{q: v for q, v in s.items() if q != k}] + st[i + 1:])
    for w in ('local', 'regional'):
        if any(s['do'] not in FLOW[w] for s in st) and any(s['do'] in FLOW[w] for s in st):
            yield dict(case, steps=[s for s in st if s['do'] not in FLOW[w]])
    if len(st) > 1:
        yield dict(case, steps=st[:-1])
    for keep in shrink_list(list(range(n)), 1):
        yield dict(case, **{k: [case[k][i] for i in keep] for k in ('X', 'y', 't', 'S', 'down', 'up', 'target') if case.get(k) is not None})
    for y in shrink_list(case['xtest'], 1):
        yield dict(case, xtest=y)
    for keep in shrink_list(list(range(len(case['data']))), 2):
        yield dict(case, data=[case['data'][i] for i in keep], y_data=[case['y_data'][i] for i in keep])
    for t in shrink_list(case['trees'], 1):
        yield dict(case, trees=t)
    for k, v in (('max_iter', 0), ('batch', 1), ('n_try', 0)):
        if case['p'][k] != v:
            yield dict(case, p=dict(case['p'], **{k: v}))
    if case['sp']['max_iter']:
        yield dict(case, sp=dict(case['sp'], max_iter=0))
