"""C12: the global rules model answers from its last completed fit, with the best eligible rule."""
import math
import numpy as np
from simlib import *
import forest as F, rngsim, faults

SEEDS = {'quick': 1400, 'thorough': 9000}
REAL = ['ACXplainer.fit_global_rules', 'ACXplainer.predict_global_rules', 'ACXplainer.predict_proba_global_rules', 'utils.compute_rules_metrics',
        'utils.global_rules_model', 'utils.global_rules_model_reg', 'utils.unique_rules_s_star', 'ACXplainer.compute_sdp_maxrules', 'cyext_acv', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'numpy\'s random stream -> simulated stream', 'line execution and array allocation of the Python code -> may raise at a chosen point',
        'fitted ranger forest -> given trees']
NONTRIVIAL = 'a prediction was made from a fitted rule after a refit, a failed fit or an interrupted fit'


def gen(rng, tier):
    c = F.gen_forest_case(rng, d=rng.choice([1, 2, 2, 3, 4]), n=rng.choice([5, 10, 20]), npts=rng.randint(1, 4) if rng.random() < .95 else 15, ntrees=rng.randint(1, 3))
    if c['clf']:
        c['y_data'] = [float(rng.random() < rng.choice([.2, .5, .8])) for _ in c['data']]
    acts = []
    for k in range(rng.randint(2, 7)):
        r = rng.random()
        if k == 0 or r < 0.4:
            act = {'do': 'fit'}
            if rng.random() < 0.3:
                act.update(src='maxrules', pi=rng.choice([.3, .6, .9]), stream=rngsim.gen_stream(rng), S=[F.gen_subset(rng, c['d'], rng.random() < .7) for _ in c['X']])
            else:
                act.update(src='given', **gen_rules(rng, c))
            r = rng.random()
            if k and r < 0.45:
                act['fault'] = rng.choice([['line', rng.randint(1, 60)], ['line', int(2 ** rng.uniform(0, 9))], ['alloc', rng.randint(1, 12)], ['short-y'], ['short-S'], ['nan']])
            acts.append(act)
        else:
            acts.append(gen_predict(rng, c))
        if acts[-1]['do'] == 'fit':
            acts.append(gen_predict(rng, c))
    return {'c': c, 'acts': acts, 'sched': c['sched']}


def gen_predict(rng, c):
    return {'do': rng.choice(['predict', 'predict', 'proba']), 'X': gen_points(rng, c['data'], rng.randint(1, 5) if rng.random() < .95 else 40),
            'cov': rng.choice([0.0, 0.0, 0.013, 0.1, 0.117, 0.2, 0.313, 0.4, 0.713]), 'acc': rng.choice([0.0, 0.317, 0.5, 0.617, 0.75, 0.817, 1.0]), 'reg': rng.choice([0.0137, 0.317, 1.117, 1000])}


def gen_rules(rng, c):
    n = rng.randint(1, 7) if rng.random() < .95 else 30
    R, S = [], []
    for _ in range(n):
        r, near = rng.random(), False
        if R and r < 0.2:
            R.append(rng.choice(R))
        elif R and r < 0.35:        # all but the same as another rule
            b = [list(v) for v in rng.choice(R)]
            j, k = rng.randrange(c['d']), rng.randrange(2)
            b[j][k] += rng.choice([-1, 1]) * max(abs(b[j][k]), 1e-3) * rng.choice([1e-9, 1e-6, 5e-6])
            R.append(b)
            near = True
        else:
            b = []
            for j in range(c['d']):
                v = sorted([rng.choice(c['data'])[j], rng.choice(c['data'])[j]])
                r = rng.random()
                b.append([-1e10, 1e10] if r < .3 else [-1e10, v[1]] if r < .45 else [v[0], 1e10] if r < .6 else v if r < .9 else [v[0] + .01, v[1] + 9])
            R.append(b)
        S.append([j for j in range(c['d']) if R[-1][j] != [-1e10, 1e10] or rng.random() < .1] or [0])
        if near and rng.random() < .5:
            S[-1] = rng.sample(range(c['d']), rng.randint(1, c['d']))
        elif rng.random() < 0.15:
            S[-1] = S[-1][:rng.randint(1, len(S[-1]))]
        if all(b == [-1e10, 1e10] for b in R[-1]) and rng.random() < 0.5:
            S[-1] = []          # the explanation without any feature: all the rows are in its rule
    return {'R': R, 'S': S}


class Model:
    """what a completed fit knows: per distinct rule, the feature sets it was given with, and its figures on the training rows"""

    def __init__(self, c, R, S, y):
        self.rules = []
        seen = {}
        for r, s in zip(R, S):
            seen.setdefault(repr(r), (r, []))[1].append(list(s))
        for r, ss in seen.values():
            opts = []
            for s in ss:
                rows = [i for i, x in enumerate(c['data']) if all(r[j][0] <= x[j] <= r[j][1] for j in s)]
                if rows:
                    m = sum(y[i] for i in rows) / len(rows)
                    out = (1 if m > 0.5 else 0) if c['clf'] else m
                    fig = sum(y[i] == out for i in rows) / len(rows) if c['clf'] else sum((y[i] - m) ** 2 for i in rows) / len(rows)
                    opts.append((s, len(rows) / len(c['data']), fig, out, m))
                else:
                    opts.append((s, 0.0, None, None, None))
            self.rules.append((r, opts))

    def check(self, c, act, got):
        """got = (answers, rules, S): each point is answered by a best rule among those that contain it and are covered enough"""
        if len(got) != 3 or any(len(g) != len(act['X']) for g in got):
            raise Violation('rules:shape', 'answers for %d points: %s' % (len(act['X']), [len(g) for g in got]))
        for k, x in enumerate(act['X']):
            y, r, s = got[0][k], got[1][k], got[2][k]
            # a rule given several times with different feature sets is kept with one of them
            cert, poss = [], []
            for rule, opts in self.rules:
                el = [(o, rule) for o in opts if o[2] is not None and o[1] >= act['cov'] and all(rule[j][0] <= x[j] <= rule[j][1] for j in o[0])]
                poss += el
                if len(el) == len(opts):
                    cert.append([e[0][2] for e in el])
            sign = -1 if c['clf'] else 1
            lim = act['acc'] if c['clf'] else act['reg']
            tol = 0 if c['clf'] else 1e-12        # shares of rows are exact
            good = lambda f: sign * f <= sign * lim + tol
            worst = min([max(sign * f for f in fs) for fs in cert] or [math.inf])   # at least this good a rule is there, whichever set was kept
            if y is None:
                if r is not None or s is not None:
                    raise Violation('rules:unexplained', 'no answer but a rule: %s %s' % (r, s))
                if worst <= sign * lim - tol:
                    raise Violation('rules:missed', 'point %s gets no answer, an eligible rule has %r (limit %r)' % (x, sign * worst, lim))
                continue
            rl, sl = np.asarray(r).tolist(), np.asarray(s).tolist()
            m = [o for o, rule in poss if rule == rl and list(o[0]) == sl]
            if not m:
                raise Violation('rules:ineligible', 'point %s is answered by the rule %s on %s: not an eligible rule' % (x, rl, sl))
            o = m[0]
            if not good(o[2]):
                raise Violation('rules:level', 'point %s is answered by a rule of %r, limit %r' % (x, o[2], lim))
            if sign * o[2] > worst + 1e-9:
                raise Violation('rules:not-best', 'point %s is answered by a rule of %r, there is one of %r' % (x, o[2], sign * worst))
            want = o[4] if act['do'] == 'proba' else o[3]
            if not close(y, want):
                raise Violation('rules:answer', 'point %s: answer %r, the rule says %r' % (x, y, want))


def run(case, ctx):
    c = case['c']
    a = F.acx(c)
    X, y, D, yd, t = F.arrays(c)
    models = []          # one fit, or the two an interrupted fit may have left
    disturbed = 0
    for act in case['acts']:
        if act['do'] == 'fit':
            if act['src'] == 'maxrules':
                with rngsim.stream(act['stream'], ctx):
                    out = ctx.call(a.compute_sdp_maxrules, X, y, D, yd, [list(s) for s in act['S']], min_node_size=c['mns'], **F.t_args(c, t), pi_level=act['pi'], n_try=2, batch=2, max_iter=3, max_iter_convergence=2)
                R, S = np.array(out[1]), act['S']
            else:
                R, S = np.array(act['R'], dtype=float), act['S']
            S = [list(s) for s in S]
            new = Model(c, R.tolist(), S, c['y_data'])
            f = act.get('fault')
            Yd, DD, S2 = yd, D, S
            cm = None
            if f and f[0] == 'line':
                cm = faults.at_line(f[1], InjectedInterrupt if f[1] % 2 else Injected, ctx, 'interrupted-fit')
            elif f and f[0] == 'alloc':
                cm = faults.at_alloc(f[1], ctx)
            elif f and f[0] == 'short-y':
                Yd = yd[:-1]
            elif f and f[0] == 'nan':
                DD = D.copy(); DD[-1, 0] = np.nan
            elif f and f[0] == 'short-S':
                S2 = []
            if not f:
                ctx.call(a.fit_global_rules, D, yd, R, S)
                disturbed += bool(models)
                models = [new]
            elif cm:
                try:
                    with cm:
                        ctx.call(a.fit_global_rules, D, yd, R, S, _allow=(MemoryError,))
                    models = [new]
                except (Injected, InjectedInterrupt, MemoryError):
                    models = models + [new]
                    disturbed += 1
            else:
                try:
                    ctx.call(a.fit_global_rules, DD, Yd, R, S2, _allow=(ValueError, IndexError))
                    return 'accepted'
                except (ValueError, IndexError):
                    ctx.fault('invalid-fit')
                    disturbed += 1
            continue
        kind = act['do']
        Q = np.array(act['X'], dtype=float)
        if kind == 'proba' and not c['clf']:
            try:
                ctx.call(a.predict_proba_global_rules, Q, coverage=act['cov'], min_acc=act['acc'], _allow=(ValueError,))
            except ValueError:
                pass
            kind = 'predict'
        if not models:
            from sklearn.exceptions import NotFittedError
            try:
                ctx.call(a.predict_global_rules, Q, _allow=(NotFittedError,))
            except NotFittedError:
                continue
            raise Violation('rules:unfitted', 'an answer without a fit')
        if kind == 'proba':
            got = ctx.call(a.predict_proba_global_rules, Q, coverage=act['cov'], min_acc=act['acc'])
        else:
            got = ctx.call(a.predict_global_rules, Q, coverage=act['cov'], min_acc=act['acc'], min_reg=act['reg'])
        err, left = None, []
        for m in models:
            try:
                m.check(c, dict(act, do=kind), got)
                left.append(m)
            except Violation as v:
                err = err or v
        if not left:
            raise err
        models = left      # the state stays one of these
        ctx.note([None if v is None else round(float(v), 9) for v in got[0]])
        if disturbed and any(v is not None for v in got[0]):
            ctx.probe('answers-after-disturbance')
    return 'ok'


def nontrivial(ctx):
    return ctx.probes.get('answers-after-disturbance', 0) > 0


def shrinks(case):
    for z in shrink_list(case['acts'], 1):
        yield dict(case, acts=z)
    for i, a in enumerate(case['acts']):
        def put(**k):
            return dict(case, acts=case['acts'][:i] + [dict(a, **k)] + case['acts'][i + 1:])
        if a['do'] == 'fit' and a.get('R') and len(a['R']) > 1:
            for k in range(len(a['R'])):
                yield put(R=a['R'][:k] + a['R'][k + 1:], S=a['S'][:k] + a['S'][k + 1:])
        if a['do'] != 'fit' and len(a['X']) > 1:
            for k in range(len(a['X'])):
                yield put(X=a['X'][:k] + a['X'][k + 1:])
