"""C13: an explainer answers as a fresh one would, whatever was asked of it (or of another one) before."""
import numpy as np
from simlib import *
import forest as F, treecase as T, ops, faults, det

SEEDS = {'quick': 840, 'thorough': 5000}
REAL = ['ACXplainer', 'ACVTree', 'BaseAgnosTree', 'BaseTree', 'utils', 'cyext_acv', 'cyext_acv_nopa', 'cyext_acv_cache', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'fitting a ranger forest -> installs given trees (may fail before or after)',
        'line execution and array allocation of the Python code -> may raise at a chosen point']
NONTRIVIAL = 'at least three operations were answered after a refit, a failed call, an interrupted call or an operation on the other explainer'


def gen(rng, tier):
    models = [F.gen_forest_case(rng, updown=True, cond=True, d=rng.choice([1, 2, 3, 3, 4]), n=rng.choice([5, 10, 15]), npts=rng.randint(1, 3), ntrees=rng.randint(1, 3))]
    clf = bool(models[0]['clf'])
    for _ in range(rng.randint(1, 2)):
        models.append(F.gen_forest_case(rng, updown=True, cond=True, d=models[0]['d'] if rng.random() < .5 else rng.choice([1, 2, 3, 4]), n=rng.choice([5, 10, 15]),
                                        npts=rng.randint(1, 3), ntrees=rng.randint(1, 3), clf=clf))
    for c in models:
        if not clf and rng.random() < .4:
            c['tdef'] = 1
    trees = [T.gen_tree_case(rng, small=True, d=rng.choice([1, 2, 3, 4])) for _ in range(2)]
    for c in trees:
        if rng.random() < .15:
            T.boosted(rng, c)
    acts = []
    cur = {0: 0, 1: 0}
    for _ in range(rng.randint(3, 9)):
        who = rng.choice([0, 0, 0, 1])
        if rng.random() < 0.3:
            k = rng.randrange(2)
            acts.append({'do': 'tree', 'on': k, 'o': ops.gen_tree_op(rng, trees[k])})
        elif rng.random() < 0.3:
            m = rng.randrange(len(models))
            fail = rng.choice([None, None, None, 'before', 'line'])
            acts.append({'do': 'fit', 'who': who, 'm': m, 'fail': fail, 'k': rng.randint(1, 6)})
            if fail is None:
                cur[who] = m
        else:
            o = ops.gen_acx_op(rng, models[cur[who]])
            acts.append({'do': 'op', 'who': who, 'o': o})
        if acts[-1]['do'] != 'fit':
            src = trees[acts[-1]['on']] if acts[-1]['do'] == 'tree' else models[cur[who]]
            if rng.random() < .4:
                acts[-1]['vary'] = ops.gen_vary(rng, src)
            if rng.random() < .35:      # the same question about other observations
                acts.append(dict(acts[-1], vary=ops.gen_vary(rng, src)))
        r = rng.random()
        if acts[-1]['do'] != 'fit' and r < 0.3:
            acts[-1]['fault'] = rng.choice([['line', rng.randint(1, 40)], ['line', int(2 ** rng.uniform(0, 11))], ['alloc', rng.randint(1, 8)], ['short-y'], ['short-S'], ['nan']])
        if rng.random() < 0.15:
            acts.append({'do': 'predict', 'who': who})
    return {'models': models, 'trees': trees, 'acts': acts, 'sched': models[0]['sched']}


class Fail(Exception):
    pass


def new(models):
    """an explainer whose model is fitted by installing the trees that go with the data"""
    a = F.acx(models[0])
    m = a.model
    m.pending = None

    def fit(X, y, **kw):
        if m.pending == 'before':
            raise Fail('fit failed')
        c = models[m.next]
        F.set_forest(m, c['trees'], c.get('imp'))
        m.width_ = c.get('width', 0.5)
        m.n_features_in_ = c['d']
        return m
    m.__dict__['fit'] = fit
    return a


def do_fit(ctx, a, models, k, name='fit', allow=()):
    a.model.next = k
    c = models[k]
    ctx.call(a.fit, np.array(c['data'], dtype=float), np.array(c['y_data'], dtype=float), _name=name, _allow=allow)


def run(case, ctx):
    M, TR = case['models'], case['trees']
    clf = M[0]['clf']
    A = [new(M), new(M)]
    cur = [0, 0]
    rules = [None, None]          # the operation whose global rules are fitted
    for a in A:
        do_fit(ctx, a, M, 0)
    trees = [T.build(c) for c in TR]
    clean = 0
    disturbed = False
    for act in case['acts']:
        w = act.get('who', 0)
        a = A[w]
        if act['do'] == 'fit':
            if act['fail'] is None:
                do_fit(ctx, a, M, act['m'])
                cur[w] = act['m']; rules[w] = None
                disturbed = True
                ctx.probe('refit')
                continue
            a.model.pending = 'before'
            try:
                do_fit(ctx, a, M, act['m'], allow=(Fail,))
                raise Violation('fit:swallowed', 'a failing fit reported success')
            except Fail:
                ctx.fault('fit-failure')
            a.model.pending = None
            disturbed = True
            continue
        if act['do'] == 'predict':
            if rules[w] is None:
                continue
            check_rules(ctx, a, [rules[w]])
            ctx.probe('rules-predicted')
            continue
        if act['do'] == 'tree':
            c = ops.vary(TR[act['on']], act.get('vary'))
            if c['clf'] and T.near_tie(c, c['X'] + c['data']):
                continue
            P, o = ops.tree_arrays(c), act['o']
            fn = lambda P: ops.tree_apply(trees[act['on']], P, o, c['clf'])
            fresh = lambda P: ops.tree_apply(T.build(c), P, o, c['clf'])
        else:
            c, o = ops.vary(M[cur[w]], act.get('vary')), dict(act['o'])
            P = ops.acx_arrays(c)
            if o['op'] in ('cdf', 'cdp_intv') and clf:
                continue
            if any(j >= c['d'] for g in o.get('C', [[]]) for j in g):
                o['C'] = [[]]
            fn = lambda P: ops.acx_apply(a, P, o, ctx)

            def fresh(P, m=cur[w]):
                b = new(M)
                do_fit_quiet(b, M, m)
                return ops.acx_apply(b, P, o, ctx)
        fault = act.get('fault')
        if fault and not (fault[0] in ('short-y', 'short-S', 'nan') and act['do'] == 'tree'):
            Q = dict(P)
            if fault[0] == 'short-y':
                Q['y'] = Q['y'][:-1]
            elif fault[0] == 'short-S':
                Q['S'] = Q['S'][:-1]
            elif fault[0] == 'nan':
                Q['X'] = Q['X'].copy(); Q['X'][0, 0] = np.nan
            cm = None
            if fault[0] == 'line':
                cm = faults.at_line(fault[1], InjectedInterrupt if fault[1] % 2 else Injected, ctx, 'interrupted-call')
            elif fault[0] == 'alloc':
                cm = faults.at_alloc(fault[1], ctx)
            ended = None
            try:
                if cm:
                    with cm:
                        ctx.call(fn, Q, _name=o['op'], _allow=(MemoryError,))
                else:
                    ctx.call(fn, Q, _name=o['op'], _allow=(ValueError,))
                ended = 'returned'
            except (Injected, InjectedInterrupt, MemoryError):
                ended = 'planted'
            except ValueError:
                ended = 'rejected'
                ctx.fault('invalid-arguments')
            if ended != 'returned':
                disturbed = True
            ctx.note(ended)
            if act['do'] == 'op' and rules[w] is not None and (o['op'] != 'rules' or ended != 'returned'):
                # the global rules survive a call that did not complete (or are already the new ones)
                alt = [rules[w]]
                if o['op'] == 'rules':
                    with quiet():
                        alt.append((fresh(P), o, c))
                check_rules(ctx, a, alt)
        got = ctx.call(fn, P, _name=o['op'])
        with quiet():
            want = fresh(P)
        ops.same('history', o, got, want)
        if o['op'] == 'rules' and act['do'] == 'op':
            rules[w] = (want, o, c)
        if disturbed:
            clean += 1
        ctx.note(digest(ops.flat(got)) if o['op'] not in ops.SEARCH else 0)
        disturbed = disturbed or act['do'] == 'op'
    ctx.probe('answers', clean)
    return 'ok'


def check_rules(ctx, a, alts):
    """the global rules answer as those of one of the given fits"""
    err = None
    for want, o, c in alts:
        try:
            got = ctx.call(a.predict_global_rules, np.array(c['data'], dtype=float), coverage=o['cov'], min_acc=o['acc'], min_reg=o['reg'])
            ops.same('history:rules', o, got, want)
            return
        except Violation as v:
            err = err or v
    raise err


def do_fit_quiet(a, models, k):
    a.model.next = k
    c = models[k]
    a.fit(np.array(c['data'], dtype=float), np.array(c['y_data'], dtype=float))


def nontrivial(ctx):
    return ctx.probes.get('answers', 0) >= 3


def shrinks(case):
    for y in shrink_list(case['acts'], 1):
        yield dict(case, acts=y)
    for i, a in enumerate(case['acts']):
        if 'fault' in a:
            yield dict(case, acts=case['acts'][:i] + [{k: v for k, v in a.items() if k != 'fault'}] + case['acts'][i + 1:])
