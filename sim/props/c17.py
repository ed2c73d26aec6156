"""C17: the web application shows one completed compilation, exactly, whatever the disk, crashes, sessions and reruns do."""
import os, random, shutil, sys, tempfile, threading
import numpy as np
from simlib import *
import forest as F, treecase as T, rngsim, det
import stapp
from disk import Disk, Crash

SEEDS = {'quick': 260, 'thorough': 3000}
REAL = ['acv_app.app (compile_ACXplainers, compile_acv, main)', 'acv_app.sdp_app.write_pg', 'acv_app.sv_app.write_pg', 'ACXplainer', 'ACVTree', 'cyext_acv', 'joblib', 'pandas csv writer and reader']
STUB = ['disk -> simulated disk (journal, faults, crashes)', 'streamlit -> recording stand-in with its cache', 'matplotlib.pyplot and pandas styling -> recorders (the code that draws with them is real)',
        'session threads -> scheduled line by line', 'GNU OpenMP runtime -> deterministic scheduler', 'fitting a ranger forest -> given trees']
NONTRIVIAL = 'a page was checked after a compilation that failed, crashed or was repeated, or while another session ran'


def setup():
    import pandas as pd

    class Style:
        def __init__(self, df):
            self.df, self.todo = df, []

        def apply(self, fn, axis=0, **kw):
            self.todo.append([list(fn(r, **kw)) for _, r in self.df.iterrows()])
            return self
    pd.DataFrame.style = property(Style)
    import acv_app.app, acv_app.sdp_app, acv_app.sv_app
    plt = stapp.Plt()
    acv_app.sdp_app.plt = plt
    import acv_app.plots
    acv_app.plots.pl = stapp.Pl()
    acv_app.plots.matplotlib = stapp._Any2()
    acv_app.plots.matplotlib.transforms = stapp._Any2()


NAMES = [['X0', 'X1', 'X2', 'X3'], ['age', 'net worth', 'b,c', 'é'], ['a"b', 'x\ny', 'Z', '1'], None]


def gen_bundle(rng, small=False, shape=None):
    # more features than the waterfall shows, or more observations than are explained
    wide, long = shape == 'wide', shape == 'long'
    c = F.gen_forest_case(rng, d=rng.choice([2, 2, 3, 3, 4] if not small else [2, 2, 2, 3, 3, 3, 4]) if not wide else rng.choice([10, 11, 12, 13]), n=rng.choice([6, 10]), npts=rng.choice([3, 4, 5, 6, 7]) if not long else rng.choice([100, 101, 103]), ntrees=rng.randint(1, 3) if not wide else rng.choice([2, 8, 9]), ncls=2)
    if c['clf']:
        for t in c['trees']:
            t['v'] = [v if len(v) == 2 else [v[0], round(1 - v[0], 6)] for v in t['v']]
        c['y_data'] = [float(v > 0) for v in c['y_data']]
        c['y'] = [float(v > 0) for v in c['y']]
    if rng.random() < .5:
        # digits that only an exact reader keeps
        c['data'] = [[v + rng.choice([0, 0, 1e-15, .1 + .2 - .3, 1 / 3]) for v in x] for x in c['data']]
    b = {'kind': 'acx', 'c': c, 'names': rng.choice(NAMES) if not wide else rng.choice([None, ['f%d' % (j * 7 % 13) for j in range(13)]]), 'int_y': int(rng.random() < .6), 'warm': int(rng.random() < .3), 'arrays': int(rng.random() < .4)}
    if rng.random() < .12 and not shape:
        b['kind'] = 'tree'
        b['t'] = T.gen_tree_case(rng, small=True, d=c['d'])
    return b


def gen_view(rng, shape=None):
    return {'page': int(rng.random() < .25 or bool(shape)), 'nb': rng.choice([5, 5, 6, 10]), 'pi': rng.choice([.7, .8, .9, 1.0]), 't': rng.choice([1.0, 1.0, 1.25, 2.0, 10.0]), 'idx': rng.randrange(5) if shape != 'long' else rng.choice([rng.randrange(105), 99, 100, 102]), 'exp': rng.randrange(3),
            'maxrule': int(rng.random() < .35), 'stream': rngsim.gen_stream(rng)}


def gen(rng, tier):
    nb = rng.choice([1, 2, 2, 3])
    shape = rng.choice([None] * 14 + ['wide', 'long'])
    B = [gen_bundle(rng, True, shape) for _ in range(nb)]
    acts = []
    for k in range(rng.randint(2, 6)):
        r = rng.random()
        if k == 0 or r < .35:
            a = {'do': 'compile', 'b': rng.randrange(nb), 'buf': rng.choice([1, 16, 64, 512, 8192]), 'short': rng.choice([0, 0, .3])}
            if rng.random() < (.25 if k == 0 else .6):
                a['fault'] = {'kind': rng.choice(['crash', 'crash', 'power', 'power', 'enospc', 'eio', 'interrupt']), 'at': None, 'frac': rng.random(), 'key': int(rng.random() < .65), 'names': int(rng.random() < .6), 'seed': rng.getrandbits(30)}
            acts.append(a)
            if rng.random() < .8:
                acts.append({'do': 'view', 'views': [gen_view(rng, shape)]})
        elif r < .9:
            n = rng.choice([1, 1, 1, 2])
            vs = [gen_view(rng, shape) for _ in range(n)]
            if n == 1 and rng.random() < .25:
                vs[0]['stop'] = rng.randint(1, 40)
            acts.append({'do': 'view', 'views': vs})
            if rng.random() < .15:
                acts[-1]['eio'] = rng.randint(1, 8)
        else:
            acts.append({'do': 'restart'})
    s = gen_sched(rng)
    return {'B': B, 'acts': acts, 'sched': s}


# ------------------------------------------------------------------ the reference: what each page shows of a bundle
class Bundle:
    def __init__(self, b):
        self.b, c = b, b['c']
        self.names = (b['names'] or ['X%d' % j for j in range(13)])[:c['d']]
        self.Xtr, self.Xte = np.array(c['data'], dtype=float), np.array(c['X'], dtype=float)
        ty = int if b['int_y'] and c['clf'] else float
        self.ytr, self.yte = np.array(c['y_data'], dtype=ty), np.array(c['y'], dtype=ty)

    def fresh(self):
        a = F.acx(self.b['c'])
        a.fit(self.Xtr, self.ytr.astype(float))
        return a


def fail(tag, *a):
    raise Violation('page:' + tag, ' '.join(str(x) for x in a)[:800])


def check_page(B, view, page, ctx, server_kind):
    ev = page.events
    if B.b['kind'] == 'tree':
        return check_tree(B, view, page, ctx)
    if page.chosen is None:
        fail('observation', 'no observation was chosen')
    if view['page'] == 0:
        check_sdp(B, view, ev, page.chosen, ctx)
    else:
        check_sv(B, view, ev, page.chosen, ctx)


def check_tree(B, view, page, ctx):
    a = page.args
    same_data(B, *a[:4])
    t = B.b['t']
    m = acvtree(t['trees'], B.b['c']['data'])
    if a[4].children_left.tolist() != m.children_left.tolist() or a[4].values.tolist() != m.values.tolist():
        fail('model', 'the model of the page is not the one compiled')
    if view['page'] == 1:
        if a[4].data.tolist() != m.data.tolist():
            fail('model', 'the background data of the model of the page are not those compiled')
        check_equal('page:shap', ctx.call(a[4].shap_values, B.Xte, [[]], 2), ctx.call(m.shap_values, B.Xte, [[]], 2))


def same_data(B, xtr, xte, ytr, yte):
    for n, g, w in (('x_train', xtr.values, B.Xtr), ('x_test', xte.values, B.Xte), ('y_train', ytr, B.ytr), ('y_test', yte, B.yte)):
        if g.shape != w.shape or g.astype(float).tolist() != w.astype(float).tolist():
            fail('data', n, 'on the page', short(g), 'compiled', short(w))
    if list(xtr.columns) != B.names or list(xte.columns) != B.names:
        fail('names', list(xtr.columns), B.names)


def get(ev, kind):
    return [e[1:] for e in ev if e[0] == kind]


def check_sdp(B, v, ev, i, ctx):
    a = B.fresh()
    Xtr, ytr, Xte, yte = B.Xtr, B.ytr.astype(float), B.Xte, B.yte.astype(float)
    nb = min(v['nb'], len(Xte))
    suff, sdp, _ = ctx.call(a.sufficient_expl_rf, Xte[:nb], yte[:nb], Xtr, ytr, stop=False, pi_level=v['pi'], t=v['t'])
    want = {tuple(int(j) for j in s): float(p) for s, p in zip(suff[i], sdp[i])}
    dfs = get(ev, 'dataframe')
    if not want:
        if dfs or not any('No explanation' in str(t[0]) for t in get(ev, 'text')):
            fail('none', 'the observation has no explanation, the page shows', len(dfs), 'tables')
        ctx.probe('pages-without-explanation')
        return
    if len(dfs) < 2:
        fail('tables', len(dfs))
    df = dfs[0][0]
    shown = list(zip(df.iloc[:, 0].tolist(), [float(z) for z in df.iloc[:, 1]]))
    wl = {}
    for s, p in want.items():
        wl.setdefault(' - '.join(B.names[j] for j in s), []).append(p)
    if len(shown) != len(want) or any(n not in wl or not close(p, wl[n][0]) for n, p in shown) or len(set(n for n, p in shown)) != len(wl):
        fail('explanations', 'shown', shown, 'expected', wl)
    # importance of each feature: share of the explanations that contain it
    fig = [e[0] for e in get(ev, 'pyplot')]
    if len(fig) != 1:
        fail('plots', len(fig))
    bars = dict(zip(fig[0]['labels'], fig[0]['v']))
    if len(bars) != len(B.names):
        fail('bars', fig[0]['labels'])
    for j, n in enumerate(B.names):
        w = sum(j in s for s in want) / len(want)
        m = [(l, z) for l, z in bars.items() if l.rsplit(' = ', 1)[0] == n]
        if len(m) != 1 or not close(m[0][1], w) or not close(float(m[0][0].rsplit(' = ', 1)[1]), B.Xte[i, j]):
            fail('importance', n, w, float(B.Xte[i, j]), bars)
    # the chosen explanation, on the values of the observation
    obs = dfs[1][0]
    row = [float(z) for z in obs.df.iloc[0].tolist()]
    n = shown[v['exp'] % len(shown)]
    S = [s for s in want if ' - '.join(B.names[j] for j in s) == n[0]][0]
    if len(row) != len(B.names) + 2 or row[:-2] != Xte[i].tolist() or row[-2] != float(yte[i]) or not close(row[-1], want[S]):
        fail('observation', row, Xte[i].tolist(), yte[i], want[S])
    col = obs.todo[0][0]
    if [j for j in range(len(B.names)) if col[j]] != sorted(S) or len(col) != len(row):
        fail('highlight', col, S)
    # its rule
    md = [str(e[0]) for e in get(ev, 'markdown')]
    if len(md) != 1 + bool(v['maxrule']):
        fail('rules', md)
    p, R = ctx.call(a.compute_sdp_rule, Xte[i:i + 1], yte[i:i + 1], Xtr, ytr, S=[list(S)], t=v['t'])
    r0 = parse(md[0], B.names, S)
    w0 = [[-math.inf if R[0][j][0] <= -1e10 else float(R[0][j][0]), math.inf if R[0][j][1] >= 1e10 else float(R[0][j][1])] for j in S]
    if r0 != w0:
        fail('rule', md[0], w0)
    if v['maxrule']:
        r1 = parse(md[1], B.names, S)
        if any(not (a1[0] <= a0[0] and a1[1] >= a0[1]) for a0, a1 in zip(r0, r1)):
            fail('maxrule', 'not around the rule:', md[1], md[0])
        rows = [k for k, x in enumerate(Xtr.tolist()) if all(lo <= x[j] <= hi for j, (lo, hi) in zip(S, r1))]
        d = dfs[2][0]
        cov, acc = float(d.iloc[0, 0]), float(d.iloc[0, 1])
        if len(d) != 1 or not close(cov, len(rows) / len(Xtr)):
            fail('coverage', cov, 'of the rule', md[1], 'which holds', len(rows), 'of', len(Xtr), 'rows')
        if rows:
            m = sum(float(ytr[k]) for k in rows) / len(rows)
            out = (1 if m > .5 else 0) if B.b['c']['clf'] else m
            w = sum(float(ytr[k]) == out for k in rows) / len(rows) if B.b['c']['clf'] else sum((float(ytr[k]) - m) ** 2 for k in rows) / len(rows)
            if not close(acc, w):
                fail('accuracy', acc, 'expected', w, 'for', md[1])
        ctx.probe('maxrule-pages')


def parse(md, names, S):
    """the bounds in 'lo <= name <= hi and ...'"""
    t = md[md.index('>') + 1:md.rindex('</')]
    out = []
    for k, j in enumerate(S):
        sep = ' <= %s <= ' % names[j]
        lo, rest = t.split(sep, 1)
        if k + 1 < len(S):
            hi, t = rest.split(' and ', 1)
        else:
            hi = rest
        out.append([float(lo), float(hi)])
    return out


def check_sv(B, v, ev, i, ctx):
    a = B.fresh()
    a.check_is_explainer()
    sv = np.asarray(ctx.call(a.ACXplainer.shap_values, B.Xte[:100], B.Xtr))
    figs = [e[0] for e in get(ev, 'pyplot')]
    if len(figs) != 1:
        fail('plots', len(figs))
    k = 1 if sv.shape[2] != 1 else 0
    pred = a.predict_proba(B.Xte)[:, 1] if B.b['c']['clf'] else a.predict(B.Xte)
    check_waterfall(figs[0], float(np.mean(pred)), sv[i, :, k].tolist(), B.Xte[i].tolist(), B.names)
    ctx.probe('waterfalls')


def near(a, b, tol):
    return abs(float(a) - float(b)) <= tol + 1e-9 * abs(float(b))


def fmt(z, f):
    s = f % z
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    return s.replace('-', '\u2212')


def check_waterfall(f, base, phi, x, names, top=10):
    """each shown feature has one row, with its value, its Shapley value as an arrow and as a text; the rows go from the base to the output"""
    n = min(top, len(phi))
    rows = {}
    for pos, l in f['ticks']:
        rows.setdefault(int(round(pos)), []).append(l)
    bars = {int(y): (lo, w) for lo, y, w in f['arrows']}
    if len(f['arrows']) != n or sorted(bars) != list(range(n)) or sorted(rows) != list(range(n)):
        fail('rows', f['arrows'], f['ticks'])
    want = {fmt(x[j], '%0.03f') + ' = ' + names[j]: phi[j] for j in range(len(phi))}
    one = n if n == len(phi) else n - 1
    at, last, seen = None, math.inf, set()
    for r in range(n - 1, n - 1 - one, -1):
        l = rows[r][0]
        if l not in want or l in seen:
            fail('label', l, sorted(want))
        seen.add(l)
        p = want[l]
        # arrows have a length of at least 1e-6
        if not near(bars[r][1], p, 2e-6):
            fail('arrow', l, bars[r], p)
        if abs(p) > last + 1e-9:
            fail('order', l, p, last)
        last = abs(p)
        if (r, fmt(p, '%+0.02f')) not in f['texts'] and abs(p * 100 % 1 - .5) > 1e-4 and abs(p) > 1e-7:
            fail('value', l, p, f['texts'])
    rest = sum(p for l, p in want.items() if l not in seen)
    if one < n:
        if rows[0][0] != '%d other features' % (len(phi) - one) or not near(bars[0][1], rest, 2e-6):
            fail('others', rows[0], bars[0], rest)
        if any(abs(p) > last + 1e-9 for l, p in want.items() if l not in seen):
            fail('order', 'a larger value is among the others')
    at = base
    for r in range(n):
        lo, w = bars[r]
        if not near(lo, at, 1e-5):
            fail('steps', 'row', r, 'starts at', lo, 'expected', at)
        at = lo + w
    out = base + sum(phi)
    if not any(near(z, base, 1e-6) for z in f['lines']) or not any(near(z, out, 1e-6) for z in f['lines']):
        fail('marks', f['lines'], base, out)
    if len(f['marks']) < 2:
        fail('marks', f['marks'])
    for m, xs, z in zip(f['marks'], f['markx'], (base, out)):
        if fmt(z, '%0.03f') not in m[1] and abs(z * 1000 % 1 - .5) > 1e-3 and abs(z) > 1e-7 or not near(xs[0], z, 1e-6):
            fail('marks', m, xs, z)


# ------------------------------------------------------------------ one run: a disk, a server, users
def run(case, ctx):
    import acv_app.app as app
    B = [Bundle(b) for b in case['B']]
    tmp = tempfile.mkdtemp(prefix='acvsim-app-')
    try:
        return play(case, ctx, app, B, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def play(case, ctx, app, B, tmp):
    path = os.path.join(tmp, 'd0')
    os.mkdir(path)
    ncopies = 0
    disk_has = {None}           # what a server that starts now may show: a compilation, or nothing
    stapp.server = srv = stapp.Server(ctx)
    srv_has = None              # what the running server has loaded
    maybe = set()               # what it may have loaded for a page that was stopped
    events = []
    for act in case['acts']:
        if act['do'] == 'restart':
            stapp.server = srv = stapp.Server(ctx)
            srv_has, maybe = None, set()
            continue
        if act['do'] == 'compile':
            b, f = B[act['b']], act.get('fault')
            rng = random.Random(f['seed'] if f else 1)
            at = None
            if f:
                at = f['at']
                if at is None:
                    # the number of operations a compilation takes, measured on a disk without faults
                    probe = os.path.join(tmp, 'probe')
                    os.mkdir(probe)
                    with Disk(probe, Quiet(), random.Random(0)) as d:
                        d.buf = act['buf']
                        compile_(ctx, app, b, probe)
                    shutil.rmtree(probe)
                    # half of the faults strike the operations that matter most: creations, syncs, renames, removals, and after the last one
                    key = [q for q, o in enumerate(d.ops, 1) if o != 'write' and f['names'] <= (o in ('rename', 'remove'))] + [d.n + 1]
                    at = key[int(f['frac'] * len(key))] if f['key'] else 1 + int(f['frac'] * d.n)
            out = 'ok'
            with Disk(path, ctx, rng) as d:
                d.buf, d.short = act['buf'], act['short']
                if f:
                    d.plan = {'at': at, 'kind': 'crash' if f['kind'] == 'power' else f['kind']}
                try:
                    compile_(ctx, app, b, path)
                    if f and f['kind'] == 'power' and not d.fired:
                        d.fired = ('power-later', '')
                        ctx.fault('disk:power-after-compile')
                        out = 'crash'
                except Crash:
                    out = 'crash'
                except (OSError, KeyboardInterrupt) as e:
                    if not d.fired and not d.full:
                        raise Violation('compile:raises:' + type(e).__name__, where(e))
                    out = 'failed'
            if out == 'crash' and f['kind'] == 'power':
                ncopies += 1
                path2 = os.path.join(tmp, 'd%d' % ncopies)
                os.mkdir(path2)
                for p, data in d.after_power_loss(rng).items():
                    q = os.path.join(path2, os.path.relpath(p, path))
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, 'wb') as fh:
                        fh.write(data)
                path = path2
                # the machine stopped: so did the server
                stapp.server = srv = stapp.Server(ctx)
                srv_has, maybe = None, set()
            if out == 'ok':
                disk_has = {act['b']}
            elif out == 'failed' and d.fired[1] in ('create', 'write', 'fsync') and d.fired[0] != 'crash':
                pass                                            # nothing changed
            else:
                disk_has = set(disk_has) | {None, act['b']}     # old, new, or nothing: never a mix
            events.append((out, d.fired))
            continue
        # ---- users
        views, pages, outs = act['views'], [], []
        for v in views:
            pages.append(stapp.Page(v))
            outs.append([None])

        def one(k):
            stapp.server.pages[threading.get_ident()] = pages[k]
            try:
                app.main(path)
                outs[k][0] = ('ok',)
            except stapp.StopScript:
                outs[k][0] = ('stopped',)
            except Exception as e:
                outs[k][0] = ('raise', e)
        tree = any(x.b['kind'] == 'tree' for x in B)
        old = app.sdp_app.write_pg, app.sv_app.write_pg
        if tree:
            # the pages only know ACXplainer: for a compiled tree model what they are given is looked at
            for m, w in zip((app.sdp_app, app.sv_app), old):
                def pg(xtr, xte, ytr, yte, model, w=w):
                    p = stapp.server.page()
                    p.args = (xtr, xte, ytr, yte, model)
                    if not hasattr(model, 'trees') or hasattr(model, 'check_is_explainer'):
                        return w(xtr, xte, ytr, yte, model)
                m.write_pg = pg
        eio = act.get('eio')
        try:
            with rngsim.stream(views[0]['stream'], ctx), (ReadFaults(path, eio, ctx) if eio else Nothing()) as rf:
                if len(views) == 1:
                    ctx.begin()
                    try:
                        with quiet():
                            one(0)
                    finally:
                        ctx.end()
                else:
                    together(ctx, one, len(views))
                    ctx.probe('pages-together', len(views))
        finally:
            app.sdp_app.write_pg, app.sv_app.write_pg = old
        rfired = bool(eio and rf.fired)
        for v, p, o in zip(views, pages, outs):
            o = o[0]
            cands = sorted(srv_has if srv_has is not None else disk_has | maybe, key=str)
            if o[0] == 'stopped':
                if srv_has is None:
                    maybe |= disk_has
                continue
            if o[0] == 'raise':
                if rfired or (None in cands and isinstance(o[1], FileNotFoundError) and not shown(p)):
                    ctx.probe('refused')
                    if not rfired and srv_has is None and len(views) == 1:
                        disk_has = {None} if None in disk_has else disk_has
                    continue
                e = o[1]
                raise Violation('page:raises:' + type(e).__name__, '%s after %s' % (where(e), events))
            err, ok = None, set()
            for k in cands:
                if k is None:
                    continue
                try:
                    check_page(B[k], v, p, ctx, None)
                    ok.add(k)       # several, when the page does not tell them apart
                except Violation as e:
                    err = err or e
                except (ValueError, IndexError, AttributeError, KeyError) as e:
                    err = err or Violation('page:unreadable', '%s' % where(e))
            if not ok:
                if err is None:
                    raise Violation('page:shows-nothing-compiled', 'after %s' % events)
                raise Violation(err.tag, '%s (compilations that may be shown: %s; history %s)' % (err.detail, cands, events))
            ctx.probe('pages')
            ctx.note('page', sorted(ok))
            if len(events) > 1 or events[0][0] != 'ok' or len(views) > 1:
                ctx.probe('pages-after-something')
            if srv_has is None and not maybe:
                disk_has = ok
            srv_has = ok
    return 'ok'


def shown(p):
    return any(e[0] in ('dataframe', 'pyplot', 'markdown') for e in p.events)


def compile_(ctx, app, b, path):
    import pandas as pd
    cols = b.names
    def fr(X):
        return X if b.b['arrays'] and b.b['names'] in (None, NAMES[0]) else pd.DataFrame(X, columns=cols)
    with quiet():
        if b.b['kind'] == 'tree':
            t = b.b['t']
            app.compile_acv({'trees': [np_tree(x) for x in t['trees']]}, fr(b.Xtr.copy()), b.ytr.copy(), fr(b.Xte.copy()), b.yte.copy(), path)
            return
        a = b.fresh()
        if b.b['warm']:
            a.check_is_explainer()
        app.compile_ACXplainers(a, fr(b.Xtr.copy()), b.ytr.copy(), fr(b.Xte.copy()), b.yte.copy(), path)


class Quiet:
    def note(self, *a):
        pass

    def fault(self, *a):
        pass


class Nothing:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ReadFaults:
    """the k-th file opened for reading fails"""

    def __init__(self, root, k, ctx):
        self.root, self.k, self.n, self.fired, self.ctx = root, k, 0, False, ctx

    def open(self, file, *a, **k):
        if isinstance(file, (str, os.PathLike)) and str(file).startswith(self.root):
            self.n += 1
            if self.n == self.k:
                self.fired = True
                self.ctx.fault('disk:eio:read')
                raise OSError(5, 'simulated')
        return self.old(file, *a, **k)

    def __enter__(self):
        import builtins, io
        self.old, self.oldio = builtins.open, io.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *a):
        import builtins, io
        builtins.open, io.open = self.old, self.oldio


def together(ctx, one, n):
    """several sessions at the same time: control passes at every line of the repository"""
    err = []

    def body(tid, k):
        det.lib.det_attach(tid)
        try:
            def loc(frame, event, arg):
                if event == 'line':
                    det.lib.det_yield()
                return loc
            sys.settrace(lambda f, e, a: loc if f.f_code.co_filename.startswith(REPO) else None)
            try:
                one(k)
            except BaseException as e:
                err.append(e)
            finally:
                sys.settrace(None)
        finally:
            det.lib.det_exit()
    ctx.begin()
    try:
        with quiet():
            th = [threading.Thread(target=body, args=(det.lib.det_reserve(), k)) for k in range(n)]
            for x in th:
                x.start()
            det.lib.det_join()
            for x in th:
                x.join()
    finally:
        ctx.end()
    if err:
        raise RuntimeError(repr(err))


def nontrivial(ctx):
    return ctx.probes.get('pages-after-something', 0) > 0


def shrinks(case):
    for y in shrink_list(case['acts'], 1):
        yield dict(case, acts=y)
    for i, a in enumerate(case['acts']):
        if a['do'] == 'view' and len(a['views']) > 1:
            for k in range(len(a['views'])):
                yield dict(case, acts=case['acts'][:i] + [dict(a, views=[a['views'][k]])] + case['acts'][i + 1:])
        for f in ('fault', 'eio'):
            if f in a:
                yield dict(case, acts=case['acts'][:i] + [{k: v for k, v in a.items() if k != f}] + case['acts'][i + 1:])
    for i, b in enumerate(case['B']):
        if len(b['c']['trees']) > 1:
            yield dict(case, B=case['B'][:i] + [dict(b, c=dict(b['c'], trees=b['c']['trees'][:1]))] + case['B'][i + 1:])
