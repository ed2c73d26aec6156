"""C15: arguments are only read, how they are stored does not matter, and results belong to the caller."""
import numpy as np
from simlib import *
import forest as F, treecase as T, ops, faults, rngsim

SEEDS = {'quick': 1000, 'thorough': 7000}
REAL = ['ACXplainer', 'ACVTree', 'BaseAgnosTree', 'BaseTree', 'utils', 'cyext_acv', 'cyext_acv_nopa', 'cyext_acv_cache', 'cext_acv']
STUB = ['GNU OpenMP runtime -> deterministic scheduler', 'operator new -> adversarial heap', 'line execution and array allocation of the Python code -> may raise at a chosen point',
        'fitting a ranger forest -> given trees', 'numpy\'s random stream -> simulated stream']
NONTRIVIAL = 'an operation was answered for arguments stored otherwise than as fresh C arrays, or after a result was overwritten, or a call was cut short'
LAY = ['C', 'F', 'F', 'rows', 'cols', 'both', 'neg', 'inside', 'readonly', 'f4', 'int', 'bool']
TREE2 = ops.TREE


def gen(rng, tier):
    c = F.gen_forest_case(rng, updown=True, cond=True, d=rng.choice([1, 2, 3, 3]), n=rng.choice([5, 10, 15]), npts=rng.randint(1, 3), ntrees=rng.randint(1, 2))
    if rng.random() < .35:
        # values every type of number holds exactly
        r = lambda v: float(round(v))
        for k in ('data', 'X'):
            c[k] = [[r(v) for v in x] for x in c[k]]
    t = T.gen_tree_case(rng, small=True, d=rng.choice([1, 2, 3]))
    if rng.random() < .15:
        T.boosted(rng, t)
    if rng.random() < .35:
        for k in ('data', 'X'):
            t[k] = [[float(round(v)) for v in x] for x in t[k]]
    acts = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .6:
            a = {'on': 'acx', 'o': ops.gen_acx_op(rng, c)}
        else:
            a = {'on': 'tree', 'o': ops.gen_tree_op(rng, t)}
        a['lay'] = {k: rng.choice(LAY) for k in ('X', 'y', 'D', 'yd', 't', 'down', 'up', 'cond')}
        if rng.random() < .3:
            x = rng.choice(LAY)
            a['lay'] = {k: x for k in a['lay']}
        a['vandal'] = int(rng.random() < .5)
        if rng.random() < .3:
            a['fault'] = rng.choice([['line', int(2 ** rng.uniform(0, 9))], ['alloc', rng.randint(1, 8)]])
        acts.append(a)
    return {'c': c, 't': t, 'acts': acts, 'fitlay': rng.choice(LAY), 'sched': c['sched']}


GUARD = 7.7e77


def lay(a, how):
    """the same values stored otherwise; second value: the buffer they are part of"""
    if not isinstance(a, np.ndarray) or a.ndim == 0:
        return a, None
    if how == 'F':
        b = np.asfortranarray(a.copy())
        return b, b
    if how in ('rows', 'cols', 'both'):
        st = [2 if (how == 'both' or (how == 'rows') == (k == 0)) else 1 for k in range(a.ndim)]
        big = np.full([n * s for n, s in zip(a.shape, st)], GUARD)
        v = big[tuple(slice(None, None, s) for s in st)]
        v[...] = a
        return v, big
    if how == 'neg':
        big = a[::-1].copy()
        return big[::-1], big
    if how == 'inside':
        big = np.full([n + 4 for n in a.shape], GUARD)
        v = big[tuple(slice(2, -2) for _ in a.shape)]
        v[...] = a
        return v, big
    if how == 'readonly':
        b = a.copy()
        b.setflags(write=False)
        return b, b
    ty = {'f4': np.float32, 'int': np.int64, 'bool': np.bool_}.get(how)
    if ty:
        b = a.astype(ty)
        if not np.array_equal(b.astype(float), a):
            b = a.copy()
        return b, b
    b = a.copy()
    return b, b


def image(P, bufs):
    """everything the caller can see of the arguments"""
    return freeze([[k, P[k], None if not isinstance(P[k], np.ndarray) else [P[k].strides, bool(P[k].flags.writeable)]] for k in sorted(P)] + [bufs])


def vandalise(r):
    """the caller overwrites what was returned"""
    if isinstance(r, np.ndarray):
        if r.flags.writeable:
            if r.dtype == object:
                for e in r.ravel().tolist():
                    vandalise(e)
            elif r.dtype.kind in 'if':
                r[...] = -9
            elif r.dtype.kind == 'b':
                r[...] = ~r
    elif isinstance(r, tuple):
        for e in r:
            vandalise(e)
    elif isinstance(r, list):
        for e in r:
            vandalise(e)
        del r[:]
    elif isinstance(r, dict):
        r.clear()


def run(case, ctx):
    c, t = case['c'], case['t']
    if t['clf'] and T.near_tie(t, t['X'] + t['data']):
        return 'tie'

    def mk(how='C'):
        a = F.acx(c)
        (D, d0), (y, y0) = lay(np.array(c['data'], dtype=float), how), lay(np.array(c['y_data'], dtype=float), how)
        im = image({'D': D, 'y': y}, [d0, y0])
        a.fit(D, y)
        if image({'D': D, 'y': y}, [d0, y0]) != im:
            raise Violation('argument:fit', 'fit changed its arguments (stored as %s)' % how)
        return a
    with quiet():
        acx, tree = mk(case['fitlay']), T.build(t)
    for act in case['acts']:
        o = act['o']
        P0 = ops.acx_arrays(c) if act['on'] == 'acx' else ops.tree_arrays(t)
        P, bufs = {}, []
        for k, v in sorted(P0.items()):
            P[k], b = lay(v, act['lay'].get(k, 'C'))
            bufs.append(b)
        import copy
        o2 = copy.deepcopy(o)
        if act['on'] == 'acx':
            ask = lambda P, a=acx: ops.acx_apply(a, P, o2, ctx)
        else:
            ask = lambda P, a=tree: ops.tree_apply(a, P, o2, t['clf'])
        im, imo = image(P, bufs), freeze(o2)

        def untouched(what):
            if image(P, bufs) != im:
                k = [k for k in P if image({k: P[k]}, []) != image({k: lay(P0[k], act['lay'].get(k, 'C'))[0]}, [])]
                raise Violation('argument:' + o['op'], '%s changed its arguments %s' % (what, k))
            if freeze(o2) != imo:
                raise Violation('argument:' + o['op'], '%s changed the lists it was given: %s, were %s' % (what, short(o2), short(o)))
        with quiet():
            want = ops.acx_apply(mk(), P0, copy.deepcopy(o), ctx) if act['on'] == 'acx' else ops.tree_apply(T.build(t), P0, copy.deepcopy(o), t['clf'])
        f = act.get('fault')
        if f:
            try:
                with (faults.at_line(f[1], InjectedInterrupt, ctx, 'interrupted-call') if f[0] == 'line' else faults.at_alloc(f[1], ctx)):
                    ctx.call(ask, P, _name=o['op'], _allow=(MemoryError, ValueError, TypeError, BufferError))
            except (InjectedInterrupt, MemoryError):
                ctx.probe('cut-short')
            except (ValueError, TypeError, BufferError):
                pass
            untouched('an interrupted %s' % o['op'])
        got = answer(ctx, ask, P, act, o)
        untouched(o['op'])
        if got is None:
            ctx.probe('rejected-layout')
            continue
        got = got[0]
        ops.same('stored', o, got, want)
        ctx.note(digest(ops.flat(got)) if o['op'] not in ops.SEARCH else 0)
        if any(v != 'C' for v in act['lay'].values()):
            ctx.probe('layouts')
        if act['vandal']:
            vandalise(got)
            ctx.fault('result-overwritten')
            untouched('the result of %s shares memory with the arguments and' % o['op'])
            if o['op'] == 'rules':       # without fitting the rules again
                kw = dict(coverage=o['cov'], min_acc=o['acc'], min_reg=o['reg'])
                ops.same('overwritten', o, ctx.call(acx.predict_global_rules, P0['D'].copy(), **kw), want)
            got = answer(ctx, ask, P, act, o)
            if got is not None:
                ops.same('overwritten', o, got[0], want)
                untouched(o['op'])
    return 'ok'


def answer(ctx, ask, P, act, o):
    """the result, or None when the way the arguments are stored is refused"""
    try:
        return (ctx.call(ask, P, _name=o['op'], _allow=(ValueError, TypeError, BufferError) if any(v != 'C' for v in act['lay'].values()) else ()),)
    except (ValueError, TypeError, BufferError) as e:
        if any(s in str(e) for s in ('contiguous', 'dtype mismatch', 'read-only', 'Buffer', 'buffer', 'no matching signature', 'not C')):
            return None
        raise Violation('raises:%s:%s' % (o['op'], type(e).__name__), where(e))


def nontrivial(ctx):
    return ctx.probes.get('layouts', 0) + ctx.probes.get('cut-short', 0) + ctx.faults.get('result-overwritten', 0) > 0


def shrinks(case):
    for y in shrink_list(case['acts'], 1):
        yield dict(case, acts=y)
    for i, a in enumerate(case['acts']):
        for k in a['lay']:
            if a['lay'][k] != 'C':
                yield dict(case, acts=case['acts'][:i] + [dict(a, lay=dict(a['lay'], **{k: 'C'}))] + case['acts'][i + 1:])
        if a.get('vandal'):
            yield dict(case, acts=case['acts'][:i] + [dict(a, vandal=0)] + case['acts'][i + 1:])
        if 'fault' in a:
            yield dict(case, acts=case['acts'][:i] + [{k: v for k, v in a.items() if k != 'fault'}] + case['acts'][i + 1:])
