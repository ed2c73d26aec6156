"""Simulation worker (PyPy): runs seeds of one property, or one replay file, and reports JSON lines on fd 3/stdout."""
import sys, os, json, time, random, importlib, traceback, itertools
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
out = os.fdopen(os.dup(1), 'w', buffering=1)
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)
if not os.environ.get('ACVSIM_STDERR'):
    # stderr stays on a file the driver reads when the process dies
    pass


def emit(o):
    out.write(json.dumps(o) + '\n'); out.flush()


def main():
    a = json.loads(sys.argv[1] if sys.argv[1] != '-' else sys.stdin.read())
    # runs are short; and which line events a compiled loop reports depends on when it was compiled, hence on the garbage collector
    import pypyjit
    pypyjit.set_param('off')
    import numpy as np
    # libraries that bring their own OpenMP runtime bind to it only when they are loaded before the deterministic one
    for n in {'C19': ['xgboost', 'sklearn.ensemble', 'skranger.ensemble']}.get(a['prop'], []):
        importlib.import_module(n)
    import simlib, det
    mod = importlib.import_module('props.' + a['prop'].lower())
    if hasattr(mod, 'setup'):
        mod.setup()
    emit({'ready': 1})

    def one(case, scripts=None, record=False):
        import gc
        np.random.seed(12345); random.seed(12345)
        ctx = simlib.Ctx(case, scripts=scripts, record=record)
        t = time.time()
        r = {'status': 'ok'}
        try:
            ctx.note(mod.run(case, ctx))
        except simlib.Violation as v:
            r = {'status': 'violation', 'tag': v.tag, 'detail': str(v.detail)[:2000]}
            ctx.note('violation', v.tag)
        except Exception as e:
            # raised by the code under test outside a simulated call, or by the checker on a result it could not read
            under = any(f.filename.startswith(simlib.REPO) or f.filename.endswith('.pyx') for f in traceback.extract_tb(e.__traceback__))
            if ctx.n and (under or isinstance(e, (IndexError, ValueError, KeyError, TypeError, ArithmeticError))):
                r = {'status': 'violation', 'tag': ('raises:' if under else 'malformed-result:') + type(e).__name__, 'detail': traceback.format_exc()[-1500:]}
                ctx.note('violation', r['tag'])
            else:
                r = {'status': 'error', 'detail': traceback.format_exc()[-3000:]}
        nt = getattr(mod, 'nontrivial', lambda c: c.tot.get('team_max', 0) > 1 and c.tot.get('switches', 0) > 0)
        r.update(nontrivial=bool(nt(ctx)), wall=time.time() - t, hash=ctx.hash.hexdigest()[:24], stats=ctx.tot, faults=ctx.faults, probes=ctx.probes,
                 strats=sorted(ctx.strats), calls=len(ctx.trace), ops=sorted(set(ctx.trace)))
        if record:
            r['logs'] = ctx.logs
        return r

    def gen(s):
        return json.loads(json.dumps(mod.gen(random.Random(s), a.get('tier', 'quick'))))

    if a.get('meta'):
        emit({'status': 'meta', 'seeds': mod.SEEDS[a['tier']], 'nontrivial': mod.NONTRIVIAL, 'real': mod.REAL, 'stub': mod.STUB,
              'assumptions': getattr(mod, 'ASSUME', [])})
        return
    if 'gen' in a:
        emit({'status': 'gen', 'case': gen(a['gen'])})
        return
    if 'genmany' in a:
        emit({'status': 'gen', 'case': {'many': [gen(s) for s in a['genmany']]}})
        return
    if 'case' in a:
        case = a['case'] if not isinstance(a['case'], str) else json.load(open(a['case']))
        if 'many' in case:
            for c in case['many']:
                r = one(c)
        else:
            r = one(case, a.get('scripts'), a.get('record', False))
        emit(r)
        return
    if a.get('stdin'):
        # minimisation server: one candidate per line
        for line in sys.stdin:
            q = json.loads(line)
            if 'shrinks' in q:
                emit({'shrinks': list(itertools.islice(mod.shrinks(q['shrinks']), 400)) if hasattr(mod, 'shrinks') else []})
            else:
                emit(one(q['case'], q.get('scripts'), q.get('record', False)))
        return
    t0 = time.time()
    for s in a['seeds']:
        if a.get('budget') and time.time() - t0 > a['budget']:
            break
        emit({'start': s})
        case = gen(s)
        r = one(case)
        r['seed'] = s
        if r['status'] != 'ok':
            r['case'] = case
        elif a.get('sample') and s in a['sample']:
            r['case'] = case
        emit(r)
    emit({'done': 1})


main()
