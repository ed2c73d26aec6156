#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]   run one check (seed from VERIF_SEED; tier from --tier or VERIF_TIER, quick or thorough), or replay a failure.

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken; anything else: no answer."""
import json, os, selectors, subprocess, sys, time, signal, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
sys.path.insert(0, SIM)
import build as B

PYPY = B.PYPY
CRASH = {77: 'step-budget-exceeded', 78: 'deadlock', 79: 'heap-corruption'}
T0 = time.time()


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def env_for(lib, hashseed='0'):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'GOMP_', 'PYTHON', 'LD_'))}
    mpl = os.path.join(B.ROOT, 'mpl')
    os.makedirs(mpl, exist_ok=True)
    e.update(ACVSIM_LIB=lib, PYTHONPATH=lib + ':' + B.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR=mpl,
             PYTHONHASHSEED=hashseed, PYTHONUNBUFFERED='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MALLOC_PERTURB_='90',
             LANG='C.UTF-8', HOME='/root', ACVSIM_REPO=B.REPO)
    return e


class Worker:
    """a worker process; lines() yields its JSON messages, None when it is silent, ends at EOF"""

    def __init__(self, lib, args, hashseed='0', stdin=False):
        self.err = open(os.path.join(B.ROOT, 'err.%d.%d' % (os.getpid(), id(self))), 'w+b')
        arg, inp = json.dumps(args), subprocess.PIPE if stdin else subprocess.DEVNULL
        if len(arg) > 60000 and not stdin:      # too long for a command line
            inp = open(os.path.join(B.ROOT, 'arg.%d.%d' % (os.getpid(), id(self))), 'w+')
            inp.write(arg); inp.seek(0)
            os.unlink(inp.name)
            arg = '-'
        self.p = subprocess.Popen([PYPY, os.path.join(SIM, 'worker.py'), arg], env=env_for(lib, hashseed),
                                  stdout=subprocess.PIPE, stderr=self.err, stdin=inp, cwd='/', start_new_session=True)
        os.unlink(self.err.name)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b''
        self.last = time.time()
        self.cur = None
        self.done = False
        self.args = args
        self.past = []

    def pump(self):
        """new messages; second value False at end of file"""
        msgs, alive = [], True
        while True:
            try:
                b = os.read(self.p.stdout.fileno(), 1 << 16)
            except BlockingIOError:
                break
            if not b:
                alive = False
                break
            self.buf += b
            self.last = time.time()
        while b'\n' in self.buf:
            l, self.buf = self.buf.split(b'\n', 1)
            msgs.append(json.loads(l))
        return msgs, alive

    def stderr(self):
        self.err.seek(0)
        return self.err.read()[-6000:].decode(errors='replace')

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def death(self):
        """(class of the end, detail) of a process that has ended"""
        rc = self.p.wait()
        e = self.stderr()
        m = [l for l in e.splitlines() if 'DETOMP-STOP' in l]
        if rc in CRASH:
            why = m[-1].split('DETOMP-STOP', 1)[1].split('steps=')[0].strip() if m else ''
            return 'crash:' + CRASH[rc] + (':' + why if rc == 79 and why else ''), (m[-1] if m else e[-500:])
        if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
            return 'crash:' + signal.Signals(-rc).name, e[-1500:]
        return 'error:exit %d' % rc, e[-3000:]


def run_single(lib, q, timeout=240, hashseed='0'):
    """run one case in a fresh process"""
    w = Worker(lib, q, hashseed)
    end = time.time() + timeout
    res = None
    while True:
        msgs, alive = w.pump()
        for m in msgs:
            if 'status' in m:
                res = m
        if not alive:
            break
        if time.time() > end:
            w.kill()
            return {'status': 'violation', 'tag': 'hang', 'detail': 'no answer after %d s' % timeout}
        time.sleep(0.02)
    tag, det = w.death()
    if res is not None and tag == 'error:exit 0':
        return res
    if tag.startswith('crash'):
        return {'status': 'violation', 'tag': tag, 'detail': det}
    return {'status': 'error', 'detail': tag + '\n' + det}


class Server:
    """a process that runs candidate cases one after the other; restarted when a case kills it"""

    def __init__(self, lib, prop, tier):
        self.lib, self.a = lib, {'prop': prop, 'tier': tier, 'stdin': True}
        self.w = None

    def ask(self, q, timeout=60):
        if self.w is None:
            self.w = Worker(self.lib, self.a, stdin=True)
        try:
            self.w.p.stdin.write((json.dumps(q) + '\n').encode()); self.w.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        while True:
            msgs, alive = self.w.pump()
            for m in msgs:
                if 'status' in m or 'shrinks' in m:
                    return m
            if not alive:
                tag, det = self.w.death(); self.w = None
                return {'status': 'violation' if tag.startswith('crash') else 'error', 'tag': tag, 'detail': det}
            if time.time() > end:
                self.w.kill(); self.w = None
                return {'status': 'violation', 'tag': 'hang', 'detail': ''}
            time.sleep(0.002)

    def close(self):
        if self.w:
            self.w.kill()


def minimise(lib, prop, tier, case, res, budget):
    """a smaller case, and schedule, with the same class of failure; returns (case, scripts, result, runs tried)"""
    tag = res['tag']
    if tag == 'hang':
        return case, None, res, 0
    end = time.time() + budget
    sv = Server(lib, prop, tier)
    tried = 0

    def bad(c, scripts=None, record=False):
        nonlocal tried
        tried += 1
        r = sv.ask({'case': c, 'scripts': scripts, 'record': record})
        return r if r.get('status') == 'violation' and r.get('tag') == tag else None
    scripts = None
    try:
        if not bad(case):
            return case, None, res, tried
        if case.get('sched'):
            for ch in ({'strat': 5, 'team': 1, 'ordered': 1, 'vary': 0, 'poison': 0}, {'strat': 5, 'ordered': 1, 'vary': 0},
                       {'strat': 5, 'team': 1}, {'strat': 5}, {'poison': 0}, {'team': 2}, {'vary': 0}, {'ordered': 1}):
                c = dict(case, sched=dict(case['sched'], **ch))
                if c['sched'] != case['sched'] and time.time() < end:
                    r = bad(c)
                    if r:
                        case, res = c, r
        go = True
        while go and time.time() < end:
            go = False
            m = sv.ask({'shrinks': case})
            for c in m.get('shrinks', []):
                if time.time() > end:
                    break
                r = bad(c)
                if r:
                    case, res, go = c, r, True
                    break
        if not tag.startswith('crash'):
            r = bad(case, record=True)
            if r and sum(len(x) for x in r.get('logs', [])) < 60000:
                sc = r['logs']
                if bad(case, sc):
                    scripts = sc
                    # fewer switches: whole calls first, then delta debugging inside each call
                    for i in range(len(scripts)):
                        k = max(1, len(scripts[i]))
                        while k >= 1 and scripts[i] and time.time() < end:
                            j = 0
                            while j < len(scripts[i]) and time.time() < end:
                                t = scripts[:i] + [scripts[i][:j] + scripts[i][j + k:]] + scripts[i + 1:]
                                r = bad(case, t)
                                if r:
                                    scripts, res = t, r
                                else:
                                    j += k
                            k //= 2
        return case, scripts, res, tried
    finally:
        sv.close()


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k.get('property') == prop and k.get('status') == 'open']


def known_match(known, r):
    for k in known:
        if k['tag'] == r.get('tag') and all(s in r.get('detail', '') for s in k.get('detail_contains', [])):
            return k
    return None


def merge(d, s):
    for k, v in s.items():
        d[k] = d.get(k, 0) + v


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    opt = {}
    i = 1
    while i < len(args):
        opt[args[i].lstrip('-')] = args[i + 1]
        i += 2
    tier = opt.get('tier', tier)
    try:
        lib = B.build(log=log)
    except B.BuildError as e:
        print('BUILD-ERROR', e)
        return 3
    log('built', lib)
    if 'replay' in opt:
        f = json.load(open(opt['replay']))
        r = run_single(lib, {'prop': prop, 'tier': tier, 'case': f['case'], 'scripts': f.get('scripts')}, timeout=600)
        print(json.dumps({k: r.get(k) for k in ('status', 'tag', 'detail', 'hash')}, indent=1))
        if r['status'] == 'violation':
            print('same class of failure as recorded: %s; same run: %s' % (r['tag'] == f['tag'], r.get('hash') == f.get('hash')))
            print('VIOLATION property=%s replay=%s' % (prop, opt['replay']))
            return 1
        return 0 if r['status'] == 'ok' else 2

    meta = run_single(lib, {'prop': prop, 'tier': tier, 'meta': True}, timeout=120)
    if meta.get('status') != 'meta':
        print('HARNESS-ERROR', meta)
        return 2
    nseeds = int(opt.get('seeds', meta['seeds']))
    W = int(opt.get('workers', min(8, os.cpu_count() or 1)))
    budget = float(opt.get('budget', {'quick': 240, 'thorough': 660}.get(tier, 240)))
    base = seed * 1000003
    seeds = [base + k for k in range(nseeds)]
    known = load_known(prop)
    known_hits = {}
    tot, faults, probes, ops = {}, {}, {}, {}
    strats = {}
    hashes = set(); nontrivial = set()
    n_ok = n_err = n_slow = 0
    samples = []
    errors = []
    found = None
    anomalies = []
    t_sim = time.time()
    queue = [seeds[k::W] for k in range(W)]
    ws = [Worker(lib, {'prop': prop, 'tier': tier, 'seeds': q, 'budget': budget, 'sample': q[:1]}) for q in queue if q]
    # the same seeds in another process, with another hash seed: determinism
    again = seeds[:(24 if tier == 'quick' else 200)]
    dets = {}
    dw = Worker(lib, {'prop': prop, 'tier': tier, 'seeds': again[::-1], 'budget': budget}, hashseed='4242')
    dw.is_det = True
    ws.append(dw)
    per_seed = {}
    hang_s = 150
    while ws and found is None:
        time.sleep(0.01)
        for w in list(ws):
            msgs, alive = w.pump()
            for m in msgs:
                if 'start' in m:
                    w.cur = m['start']; w.t = time.time()
                    continue
                if 'done' in m:
                    w.done = True
                    continue
                if 'status' not in m:
                    continue
                s = m['seed']; w.past.append(s); w.cur = None
                if getattr(w, 'is_det', False):
                    dets[s] = m.get('hash')
                    continue
                per_seed[s] = m.get('hash')
                if m['status'] == 'error':
                    n_err += 1; errors.append((s, m['detail']))
                    continue
                merge(faults, m['faults']); merge(probes, m['probes'])
                for k, v in m['stats'].items():
                    tot[k] = max(tot.get(k, 0), v) if k in ('team_max', 'max_ready') else tot.get(k, 0) + v
                for k in m['strats']:
                    strats[k] = strats.get(k, 0) + 1
                for k in m['ops']:
                    ops[k] = ops.get(k, 0) + 1
                hashes.add(m['hash'])
                if m.get('nontrivial', True):
                    nontrivial.add(m['hash'])
                if m['status'] == 'ok':
                    n_ok += 1
                    if 'case' in m and len(samples) < 2:
                        samples.append({'seed': s, 'case': m['case'], 'hash': m['hash'], 'steps': m['stats'].get('steps'), 'switches': m['stats'].get('switches')})
                else:
                    k = known_match(known, m)
                    if k:
                        known_hits.setdefault(k['id'], [k, 0])[1] += 1
                    else:
                        found = (s, m['case'], m)
                        break
            if found:
                break
            if not alive:
                ws.remove(w)
                tag, det = w.death()
                if w.done and tag == 'error:exit 0':
                    continue
                if getattr(w, 'is_det', False):
                    continue
                s = w.cur
                log('worker ended: %s at seed %s' % (tag, s))
                rest = [x for x in w.args['seeds'] if x not in set(w.past) and x != s]
                if s is None:
                    errors.append((None, tag + '\n' + det)); n_err += 1
                else:
                    r = run_single(lib, {'prop': prop, 'tier': tier, 'seeds': [s]}, timeout=hang_s)
                    if r['status'] == 'violation' and r['tag'].startswith('crash'):
                        c = run_single(lib, {'prop': prop, 'tier': tier, 'gen': s}, timeout=100)
                        found = (s, c.get('case'), r)
                        break
                    if r['status'] == 'violation':
                        found = (s, r.get('case'), r); break
                    r = run_single(lib, {'prop': prop, 'tier': tier, 'seeds': w.past + [s], 'crashonly': True}, timeout=600)
                    if r['status'] == 'violation' and r['tag'].startswith('crash'):
                        c = run_single(lib, {'prop': prop, 'tier': tier, 'genmany': w.past + [s]}, timeout=100)
                        found = (s, c.get('case'), r)
                        break
                    if tag.startswith('crash') and tag.split(':')[1] in CRASH.values():
                        c = run_single(lib, {'prop': prop, 'tier': tier, 'gen': s}, timeout=100)
                        found = (s, c.get('case'), {'status': 'violation', 'tag': tag, 'detail': det + '\n(not reproduced in isolation)'})
                        break
                    anomalies.append({'seed': s, 'end': tag, 'detail': det[-300:]})
                    n_err += 1; errors.append((s, 'worker ended (%s), not reproduced: %s' % (tag, det[-800:])))
                if rest and time.time() - t_sim < budget:
                    ws.append(Worker(lib, dict(w.args, seeds=rest, budget=max(1, budget - (time.time() - t_sim)))))
            elif w.cur is not None and time.time() - w.t > hang_s:
                s = w.cur
                w.kill(); ws.remove(w)
                if getattr(w, 'is_det', False):
                    continue
                log('seed %d gave no answer in %d s: running it alone' % (s, hang_s))
                r = run_single(lib, {'prop': prop, 'tier': tier, 'seeds': [s]}, timeout=hang_s)
                if r['status'] == 'violation':
                    c = run_single(lib, {'prop': prop, 'tier': tier, 'gen': s}, timeout=100)
                    found = (s, c.get('case'), r)
                    break
                n_slow += 1
                rest = [x for x in w.args['seeds'] if x not in set(w.past) and x != s]
                if rest and time.time() - t_sim < budget:
                    ws.append(Worker(lib, dict(w.args, seeds=rest, budget=max(1, budget - (time.time() - t_sim)))))
            elif w.cur is None and not w.done and time.time() - w.last > hang_s:
                w.kill(); ws.remove(w); n_err += 1; errors.append((None, 'worker silent\n' + w.stderr()))
    for w in ws:
        w.kill()
    sim_s = time.time() - t_sim
    mism = [s for s in dets if s in per_seed and dets[s] != per_seed[s]]
    rc = 0
    line = None
    mini = None
    if found:
        s, case, r = found
        log('seed %d: %s: %s' % (s, r['tag'], r.get('detail', '')[:600]))
        tried = 0
        scripts = None
        if case is not None and not (isinstance(case, dict) and 'many' in case):
            case, scripts, r2, tried = minimise(lib, prop, tier, case, r, float(opt.get('minimise', 25 if tier == 'quick' else 90)))
            f = run_single(lib, {'prop': prop, 'tier': tier, 'case': case, 'scripts': scripts}, timeout=hang_s)
            log('fresh process: %s %s' % (f.get('status'), f.get('tag')))
            if f.get('status') == 'violation':
                r2 = f
            r = r2
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (prop, s))
        json.dump({'property': prop, 'seed': s, 'tag': r.get('tag'), 'detail': r.get('detail'), 'hash': r.get('hash'), 'case': case,
                   'scripts': scripts, 'how': './check.py %s --replay <this file>' % prop}, open(path, 'w'))
        mini = {'tag': r.get('tag'), 'detail': (r.get('detail') or '')[:500], 'candidates_run': tried, 'replay': path,
                'switches_in_schedule': None if scripts is None else sum(len(x) for x in scripts)}
        log('minimised with %d runs: %s: %s' % (tried, r.get('tag'), (r.get('detail') or '')[:600]))
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
        rc = 1
    if n_err:
        rc = rc or 2
        print('HARNESS-ERROR: %d run(s) ended in an error of the harness' % n_err)
        for e in errors[:3]:
            print('seed', e[0], '\n', e[1][-3000:])
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(time.time() - T0, 2), 'violations': 1 if found else 0,
          'coverage': {
              'evaluations': n_ok + (1 if found else 0), 'distinct_nontrivial': len(nontrivial),
              'rule': 'One evaluation is one simulated run: one seed decides the workload, the schedule and the faults. Distinct: different '
                      'hash of the whole run (every thread switch with its step, every event noted, the results). Non-trivial: ' + meta['nontrivial'],
              'samples': samples, 'seeds_requested': nseeds, 'simulation_wall_s': round(sim_s, 2),
              'runs_per_hour': int(n_ok / sim_s * 3600) if sim_s > 0 else 0,
              'simulated_steps': tot.get('steps', 0), 'simulated_time': 'logical: one step per instrumented memory access or runtime call (no code under test reads a clock)',
              'thread_switches': tot.get('switches', 0), 'parallel_regions': tot.get('regions', 0), 'largest_team': tot.get('team_max', 0),
              'conflicting_granules': tot.get('conflicts', 0), 'race_directed_yields': tot.get('hot_yields', 0), 'python_yields': tot.get('py_yields', 0),
              'heap_bytes_poisoned': tot.get('poison_bytes', 0), 'distinct_executions': len(hashes), 'runs_by_strategy': strats,
              'faults_injected': faults, 'probes': probes, 'operations': ops, 'real_components': meta['real'], 'stubbed_components': meta['stub'],
              'determinism_rechecked': len([s for s in dets if s in per_seed]), 'determinism_mismatches': len(mism), 'slow_runs': n_slow, 'anomalies': anomalies,
              'known_findings_seen': {k: v[1] for k, v in known_hits.items()}, 'minimised': mini},
          'assumptions': meta['assumptions']}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1)
    os.replace(p + '.tmp', p)
    for k, v in known_hits.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if mism:
        log('determinism mismatches on seeds', mism)
    if not n_ok and rc == 0:
        print('HARNESS-ERROR: no run completed')
        rc = 2
    log('%s: %d runs ok, %d distinct, %d errors, %.1f s of simulation, exit %d' % (prop, n_ok, len(hashes), n_err, sim_s, rc))
    if line:
        print(line, flush=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
