"""Shared parts of the simulation harness (runs under PyPy, inside a worker process)."""
import io, os, sys, random, math, traceback, warnings, hashlib, threading, builtins
warnings.filterwarnings('ignore')
import types


class _NoBar:
    """tqdm: a passthrough (the real one starts a monitor thread and reads the clock; what it draws is no part of any property)"""

    def __init__(self, it=None, *a, **k):
        self.it = it if it is not None else range(k.get('total') or 0)

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, k):
        return lambda *a, **kw: None


_t = types.ModuleType('tqdm')
_t.__path__ = []
_t.tqdm = _t.tqdm_notebook = _NoBar
_t.trange = lambda *a, **k: _NoBar(range(*a))
for _n in ('tqdm', 'tqdm.auto', 'tqdm.std', 'tqdm.notebook'):
    sys.modules[_n] = _t
import numpy as np
import det

_dirt = None            # what arrays without initial contents are found to hold, during a simulated call


def _dirty(real):
    def made(*a, **k):
        r = real(*a, **k)
        if _dirt is not None and r.size:
            if r.dtype.kind == 'f':
                r.fill(_dirt[0])
            elif r.dtype.kind in 'iu':
                i = np.iinfo(r.dtype)
                r.fill(max(i.min, min(i.max, _dirt[1])))
            elif r.dtype.kind == 'b':
                r.fill(True)
        return r
    made.__name__ = real.__name__
    return made


np.empty, np.empty_like = _dirty(np.empty), _dirty(np.empty_like)


def soil(sched):
    global _dirt
    _dirt = [(math.nan, 123456789), (8.25e8, -987654), (-3.5e7, 77)][sched['seed'] % 3] if sched and sched['poison'] else None

REPO = os.environ.get('ACVSIM_REPO', '/repo')


class Violation(Exception):
    """the property does not hold; tag is the class of the failure (what minimisation preserves)"""
    def __init__(self, tag, detail=''):
        Exception.__init__(self, '%s: %s' % (tag, detail))
        self.tag, self.detail = tag, detail


class Injected(Exception):
    """an exception planted by the simulator"""


class InjectedInterrupt(KeyboardInterrupt):
    pass


STEP_LIMIT = 400000000


def gen_sched(rng):
    s = rng.choices([det.RANDOM, det.PCT, det.RR, det.STARVE, det.RACE, det.SERIAL], [30, 15, 12, 13, 22, 8])[0]
    return {'seed': rng.getrandbits(48), 'strat': s, 'quantum': rng.choice([2, 5, 15, 50, 200, 1000, 5000]),
            'hotp': rng.choice([0.02, 0.1, 0.4]) if s == det.RACE else rng.choice([0, 0, 0.02]),
            'team': rng.choice([1, 2, 2, 3, 4, 5, 8]), 'vary': rng.choice([0, 1]), 'ordered': rng.choice([0, 0, 1]),
            'poison': rng.choice([0, 1, 1, 1]), 'pctd': rng.randint(1, 8), 'pctlen': rng.choice([500, 5000, 50000, 500000])}


SERIAL_SCHED = {'seed': 1, 'strat': det.SERIAL, 'quantum': 1, 'hotp': 0, 'team': 1, 'vary': 0, 'ordered': 1, 'poison': 0,
                'pctd': 1, 'pctlen': 10}


class Ctx:
    """one simulated run: every call of the code under test goes through call()"""

    def __init__(self, case, scripts=None, record=False):
        self.case, self.scripts, self.record = case, scripts, record
        self.n = 0
        self.tot = {}
        self.logs = []
        self.hash = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.teams = set()
        self.strats = set()
        self.trace = []

    def fault(self, kind, k=1):
        self.faults[kind] = self.faults.get(kind, 0) + k

    def probe(self, kind, k=1):
        self.probes[kind] = self.probes.get(kind, 0) + k

    def note(self, *a):
        """an event of the history: part of the hash that identifies the run"""
        self.hash.update(repr(a).encode())

    def begin(self, sched=None):
        s = dict(sched or self.case.get('sched') or SERIAL_SCHED)
        k = self.n
        self.n += 1
        seed = (s['seed'] + 0x9E3779B97F4A7C15 * k) & ((1 << 63) - 1)
        strat = s['strat']
        if self.scripts is not None:
            strat = det.SCRIPT
            det.script(self.scripts[k] if k < len(self.scripts) else [])
        self.strats.add(det.NAMES[strat])
        soil(s)
        det.lib.det_begin(seed, strat, float(s['quantum']), float(s['hotp']), s['team'], s['vary'], s['ordered'],
                          STEP_LIMIT, s['poison'], s['pctd'], s['pctlen'])

    def end(self):
        soil(None)
        det.lib.det_end()
        st = det.stats()
        for x, v in st.items():
            if x in ('hash', 'team_max', 'max_ready'):
                continue
            self.tot[x] = self.tot.get(x, 0) + v
        for x in ('team_max', 'max_ready'):
            self.tot[x] = max(self.tot.get(x, 0), st[x])
        if self.record:
            self.logs.append(det.log())
        self.hash.update(b'%d %d' % (st['hash'], st['steps']))

    def call(self, fn, *a, **kw):
        """run fn(*a, **kw) under the simulated scheduler; an exception of the code under test is a violation"""
        allow = kw.pop('_allow', ())
        name = kw.pop('_name', getattr(fn, '__name__', 'call'))
        self.trace.append(name)
        self.begin()
        try:
            try:
                with quiet():
                    return fn(*a, **kw)
            finally:
                self.end()
        except (Violation, Injected, InjectedInterrupt):
            raise
        except allow:
            raise
        except Exception as e:
            raise Violation('raises:%s:%s' % (name, type(e).__name__), where(e))


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(REPO) or f.filename.endswith('.pyx')]
    f = (fr or tb)[-1]
    return '%s: %s (at %s:%s in %s)' % (type(e).__name__, str(e)[:300], os.path.basename(f.filename), f.lineno, f.name)


class quiet:
    """the code under test prints and draws progress bars: not part of any property"""

    def __enter__(self):
        self.o = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = io.StringIO()

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o


# ------------------------------------------------------------------ comparison
def close(a, b, tol=1e-9):
    a = float(a); b = float(b)
    if a != a or b != b:
        return (a != a) and (b != b)
    if a == b:
        return True
    return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))


def check_equal(tag, got, want, tol=1e-9, what=''):
    """arrays (or nested lists) agree up to the order of floating-point additions"""
    g = np.asarray(got, dtype=float); w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(tag + ':shape', '%s got shape %s, expected %s' % (what, g.shape, w.shape))
    gl = g.ravel().tolist(); wl = w.ravel().tolist()
    sc = max([abs(x) for x in wl if x == x and abs(x) != math.inf] + [0.0])
    for k in range(len(gl)):
        x, y = gl[k], wl[k]
        if x == y or (x != x and y != y):
            continue
        if x != x or y != y or abs(x - y) > tol * (1.0 + sc):
            raise Violation(tag, '%s at %s: got %r, expected %r' % (what, tuple(int(i) for i in np.unravel_index(k, g.shape)), x, y))


def check_same(tag, a, b, what=''):
    """identical, bit for bit (nan equal to nan)"""
    fa, fb = freeze(a), freeze(b)
    if fa != fb:
        raise Violation(tag, '%s differ: %s / %s' % (what, short(a), short(b)))


def short(x, n=300):
    s = repr(x.tolist() if isinstance(x, np.ndarray) else x)
    return s if len(s) <= n else s[:n] + '...'


def freeze(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('o', x.shape, tuple(freeze(e) for e in x.ravel().tolist()))
        return ('a', x.shape, str(x.dtype), np.ascontiguousarray(x).tobytes())
    if isinstance(x, (list, tuple)):
        return ('l', tuple(freeze(e) for e in x))
    if isinstance(x, dict):
        return ('d', tuple((freeze(k), freeze(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))))
    if isinstance(x, (float, np.floating)):
        return ('f', float(x).hex())
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return ('i', int(x))
    if x is None or isinstance(x, str):
        return x
    return ('r', repr(x))


def digest(x):
    return hashlib.sha256(repr(freeze(x)).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ generators (JSON only)
def gen_data(rng, n, d, style=None):
    style = style or rng.choice(['grid', 'grid', 'float', 'mixed', 'binary'])
    cols = []
    for j in range(d):
        s = style if style != 'mixed' else rng.choice(['grid', 'float', 'binary', 'large'])
        if s == 'grid':
            k = rng.randint(2, 6)
            cols.append([float(rng.randint(-k, k)) / 2 for _ in range(n)])
        elif s == 'binary':
            cols.append([float(rng.random() < 0.5) for _ in range(n)])
        elif s == 'large':
            cols.append([round(rng.gauss(3000, 2000), rng.choice([0, 2])) for _ in range(n)])
        else:
            cols.append([round(rng.gauss(0, 1), rng.choice([2, 4, 8])) for _ in range(n)])
    return [[cols[j][i] for j in range(d)] for i in range(n)]


def gen_tree(rng, X, depth, nout, ties=None, p_leaf=0.15, values=None):
    """a random binary tree whose splits come from the rows X reaching them; leaves carry nout values"""
    t = {'cl': [], 'cr': [], 'f': [], 't': [], 'v': [], 'n': []}
    d = len(X[0])

    def val(rows):
        if values:
            return values(rng, rows)
        return [round(rng.uniform(-2, 2), 3) for _ in range(nout)]

    def node(rows, dep):
        i = len(t['f'])
        for k in t:
            t[k].append(None)
        t['n'][i] = float(len(rows))
        t['v'][i] = val(rows)
        split = None
        if dep > 0 and len(rows) >= 2 and not (i and rng.random() < p_leaf):
            for _ in range(6):
                f = rng.randrange(d)
                vs = sorted(set(X[r][f] for r in rows))
                if len(vs) < 2:
                    continue
                k = rng.randrange(len(vs) - 1)
                th = vs[k] if (ties if ties is not None else rng.random() < 0.3) else (vs[k] + vs[k + 1]) / 2
                if not (vs[k] <= th < vs[k + 1]):
                    th = vs[k]
                split = (f, th)
                break
        if split is None:
            t['cl'][i] = t['cr'][i] = -1; t['f'][i] = -2; t['t'][i] = -2.0
            return i
        f, th = split
        t['f'][i], t['t'][i] = f, th
        t['cl'][i] = node([r for r in rows if X[r][f] <= th], dep - 1)
        t['cr'][i] = node([r for r in rows if X[r][f] > th], dep - 1)
        return i
    node(list(range(len(X))), depth)
    return t


def gen_points(rng, X, k):
    """points to explain: rows of the data, mixes of rows, points outside"""
    d = len(X[0])
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.5:
            out.append(list(rng.choice(X)))
        elif r < 0.85:
            out.append([rng.choice(X)[j] for j in range(d)])
        else:
            out.append([rng.choice(X)[j] + rng.choice([-0.3, 0.0, 0.26, 3.0]) for j in range(d)])
    return out


def gen_size(rng):
    """now and then one dimension of a case is much larger than usual"""
    r = rng.random()
    big = rng.random() < .3
    return {'points': r < .02 and (70 if big else 25), 'trees': .02 <= r < .04 and (36 if big else 12), 'rows': .04 <= r < .06 and (270 if big else 100), 'depth': .06 <= r < .08, 'features': .08 <= r < .1}


def gen_coalitions(rng, d):
    if d < 2 or rng.random() < 0.45:
        return [[]]
    vs = list(range(d)); rng.shuffle(vs)
    C = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        k = rng.choice([1, 2, 2, 2, 2, 3, 3, 3, 4])
        if len(vs) >= k:
            C.append(sorted(vs[:k]) if rng.random() < 0.7 else vs[:k]); vs = vs[k:]
    return C or [[]]


def shrink_list(xs, lo=0):
    """shorter versions of a list"""
    n = len(xs)
    k = n
    while k >= 1:
        for i in range(0, n, k):
            y = xs[:i] + xs[i + k:]
            if len(y) >= lo and len(y) < n:
                yield y
        k //= 2


# ------------------------------------------------------------------ building real explainers
def np_tree(t):
    return {'children_left': np.array(t['cl'], dtype=np.int32), 'children_right': np.array(t['cr'], dtype=np.int32),
            'children_default': np.array(t['cl'], dtype=np.int32), 'features': np.array(t['f'], dtype=np.int32),
            'thresholds': np.array(t['t'], dtype=float), 'values': np.array(t['v'], dtype=float),
            'node_sample_weight': np.array(t['n'], dtype=float)}


def acvtree(trees, X, agnostic=False, **kw):
    from acv_explainers import ACVTree, ACVTreeAgnostic
    with quiet():
        return (ACVTreeAgnostic if agnostic else ACVTree)({'trees': [np_tree(t) for t in trees]}, data=np.array(X, dtype=float), **kw)


def leaves(t, d):
    """[(values, [(lo, hi)] * d)] : the partition of the tree, x in the leaf iff lo < x <= hi"""
    out = []

    def go(i, box):
        if t['cl'][i] < 0:
            out.append((t['v'][i], box)); return
        f, th = t['f'][i], t['t'][i]
        l = list(box); l[f] = (box[f][0], min(box[f][1], th)); go(t['cl'][i], l)
        r = list(box); r[f] = (max(box[f][0], th), box[f][1]); go(t['cr'][i], r)
    go(0, [(-math.inf, math.inf)] * d)
    return out


def tree_leaf(t, x):
    i = 0
    while t['cl'][i] >= 0:
        i = t['cl'][i] if x[t['f'][i]] <= t['t'][i] else t['cr'][i]
    return i


def tree_predict(t, x):
    return t['v'][tree_leaf(t, x)]
