"""A stand-in for streamlit (not installed): widgets answer what the simulated user chose, what the page shows is recorded, the cache keeps
results under the contents of the function, of what it refers to and of its arguments (as st.cache documents), and a script may be
stopped at any call, as a rerun does."""
import pickle, sys, threading, types


class StopScript(BaseException):
    """the user touched a widget: this run of the script ends here"""


class _Any:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, k):
        return getattr(ST, k)


class Page:
    """one run of the script for one user"""

    def __init__(self, view):
        self.view, self.events, self.n, self.chosen = view, [], 0, None


class Server:
    def __init__(self, ctx=None):
        self.cache, self.ctx, self.pages = {}, ctx, {}

    def page(self):
        return self.pages[threading.get_ident()]


server = Server()
ST = types.ModuleType('streamlit')


def _touch(kind=None, *a):
    p = server.page()
    p.n += 1
    if p.n == p.view.get('stop'):
        if server.ctx:
            server.ctx.fault('rerun-stops-script')
        raise StopScript()
    if kind:
        p.events.append((kind,) + a)
    return p


def _show(kind):
    def f(*a, **k):
        _touch(kind, *a)
    return f


for _n in ('title', 'header', 'subheader', 'text', 'markdown', 'dataframe', 'table', 'write', 'pyplot', 'metric', 'error', 'warning', 'set_page_config'):
    setattr(ST, _n, _show(_n))


def radio(label, options, *a, **k):
    v = _touch().view
    options = list(options)
    return options[v['page'] % len(options)]


def checkbox(label, value=False, *a, **k):
    v = _touch().view
    return bool(v['maxrule']) if 'ompute' in label else value


def number_input(label, value=None, min_value=None, max_value=None, *a, **k):
    v = _touch().view
    w = v['nb'] if 'SIZE' in label else v['pi'] if 'MIN' in label else v['t'] if 'THRESHOLD' in label else value
    if min_value is not None:
        w = max(w, min_value)
    if max_value is not None:
        w = min(w, max_value)
    return w


def selectbox(label, options, *a, **k):
    p = _touch()
    options = list(options)
    c = options[(p.view['exp'] if 'hange' in label else p.view['idx']) % len(options)]
    if 'hange' not in label:
        p.chosen = c
    return c


def columns(n, *a, **k):
    _touch()
    return [_Any() for _ in range(n if isinstance(n, int) else len(n))]


def _content(x, depth=0):
    if isinstance(x, types.FunctionType):
        return _func(x, depth + 1)
    if isinstance(x, types.ModuleType):
        return x.__name__
    if isinstance(x, type):
        return x.__module__ + '.' + x.__qualname__
    try:
        return pickle.dumps(x, protocol=4)
    except Exception:
        raise TypeError('UnhashableTypeError: ' + repr(type(x)))


def _func(f, depth=0):
    c = f.__code__
    key = [f.__module__, f.__qualname__, c.co_code, repr([k for k in c.co_consts if not isinstance(k, types.CodeType)])]
    if depth > 3:
        return repr(key)
    for n, cell in zip(c.co_freevars, f.__closure__ or ()):
        try:
            v = cell.cell_contents
        except ValueError:
            continue
        key.append((n, _content(v, depth)))
    for n in c.co_names:
        v = f.__globals__.get(n)
        if isinstance(v, types.FunctionType) and depth < 2:
            key.append((n, v.__qualname__))
        elif isinstance(v, (int, float, str, dict, list, tuple)):
            key.append((n, _content(v, depth)))
    return repr(key)


def cache(func=None, **opt):
    if func is None:
        return lambda f: cache(f, **opt)

    def g(*a, **k):
        s = server
        key = (_func(func), pickle.dumps((a, sorted(k.items())), protocol=4))
        if key in s.cache:
            if s.ctx:
                s.ctx.probe('cache-hits')
            return s.cache[key]
        r = func(*a, **k)
        s.cache[key] = r
        return r
    g.__name__ = getattr(func, '__name__', 'cached')
    return g


ST.radio, ST.checkbox, ST.number_input, ST.selectbox, ST.columns, ST.cache = radio, checkbox, number_input, selectbox, columns, cache
ST.cache_data = ST.cache_resource = ST.experimental_memo = ST.experimental_singleton = ST.memo = ST.singleton = cache
ST.sidebar = _Any()
sys.modules['streamlit'] = ST


class Plt:
    """matplotlib.pyplot as the pages use it: one figure at a time per thread"""

    def __init__(self):
        self.cur = {}

    def fig(self):
        return self.cur[threading.get_ident()]

    def figure(self, *a, **k):
        f = self.cur[threading.get_ident()] = {'y': [], 'v': [], 'labels': []}
        return f

    def barh(self, y, v, *a, **k):
        self.fig()['y'] = list(y)
        self.fig()['v'] = [float(z) for z in v]

    def gca(self):
        return _Ax(self.fig())

    def __getattr__(self, k):
        return lambda *a, **kw: None


class _D:
    def __getattr__(self, k):
        return lambda *a, **kw: None

    def __getitem__(self, k):
        return self


class _Ax:
    def __init__(self, f):
        self.f = f

    def set_yticklabels(self, labels):
        self.f['labels'] = list(labels)

    xaxis = yaxis = spines = _D()


class _Any2:
    """answers everything: attributes, calls, indexing, arithmetic"""
    width = height = 1.0

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: _Any2()

    def __getitem__(self, k):
        return self

    def __add__(self, o):
        return self


class _Text(_Any2):
    def __init__(self, f, t):
        self.f, self.t = f, t
        self.width = (len(f['texts']) % 2) * 2.0        # every other text overflows its arrow

    def get_window_extent(self, *a, **k):
        return self

    def remove(self):
        self.f['texts'].remove(self.t)


class _Ax2(_Any2):
    spines = xaxis = _Any2()

    def __init__(self, f):
        self.f = f
        self.yaxis = self

    def get_xlim(self):
        return self.f['lim']

    def get_xticks(self):
        return []

    def twiny(self):
        return _Ax2(self.f)

    def set_xticklabels(self, labels, *a, **k):
        self.f['marks'].append([str(l) for l in labels])

    def set_xticks(self, x, *a, **k):
        self.f['markx'].append([float(z) for z in x])

    def get_majorticklabels(self):
        return [_Any2() for _ in range(40)]

    get_yticklabels = get_xticklabels = get_majorticklabels

    def arrow(self, x, y, dx, dy, head_length=0.0, **k):
        self.f['arrows'].append((float(x), float(y), float(dx + max(head_length, 0) * (1 if dx > 0 else -1))))
        return _Any2()

    def text(self, x, y, s, *a, **k):
        t = (float(y), str(s))
        self.f['texts'].append(t)
        return _Text(self.f, t)

    def set_yticks(self, pos, labels=None, **k):
        self.f['ticks'] = [(float(p), '') for p in pos]
        if labels is not None:
            self.set_yticklabels(labels)

    def set_yticklabels(self, labels, *a, **k):
        self.f['ticks'] = [(p, str(l)) for (p, _), l in zip(self.f['ticks'], labels)]

    def axvline(self, x, *a, **k):
        self.f['lines'].append(float(x))


class Pl:
    """matplotlib.pyplot as the waterfall uses it: records the arrows, texts, labels and marks of the figure"""

    def __init__(self):
        self.cur = {}

    def f(self):
        return self.cur[threading.get_ident()]

    def figure(self, *a, **k):
        f = Fig(arrows=[], texts=[], ticks=[], marks=[], markx=[], lines=[], lim=(0.0, 1e-9))
        self.cur[threading.get_ident()] = f
        return f

    def gcf(self):
        return self.f()

    def gca(self):
        return _Ax2(self.f())

    def xlim(self, *a):
        return self.f()['lim']

    def subplots(self, *a, **k):
        f = self.figure()
        return f, _Ax2(f)

    def yticks(self, pos, labels=None, **k):
        self.gca().set_yticks(pos, labels)

    def __getattr__(self, k):
        return getattr(self.gca(), k)


class Fig(dict):
    dpi_scale_trans = canvas = _Any2()
    set_size_inches = staticmethod(lambda *a, **k: None)

    def gca(self):
        return _Ax2(self)

    add_subplot = lambda self, *a, **k: _Ax2(self)
