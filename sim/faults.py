"""Fault injection into the Python code under test: an exception at the k-th executed line of /repo, or at the k-th allocation of
an array.  Which k fires is decided by the seed; whether it fired is reported (and counted)."""
import sys
import numpy as np
from simlib import REPO, Injected, InjectedInterrupt


class at_line:
    """raise exc at the k-th line executed in /repo's Python code (functions entered after the start, except the explainer's own methods)"""

    def __init__(self, k, exc, ctx=None, kind='interrupt'):
        self.k, self.exc, self.n, self.fired, self.ctx, self.kind = k, exc, 0, None, ctx, kind

    def glob(self, frame, event, arg):
        # the statements of the explainer's own methods (which store the results) are not interrupted, everything they call is
        if frame.f_code.co_filename.startswith(REPO) and type(frame.f_locals.get('self')).__name__ not in ('ACXplainer', 'ACVTree'):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == 'line' and self.fired is None:
            self.n += 1
            if self.n == self.k:
                self.fired = '%s:%d' % (frame.f_code.co_filename.rsplit('/', 1)[-1], frame.f_lineno)
                if self.ctx:
                    self.ctx.fault(self.kind)
                raise self.exc('planted at ' + self.fired)
        return self.loc

    def __enter__(self):
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class at_alloc:
    """MemoryError at the k-th array allocation by name (zeros, ones, array, empty, full, repeat)"""
    NAMES = ('zeros', 'ones', 'array', 'empty', 'full', 'repeat')

    def __init__(self, k, ctx=None):
        self.k, self.n, self.fired, self.ctx = k, 0, None, ctx

    def __enter__(self):
        self.old = {n: getattr(np, n) for n in self.NAMES}
        for n, f in self.old.items():
            setattr(np, n, self.wrap(n, f))
        return self

    def wrap(self, n, f):
        def g(*a, **k):
            self.n += 1
            if self.n == self.k and self.fired is None:
                self.fired = n
                if self.ctx:
                    self.ctx.fault('alloc-failure')
                raise MemoryError('planted in np.%s' % n)
            return f(*a, **k)
        return g

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np, n, f)
