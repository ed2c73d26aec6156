"""The random stream of the code under test, behind a seam: numpy's global generator is replaced by a simulated one whose
draws a seed decides - fair, extreme (always the first / last / both ends), repeating, or with bursts of extremes."""
import random
import numpy as np


def gen_stream(rng):
    return {'seed': rng.getrandbits(32), 'kind': rng.choice(['fair', 'fair', 'fair', 'low', 'high', 'ends', 'burst', 'repeat'])}


class Draw:
    def __init__(self, s, ctx):
        self.r, self.kind, self.ctx = random.Random(s['seed']), s['kind'], ctx
        self.n = 0

    def unit(self):
        self.n += 1
        k = self.kind
        if k == 'burst':
            k = 'ends' if (self.n // 7) % 2 else 'fair'
        if k == 'repeat':
            self.v = self.r.random() if self.n % 5 == 1 else self.v
            return self.v
        if k == 'low' or k == 'ends' and self.r.random() < .5:
            return 0.0
        if k in ('high', 'ends'):
            return 1.0 - 2 ** -53
        return self.r.random()

    def shaped(self, f, size):
        if size is None:
            return f()
        sh = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
        n = 1
        for v in sh:
            n *= int(v)
        return np.array([f() for _ in range(n)]).reshape(sh)

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if high <= low:
            raise ValueError('low >= high')
        return self.shaped(lambda: int(low + int(self.unit() * (high - low))), size)

    def rand(self, *size):
        return self.shaped(self.unit, size or None)

    def random(self, size=None):
        return self.shaped(self.unit, size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.shaped(lambda: low + self.unit() * (high - low), size)


class stream:
    """patches numpy.random (and the names already imported from it in the code under test) for the duration of a call"""

    def __init__(self, s, ctx):
        self.s, self.ctx = s, ctx

    def __enter__(self):
        np.random.seed(self.s['seed'] & 0xffffffff)
        random.seed(self.s['seed'])
        self.undo = []
        if self.s['kind'] == 'fair':
            return
        self.ctx.fault('random-stream:' + self.s['kind'])
        d = self.d = Draw(self.s, self.ctx)
        import sys
        old = {k: getattr(np.random, k) for k in ('randint', 'rand', 'random', 'uniform', 'random_sample')}
        new = {'randint': d.randint, 'rand': d.rand, 'random': d.random, 'uniform': d.uniform, 'random_sample': d.random}
        for k in old:
            self.undo.append((np.random, k, old[k]))
            setattr(np.random, k, new[k])
        byid = {id(old[k]): new[k] for k in old}
        for mn, m in list(sys.modules.items()):
            if mn.startswith('acv_explainers') and m is not None:
                for k, v in list(vars(m).items()):
                    for o in old:
                        if v is old[o]:
                            self.undo.append((m, k, v)); setattr(m, k, new[o])

    def __exit__(self, *a):
        for m, k, v in reversed(self.undo):
            setattr(m, k, v)
