"""Reference models: straightforward, exact definitions in plain Python (no numpy, no /repo code)."""
import math
from itertools import combinations
from simlib import leaves, tree_leaf


def fact(n):
    return math.factorial(n)


def players_of(d, C):
    """the players of the game: each group of C is one player, every other feature is its own"""
    if not C or not C[0]:
        return [[j] for j in range(d)]
    grouped = set(j for g in C for j in g)
    out = []
    for j in range(d):
        if j not in grouped:
            out.append([j])
        else:
            g = [g for g in C if j in g][0]
            if list(g) not in out:
                out.append(list(g))
    return out


def mask(js):
    m = 0
    for j in js:
        m |= 1 << j
    return m


def in_mask(x, box, lo_closed=False):
    m = 0
    for j, (lo, hi) in enumerate(box):
        if (x[j] >= lo if lo_closed else x[j] > lo) and x[j] <= hi:
            m |= 1 << j
    return m


class LeafGame:
    """v_x(S) = sum over the leaves compatible with x_S of  value * P(leaf) / P(leaf projected on S), on the rows `data`"""

    def __init__(self, trees, data):
        d = len(data[0])
        self.d, self.full = d, (1 << d) - 1
        self.out = len(trees[0]['v'][0])
        self.leaves = []
        n = len(data)
        for t in trees:
            for val, box in leaves(t, d):
                ms = [in_mask(r, box) for r in data]
                cnt = {}
                for m in ms:
                    cnt[m] = cnt.get(m, 0) + 1
                self.leaves.append((val, box, cnt, cnt.get(self.full, 0), n))

    def value(self, x):
        lv = [(val, in_mask(x, box), cnt, nl, n, {}) for val, box, cnt, nl, n in self.leaves]
        memo = {}

        def v(S):
            if S in memo:
                return memo[S]
            o = [0.0] * self.out
            for val, xm, cnt, nl, n, _ in lv:
                if xm & S != S or nl == 0:
                    continue
                k = n if S == 0 else sum(c for m, c in cnt.items() if m & S == S)
                if k:
                    w = nl / k
                    for q in range(self.out):
                        o[q] += val[q] * w
            memo[S] = o
            return o
        return v


def shapley(v, players, nout):
    """exact Shapley values of the game v over the players (bit masks of features)"""
    p = len(players)
    ms = [mask(g) for g in players]
    vals = []
    for b in range(1 << p):
        m = 0
        for i in range(p):
            if b >> i & 1:
                m |= ms[i]
        vals.append(v(m))
    w = [fact(k) * fact(p - 1 - k) / fact(p) for k in range(p)]
    phi = [[0.0] * nout for _ in range(p)]
    for b in range(1 << p):
        k = bin(b).count('1')
        for i in range(p):
            if not b >> i & 1:
                a, c = vals[b], vals[b | 1 << i]
                for q in range(nout):
                    phi[i][q] += w[k] * (c[q] - a[q])
    return phi


def shap(trees, data, X, C):
    g = LeafGame(trees, data)
    pl = players_of(g.d, C)
    out = []
    for x in X:
        phi = shapley(g.value(x), pl, g.out)
        row = [None] * g.d
        for p, f in zip(pl, phi):
            for j in p:
                row[j] = f
        out.append(row)
    return out


def shap_active(trees, data, X, S, N, C):
    """active Shapley values: players are the groups / features of S; the null features N join every non-empty coalition"""
    g = LeafGame(trees, data)
    nm = mask(N)
    if C and C[0]:
        gr = set(j for c in C for j in c)
        pl = []
        for j in S:
            p = [j] if j not in gr else list([c for c in C if j in c][0])
            if p not in pl:
                pl.append(p)
    else:
        pl = [[j] for j in S]
    out = []
    for x in X:
        v = g.value(x)
        phi = shapley(lambda m: v(m | nm) if m else v(0), pl, g.out)
        row = [[0.0] * g.out for _ in range(g.d)]
        for p, f in zip(pl, phi):
            for j in p:
                row[j] = f
        out.append(row)
    return out


def close_mask(x, box):
    m = 0
    for j, (lo, hi) in enumerate(box):
        if lo <= x[j] <= hi:
            m |= 1 << j
    return m
