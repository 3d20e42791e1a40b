"""Convex polyhedra over value-numbered terms: emptiness and inclusion by Fourier-Motzkin elimination.

The branch facts of a path are intervals over linear forms; this domain combines several of them. Everything that is
not linear is an unknown of its own. Rational arithmetic: an empty polyhedron is a contradiction, the converse may fail.
"""
from fractions import Fraction

from . import terms as T


def rows(facts, unsigned=()):
    """facts as [(coefficients, constant)] meaning sum + constant >= 0, and the disequalities"""
    r, ne = [], []
    vs = set()
    for b, (lo, hi, x) in facts.items():
        d, k = T.to_lin(b)
        vs |= set(d)
        if lo is not None:
            r.append((d, k - lo))
        if hi is not None:
            r.append(({f: -c for f, c in d.items()}, hi - k))
        for v in x:
            ne.append((d, k - v))
    return r, ne, vs


def ge0(t):
    d, k = T.to_lin(t)
    return d, k


def empty(rs, limit=4000):
    """is the conjunction of rows contradictory?"""
    cur = {}
    for d, k in rs:
        d = {f: Fraction(c) for f, c in d.items() if c}
        if not d:
            if k < 0:
                return True
            continue
        put(cur, d, Fraction(k))
    while cur:
        # eliminate the unknown with the fewest products
        cnt = {}
        for key in cur:
            for f, c in key:
                p, n = cnt.get(f, (0, 0))
                cnt[f] = (p + 1, n) if c > 0 else (p, n + 1)
        f = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], repr(x)))
        pos, neg, rest = [], [], {}
        for key, k in cur.items():
            c = dict(key).get(f)
            if c is None:
                rest[key] = k
            else:
                (pos if c > 0 else neg).append((dict(key), k, c))
        for a, ka, ca in pos:
            for b, kb, cb in neg:
                m, n = -cb, ca
                d = {}
                for x in set(a) | set(b):
                    v = a.get(x, 0) * m + b.get(x, 0) * n
                    if v:
                        d[x] = v
                k = ka * m + kb * n
                if not d:
                    if k < 0:
                        return True
                    continue
                put(rest, d, k)
        cur = rest
        if len(cur) > limit:
            return False
    return False


def put(cur, d, k):
    s = abs(next(iter(sorted(d.items(), key=lambda x: repr(x[0]))))[1])
    key = tuple(sorted(((f, c / s) for f, c in d.items()), key=lambda x: repr(x[0])))
    k = k / s
    if key not in cur or k < cur[key]:
        cur[key] = k


class Facts:
    """the facts of a path, with what is assumed of its inputs"""

    def __init__(self, E, facts, *assumed):
        self.rs, self.ne, vs = rows(facts)
        self.rs += [ge0(a) for a in assumed]
        for d, _ in self.rs:
            vs |= set(d)
        self.unsigned = E.unsigned
        self.sign(vs)

    def sign(self, vs):
        self.vs = set(vs)
        self.rs += [({f: 1}, 0) for f in vs if all(x in self.unsigned for x in f)]

    def also(self, *ts):
        n = []
        for t in ts:
            d, k = ge0(t)
            n.append((d, k))
            for f in d:
                if f not in self.vs and all(x in self.unsigned for x in f):
                    n.append(({f: 1}, 0))
        return n

    def possible(self, *ts):
        """the facts together with t >= 0 for all ts are not contradictory"""
        rs = self.rs + self.also(*ts)
        if empty(rs):
            return False
        for d, k in self.ne:
            # a disequality with the only possible value
            t = T.from_lin(dict(d), k)
            if empty(rs + [ge0(T.sub(t, T.ONE))]) and empty(rs + [ge0(T.sub(T.sub(T.ZERO, t), T.ONE))]):
                return False
        return True

    def ge(self, a, b):
        """a >= b always"""
        return not self.possible(T.sub(T.sub(b, a), T.ONE))

    def eq(self, a, b):
        return a == b or self.ge(a, b) and self.ge(b, a)

    def lt(self, a, b):
        return self.ge(b, T.add(a, T.ONE))
