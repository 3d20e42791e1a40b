"""Value terms: hash-consed tuples with an arithmetic normal form.

Integers/booleans/null are ('int', n).  Sums are ('lin', ((factors, coef), ...), k)
where factors is a sorted tuple of non-arithmetic terms.  Everything else is an
uninterpreted tuple.  Comparison atoms are constraints on a sign-normalised
linear base, so `a > b`, `b < a`, `!(a <= b)` are one and the same fact.
"""
from functools import lru_cache

ZERO = ('int', 0)
ONE = ('int', 1)


def I(n):
    return ('int', n)


@lru_cache(maxsize=400000)
def key(t):
    return repr(t)


def to_lin(t):
    """-> (dict factors->coef, const)"""
    if t[0] == 'int':
        return {}, t[1]
    if t[0] == 'lin':
        return dict(t[1]), t[2]
    return {(t,): 1}, 0


def from_lin(d, k):
    items = [(f, c) for f, c in d.items() if c != 0]
    if not items:
        return ('int', k)
    if k == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda fc: key(fc[0]))
    return ('lin', tuple(items), k)


def add(a, b, sb=1):
    if a[0] == 'str' or b[0] == 'str':
        return ('op', '+' if sb == 1 else '-', a, b)
    da, ka = to_lin(a)
    db, kb = to_lin(b)
    r = dict(da)
    for f, c in db.items():
        r[f] = r.get(f, 0) + sb * c
    return from_lin(r, ka + sb * kb)


def sub(a, b):
    if a[0] == b[0] == 'iter' and a[1] == b[1]:
        # places of the same container are as far from each other as their positions
        return add(a[2], b[2], -1)
    return add(a, b, -1)


def mul(a, b):
    da, ka = to_lin(a)
    db, kb = to_lin(b)
    if len(da) > 4 or len(db) > 4:
        return ('op', '*') + tuple(sorted((a, b), key=key))
    r = {}
    A = list(da.items()) + ([((), ka)] if ka else [])
    B = list(db.items()) + ([((), kb)] if kb else [])
    k = 0
    for fa, ca in A:
        for fb, cb in B:
            f = tuple(sorted(fa + fb, key=key))
            if not f:
                k += ca * cb
            else:
                r[f] = r.get(f, 0) + ca * cb
    return from_lin(r, k)


COMM = {'&', '|', '^', '*', '+'}


def binop(op, a, b):
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if a[0] == 'int' and b[0] == 'int':
        x, y = a[1], b[1]
        try:
            if op == '/' and y:
                return I(-(abs(x) // abs(y)) if (x < 0) != (y < 0) else abs(x) // abs(y))
            if op == '%' and y and x >= 0:
                return I(x % y)
            if op == '<<' and y < 200:
                return I(x << y)
            if op == '>>' and y < 200:
                return I(x >> y)
            if op == '&':
                return I(x & y)
            if op == '|':
                return I(x | y)
            if op == '^':
                return I(x ^ y)
        except Exception:
            pass
    if op == '<<' and b[0] == 'int' and 0 <= b[1] < 63:
        return mul(a, I(1 << b[1]))
    if op == '&' and ((a == ONE and is_bool(b)) or (b == ONE and is_bool(a))):
        return b if a == ONE else a
    if op in COMM:
        # flatten
        xs = []
        for t in (a, b):
            if t[0] == 'op' and t[1] == op:
                xs.extend(t[2:])
            else:
                xs.append(t)
        if op in '&|':
            xs = list(set(xs))
            if len(xs) == 1:
                return xs[0]
        return ('op', op) + tuple(sorted(xs, key=key))
    return ('op', op, a, b)


# ---- boolean structure -------------------------------------------------
def lnot(t):
    if t[0] == 'int':
        return I(0 if t[1] else 1)
    if t[0] == 'not':
        return t[1]
    if t[0] in ('and', 'or', 'eq0', 'lt0'):
        return ('not', t)
    # arbitrary value: truthiness
    return eq0(t)


def is_bool(t):
    return t[0] in ('not', 'and', 'or', 'eq0', 'lt0')


def eq0(l):
    if l[0] == 'int':
        return I(1 if l[1] == 0 else 0)
    if is_bool(l):
        return lnot(l)
    return ('eq0', l)


def lt0(l):
    if l[0] == 'int':
        return I(1 if l[1] < 0 else 0)
    return ('lt0', l)


def eq(a, b):
    if is_bool(a) and b[0] == 'int':
        return a if b[1] else lnot(a)
    if is_bool(b) and a[0] == 'int':
        return b if a[1] else lnot(b)
    if a[0] == 'str' and b[0] == 'str':
        return I(1 if a == b else 0)
    return eq0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def cmp(op, a, b):
    if op == '==':
        return eq(a, b)
    if op == '!=':
        return lnot(eq(a, b))
    if op == '<':
        return lt(a, b)
    if op == '>':
        return lt(b, a)
    if op == '<=':
        return lnot(lt(b, a))
    if op == '>=':
        return lnot(lt(a, b))
    raise ValueError(op)


def base_of(l):
    """sign-normalised base and (sign, const): l = sign*base + k"""
    d, k = to_lin(l)
    if not d:
        return None, 1, k
    items = sorted(d.items(), key=lambda fc: key(fc[0]))
    s = 1 if items[0][1] > 0 else -1
    b = from_lin({f: c * s for f, c in items}, 0)
    return b, s, k


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x:
                yield x
                st.extend(x)
        elif isinstance(x, frozenset):
            st.extend(x)


@lru_cache(maxsize=400000)
def _mentions(t, s):
    if t == s:
        return True
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)) and _mentions(x, s):
                return True
    return False


def mentions(t, s):
    return _mentions(t, s)


def mentions_any(t, ss):
    for s in ss:
        if _mentions(t, s):
            return True
    return False


def has_tag(t, tag):
    for x in subterms(t):
        if x and x[0] == tag:
            return True
    return False


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        if not _mentions(t, old):
            return t
        if t and t[0] == 'lin':
            r = I(t[2])
            for f, c in t[1]:
                p = I(c)
                for x in f:
                    p = mul(p, subst(x, old, new))
                r = add(r, p)
            return r
        return tuple(subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, old, new) for x in t)
    return t


def show(t, d=0):
    """human readable"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if d > 12:
        return '...'
    if k == 'int':
        return str(t[1])
    if k == 'str':
        return repr(t[1])
    if k == 'lin':
        out = []
        for f, c in t[1]:
            s = '*'.join(show(x, d + 1) for x in f)
            out.append(s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
        s = ' + '.join(out)
        if t[2]:
            s += ' + %d' % t[2]
        return '(' + s.replace('+ -', '- ') + ')'
    if k == 'var':
        return t[2]
    if k == 'in':
        return show(t[1], d + 1)
    if k == 'thisptr':
        return 'this'
    if k == 'fld':
        b = show(t[1], d + 1)
        return (b[2:-1] + '->' if b.startswith('(*') else b + '.') + t[2]
    if k == 'fv':
        return show(t[1], d + 1) + '.' + str(t[2])
    if k == 'deref':
        return '(*' + show(t[1], d + 1) + ')'
    if k == 'addr':
        return '&' + show(t[1], d + 1)
    if k in ('elem', 'ev'):
        return show(t[1], d + 1) + '[' + show(t[2], d + 1) + ']'
    if k == 'call':
        return short(t[1]) + '(' + ', '.join(show(x, d + 1) for x in t[2]) + ')'
    if k == 'pure':
        return short(t[1]) + '(' + ', '.join(show(x, d + 1) for x in t[2]) + ')'
    if k == 'obj':
        return short(t[1]) + '{' + ', '.join(show(x, d + 1) for x in t[2]) + '}'
    if k == 'op':
        return '(' + (' ' + t[1] + ' ').join(show(x, d + 1) for x in t[2:]) + ')'
    if k == 'not':
        return '!' + show(t[1], d + 1)
    if k == 'eq0':
        return '(' + show(t[1], d + 1) + ' == 0)'
    if k == 'lt0':
        return '(' + show(t[1], d + 1) + ' < 0)'
    if k in ('and', 'or'):
        return '(' + (' && ' if k == 'and' else ' || ').join(show(x, d + 1) for x in t[1:]) + ')'
    if k == 'glob':
        return t[1]
    if k == 'fn':
        return '&' + t[1]
    if k == 'lam':
        return 'lambda@' + t[1].split('lambda@')[-1]
    if k == 'new':
        return 'new ' + short(str(t[1]))
    if k == 'phi':
        return 'phi(' + show(t[2], d + 1) + ')'
    if k == 'mut':
        return 'after:' + short(t[1])
    if k == 'out':
        return 'out:' + short(t[1])
    if k == 'iter':
        return 'iter(' + show(t[1], d + 1) + ',' + show(t[2], d + 1) + ')'
    return k + '(' + ', '.join(show(x, d + 1) for x in t[1:]) + ')'


def short(n):
    return n.split('::')[-1] if '(' not in n else '::'.join(n.split('::')[-2:])
