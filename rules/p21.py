"""P21: a Sophos search returns every index inserted for the keyword"""
from engine import check as C
from engine import core
from engine import terms as T
from engine.check import calls
from engine.poly import Facts
from rules.p12 import opts, pv, this

TUS = ['lib/sophos/sophos_client.cpp', 'lib/sophos/sophos_server.cpp', 'lib/sophos/sophos_common.cpp']
NS = 'sse::sophos::'
CL, S = NS + 'SophosClient::', NS + 'SophosServer::'
GEN = 'gen_update_token_masks'
OPAQUE = ('RockDBWrapper::', 'RocksDBCounter::', '::' + GEN, 'ThreadPool::', '::hex_string', '::xor_mask', '::get_keyword_index')
PURE = ('prf', 'eval', 'invert_mult', 'generate_array', 'xor_mask', 'get_keyword_index', 'enqueue')
THREADS = ('emplace_back', 'push_back')
LISTS = ('push_back', 'emplace_back', 'push_front', 'emplace_front')


def sopts(fn=None, **k):
    return opts(cut='deep', pure=PURE, opaque_if=lambda n, f=None: any(x in n for x in OPAQUE) and (fn is None or f is None or f.key != fn.key), **k)


def run(ck):
    ck.load(TUS)
    ck.rule('insert', 'the update number c of a keyword is made with the search token of order c, and the key, of the keyword')
    ck.rule('request', 'a search bears the last search token of the keyword, its key and the number of its updates, null when it has none')
    ck.rule('masks', 'location and mask of an update depend on the whole search token and on nothing else, and are independent')
    ck.rule('xor', 'unmasking gives back the index that was masked')
    ck.rule('store', 'the server stores an update under its token, or reports that it could not')
    ck.rule('lookup', 'what is stored under the token derived from a search token is delivered once, unmasked')
    ck.rule('walk', 'the search tokens of order 0 to the number of updates are each looked up once')
    ck.rule('threads', 'the threads share the search tokens out, and take steps the trapdoor permutation is set up for')
    ck.rule('joined', 'every thread, then every pool it feeds, has finished before the search returns')
    ck.rule('results', 'what was found is what is returned, and threads add to it one at a time')
    size = masks(ck)
    xor(ck)
    client(ck)
    for fn in ck.find(S + 'insert'):
        store(ck, fn)
    pools = pool_sizes(ck)
    for fn in sorted((f for f in ck.prog.fns.values() if f.name.startswith(S) and f.blocks and f.params and
                      'SearchRequest' in f.params[0]['t'] and '::lambda' not in f.key), key=lambda f: f.key):
        search(ck, fn, size, pools)
    for r, k in (('insert', 6), ('request', 6), ('masks', 3), ('xor', 1), ('store', 2), ('lookup', 12), ('walk', 12), ('threads', 8), ('joined', 4), ('results', 3)):
        ck.floor(r, k)


# ---------------------------------------------------------------- tokens and masks
def masks(ck):
    """-> bytes of the search token that are used"""
    sizes = set()
    for fn in ck.find(NS + GEN):
        E, outs = ck.run(fn, **sopts(fn))
        tok = pv(fn, 1)
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            got = []
            for k in (2, 3):
                v = E.load(o.st, ('var', fn.params[k]['d'], fn.params[k]['n'], 0))
                ref = o.st.store.get(('R', ('var', fn.params[k]['d'], fn.params[k]['n'], 0)))
                if ref is not None:
                    v = E.load(o.st, ref)
                got.append(derived(E, o, v, pv(fn, 0), tok))
            if not ck.ob('masks', 'prf', all(got), 'not derived from the search token with the key: %s' % [T.show(E.load(o.st, ('var', fn.params[k]['d'], fn.params[k]['n'], 0)))[:80] for k in (2, 3)], *w):
                continue
            ck.ob('masks', 'whole', got[0][0] == got[1][0], 'location and mask use %s and %s bytes of the search token' % (got[0][0], got[1][0]), *w)
            ck.ob('masks', 'distinct', got[0][1] != got[1][1], 'the location is also the mask', *w)
            sizes |= {got[0][0], got[1][0]}
    ck.ob('masks', 'size', len(sizes) == 1 and all(s == ('int', 256) for s in sizes), 'the search token has 256 bytes, %s are used' % [T.show(s) for s in sizes])
    return next(iter(sizes)) if len(sizes) == 1 else None


def derived(E, o, v, prf, tok):
    """(bytes of the token, what follows them) v is the image of by the PRF"""
    if v[0] not in ('pure', 'call') or core.meth_of(v[1]) != 'prf' or len(v[2]) != 2 or v[2][0] != prf:
        return None
    a = v[2][1]
    label = ()
    while a[0] in ('pure', 'call') and core.meth_of(a[1]) == 'operator+' and len(a[2]) == 2:
        label = (a[2][1],) + label
        a = a[2][0]
    if a[0] == 'obj' and len(a[2]) >= 2 and a[2][0] == tok and label and all(x[0] in ('int', 'str') for x in label):
        return a[2][1], label
    return None


def xor(ck):
    """xor_mask(xor_mask(x, m), m) = x, each byte of x being masked"""
    n = 0
    for fn in ck.find('sse::utility::xor_mask', required=False):
        E, outs = ck.run(fn, **sopts(fn))
        x = pv(fn, 0)
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            lv = leaves(o.val)
            ck.ob('xor', 'involution', lv.count(x) == 1 and not any(T.mentions(y, x) for y in lv if y != x),
                  'applied twice it does not give back its input: %s' % T.show(o.val)[:200], C.loc(fn, o.line), C.trail(o))
            bs = [byte_at(y) for y in lv if y != x]
            if None not in bs:
                ck.ob('xor', 'each byte', len({b for b, _ in bs}) == len({p for _, p in bs}) == len(bs) == 8, 'not every byte is masked with its own: %s' % T.show(o.val)[:200],
                      C.loc(fn, o.line), C.trail(o))
    ck.ob('xor', 'used', n > 0, 'no unmasking function')


def leaves(t):
    if t[0] == 'op' and t[1] == '^':
        return [y for x in t[2:] for y in leaves(x)]
    return [t]


def byte_at(t):
    """(byte, position) for a byte of the mask moved to a position"""
    d, k = T.to_lin(t)
    if k == 0 and len(d) == 1:
        (fs, c), = d.items()
        if len(fs) == 1 and fs[0][0] == 'in' and fs[0][1][0] == 'elem' and c in [1 << 8 * i for i in range(8)]:
            return fs[0], c
    return None


# ---------------------------------------------------------------- client
def at(e, i):
    """the value argument i of the event, an address, points to"""
    a = e.args[i]
    if a[0] == 'addr':
        base = a[1]
        if base[0] == 'elem' and base[2] == T.ZERO:
            for l, v in e.mem or ():
                if l == base:
                    return whole(v)
    return None


def whole(v):
    if v[0] == 'ev' and v[2] == T.ZERO:
        return v[1]
    if v[0] == 'in' and v[1][0] == 'elem' and v[1][2] == T.ZERO:
        return ('in', v[1][1])
    return None


def client(ck):
    got = {}
    for fn in ck.find(CL + 'insertion_request'):
        got['insert'] = insertion(ck, fn)
    for fn in ck.find(CL + 'search_request'):
        got['search'] = request(ck, fn)
    a, b = got.get('insert'), got.get('search')
    if a and b:
        ck.ob('request', 'same', a == b, 'search tokens, or keys, are not those of the updates: %s' % [T.show(x) for x in (a ^ b)])


def chain(v, c, facts, E):
    """v is the search token of order c -> the token of order 0"""
    if v is None:
        return None
    if v[0] == 'pure' and core.meth_of(v[1]) == 'invert_mult' and len(v[2]) == 3:
        if v[2][2] == c and v[2][1][0] == 'pure' and core.meth_of(v[2][1][1]) == 'generate_array' and v[2][0] == v[2][1][2][0]:
            return v[2][1]
        return None
    if v[0] == 'pure' and core.meth_of(v[1]) == 'generate_array' and Facts(E, facts).eq(c, T.ZERO):
        return v
    return None


def insertion(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    kw = pv(fn, 0)
    res = set()
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        inc = calls(o, 'get_and_increment')
        if not ck.ob('insert', 'counted', len(inc) == 1 and inc[0].args[0] == kw and inc[0].obj == this('counter_map_'), 'the updates of the keyword are not counted once each', *w):
            continue
        c = ('out', inc[0].name, inc[0].site, 1)
        ok = E.truth(o.st.facts, inc[0].ret)
        if ok is not True:
            ck.ob('insert', 'failure', o.kind == 'throw' or ok is not None and o.kind != 'ret', 'an update that was not counted is sent', *w)
            continue
        if o.kind != 'ret':
            ck.ob('insert', 'refused', o.kind != 'throw' or o.val is None, 'a counted update is refused', *w)
            continue
        g = calls(o, GEN)
        if not ck.ob('insert', 'derived', len(g) == 1, 'location and mask are derived %d times' % len(g), *w):
            continue
        g = g[0]
        root = chain(at(g, 1), c, o.st.facts, E)
        ck.ob('insert', 'order', root is not None, 'the search token is not the one of order the number of updates: %s' % T.show(at(g, 1) or g.args[1]), *w)
        key = keyed(g)
        ck.ob('insert', 'key', key is not None, 'not keyed with the derivation key of the keyword: %s' % T.show(g.args[0]), *w)
        tok, idx = E.load(o.st, ('fld', ('retobj', 0), 'token')), E.load(o.st, ('fld', ('retobj', 0), 'index'))
        ck.ob('insert', 'token', tok == ('out', g.name, g.site, 2), 'the update is not sent with its location: %s' % T.show(tok)[:100], *w)
        m = idx
        ck.ob('insert', 'masked', m[0] == 'pure' and core.meth_of(m[1]) == 'xor_mask' and m[2] == (pv(fn, 1), ('out', g.name, g.site, 3)),
              'the index is not masked with its mask: %s' % T.show(m)[:100], *w)
        if root is not None and key is not None:
            res |= {about(root, kw), about(made(o, key), kw)}
            ck.ob('insert', 'of the keyword', all(T.mentions(x, ('kw',)) for x in res), 'token or key is not that of the keyword', *w)
    return res


def about(t, kw):
    return T.subst(t, kw, ('kw',))


def keyed(e):
    """what Prf{Key{&key[0]}} is made of"""
    p = e.args[0]
    if p[0] == 'obj' and len(p[2]) == 1 and p[2][0][0] == 'obj' and len(p[2][0][2]) >= 1:
        a = p[2][0][2][0]
        if a[0] == 'addr' and a[1][0] == 'elem' and a[1][2] == T.ZERO:
            for l, v in e.mem or ():
                if l == a[1]:
                    return whole(v)
    return None


def request(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    kw = pv(fn, 0)
    res = set()
    for o in outs:
        if o.kind != 'ret':
            ck.ob('request', 'answered', o.kind != 'throw', 'a request is refused', C.loc(fn, o.line), C.trail(o))
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        g = calls(o, 'get')
        g = [e for e in g if e.obj == this('counter_map_')]
        if not ck.ob('request', 'counter', len(g) == 1 and g[0].args[0] == kw, 'the number of updates of the keyword is not looked for once', *w):
            continue
        ck.ob('request', 'read only', not calls(o, 'get_and_increment', 'increment', 'set', 'remove_key'), 'a search changes a counter', *w)
        c = ('out', g[0].name, g[0].site, 1)
        n, tok, key = (member(E, o, x) for x in ('add_count', 'token', 'derivation_key'))
        found = E.truth(o.st.facts, g[0].ret)
        if not ck.ob('request', 'decided', found is not None, 'the answer does not depend on whether the keyword has updates', *w):
            continue
        if not found:
            ck.ob('request', 'none', n == T.ZERO, 'a keyword without updates has %s' % T.show(n), *w)
            continue
        ck.ob('request', 'count', n == T.add(c, T.ONE), 'the number of updates is %s' % T.show(n), *w)
        root = chain(tok, c, o.st.facts, E)
        ck.ob('request', 'token', root is not None, 'the search token is not that of the last update: %s' % T.show(tok)[:160], *w)
        if root is not None and key is not None:
            res |= {about(root, kw), about(made(o, key), kw)}
    return res


def made(o, key):
    """the key, stated with the bytes it is derived from rather than with where they are"""
    for e in calls(o, 'prf'):
        if e.ret == key and e.args and at(e, 0) is not None:
            return ('key', e.obj, at(e, 0)) + e.args[1:]
    return key


def member(E, o, n):
    if o.val is not None and o.val[0] == 'rec':
        return dict(o.val[1]).get(n, T.ZERO)
    return E.load(o.st, ('fld', ('retobj', 0), n))


# ---------------------------------------------------------------- server
def store(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    req = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
    want = tuple(('in', ('fld', req, x)) for x in ('token', 'index'))
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        p = [e for e in calls(o, 'put') if e.obj == this('edb_')]
        if not ck.ob('store', 'once', len(p) == 1, 'an update is stored %d times' % len(p), *w):
            continue
        ck.ob('store', 'as sent', p[0].args == want, 'stores %s' % ', '.join(T.show(a) for a in p[0].args), *w)
        if E.truth(o.st.facts, p[0].ret) is not True:
            ck.ob('store', 'failure', o.kind == 'throw', 'an update that was not stored is not reported', *w)


def pool_sizes(ck):
    """(facts, size) of the multiplicative pool of the trapdoor permutation"""
    r = []
    for fn in ck.find(S + '(ctor)', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            for e in o.trace:
                if e.kind == 'call' and e.name.endswith('TdpMultPool::(ctor)') and len(e.args) == 2:
                    w = (C.loc(fn, o.line), C.trail(o))
                    n = e.args[1]
                    F = Facts(E, o.st.facts)
                    ck.ob('threads', 'pool size', n[0] != 'trunc' and F.ge(n, T.ONE) and F.ge(T.I(255), n), 'the size of the pool, %s, is null or does not fit in a byte' % T.show(n), *w)
                    r.append((o.st.facts, n))
    ck.ob('threads', 'pool', r != [], 'the trapdoor permutation is not set up')
    return r


class Both:
    """facts of several paths, as one"""

    def __init__(self, *fs):
        self.l = [x for f in fs for x in (f.items() if hasattr(f, 'items') else f)]

    def items(self):
        return self.l


def short(fn):
    return core.meth_of(fn.name)


class Closure:
    def __init__(self, fn, E, outs, L):
        self.fn, self.E, self.outs, self.L = fn, E, outs, L


def search(ck, fn, size, pools):
    E, outs = ck.run(fn, **sopts(fn))
    req = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
    tok0, num, key = (('in', ('fld', req, x)) for x in ('token', 'add_count', 'derivation_key'))
    L = C.Loops(E, outs)
    name = short(fn)
    fixed = settled(E, outs)
    lams = {f.key: f for f in ck.prog.lambdas_of(fn)}
    clo = {}
    for k, f in lams.items():
        st = core.State()
        st.store.update(fixed)
        e2, o2 = ck.run(f, init=st, **sopts(f))
        clo[k] = Closure(f, e2, o2, C.Loops(e2, o2))
    ctx = dict(ck=ck, fn=fn, name=name, req=req, size=size, clo=clo, fixed=fixed, key=key, tok0=tok0)
    # which closures look a token up, and which of their parameters it is
    looks = {}
    for k, c in clo.items():
        j = {token_param(c, e) for o in c.outs for e in calls(o, GEN)}
        if j and None not in j and not c.L.heads:
            if len(j) == 1:
                looks[k] = next(iter(j))
    ctx['looks'] = looks
    threads = [(o, e) for o in outs for e in o.trace if e.kind == 'call' and job_of(e) is not None]
    for k, c in clo.items():
        for o in c.outs:
            lookups(ctx, c.E, o, True)
            for l, v in fixed.items():
                ck.ob('threads', '%s kept %s' % (name, l[2]), c.E.load(o.st, l) in (v, ('in', l)), 'a thread changes what others use', C.loc(c.fn, o.line), C.trail(o))
    for o in outs:
        lookups(ctx, E, o, bool(threads))
    if not threads:
        walk(ctx, E, outs, L, T.ZERO, num, T.ONE, [], fn)
        ck.ob('walk', '%s looks up' % name, any(looked(ctx, E, o) for o in outs), 'no search token is looked up', C.loc(fn))
        returned(ctx, E, outs)
        return
    shared(ctx, E, outs, L, threads, num, pools)
    returned(ctx, E, outs)


def settled(E, outs):
    """local variables that have one value from the time they are given it"""
    vals = {}
    for o in outs:
        for l, v in o.st.store.items():
            if l[0] == 'var':
                vals.setdefault(l, set()).add(v)
    r = {}
    for l, vs in vals.items():
        vs = {v for v in vs if not (v[0] in ('phi', 'in') and v[-1] == l)}
        if len(vs) == 1:
            v = next(iter(vs))
            if not T.has_tag(v, 'phi') and v[0] in ('in', 'obj', 'lam', 'pure') and not (v[0] == 'obj' and v[1].startswith('std::')):
                r[l] = v
    return r


def job_of(e):
    """(closure, arguments) a thread is started with"""
    m = core.meth_of(e.name or '')
    if m in THREADS and e.args:
        a = e.args
        if a[0][0] == 'obj' and a[0][1] == 'std::thread' and a[0][2]:
            a = a[0][2]
        if a[0][0] == 'lam' and e.obj is not None:
            return a
    return None


def lam_of(ctx, t):
    if t[0] == 'lam':
        return t[1]
    if t[0] in ('phi', 'in', 'mut'):
        v = ctx['fixed'].get(t[-1])
        if v is not None and v[0] == 'lam':
            return v[1]
    return None


def token_param(c, e):
    """number of the parameter of the closure the search token comes from"""
    a = e.args[1]
    if a[0] == 'addr' and a[1][0] == 'elem' and a[1][2] == T.ZERO:
        v = at(e, 1)
        for j, p in enumerate(c.fn.params):
            l = ('var', p['d'], p['n'], 0)
            if a[1][1] == l or v == ('in', l):
                return j
    return None


def looked(ctx, E, o):
    """search tokens looked up on this piece of path, in order"""
    r = []
    for e in o.trace:
        if e.kind != 'call':
            continue
        if core.meth_of(e.name or '') == GEN:
            r.append(at(e, 1))
        elif core.meth_of(e.name or '') == 'enqueue' and e.args:
            k = lam_of(ctx, e.args[0])
            if k in ctx['looks']:
                j = 1 + ctx['looks'][k]
                r.append(passed(ctx, e, j) if j < len(e.args) else None)
    return r


def passed(ctx, e, j):
    """the search token a job is given, possibly as a string of all its bytes"""
    a = e.args[j]
    if a[0] == 'obj' and a[1].endswith('basic_string') and len(a[2]) >= 2:
        p, n = a[2][0], a[2][1]
        if n == ctx['size'] and p[0] == 'addr':
            for l, v in e.mem or ():
                if l == p[1]:
                    return whole(v)
        return None
    return a


def lookups(ctx, E, o, threaded):
    ck, name = ctx['ck'], ctx['name']
    for g in calls(o, GEN):
        w = (C.evloc(g), C.trail(o))
        p = g.args[0]
        if p[0] in ('in', 'phi'):
            p = ctx['fixed'].get(p[-1], p)
        good = p[0] == 'obj' and len(p[2]) == 1 and p[2][0][0] == 'obj' and p[2][0][2][:1] == (('addr', ('elem', ('fld', ctx['req'], 'derivation_key'), T.ZERO)),)
        ck.ob('lookup', '%s key' % name, good, 'the key is %s' % T.show(g.args[0]), *w)
        out, mask = ('out', g.name, g.site, 2), ('out', g.name, g.site, 3)
        gets = [e for e in calls(o, 'get') if e.args and e.args[0] == out and e.obj and e.obj[0] == 'fld' and e.obj[2] == 'edb_']
        if not ck.ob('lookup', '%s get' % name, len(gets) == 1, 'what is stored under the token is looked for %d times' % len(gets), *w):
            continue
        e = gets[0]
        found = E.truth(o.st.facts, e.ret)
        ds = delivered(ctx, o, ('out', e.name, e.site, 1))
        if found is True:
            if ck.ob('lookup', '%s delivered' % name, len(ds) == 1, 'what was found is delivered %d times' % len(ds), *w):
                v, d = ds[0]
                ck.ob('lookup', '%s unmasked' % name, v[0] == 'pure' and core.meth_of(v[1]) == 'xor_mask' and v[2] == (('out', e.name, e.site, 1), mask),
                      'delivers %s' % T.show(v), *w)
                if threaded and core.meth_of(d.name) in LISTS:
                    ck.ob('results', '%s one at a time' % name, bool(d.locks), 'threads add to the results at the same time', C.evloc(d), C.trail(o))
                    ctx.setdefault('locks', set()).add(d.locks)
        elif found is False:
            ck.ob('lookup', '%s nothing' % name, not ds and not delivered(ctx, o, mask), 'delivers an index that was not found', *w)
        else:
            ck.ob('lookup', '%s decided' % name, not ds, 'delivers whether or not it was found', *w)


def delivered(ctx, o, x):
    """(value, event) of what mentions x and leaves the search"""
    r = []
    for e in o.trace:
        if e.kind != 'call' or not e.args:
            continue
        m = core.meth_of(e.name or '')
        v = None
        if m in LISTS and e.obj is not None and len(e.args) == 1:
            v = e.args[0]
            ctx.setdefault('lists', set()).add(e.obj) if T.mentions(v, x) else None
        elif m == 'operator()' and 'function' in e.name and len(e.args) == 1:
            v = e.args[0]
        elif m == 'enqueue' and len(e.args) == 2 and lam_of(ctx, e.args[0]) is None:
            v = e.args[1]
        if v is not None and T.mentions(v, x):
            r.append((v, e))
    return r


def returned(ctx, E, outs):
    ck, fn = ctx['ck'], ctx['fn']
    ls = ctx.get('lists', set())
    rets = [o for o in outs if o.kind == 'ret' and o.val is not None and o.val != ('none',)]
    if not rets:
        return
    ck.ob('results', '%s list' % ctx['name'], len(ls) == 1, 'results are added to %d lists' % len(ls), C.loc(fn))
    ck.ob('results', '%s mutex' % ctx['name'], len(ctx.get('locks', ())) <= 1, 'threads do not use the same lock', C.loc(fn))
    for o in rets:
        for l in ls:
            v = E.load(o.st, l)
            ck.ob('results', '%s returned' % ctx['name'], v == o.val and not spoilt(o, l), 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))


def spoilt(o, l):
    return [e for e in o.trace if e.kind == 'call' and e.obj == l and core.meth_of(e.name or '') in
            ('clear', 'pop_back', 'pop_front', 'erase', 'remove', 'remove_if', 'unique', 'resize', 'swap', 'assign', 'operator=')]


# ---------------------------------------------------------------- orders
def order(ctx, t, hyp):
    if t is None:
        return None
    if t == ctx['tok0']:
        return T.ZERO
    if t in hyp:
        return hyp[t]
    if t[0] == 'in' and ctx['fixed'].get(t[1]) == ctx['tok0']:
        return T.ZERO
    if t[0] == 'pure' and core.meth_of(t[1]) == 'eval' and len(t[2]) in (2, 3) and t[2][0] == ('in', this('public_tdp_')):
        o = order(ctx, t[2][1], hyp)
        if o is None:
            return None
        return T.add(o, t[2][2] if len(t[2]) == 3 else T.ONE)
    return None


def hypotheses(ctx, E, L, h):
    """{token at the head of the loop: its order}, or None"""
    hyp = {}
    xs = set()
    cs = set()
    for o in L.iters(h):
        for t in looked(ctx, E, o):
            if t is not None:
                xs |= {x for x in C.unknowns(t, h) if x[0] == "phi"}
        for k in o.st.facts:
            cs |= C.unknowns(k, h)
    for x in xs:
        for c in sorted(cs - {x}, key=repr):
            hit = None
            for sg in (1, -1):
                starts = []
                for o in L.enters(h):
                    s = order(ctx, L.at(o, x, h), {})
                    if s is None:
                        break
                    starts.append((o, T.sub(s, T.mul(T.I(sg), L.at(o, c, h)))))
                else:
                    for _, d in starts:
                        if all(Facts(E, o.st.facts).eq(d, d2) for o, d2 in starts):
                            cand = T.add(T.mul(T.I(sg), c), d)
                            hp = {x: cand}
                            if all(order(ctx, L.at(o, x, h), hp) == T.add(T.mul(T.I(sg), L.at(o, c, h)), d) for o in L.iters(h)):
                                hit = cand
                                break
                if hit is not None:
                    break
            if hit is not None:
                hyp[x] = hit
                break
    return hyp


def walk(ctx, E, outs, L, first, bound, step, assumed, fn):
    """orders first, first + step, ... below bound are looked up, each once, nothing else is"""
    ck, name = ctx['ck'], ctx['name']
    heads = [h for h in L.heads if any(looked(ctx, E, o) for o in L.body(h))]
    if not ck.ob('walk', '%s loop' % name, len(heads) <= 1, 'search tokens are looked up in %d loops' % len(heads), C.loc(fn)):
        return
    steps = []
    for o in outs:
        if o.kind in ('throw', 'noreturn') or o.frm is not None and o.frm in heads:
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        F = Facts(E, o.st.facts, *assumed)
        pre = [order(ctx, t, {}) for t in looked(ctx, E, o)]
        if not ck.ob('walk', '%s known' % name, None not in pre, 'what is looked up is not a search token of the keyword', *w):
            continue
        nxt = first
        for q in pre:
            ck.ob('walk', '%s in turn' % name, F.eq(q, nxt), 'looks up the token of order %s, not %s' % (T.show(q), T.show(nxt)), *w)
            ck.ob('walk', '%s bounded' % name, F.lt(q, bound), 'looks up a token past the last', *w)
            nxt = T.add(nxt, step)
        if o.kind == 'enter' and o.head in heads:
            continue
        if o.kind == 'ret' and not heads or o.kind == 'ret' and o.frm is None:
            ck.ob('walk', '%s all' % name, F.ge(nxt, bound), 'returns before the last token is looked up', *w)
    for h in heads:
        hyp = hypotheses(ctx, E, L, h)
        qs = set()
        for o in L.iters(h):
            ts = looked(ctx, E, o)
            w = (C.loc(fn, o.line), C.trail(o))
            if not ck.ob('walk', '%s each' % name, len(ts) == 1, '%d tokens are looked up in an iteration' % len(ts), *w):
                continue
            q = order(ctx, ts[0], hyp)
            if ck.ob('walk', '%s of the keyword' % name, q is not None, 'what is looked up is not the search token of a known order: %s' % T.show(ts[0] or T.ZERO)[:200], *w):
                qs.add(q)
                F = Facts(E, o.st.facts, *assumed)
                ck.ob('walk', '%s below' % name, F.lt(q, bound) or step == T.ONE and first == T.ZERO and not F.possible(T.sub(q, bound), T.sub(bound, q)),
                      'looks up a token past the last', *w)
                nx = L.at(o, q, h)
                ck.ob('walk', '%s step' % name, T.sub(nx, q) == step, 'the next token looked up is of order %s, not %s' % (T.show(nx), T.show(T.add(q, step))), *w)
        if not qs:
            continue
        ck.ob('walk', '%s one' % name, len(qs) == 1, 'the order of what is looked up depends on the path', C.loc(fn))
        q = sorted(qs, key=repr)[0]
        for o in L.enters(h):
            w = (C.loc(fn, o.line), C.trail(o))
            F = Facts(E, o.st.facts, *assumed)
            n = len(looked(ctx, E, o))
            nxt = first
            for _ in range(n):
                nxt = T.add(nxt, step)
            q0 = L.at(o, q, h)
            ck.ob('walk', '%s first' % name, F.eq(q0, nxt) or F.ge(nxt, bound) and F.ge(q0, bound), 'starts with the token of order %s, not %s' % (T.show(q0), T.show(nxt)), *w)
        for o in L.exits(h):
            if o.kind in ('throw', 'noreturn'):
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            F = Facts(E, o.st.facts, *assumed)
            n = len(looked(ctx, E, o))
            ck.ob('walk', '%s last' % name, n == 0 and F.ge(q, bound) or n == 1 and F.ge(L.at(o, q, h), bound), 'stops before the last token', *w)


# ---------------------------------------------------------------- threads
def unnarrow(t, F):
    """t, when what it is cut to holds it"""
    if t[0] == 'trunc' and t[1] == 'unsigned char' and F.ge(t[2], T.ZERO) and F.ge(T.I(255), t[2]):
        return t[2]
    return t


def shared(ctx, E, outs, L, threads, num, pools):
    ck, fn, name = ctx['ck'], ctx['fn'], ctx['name']
    bytes_ = [T.sub(T.I(255), pv(fn, i)) for i, p in enumerate(fn.params) if p['t'] == 'unsigned char']
    done = set()
    for o, e in threads:
        a = job_of(e)
        k = a[0][1]
        w = (C.evloc(e), C.trail(o))
        if not ck.ob('threads', '%s job' % name, k in ctx['clo'], 'what the threads run is not known', *w):
            continue
        c = ctx['clo'][k]
        args = a[1:]
        F = Facts(E, o.st.facts, *bytes_)
        if not ck.ob('threads', '%s looped' % name, o.kind == 'iter' and len(args) == len(c.fn.params), 'threads are not started in a loop', *w):
            continue
        h = o.head
        ps = [('in', ('var', p['d'], p['n'], 0)) for p in c.fn.params]
        vals = []
        for p, v in zip(c.fn.params, args):
            v = unnarrow(v, F)
            vals.append(v)
            if p['t'].endswith('unsigned char'):
                ck.ob('threads', '%s fits %s' % (name, p['n']), v[0] != 'trunc' and F.ge(v, T.ZERO) and F.ge(T.I(255), v), '%s is cut to a byte' % T.show(v), *w)
        # which parameter is the number of the thread, which the bound, which the step
        idx = [i for i, v in enumerate(vals) if T.has_tag(v, 'phi')]
        bnd = [i for i, v in enumerate(vals) if v == num]
        oth = [i for i in range(len(vals)) if i not in idx and i not in bnd]
        if not ck.ob('threads', '%s shares' % name, len(idx) == len(bnd) == len(oth) == 1, 'threads are given %s' % ', '.join(T.show(v) for v in vals), *w):
            continue
        t, n = vals[idx[0]], vals[oth[0]]
        ck.ob('threads', '%s numbered' % name, L.starts(h, t) == {T.ZERO} and all(T.sub(unnarrow(L.at(x, t, h), Facts(E, x.st.facts, *bytes_)), t) == T.ONE for x in L.iters(h)),
              'threads are not numbered from zero', *w)
        ck.ob('threads', '%s as many' % name, F.lt(t, n) and all(Facts(E, x.st.facts, *bytes_).ge(t, n) for x in L.exits(h) if x.kind != 'throw' and same(E, x, o)),
              'there are not as many threads as the step', *w)
        ck.ob('threads', '%s one' % name, F.ge(n, T.ONE), 'there may be no thread', *w)
        # steps of the permutation
        sub = list(zip(ps, vals))
        for oc in c.outs:
            for ev in oc.trace:
                if ev.kind == 'call' and core.meth_of(ev.name or '') == 'eval' and len(ev.args) == 2:
                    m = ev.args[1]
                    facts = list(ev.facts or oc.st.facts.items())
                    for p, v in sub:
                        m = T.subst(m, p, v)
                        facts = [(T.subst(k2, p, v), v2) for k2, v2 in facts]
                    lin = Both(o.st.facts, [(relin(k2), v2) for k2, v2 in facts])
                    m = relin(m)
                    ck.ob('threads', '%s step' % name, Facts(E, lin, *bytes_).ge(m, T.ONE), 'a step of the permutation is null', C.evloc(ev), C.trail(oc))
                    for pf, pn in pools:
                        G = Facts(E, Both(lin, pf), *bytes_)
                        ck.ob('threads', '%s within' % name, G.ge(pn, m), 'a step of the permutation, %s, is larger than what it is set up for' % T.show(m), C.evloc(ev), C.trail(oc))
        if k not in done:
            done.add(k)
            walk(ctx, c.E, c.outs, c.L, ps[idx[0]], ps[bnd[0]], ps[oth[0]], [T.sub(T.sub(ps[oth[0]], ps[idx[0]]), T.ONE), ps[idx[0]]], c.fn)
            ck.ob('walk', '%s looks up' % name, any(looked(ctx, c.E, x) for x in c.outs), 'no search token is looked up', *w)
        joined(ctx, E, outs, L, e.obj, n, bytes_, c, o)


def relin(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'lin':
        r = T.I(t[2])
        for fs, k in t[1]:
            x = T.I(k)
            for f in fs:
                x = T.mul(x, relin(f))
            r = T.add(r, x)
        return r
    return t


def same(E, x, o):
    """the facts of two pieces of path, about what does not change, can hold together"""
    F = Facts(E, Both([(k, v) for k, v in x.st.facts.items() if not T.has_tag(k, 'phi')], [(k, v) for k, v in o.st.facts.items() if not T.has_tag(k, 'phi')]))
    return F.possible()


def joined(ctx, E, outs, L, vec, n, bytes_, job, ev):
    ck, fn, name = ctx['ck'], ctx['fn'], ctx['name']
    heads = {}
    for h in L.heads:
        for o in L.iters(h):
            for e in calls(o, 'join'):
                if e.obj and e.obj[0] == 'elem' and e.obj[1] == vec:
                    heads.setdefault(h, set()).add(e.obj[2])
    if not ck.ob('joined', '%s threads' % name, len(heads) >= 1, 'the threads are not waited for', C.loc(fn)):
        return
    for h, ps in heads.items():
        for o in L.iters(h):
            w = (C.loc(fn, o.line), C.trail(o))
            js = [e for e in calls(o, 'join') if e.obj and e.obj[0] == 'elem' and e.obj[1] == vec]
            ck.ob('joined', '%s each thread' % name, len(js) == 1, 'a thread is not waited for', *w)
            for e in js:
                p = e.obj[2]
                ck.ob('joined', '%s from the first' % name, L.starts(h, p) == {T.ZERO} and T.sub(unnarrow(L.at(o, p, h), Facts(E, o.st.facts, *bytes_)), p) == T.ONE,
                      'threads are not waited for one after the other', *w)
        for o in L.exits(h):
            if o.kind == 'throw' or not same(E, o, ev):
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            F = Facts(E, o.st.facts, *bytes_)
            for p in ps:
                sz = [x for k in o.st.facts for x in T.subterms(k) if x and x[0] == 'pure' and x[1] == 'size']
                ck.ob('joined', '%s all threads' % name, F.ge(p, n) or Facts(E, Both(ev.st.facts, o.st.facts), *bytes_).ge(p, n) or any(F.ge(p, s) for s in sz), 'not all threads are waited for', *w)
    # the pools, in the order they are fed
    chainp = []
    cur = [job]
    seen = set()
    while cur:
        nxt = []
        for c in cur:
            for o in c.outs:
                for e in calls(o, 'enqueue'):
                    if e.obj and e.obj not in seen:
                        seen.add(e.obj)
                        chainp.append(e.obj)
                    k = lam_of(ctx, e.args[0]) if e.args else None
                    if k in ctx['clo'] and k not in seen:
                        seen.add(k)
                        nxt.append(ctx['clo'][k])
        cur = nxt
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        ck.ob('joined', '%s before' % name, o.frm in heads, 'returns without waiting for the threads', *w)
        at_ = -1
        for p in chainp:
            js = [i for i, e in enumerate(o.trace) if e.kind == 'call' and core.meth_of(e.name or '') == 'join' and e.obj == p]
            ck.ob('joined', '%s pool' % name, bool(js) and js[-1] > at_, 'a pool is not waited for, or before what feeds it has finished', *w)
            if js:
                at_ = js[-1]
