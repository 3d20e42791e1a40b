"""P22: a Diana search returns every index inserted for the keyword"""
from engine import check as C
from engine import core
from engine import terms as T
from engine.check import calls
from engine.poly import Facts
from rules import p21
from rules.p12 import opts, pv, this
from rules.p21 import Both, Closure, about, at, member, settled, unnarrow

TUS = ['tus/diana_inst.cpp', 'lib/diana/diana_common.cpp']
NS = 'sse::diana::'
CL, S = NS + 'DianaClient::', NS + 'DianaServer::'
GEN = 'gen_update_token_mask'
OPAQUE = ('RockDBWrapper::', 'RocksDBCounter::', '::' + GEN, '::hex_string', '::xor_mask', '::get_keyword_index', 'DianaServer::search',
          'Prg::', '::Prf', 'RCPrf', '::Hash')
PURE = ('prf', 'eval', 'constrain', 'derive_key', 'xor_mask', 'get_keyword_index', 'hash', 'max_leaf')
SEARCH = ('search', 'search_parallel')


def sopts(fn=None, **k):
    return opts(cut='deep', pure=PURE, opaque_if=lambda n, f=None: any(x in n for x in OPAQUE) and (fn is None or f is None or f.key != fn.key), **k)


def run(ck):
    ck.load(TUS)
    ck.rule('keyword', 'the identifier of a keyword is made of as many bytes of its hash as it has')
    ck.rule('insert', 'the update number c of a keyword is made with the leaf c of the tree of the keyword')
    ck.rule('bulk', 'each element of a bulk insertion is counted once and sent once, with its own keyword, index and number')
    ck.rule('request', 'a search bears the leaves 0 to c of that tree and their number, or none when the keyword has no update')
    ck.rule('count', 'the number of matches of a keyword is the number of its updates')
    ck.rule('masks', 'location and mask of an update are disjoint parts of what the whole leaf expands to')
    ck.rule('xor', 'unmasking gives back the index that was masked, byte for byte')
    ck.rule('store', 'the server stores an update under its token, or reports that it could not')
    ck.rule('lookup', 'what is stored under the token derived from a leaf is delivered once, unmasked, and removed when that was asked')
    ck.rule('walk', 'every leaf of the request is visited once')
    ck.rule('threads', 'the threads share the leaves out, have distinct numbers')
    ck.rule('joined', 'every thread has finished when the search returns')
    ck.rule('results', 'what is delivered is what is returned')
    keyword(ck)
    masks(ck)
    xor(ck)
    client(ck)
    count(ck)
    for fn in ck.find(S + 'insert'):
        p21.store(ck, fn)
    for fn in sorted((f for n in SEARCH for f in ck.find(S + n)), key=lambda f: f.key):
        search(ck, fn)
    for r, k in (('keyword', 1), ('insert', 6), ('bulk', 6), ('request', 6), ('count', 2), ('masks', 4), ('xor', 2), ('store', 2), ('lookup', 6), ('walk', 4), ('threads', 8), ('joined', 2), ('results', 6)):
        ck.floor(r, k)


def var(fn, i):
    p = fn.params[i]
    return ('var', p['d'], p['n'], 0)


# ---------------------------------------------------------------- tokens and masks
def keyword(ck):
    for fn in ck.find(CL + 'get_keyword_index'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            h = [e for e in calls(o, 'hash') if e.args == (pv(fn, 0),)]
            if not ck.ob('keyword', 'hash', len(h) >= 1, 'not the hash of the keyword', *w):
                continue
            ok = False
            for e in o.trace:
                if e.kind != 'call' or core.meth_of(e.name or '') not in ('copy_n', 'copy', 'memcpy') or len(e.args) != 3:
                    continue
                m, a = core.meth_of(e.name), e.args
                src, n, dst = (a[0], a[1], a[2]) if m == 'copy_n' else (a[0], None, a[2]) if m == 'copy' else (a[1], a[2], a[0])
                if m == 'copy' and a[0][0] == a[1][0] == 'iter' and a[0][1] == a[1][1]:
                    n = T.sub(a[1][2], a[0][2])
                ps, pd = place(src), place(dst)
                if ps and pd and n == T.I(16) and pd[1] == T.ZERO and E.load(o.st, ps[0]) == h[0].ret and o.val == E.load(o.st, pd[0]):
                    ok = True
            ck.ob('keyword', 'bytes', ok, 'the identifier is not made of 16 bytes of the hash', *w)


def place(v):
    """(container, position) a pointer or an iterator designates"""
    if v[0] == 'iter':
        return v[1], v[2]
    if v[0] == 'addr' and v[1][0] == 'elem':
        return v[1][1], v[1][2]
    return None


def masks(ck):
    n = 0
    for fn in ck.find(NS + GEN):
        E, outs = ck.run(fn, **opts(cut='deep', pure=PURE, opaque_if=lambda x, f=None: any(y in x for y in OPAQUE) and GEN not in x))
        last = len(fn.params) - 1
        leaf, tok, mask = (('var', fn.params[i]['d'], fn.params[i]['n'], 0) for i in (0, 1, last))
        arr = 'array' in fn.params[0]['t']
        key = ('addr', ('elem', leaf, T.ZERO)) if arr else ('in', leaf)
        size = None
        t = fn.params[last]['t']
        if len(fn.params) == 4:
            size = pv(fn, 2)
        elif 'array<' in t:
            size = T.I(int(t.split(',')[1].split('>')[0]))
        elif 'long' in t:
            size = T.I(8)
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            w = (C.loc(fn, o.line), C.trail(o))
            ds = [e for e in calls(o, 'derive') if len(e.args) == 3]
            if not ck.ob('masks', 'derived', len(ds) == 2, 'not derived as a location and a mask', *w):
                continue
            got = {}
            for e in ds:
                mk = [x.args for x in calls(o, '(ctor)') if x.obj == e.obj]
                ok = len(mk) == 1 and len(mk[0]) == 1 and mk[0][0][0] == 'obj' and mk[0][0][2] == (key,)
                ck.ob('masks', 'whole', ok, 'not keyed with the leaf: %s' % ', '.join(T.show(x)[:100] for y in mk for x in y), *w)
                d = e.args[2]
                if d == ('addr', ('elem', tok, T.ZERO)):
                    got['t'] = e
                elif d in (('addr', mask), ('addr', ('elem', mask, T.ZERO)), ('in', mask)):
                    got['m'] = e
            if not ck.ob('masks', 'both', set(got) == {'t', 'm'}, 'location or mask is not set: %s' % ', '.join(T.show(e.args[2]) for e in ds), *w):
                continue
            (a, n1), (b, n2) = got['t'].args[:2], got['m'].args[:2]
            ck.ob('masks', 'location', n1 == T.I(16), '%s bytes of the location are derived' % T.show(n1), *w)
            ck.ob('masks', 'mask', size is not None and n2 == size, '%s bytes of the mask are derived' % T.show(n2), *w)
            F = Facts(E, o.st.facts)
            ck.ob('masks', 'disjoint', F.ge(b, T.add(a, n1)) or F.ge(a, T.add(b, n2)), 'the mask is derived from the same bytes as the location', *w)
    ck.ob('masks', 'used', n > 0, 'no derivation')


def xor(ck):
    n = 0
    for fn in ck.find(NS + 'xor_mask', required=False):
        E, outs = ck.run(fn, **sopts(fn))
        L = C.Loops(E, outs)
        a, m = var(fn, 0), var(fn, 1)
        t = fn.params[0]['t']
        size = T.I(int(t.split(',')[1].split('>')[0])) if 'array<' in t else T.I(8)
        hs = [h for h in L.heads if any(o.kind == 'iter' for o in L.iters(h))]
        if not hs:
            for o in outs:
                if o.kind == 'ret':
                    n += 1
                    lv = p21.leaves(o.val)
                    ck.ob('xor', 'whole', sorted(map(repr, lv)) == sorted(map(repr, (('in', a), ('in', m)))), 'applied twice it does not give back its input: %s' % T.show(o.val)[:200],
                          C.loc(fn, o.line), C.trail(o))
            continue
        for h in hs:
            for o in L.iters(h):
                n += 1
                w = (C.loc(fn, o.line), C.trail(o))
                ws = [(l, v) for l, v in o.st.store.items() if l[0] == 'elem' and v[0] != 'phi' and l[2] != T.ZERO]
                if not ck.ob('xor', 'byte', len(ws) == 1, '%d bytes are masked in an iteration' % len(ws), *w):
                    continue
                l, v = ws[0]
                while v[0] == 'trunc':
                    v = v[2]
                i = l[2]
                want = {('in', ('elem', a, i)), ('in', ('elem', m, i))}
                lv = p21.leaves(v)
                ck.ob('xor', 'involution', len(lv) == 2 and set(lv) == want, 'applied twice it does not give back its input: %s' % T.show(v)[:160], *w)
                ck.ob('xor', 'each', L.starts(h, i) == {T.ZERO} and T.sub(L.at(o, i, h), i) == T.ONE, 'not every byte is masked', *w)
                for x in L.exits(h):
                    ck.ob('xor', 'all', Facts(E, x.st.facts).ge(i, size), 'stops before the last byte', C.loc(fn, x.line), C.trail(x))
                    r = l[1]
                    ck.ob('xor', 'returned', x.kind != 'ret' or x.val in (E.load(x.st, r), ('in', r)), 'returns %s' % T.show(x.val or T.ZERO), C.loc(fn, x.line), C.trail(x))
                ck.ob('xor', 'within', Facts(E, o.st.facts).lt(i, size), 'masks past the last byte', *w)
    ck.ob('xor', 'used', n > 0, 'no unmasking function')


# ---------------------------------------------------------------- client
def tree(E, o, v):
    """(key of the tree of the keyword, with the bytes it is derived from; depth) of a tree"""
    if v is None or v[0] != 'obj' or not v[1].endswith('RCPrf') or len(v[2]) != 2:
        return None
    k, depth = v[2]
    for e in calls(o, 'derive_key'):
        if e.ret == k and e.args:
            b = at(e, 0)
            if b is not None:
                return ('key', e.obj, b) + e.args[1:], depth
    if k[0] == 'pure' and core.meth_of(k[1]) == 'derive_key' and not T.has_tag(k, 'addr'):
        return k, depth
    return None


def update(ck, E, o, rule, kw, idx, c, load):
    """the update sent for the keyword, the index and the number c -> the tree its leaf is in"""
    fn, w = None, None
    w = (o_loc(o), C.trail(o))
    g = calls(o, GEN)
    if not ck.ob(rule, 'derived', len(g) == 1, 'location and mask are derived %d times' % len(g), *w):
        return None
    g = g[0]
    leaf = g.args[0]
    if leaf[0] == 'addr':
        leaf = at(g, 0) or leaf
    tr = None
    ok = leaf[0] == 'pure' and core.meth_of(leaf[1]) == 'eval' and len(leaf[2]) == 2 and leaf[2][1] == c
    if ok:
        tr = tree(E, o, leaf[2][0])
    ck.ob(rule, 'leaf', ok, 'the leaf is not the one numbered as the update: %s' % T.show(leaf)[:160], *w)
    ck.ob(rule, 'tree', tr is not None, 'the tree is not derived from the keyword', *w)
    tok, index = load('token'), load('index')
    ck.ob(rule, 'token', tok == ('out', g.name, g.site, 1), 'the update is not sent with its location: %s' % T.show(tok)[:100], *w)
    ck.ob(rule, 'masked', index[0] == 'pure' and core.meth_of(index[1]) == 'xor_mask' and
          set(index[2]) == {idx, ('out', g.name, g.site, len(g.args) - 1)}, 'the index is not masked with its mask: %s' % T.show(index)[:100], *w)
    if tr is None:
        return None
    tr = about(tr, kw)
    ck.ob(rule, 'of the keyword', T.mentions(tr, ('kw',)), 'the tree is not that of the keyword', *w)
    return tr


def o_loc(o):
    for e in reversed(o.trace):
        if e.kind == 'call' and e.line:
            return C.evloc(e)
    return None


def client(ck):
    trees = []
    for fn in ck.find(CL + 'insertion_request'):
        E, outs = ck.run(fn, **sopts(fn))
        kw = pv(fn, 0)
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            inc = calls(o, 'get_and_increment')
            if not ck.ob('insert', 'counted', len(inc) == 1 and inc[0].args[0] == kw and inc[0].obj == this('counter_map_'), 'the updates of the keyword are not counted once each', *w):
                continue
            if E.truth(o.st.facts, inc[0].ret) is not True:
                ck.ob('insert', 'failure', o.kind == 'throw', 'an update that was not counted is sent', *w)
                continue
            if o.kind != 'ret':
                ck.ob('insert', 'refused', o.kind != 'throw', 'a counted update is refused', *w)
                continue
            tr = update(ck, E, o, 'insert', kw, pv(fn, 1), ('out', inc[0].name, inc[0].site, 1), lambda n: member(E, o, n))
            if tr:
                trees.append(tr)
    for fn in ck.find(CL + 'bulk_insertion_request'):
        trees += bulk(ck, fn)
    for fn in ck.find(CL + 'search_request'):
        trees += request(ck, fn)
    ck.ob('request', 'same', len(set(trees)) == 1, 'updates and searches do not use the same tree: %s' % '; '.join(sorted({T.show(t)[:120] for t in trees})))


def bulk(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    L = C.Loops(E, outs)
    ul = var(fn, 0)
    trees = []
    inc = [h for h in L.heads if any(calls(o, 'get_and_increment') for o in L.body(h))]
    gen = [h for h in L.heads if any(calls(o, GEN) for o in L.body(h))]
    if not ck.ob('bulk', 'loops', len(inc) == len(gen) == 1 and all(o.frm in inc for o in outs if calls(o, 'get_and_increment')) and
                 all(o.frm in gen for o in outs if calls(o, GEN)), 'elements are not processed in one loop', C.loc(fn)):
        return trees
    hi, hg = inc[0], gen[0]
    interm = None
    for o in L.body(hi):
        es = calls(o, 'get_and_increment')
        if not es:
            ck.ob('bulk', 'each counted', o.kind != 'iter', 'an element is not counted', o_loc(o) or C.loc(fn), C.trail(o))
            continue
        w = (C.evloc(es[0]), C.trail(o))
        p = elem_of(es[0].args[0], ul, 'first')
        if not ck.ob('bulk', 'counted', len(es) == 1 and p is not None and es[0].obj == this('counter_map_'), 'what is counted is not the keyword of the element: %s' % T.show(es[0].args[0])[:120], *w):
            continue
        if E.truth(o.st.facts, es[0].ret) is not True:
            ck.ob('bulk', 'failure', o.kind == 'throw', 'an update that was not counted is sent', *w)
            continue
        ck.ob('bulk', 'one by one', one_by_one(E, L, hi, p, ul), 'not every element is counted', *w)
        if hi == hg:
            continue
        kept = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back') and e.obj is not None]
        if not ck.ob('bulk', 'kept', len(kept) == 1, 'the number of an update is kept %d times' % len(kept), *w):
            continue
        a = kept[0].args
        if len(a) == 1 and a[0][0] in ('call', 'pure', 'obj'):
            a = a[0][2]
        names = {('in', ('fld', ('elem', ul, p), 'first')): 'kw', ('in', ('fld', ('elem', ul, p), 'second')): 'idx', ('out', es[0].name, es[0].site, 1): 'c'}
        roles = tuple(names.get(x) for x in a)
        if ck.ob('bulk', 'kept whole', set(roles) >= {'kw', 'idx', 'c'}, 'keeps %s' % ', '.join(T.show(x) for x in a), *w):
            interm = (kept[0].obj, roles)
    for o in L.body(hg):
        g = calls(o, GEN)
        if not g:
            ck.ob('bulk', 'each sent', o.kind != 'iter', 'an element is not sent', o_loc(o) or C.loc(fn), C.trail(o))
            continue
        if o.kind != 'iter':
            continue
        w = (C.evloc(g[0]), C.trail(o))
        sent = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back') and e.obj is not None and (interm is None or e.obj != interm[0])]
        if not ck.ob('bulk', 'sent', len(sent) == 1 and len(sent[0].args) == 1, 'an update is sent %d times' % len(sent), *w):
            continue
        s = sent[0]
        if hi == hg:
            i = calls(o, 'get_and_increment')
            if not i:
                continue
            p = elem_of(i[0].args[0], ul, 'first')
            if p is None:
                continue
            kw, idx, c = i[0].args[0], ('in', ('fld', ('elem', ul, p), 'second')), ('out', i[0].name, i[0].site, 1)
        else:
            if interm is None:
                continue
            r = source(E, o, g[0], interm)
            if not ck.ob('bulk', 'numbers', r is not None, 'the updates sent are not those counted', *w):
                continue
            v, p = r
            f = {role: ('fv', v, 'get%dUL' % k) for k, role in enumerate(interm[1]) if role}
            kw, idx, c = f['kw'], f['idx'], f['c']
            ck.ob('bulk', 'all', one_by_one(E, L, hg, p, None, v[1]), 'not every counted element is sent', *w)
        sl = s.alv[0] if s.alv else None
        tr = update(ck, E, o, 'bulk', kw, idx, c, lambda n: sent_field(E, o, s, sl, n))
        if tr:
            trees.append(tr)
        for x in outs:
            if x.kind == 'ret':
                ck.ob('bulk', 'returned', x.frm == hg and x.val == E.load(x.st, s.obj), 'returns %s' % T.show(x.val or T.ZERO)[:100], C.loc(fn, x.line), C.trail(x))
    return trees


def sent_field(E, o, s, sl, n):
    if sl is not None:
        for l, v in s.mem or ():
            if l == ('fld', sl, n):
                return v
        return E.load(o.st, ('fld', sl, n))
    return T.ZERO


def source(E, o, g, interm):
    """(element, position) of the list of what was counted that the derivation uses"""
    for t in T.subterms(g.args[0]):
        if t and t[0] == 'fv' and t[1][0] == 'ev' and t[1][1][0] == 'phi' and t[1][1][2] == interm[0]:
            return t[1], t[1][2]
    return None


def elem_of(v, l, f):
    """position of the element of l whose member f is v"""
    if v[0] == 'in' and v[1][0] == 'fld' and v[1][2] == f and v[1][1][0] == 'elem' and v[1][1][1] == l:
        return v[1][1][2]
    return None


def one_by_one(E, L, h, p, l, val=None):
    if not (L.starts(h, p) == {T.ZERO} and all(T.sub(L.at(o, p, h), p) == T.ONE for o in L.iters(h))):
        return False
    n = ('pure', 'size', (val if val is not None else ('in', l),))
    return all(Facts(E, o.st.facts).ge(p, n) for o in L.exits(h) if o.kind not in ('throw', 'noreturn'))


def request(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    kw = pv(fn, 0)
    trees = []
    for o in outs:
        if o.kind != 'ret':
            ck.ob('request', 'answered', o.kind != 'throw', 'a request is refused', C.loc(fn, o.line), C.trail(o))
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        g = [e for e in calls(o, 'get') if e.obj == this('counter_map_')]
        if not ck.ob('request', 'counter', len(g) == 1 and g[0].args[0] == kw, 'the number of updates of the keyword is not looked for once', *w):
            continue
        ck.ob('request', 'read only', not calls(o, 'get_and_increment', 'increment', 'set', 'remove_key'), 'a search changes a counter', *w)
        c = ('out', g[0].name, g[0].site, 1)
        n, leaves = member(E, o, 'add_count'), member(E, o, 'constrained_rcprf')
        found = E.truth(o.st.facts, g[0].ret)
        if not ck.ob('request', 'decided', found is not None, 'the answer does not depend on whether the keyword has updates', *w):
            continue
        if not found:
            ck.ob('request', 'none', n == T.ZERO, 'a keyword without updates has %s' % T.show(n), *w)
            continue
        F = Facts(E, o.st.facts)
        ck.ob('request', 'count', F.eq(n, T.add(c, T.ONE)), 'the number of updates is %s' % T.show(n), *w)
        ok = leaves[0] == 'pure' and core.meth_of(leaves[1]) == 'constrain' and len(leaves[2]) == 3
        if ck.ob('request', 'leaves', ok, 'bears %s' % T.show(leaves)[:120], *w):
            ck.ob('request', 'first leaf', F.eq(leaves[2][1], T.ZERO), 'the leaves start with %s' % T.show(leaves[2][1]), *w)
            ck.ob('request', 'last leaf', F.eq(leaves[2][2], c), 'the leaves end with %s' % T.show(leaves[2][2]), *w)
            tr = tree(E, o, leaves[2][0])
            if ck.ob('request', 'tree', tr is not None, 'the tree is not derived from the keyword', *w):
                trees.append(about(tr, kw))
    return trees


def count(ck):
    for fn in ck.find(CL + 'get_match_count'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            g = [e for e in calls(o, 'get') if e.obj == this('counter_map_')]
            if not ck.ob('count', 'counter', o.kind == 'ret' and len(g) == 1 and g[0].args[0] == pv(fn, 0), 'the number of updates of the keyword is not looked for once', *w):
                continue
            found = E.truth(o.st.facts, g[0].ret)
            v = o.val
            while v[0] == 'trunc':
                v = v[2]
            ck.ob('count', 'value', found is not None and v == (T.add(('out', g[0].name, g[0].site, 1), T.ONE) if found else T.ZERO), 'answers %s' % T.show(o.val), *w)
    for fn in ck.find(CL + 'remove_keyword'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            r = [e for e in calls(o, 'remove_key') if e.obj == this('counter_map_')]
            ck.ob('count', 'removed', len(r) == 1 and r[0].args == (pv(fn, 0),) and o.val == r[0].ret, 'the keyword is not removed', C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- server
def closures(ck, fn, E, outs, clo, fixed):
    fixed = dict(fixed)
    fixed.update(settled(E, outs))
    for f in ck.prog.lambdas_of(fn):
        if f.key in clo:
            continue
        st = core.State()
        st.store.update(fixed)
        e2, o2 = ck.run(f, init=st, **sopts(f))
        clo[f.key] = Closure(f, e2, o2, C.Loops(e2, o2))
        closures(ck, f, e2, o2, clo, fixed)
    return fixed


def search(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    L = C.Loops(E, outs)
    clo = {}
    fixed = closures(ck, fn, E, outs, clo, {})
    req = var(fn, 0)
    named = {}
    for i, p in enumerate(fn.params):
        if p['t'] == 'bool':
            named['delete'] = pv(fn, i)
        elif p['t'] == 'unsigned char':
            named['threads'] = pv(fn, i)
        elif 'function' in p['t']:
            named['callback'] = var(fn, i)
            named['tl'] = ', unsigned char)>' in p['t']
        elif 'vector' in p['t']:
            named['vector'] = var(fn, i)
    name = core.meth_of(fn.name) + (' list' if 'callback' not in named and 'vector' not in named else ' vector' if 'vector' in named else ' numbered' if named['tl'] else '')
    ctx = dict(ck=ck, fn=fn, name=name, req=req, clo=clo, fixed=fixed, num=('in', ('fld', req, 'add_count')), **named)
    vis = [(o, e) for x in [outs] + [c.outs for c in clo.values()] for o in x for e in calls(o, 'eval_range')]
    if not vis:
        delegate(ctx, E, outs, L)
        return
    for c in clo.values():
        if any(calls(o, GEN) for o in c.outs):
            leaf(ctx, c)
    direct = [e for o in outs for e in calls(o, 'eval_range')]
    if direct:
        for o in outs:
            es = calls(o, 'eval_range')
            if o.kind != 'ret' and not es:
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            none = Facts(E, o.st.facts).eq(ctx['num'], T.ZERO)
            if none:
                ck.ob('walk', '%s none' % name, not es, 'visits leaves of an empty request', *w)
            elif ck.ob('walk', '%s once' % name, len(es) == 1 and o.frm is None, 'the leaves are visited %d times' % len(es), *w):
                visit(ctx, E, o, es[0])
                lo, hi = es[0].args[:2]
                F = Facts(E, o.st.facts)
                ck.ob('walk', '%s first' % name, F.eq(lo, T.ZERO), 'starts with the leaf %s' % T.show(lo), *w)
                ck.ob('walk', '%s last' % name, F.eq(hi, T.sub(ctx['num'], T.ONE)) or maxleaf(ctx, hi), 'stops at the leaf %s' % T.show(hi), *w)
        return
    threads(ctx, E, outs, L)


def maxleaf(ctx, v):
    return v[0] in ('pure', 'call') and core.meth_of(v[1]) == 'max_leaf' and v[2] in ((('in', ('fld', ctx['req'], 'constrained_rcprf')),), (('addr', ('fld', ctx['req'], 'constrained_rcprf')),))


def lam(ctx, v):
    """the closure a value is"""
    if v[0] == 'obj' and 'function' in v[1] and len(v[2]) == 1:
        v = v[2][0]
    if v[0] in ('in', 'phi'):
        v = ctx['fixed'].get(v[-1], v)
    return ctx['clo'].get(v[1]) if v[0] == 'lam' else None


def visit(ctx, E, o, e):
    w = (C.evloc(e), C.trail(o))
    ctx['ck'].ob('walk', '%s request' % ctx['name'], e.obj == ('fld', ctx['req'], 'constrained_rcprf'), 'the leaves are not those of the request', *w)
    c = lam(ctx, e.args[2]) if len(e.args) == 3 else None
    ctx['ck'].ob('walk', '%s looks up' % ctx['name'], c is not None and any(calls(x, GEN) for x in c.outs), 'what is stored for a leaf is not looked for', *w)


def leaf(ctx, c):
    """the closure called on each leaf"""
    ck, name, fn, E = ctx['ck'], ctx['name'], c.fn, c.E
    if len(fn.params) != 2:
        ck.ob('lookup', '%s leaf' % name, False, 'not called with a leaf and its number', C.loc(fn))
        return
    st = var(fn, 1)
    for o in c.outs:
        w = (C.loc(fn, o.line), C.trail(o))
        if o.kind in ('throw', 'noreturn'):
            ck.ob('lookup', '%s throws' % name, False, 'a leaf is not looked up', *w)
            continue
        gs = calls(o, GEN)
        if not ck.ob('lookup', '%s derived' % name, len(gs) == 1, 'location and mask are derived %d times' % len(gs), *w):
            continue
        g = gs[0]
        ck.ob('lookup', '%s of the leaf' % name, g.args[0] in (('in', st), ('addr', ('elem', st, T.ZERO))), 'derived from %s' % T.show(g.args[0]), *w)
        out, mask = ('out', g.name, g.site, 1), ('out', g.name, g.site, len(g.args) - 1)
        gets = [e for e in calls(o, 'get') if e.obj and e.obj[0] == 'fld' and e.obj[2] == 'edb_' and e.args[0] == out]
        if not ck.ob('lookup', '%s get' % name, len(gets) == 1, 'what is stored under the token is looked for %d times' % len(gets), *w):
            continue
        e = gets[0]
        found = E.truth(o.st.facts, e.ret)
        asked = E.truth(o.st.facts, ctx['delete'])
        rm = [x for x in calls(o, 'remove') if x.obj == e.obj]
        val = ('out', e.name, e.site, 1)
        ds = [x for x in o.trace if x.kind == 'call' and core.meth_of(x.name or '') == 'operator()' and x.obj == ctx['callback']]
        if found is not True:
            ck.ob('lookup', '%s nothing' % name, found is False and not ds, 'delivers an index that was not found', *w)
            ck.ob('lookup', '%s keeps others' % name, all(x.args == (out,) for x in rm), 'removes %s' % ', '.join(T.show(x.args[0]) for x in rm), *w)
            continue
        if ck.ob('lookup', '%s delivered' % name, len(ds) == 1, 'what was found is delivered %d times' % len(ds), *w):
            a = ds[0].args
            v = a[1] if ctx['tl'] and len(a) == 3 else a[0]
            ck.ob('lookup', '%s unmasked' % name, v[0] == 'pure' and core.meth_of(v[1]) == 'xor_mask' and set(v[2]) == {val, mask}, 'delivers %s' % T.show(v)[:160], *w)
            if ctx['tl']:
                ck.ob('lookup', '%s numbered' % name, len(a) == 3 and a[0] == pv(fn, 0), 'delivered as number %s' % T.show(a[0]), *w)
                ctx.setdefault('tid', set()).add(a[2] if len(a) == 3 else None)
        ck.ob('lookup', '%s removed' % name, asked is not None and (len(rm) == 1) == asked and len(rm) <= 1, 'removed %d times when %s' % (
            len(rm), 'asked' if asked else 'not asked' if asked is False else 'asked or not'), *w)
        for x in rm:
            ck.ob('lookup', '%s removes that' % name, x.args == (out,) and o.trace.index(x) > o.trace.index(e), 'removes %s' % T.show(x.args[0]), *w)


# ---------------------------------------------------------------- threads
def threads(ctx, E, outs, L):
    ck, fn, name, N = ctx['ck'], ctx['fn'], ctx['name'], ctx['num']
    th = [(o, e) for o in outs for e in o.trace if e.kind == 'call' and p21.job_of(e) is not None]
    if not ck.ob('threads', '%s started' % name, bool(th) and 'threads' in ctx, 'no leaf is visited', C.loc(fn)):
        return
    param = ctx['threads']
    base = [T.sub(T.I(255), param), T.sub(param, T.ONE)]
    for o in outs:
        if o.kind == 'ret' and o.frm is None:
            ck.ob('threads', '%s empty' % name, Facts(E, o.st.facts, *base).eq(N, T.ZERO), 'returns without visiting the leaves', C.loc(fn, o.line), C.trail(o))
    heads = {o.head for o, e in th if o.kind == 'iter'}
    if not ck.ob('threads', '%s looped' % name, len(heads) == 1 and all(o.kind == 'iter' for o, e in th), 'threads are not started in a loop', C.loc(fn)):
        return
    h = heads.pop()
    job = None
    for o in L.iters(h):
        es = [e for x, e in th if x is o]
        w = (C.loc(fn, o.line), C.trail(o))
        if not ck.ob('threads', '%s one each' % name, len(es) == 1, '%d threads are started in an iteration' % len(es), *w):
            continue
        e = es[0]
        a = p21.job_of(e)
        c = ctx['clo'].get(a[0][1])
        if not ck.ob('threads', '%s job' % name, c is not None and len(c.fn.params) == len(a) - 1, 'what the threads run is not known', *w):
            continue
        job = c
        ps = [var(c.fn, i) for i in range(len(c.fn.params))]
        # every path of the job visits its leaves once
        lohi = set()
        for x in c.outs:
            vs = calls(x, 'eval_range')
            if ck.ob('threads', '%s visits' % name, len(vs) == 1 and x.frm is None, 'a thread visits its leaves %d times' % len(vs), C.loc(c.fn, x.line), C.trail(x)):
                visit(ctx, c.E, x, vs[0])
                lohi.add(vs[0].args[:2])
        if not ck.ob('threads', '%s same' % name, len(lohi) == 1, 'the leaves a thread visits depend on the path', *w):
            continue
        lo, hi = next(iter(lohi))
        tid = ctx.get('tid', set())
        tid = next(iter(tid)) if len(tid) == 1 else None
        for p, v in zip(ps, a[1:]):
            lo, hi, tid = (T.subst(x, ('in', p), v) if x is not None else None for x in (lo, hi, tid))
        lo, hi = p21.relin(lo), p21.relin(hi)
        if ctx['tl']:
            ck.ob('threads', '%s number' % name, tid is not None, 'the thread is not numbered', *w)
        share(ctx, E, outs, L, h, o, e, lo, hi, tid, base)
    if job is None:
        return
    for o, e in th:
        n = quotient(o, N)
        p21.joined(dict(ctx, clo={}), E, [x for x in outs if x.kind != 'ret' or x.frm is not None], L, e.obj, n[1] if n else param, base, job, o)


def quotient(o, N, extra=()):
    """(rest, number of shares) when the leaves are divided"""
    for k in list(o.st.facts) + list(o.st.store.values()) + list(extra):
        for x in T.subterms(k):
            if x and x[0] == 'op' and x[1] in ('%', '/') and len(x) == 4 and x[2] == N:
                return ('op', '%', N, x[3]), x[3]
    return None


def settle(F, v):
    """conditions used as numbers"""
    for x in sorted({x for x in T.subterms(v) if x and x[0] == 'lt0'}, key=repr):
        if not F.possible(x[1]):
            v = T.subst(v, x, T.ONE)
        elif not F.possible(T.sub(T.sub(T.ZERO, x[1]), T.ONE)):
            v = T.subst(v, x, T.ZERO)
    return p21.relin(v)


def share(ctx, E, outs, L, h, o, e, lo, hi, tid, base):
    """the thread number t visits the leaves f(t) to f(t + 1) - 1, where f(t) = t*(N/n) + min(t, N%n)"""
    ck, fn, name, N = ctx['ck'], ctx['fn'], ctx['name'], ctx['num']
    w = (C.evloc(e), C.trail(o))
    q = quotient(o, N)
    if not ck.ob('threads', '%s divided' % name, q is not None, 'the leaves are not divided among the threads', *w):
        return
    R, n = q
    Q = ('op', '/', N, n)
    # the number of the thread: what is compared with the number of threads
    # counted from zero in steps of one, a number is at most n where n is tested for every time
    def upto(x):
        return Facts(E, o.st.facts, T.sub(n, x), *base)
    ts = sorted({x for k in o.st.facts for x in T.subterms(k) if x and x[0] == 'phi' and x[1] == h and L.starts(h, x) == {T.ZERO} and
                 upto(x).lt(x, n) and T.sub(unnarrow(L.at(o, x, h), upto(x)), x) == T.ONE}, key=repr)
    if not ck.ob('threads', '%s counted' % name, len(ts) >= 1, 'threads are not counted from zero to their number', *w):
        return
    t = ts[0]
    base = list(base) + [T.sub(n, t)]
    F0 = Facts(E, o.st.facts, *base)
    ck.ob('threads', '%s at least one' % name, F0.ge(n, T.ONE) and F0.ge(N, n), 'there are more threads than leaves, or none', *w)
    ck.ob('threads', '%s at most' % name, F0.ge(ctx['threads'], n), 'there are more threads than asked for', *w)
    if ctx['tl']:
        ck.ob('threads', '%s distinct' % name, tid is not None and unnarrow(tid, F0) == t, 'the thread is numbered %s' % T.show(tid or T.ZERO), *w)
    for x in L.exits(h):
        if x.kind not in ('throw', 'noreturn') and p21.same(E, x, o):
            ck.ob('threads', '%s as many' % name, Facts(E, Both(x.st.facts, [(k, v) for k, v in o.st.facts.items() if not T.has_tag(k, 'phi')]), *base).ge(t, n),
                  'a thread is not started', C.loc(fn, x.line), C.trail(x))
    # variables that are f(t) + d
    inv = []
    for x in sorted({y for v in (lo, hi) for y in T.subterms(v) if y and y[0] == 'phi' and y[1] == h and y != t}, key=repr) + \
            sorted({y for k in o.st.facts for y in T.subterms(k) if y and y[0] == 'phi' and y[1] == h and y != t and y[2][0] == 'var'}, key=repr):
        if any(x == y for y, _ in inv):
            continue
        d = set()
        for en in L.enters(h):
            qn = quotient(en, N)
            v = L.at(en, x, h)
            if qn:
                v = T.subst(v, ('op', '/', N, qn[1]), ('S',))
            d.add(p21.relin(v))
        if len(d) == 1:
            inv.append((x, p21.relin(T.subst(next(iter(d)), ('S',), Q))))
    one = T.ONE
    t1 = T.add(t, one)
    hyp = list(base) + [R, T.sub(T.sub(n, one), R), T.mul(T.sub(T.sub(n, t), one), Q), T.sub(Q, one),
                        T.sub(N, T.add(T.mul(n, Q), R)), T.sub(T.add(T.mul(n, Q), R), N)]
    for case, guard, f0, f1 in (('first', T.sub(T.sub(R, one), t), T.add(T.mul(t, Q), t), T.add(T.mul(t1, Q), t1)),
                                ('others', T.sub(t, R), T.add(T.mul(t, Q), R), T.add(T.mul(t1, Q), R))):
        good = list(inv)
        while True:
            eqs = [y for x, d in good for y in (T.sub(x, T.add(f0, d)), T.sub(T.add(f0, d), x))]
            F = Facts(E, o.st.facts, guard, *(hyp + eqs))
            if not F.possible():
                break
            bad = [(x, d) for x, d in good if not F.eq(settle(F, L.at(o, x, h)), T.add(f1, d))]
            if not bad:
                break
            good = [g for g in good if g not in bad]
        if not F.possible() and not (Facts(E, o.st.facts, guard, *hyp).possible()):
            continue
        ck.ob('threads', '%s from' % name, F.possible() and F.eq(settle(F, lo), f0), 'thread number t does not start where the previous one stops: %s' % T.show(lo), *w)
        ck.ob('threads', '%s to' % name, F.possible() and F.eq(settle(F, hi), T.sub(f1, one)), 'the leaves given to the threads overlap or have gaps, at %s' % T.show(hi), *w)
        # an invariant that one case loses cannot be used by the other
        ctx.setdefault('inv', {}).setdefault(h, []).append(({x for x, _ in good}, {x for x, _ in inv}, w))
        lost = {x for x, _ in inv} - {x for x, _ in good}
        ck.ob('threads', '%s steps' % name, not (lost & {y for v in (lo, hi) for y in T.subterms(v)}), 'the shares do not follow each other', *w)


# ---------------------------------------------------------------- other forms
def delegate(ctx, E, outs, L):
    ck, fn, name = ctx['ck'], ctx['fn'], ctx['name']
    n = 0
    for o in outs:
        es = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in SEARCH and (e.name or '').startswith(S)]
        w = (C.loc(fn, o.line), C.trail(o))
        if not es:
            if o.kind == 'ret' and o.frm is None:
                ck.ob('results', '%s none' % name, Facts(E, o.st.facts).eq(ctx['num'], T.ZERO), 'returns without searching', *w)
            continue
        n += 1
        if not ck.ob('results', '%s once' % name, len(es) == 1 and o.kind in ('ret', 'enter') and o.frm is None, 'searches %d times' % len(es), *w):
            continue
        e = es[0]
        cb = [lam(ctx, a) for a in e.args]
        rest = [a for a, c in zip(e.args, cb) if c is None]
        want = [('in', ctx['req']), ctx['delete']] + ([ctx['threads']] if 'threads' in ctx and core.meth_of(e.name) != 'search' else [])
        cb = [c for c in cb if c is not None]
        direct = 'callback' in ctx and ('in', ctx['callback']) in rest
        if direct:
            rest.remove(('in', ctx['callback']))
        ck.ob('results', '%s same' % name, sorted(map(repr, rest)) == sorted(map(repr, want)), 'searches with %s' % ', '.join(T.show(a) for a in rest), *w)
        if direct:
            continue
        if ck.ob('results', '%s receives' % name, len(cb) == 1, 'the results are not received', *w):
            received(ctx, E, outs, L, o, e, cb[0])
    ck.ob('results', '%s searches' % name, n > 0, 'does not search', C.loc(fn))


def received(ctx, E, outs, L, o, e, c):
    ck, fn, name = ctx['ck'], ctx['fn'], ctx['name']
    k = 1 if len(c.fn.params) == 3 else 0
    idx = pv(c.fn, k)
    lists = set()
    for x in c.outs:
        w = (C.loc(c.fn, x.line), C.trail(x))
        puts = [y for y in x.trace if y.kind == 'call' and core.meth_of(y.name or '') in p21.LISTS]
        cbs = [y for y in x.trace if y.kind == 'call' and core.meth_of(y.name or '') == 'operator()' and 'callback' in ctx and y.obj == ctx['callback']]
        if 'callback' in ctx:
            ok = len(cbs) == 1 and cbs[0].args == ((idx,) if not ctx['tl'] else tuple(pv(c.fn, i) for i in range(3)))
            ck.ob('results', '%s passed on' % name, ok, 'a result is passed on %d times' % len(cbs), *w)
        elif 'vector' in ctx:
            v = ctx['vector']
            i = pv(c.fn, 0)
            now = [z for l, z in x.st.store.items() if l == ('elem', v, i)]
            if now == [idx]:
                ck.ob('results', '%s at its place' % name, True, '', *w)
            else:
                size = ('pure', 'size', (('in', v),))
                ck.ob('results', '%s at its place' % name, not now and Facts(c.E, x.st.facts).ge(i, size), 'a result is not written at its place', *w)
        else:
            ok = len(puts) == 1 and puts[0].args == (idx,) and not p21.spoilt(x, puts[0].obj)
            if ck.ob('results', '%s kept' % name, ok, 'a result is kept %d times' % len(puts), *w):
                lists.add(puts[0].obj)
    if 'vector' in ctx:
        v = ctx['vector']
        rs = [y for y in o.trace if y.kind == 'call' and y.obj == v and core.meth_of(y.name or '') == 'resize']
        sz = [y.args[0] for y in rs if o.trace.index(y) < o.trace.index(e)]
        size = sz[-1] if sz else ('pure', 'size', (('in', v),))
        ck.ob('results', '%s large enough' % name, Facts(E, o.st.facts).ge(size, ctx['num']), 'the results do not fit', C.loc(fn, o.line), C.trail(o))
    if 'vector' in ctx or 'callback' in ctx:
        return
    if not ck.ob('results', '%s one list' % name, len(lists) == 1, 'results are kept in %d lists' % len(lists), C.loc(fn)):
        return
    l = lists.pop()
    if o.kind == 'ret' and l[0] == 'var':
        ck.ob('results', '%s returned' % name, o.val == E.load(o.st, l) and not p21.spoilt(o, l), 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
        return
    merged(ctx, E, outs, L, o, c, l)


def merged(ctx, E, outs, L, o, c, l):
    """one list by thread, put together"""
    ck, fn, name = ctx['ck'], ctx['fn'], ctx['name']
    n = ctx['threads']
    base = [T.sub(T.I(255), n), T.sub(n, T.ONE)]
    w = (C.loc(fn, o.line), C.trail(o))
    ok = l[0] == 'elem' and len(c.fn.params) == 3 and l[2] == pv(c.fn, 2)
    if not ck.ob('results', '%s own list' % name, ok, 'threads add to the same list', *w):
        return
    arr = l[1]
    new = [e for e in o.trace if e.kind == 'call' and e.name == 'new[]']
    size = None
    if arr[0] == 'deref' or new:
        size = new[-1].args[1] if new else None
        arr2 = ('deref', new[-1].ret) if new else arr
    else:
        arr2 = arr
        for e in o.trace:
            if e.kind == 'call' and core.meth_of(e.name or '') in ('(ctor)', 'resize') and e.obj == arr and e.args:
                size = e.args[0]
    F = Facts(E, o.st.facts, *base)
    ck.ob('results', '%s lists' % name, size is not None and F.ge(size, n), 'there are fewer lists than threads', *w)
    hs = {}
    for h in L.heads:
        for x in L.iters(h):
            for e in calls(x, 'splice'):
                s = e.alv[1] if len(e.alv) > 1 else None
                if s is not None and s[0] == 'elem' and s[1] == arr2:
                    hs.setdefault(h, []).append((x, e, s[2]))
    if not ck.ob('results', '%s merged' % name, len(hs) == 1, 'the lists are put together in %d loops' % len(hs), *w):
        return
    h, l3 = next(iter(hs.items()))
    dest = {e.obj for _, e, _ in l3}
    ck.ob('results', '%s into one' % name, len(dest) == 1 and len(l3) == len(L.iters(h)), 'not every list is added to the results', *w)
    d = next(iter(dest))
    for x, e, i in l3:
        for s in L.starts(h, i):
            first = {E.load(en.st, d) for en in L.enters(h)}
            whole = first == {('obj', 'std::list', ())} or all(v == ('obj', 'std::list', ()) for v in first)
            head = all(v[0] == 'ev' and v[2] == T.ZERO or v == ('in', ('elem', arr2, T.ZERO)) for v in first)
            ck.ob('results', '%s from the first' % name, s == T.ZERO and whole or s == T.ONE and head, 'starts with the list number %s' % T.show(s), C.evloc(e), C.trail(x))
        ck.ob('results', '%s each list' % name, T.sub(unnarrow(L.at(x, i, h), Facts(E, x.st.facts, *base)), i) == T.ONE, 'a list is skipped', C.evloc(e), C.trail(x))
        for y in L.exits(h):
            if y.kind == 'ret':
                ck.ob('results', '%s every list' % name, Facts(E, y.st.facts, *base).ge(i, n), 'the last lists are not returned', C.loc(fn, y.line), C.trail(y))
                ck.ob('results', '%s merged returned' % name, y.val == E.load(y.st, d), 'returns %s' % T.show(y.val or T.ZERO), C.loc(fn, y.line), C.trail(y))
                fr = [k for k, z in enumerate(y.trace) if z.kind == 'call' and 'delete' in (z.name or '')]
