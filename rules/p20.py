"""P20: a Tethys search finds all the blocks the builder cut a list in"""
from engine import check as C
from engine import core
from engine import terms as T
from engine.poly import Facts
from rules.p12 import opts, pv, this
from rules.p13 import calls
from rules.p17 import below, lv, second

TU = 'tus/tethys_client_inst.cpp'
NS = 'sse::tethys::'
B, TB, S, CL = NS + 'details::GenericTethysBuilder::', NS + 'TethysBuilder::', NS + 'TethysServer::', NS + 'TethysClient::'
DERIVE = NS + 'details::derive_core_key'
OPAQUE = ('::derive_core_key', 'TethysStoreBuilder::', 'RocksDBCounter::', 'DecryptDecoder::', 'EncryptEncoder::', 'TethysStore::',
          'GenericTethysBuilder::', '::is_file', '::deserialize_map')


def topts(fn=None, more=(), **k):
    return opts(cut='deep', pure=('derive_core_key', 'prf'), opaque_if=lambda n, f=None: any(x in n for x in OPAQUE + tuple(more)) and
                (fn is None or f is None or f.key != fn.key), **k)


def strip(t):
    while t and t[0] in ('trunc', 'cast'):
        t = t[-1]
    return t


def plain(t):
    """one spelling for the members and elements of what is read"""
    if not isinstance(t, tuple):
        return t
    t = tuple(plain(x) for x in t)
    if t and t[0] in ('fv', 'ev') and len(t) == 3 and isinstance(t[1], tuple) and t[1] and t[1][0] == 'in':
        return ('in', ('fld' if t[0] == 'fv' else 'elem', t[1][1], t[2]))
    return t


def run(ck):
    ck.load([TU])
    ck.rule('blocks', 'a list is cut in blocks, each element being put in one, in order')
    ck.rule('fits', 'a block has no more elements than a bucket has room for')
    ck.rule('named', 'the block number k of a keyword is kept under the key derived from the token of the keyword and k')
    ck.rule('counted', 'the number of blocks of a keyword is stored, or the failure to store it is reported')
    ck.rule('derive', 'the key of a block depends on the whole token and on the whole block number')
    ck.rule('built', 'building builds the store with the encoder that has the encryption key, then makes the counters durable')
    ck.rule('request', 'a request bears the token of the keyword and the number of its blocks, which is null when it has none')
    ck.rule('server', 'the server answers with the buckets of every block, in order, each with its key')
    ck.rule('decode', 'the answer is, for every block in order, what its buckets and the stash hold for its key')
    ck.rule('setup', 'builder and client use the keys and the files they are given')
    ck.rule('load', 'all the lists of a file are inserted, and a file that could not be loaded is reported')
    for fn in ck.find(B + 'insert_list'):
        blocks(ck, fn)
    for fn in ck.find(DERIVE):
        derive(ck, fn)
    built(ck)
    for fn in ck.find(CL + 'search_request'):
        request(ck, fn)
    for fn in ck.find(S + 'search'):
        search(ck, fn)
    for fn in ck.find(CL + 'decode_search_results'):
        if len(fn.params) == 4:
            decode(ck, fn)
        else:
            delegated(ck, fn)
    setup(ck)
    load(ck)
    for r, k in (('blocks', 3), ('fits', 2), ('named', 3), ('counted', 2), ('derive', 2), ('built', 3), ('request', 3), ('server', 3), ('decode', 5), ('setup', 5),
                 ('load', 3)):
        ck.floor(r, k)


# ---------------------------------------------------------------- builder
def room(ck):
    """(control entries, longest list) of the store"""
    k, n = set(), set()
    for fn in ck.find(NS + 'TethysStoreBuilder::insert_list'):
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: n.endswith('TethysAllocator::insert') or n.endswith('Hasher::operator()') or
                                    n.endswith('::graph_size')))
        for o in outs:
            for e in calls(o, 'insert'):
                if e.name.endswith('TethysAllocator::insert') and len(e.args) == 3:
                    k.add(T.sub(e.args[1], ('pure', 'size', (pv(fn, 1),))))
    for fn in ck.find(NS + 'TethysStoreBuilder::(ctor)', pred=lambda f: len(f.params) == 1):
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: 'TethysAllocator::' in n or n.endswith('graph_size')))
        for o in outs:
            for e in calls(o, '(ctor)'):
                if e.name.endswith('TethysAllocator::(ctor)') and len(e.args) == 2:
                    n.add(e.args[1])
    if len(k) == len(n) == 1:
        k, n = next(iter(k)), next(iter(n))
        if k[0] == n[0] == 'int':
            return n[1] - k[1]
    return None


def stored(o):
    return [e for e in calls(o, 'insert_list') if e.obj == this('store_builder')]


def counters(o):
    return [e for e in calls(o, 'set') if e.obj == this('counter_db')]


def blocks(ck, fn):
    E, outs = ck.run(fn, **topts(fn))
    L = C.Loops(E, outs)
    kw, lst = pv(fn, 0), lv(fn, 1)
    most = room(ck)
    token = ('pure', 'sse::crypto::Prf::prf', (('in', this('master_prf')), kw))
    if not ck.ob('blocks', 'loop', len(L.heads) == 1, 'the elements are not taken one by one', C.loc(fn)):
        return
    h = L.heads[0]
    size = ('pure', 'size', (('in', lst),))
    blk = None
    cnt = set()
    first = [o.trace.index(stored(o)[0]) < o.trace.index(p) for o in L.iters(h) if stored(o) for p in calls(o, 'push_back') + calls(o, 'emplace_back')]
    first = bool(first) and all(first)
    for o in L.iters(h) + [o for o in L.exits(h) if o.kind == 'enter']:
        w = (C.loc(fn, o.line), C.trail(o))
        ps = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back') and e.args and elem_of(e.args[0], lst) is not None]
        if not ck.ob('blocks', 'element', len(ps) == 1, 'an element of the list is put in %d blocks' % len(ps), *w):
            continue
        p = elem_of(ps[0].args[0], lst)
        ck.ob('blocks', 'in order', L.counts(h, p), 'the elements are not taken in order from the first', *w)
        ck.ob('blocks', 'all', all(E.truth(x.st.facts, T.eq(p, size)) is True or E.truth(x.st.facts, T.lt(p, size)) is False
                                   for x in L.exits(h) if x.kind != 'throw'), 'the last elements of the list are left out', *w)
        if blk not in (None, ps[0].obj):
            ck.ob('blocks', 'one block', False, 'elements are put in several blocks at once', *w)
        blk = ps[0].obj
        st = stored(o)
        after = [e for e in o.trace if e.obj == blk and e.kind == 'call' and core.meth_of(e.name or '') in ('clear', 'erase', 'resize', 'swap', 'operator=', 'pop_back', 'insert', 'assign')]
        full = ('pure', 'size', (mutated(E, o, ps[0], blk),))
        if first:
            # a full block is stored before the next element is looked at
            full = ('pure', 'size', (('phi', h, blk),))
        if not st:
            ck.ob('blocks', 'kept', not after, 'elements are removed from a block that was not stored', *w)
            lim = bound(o.st.facts, full)
            ck.ob('fits', 'not full', lim is not None and most is not None and lim + 1 <= most, 'a block can grow past what a bucket has room for', *w)
            continue
        if not ck.ob('blocks', 'stored once', len(st) == 1 and first is (o.trace.index(st[0]) < o.trace.index(ps[0])), 'a block is stored %d times' % len(st), *w):
            continue
        e = st[0]
        ck.ob('blocks', 'stored', e.alv[1] == blk, 'what is stored is not the block', *w)
        got = E.load(o.st, blk)
        if first:
            ck.ob('blocks', 'stored', e.args[1] == ('phi', h, blk), 'what is stored is not the block', *w)
            x = after[-1] if after else e
            got = ('mut', x.name, tuple(x.args), x.site) if core.meth_of(x.name) != 'operator=' else x.args[0]
        ck.ob('blocks', 'emptied', (not first or after and o.trace.index(after[-1]) < o.trace.index(ps[0])) and emptied(got) and o.trace.index(e) < min([o.trace.index(x) for x in after] or [len(o.trace)]),
              'the next block starts with what was stored already', *w)
        k = number(e, token)
        if ck.ob('named', 'block', k is not None, 'a block is stored under %s' % T.show(e.args[0]), *w):
            ck.ob('named', 'numbered', L.at(o, k, h) == T.add(k, T.ONE) and L.starts(h, k) == {T.ZERO}, 'the blocks are not numbered from zero, one by one', *w)
            cnt.add(k)
    for o in L.iters(h):
        for k in cnt:
            if not stored(o):
                ck.ob('named', 'same number', L.at(o, k, h) == k, 'the number changes although no block was stored', C.loc(fn, o.line), C.trail(o))
    ck.ob('blocks', 'cut', bool(cnt), 'no block is ever stored', C.loc(fn))
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        if o.frm is None and o.kind in ('ret', 'enter'):
            ck.ob('blocks', 'none before', not stored(o) and not counters(o), 'something is stored before the elements are looked at', *w)
            if o.kind == 'enter' and blk is not None:
                v = E.load(o.st, blk)
                ck.ob('blocks', 'empty at first', emptied(v), 'the first block is not empty at first', *w)
        if o.frm != h or o.kind not in ('ret', 'throw'):
            continue
        st, ct = stored(o), counters(o)
        if o.kind == 'throw':
            continue
        for k in cnt:
            n = k
            v = E.load(o.st, blk)
            if st:
                ok = len(st) == 1 and st[0].alv[1] == blk and st[0].args[1] == ('phi', h, blk) and number(st[0], token) == k
                ck.ob('blocks', 'last', ok, 'the last block is stored as %s' % ', '.join(map(repr, st)), *w)
                n = T.add(k, T.ONE)
            else:
                f = [x for x in o.st.facts if T.mentions(x, ('phi', h, blk))]
                ok = E.truth(o.st.facts, T.eq(('pure', 'size', (('phi', h, blk),)), T.ZERO)) is True or any(
                    x[0] == 'pure' and x[1].endswith('empty') and E.truth(o.st.facts, T.eq0(x)) is False for x in f)
                ck.ob('blocks', 'last', ok, 'the last elements are not stored', *w)
            if not ck.ob('counted', 'once', len(ct) == 1, 'the number of blocks is stored %d times' % len(ct), *w):
                continue
            c = ct[0]
            ck.ob('counted', 'number', c.args[0] == kw and strip(c.args[1]) == n, 'what is stored is %s' % T.show(c.args[1]), *w)
            ck.ob('counted', 'reported', E.truth(o.st.facts, T.eq0(c.ret)) is False, 'a number of blocks that could not be stored goes unnoticed: nothing is ever found', *w)


def elem_of(v, lst):
    v = plain(strip(v))
    if v[0] == 'in' and v[1][0] == 'elem' and v[1][1] == lst:
        return v[1][2]
    return None


def mutated(E, o, push, blk):
    """the value of the block right after the element was added"""
    return ('mut', push.name, tuple(push.args), push.ret[3]) if push.ret and len(push.ret) > 3 else E.load(o.st, blk)


def bound(facts, size):
    """largest size of a block that is kept for the next element: the size grows by one, so that it is stored with at most one more"""
    for b, (lo, hi, ne) in facts.items():
        if b == size:
            if hi is not None:
                return hi
            if ne:
                return min(ne) - 1
        elif b[0] == 'lin' and T.mentions(b, size):
            r = T.sub(b, size)
            if r[0] == 'int' and hi is not None:
                return hi - r[1]
    return None


def emptied(v):
    if v[0] == 'obj':
        return not v[2]
    if v[0] != 'mut':
        return False
    m, a = v[1].split('::')[-1], v[2]
    a = [x[2][0] if x[0] == 'obj' and len(x[2]) == 1 else x for x in a]
    if m == 'erase':
        return len(a) == 2 and a[0][0] == a[1][0] == 'iter' and a[0][2] == T.ZERO and a[1][2][0] == 'pure' and a[1][2][1] == 'size'
    return m in ('clear', 'reserve') or m == 'resize' and a and a[0] == T.ZERO


def number(e, token):
    k = strip(e.args[0])
    if k[0] in ('pure', 'call') and k[1] == DERIVE and len(k[2]) == 2 and k[2][0] == token:
        return strip(k[2][1])
    return None


def derive(ck, fn):
    from rules.p16 import blits, loop_copies
    from rules.p19 import paths
    E, outs = ck.run(fn, **opts(cut='deep'))
    L = C.Loops(E, outs)
    tok, cnt = lv(fn, 0), lv(fn, 1)
    first = {('addr', ('elem', tok, T.ZERO)), ('iter', tok, T.ZERO)}
    for p in paths(L, outs):
        o = p[-1]
        w = (C.loc(fn, o.line), C.trail(o))
        if o.kind != 'ret':
            continue
        hs = [e for x in p if isinstance(x, core.Outcome) for e in x.trace if e.kind == 'call' and (e.name or '').startswith('sse::crypto::Hash')]
        if not ck.ob('derive', 'hash', len(hs) == 1 and len(hs[0].args) == 4, 'the key is not one hash', *w):
            continue
        a = hs[0].args
        out = a[3][1] if a[3][0] == 'addr' else None
        src = a[0][1] if a[0][0] == 'addr' else None
        src = src[1] if src and src[0] == 'elem' and src[2] == T.ZERO else None
        ck.ob('derive', 'key', a[2] == T.I(16) and out is not None and out[0] == 'elem' and out[2] == T.ZERO and keeps(E, o, out[1]),
              'what is returned is not the whole hash', *w)
        got = []
        for x in p if src is not None else ():
            if isinstance(x, core.Outcome):
                for e, kind, off, other, n in blits(x, src):
                    what = None
                    if kind == 'elems' and other == (tok, T.ZERO) or kind == 'copy' and other in first:
                        what = 'token'
                    elif kind == 'copy' and other == ('addr', cnt):
                        what = 'number'
                    for h in p:
                        if not isinstance(h, core.Outcome):
                            off = L.final(o, h, off)
                    got.append((what, off, n))
            else:
                for d, i, s, j, n in loop_copies(E, L, x) or [(src, T.ZERO, None, T.ZERO, T.ZERO)]:
                    if d == src:
                        got.append(('token' if s == tok and j == T.ZERO else None, i, n))
        d = {x[0]: x[1:] for x in got}
        ok = len(got) == len(d) == 2 and set(d) == {'token', 'number'} and d['token'][1] == T.I(16) and d['number'][1] == T.I(8)
        if ok:
            a0, a1 = d['token'][0], d['number'][0]
            ok = a0[0] == a1[0] == 'int' and (a0[1] + 16 <= a1[1] or a1[1] + 8 <= a0[1]) and a[1] == T.I(max(a0[1] + 16, a1[1] + 8)) and min(a0[1], a1[1]) == 0
        ck.ob('derive', 'input', ok, 'what is hashed is not the token and the number: %s' % ', '.join('%s: %s bytes at %s' % (x[0], T.show(x[2]), T.show(x[1])) for x in got), *w)


def keeps(E, o, l):
    """the array written by the hash is what is returned"""
    v = o.val
    return v is not None and (v == E.load(o.st, l) or v == ('in', l) or v[0] == 'obj' and not v[2])


# ---------------------------------------------------------------- building
def built(ck):
    for fn in ck.find(B + 'build'):
        E, outs = ck.run(fn, **topts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            bs = [e for e in calls(o, 'build') if e.obj == this('store_builder')]
            fl = [e for e in calls(o, 'flush') if e.obj == this('counter_db')]
            ck.ob('built', 'store %d' % len(fn.params), len(bs) == 1 and [x for x in bs[0].alv] == [lv(fn, i) for i in range(len(fn.params))],
                  'the store is built as %s' % ', '.join(map(repr, bs)), *w)
            ck.ob('built', 'durable %d' % len(fn.params), any(not e.args or e.args[0] == T.ONE for e in fl), 'the counters are not flushed', *w)
    for fn in ck.find(TB + 'build'):
        E, outs = ck.run(fn, **topts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            bs = [e for e in calls(o, 'build') if e.obj == this('generic_builder')]
            ok = len(bs) == 1 and len(bs[0].alv) == 2 and bs[0].alv[0] == this('encryption_encoder')
            ck.ob('built', 'encrypted', ok, 'the store is built as %s' % ', '.join(map(repr, bs)), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(TB + 'insert_list'):
        E, outs = ck.run(fn, **topts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            bs = [e for e in calls(o, 'insert_list') if e.obj == this('generic_builder')]
            ok = len(bs) == 1 and list(bs[0].args) == [pv(fn, 0), pv(fn, 1)]
            ck.ob('built', 'inserted', ok, 'a list is inserted as %s' % ', '.join(map(repr, bs)), C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- search
def request(ck, fn):
    E, outs = ck.run(fn, **topts(fn))
    kw = pv(fn, 0)
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        r = o.val
        tok, n = E.load(o.st, ('fld', ('retobj', 0), 'search_token')), E.load(o.st, ('fld', ('retobj', 0), 'block_count'))
        if r is not None and r[0] == 'rec':
            d = dict(r[1])
            tok, n = d.get('search_token'), d.get('block_count')
        ck.ob('request', 'token', tok == ('pure', 'sse::crypto::Prf::prf', (('in', this('master_prf')), kw)), 'the token is %s' % T.show(tok), *w)
        gs = [e for e in calls(o, 'get') if e.obj == this('counter_db')]
        if not ck.ob('request', 'looked up', len(gs) == 1 and gs[0].args[0] == kw, 'the number of blocks is looked up %d times' % len(gs), *w):
            continue
        g = gs[0]
        f = E.truth(o.st.facts, T.eq0(g.ret))
        if f is False:
            ok = n[0] == 'out' and n[1].endswith('RocksDBCounter::get') and n[3] == 1
        else:
            ok = n == T.ZERO and f is True
        ck.ob('request', 'number', ok, 'the number of blocks is %s when %s' % (T.show(n), 'there is one' if f is False else 'there is none' if f else 'unknown'), *w)


def search(ck, fn):
    E, outs = ck.run(fn, **topts(fn))
    L = C.Loops(E, outs)
    req = lv(fn, 0)
    if not ck.ob('server', 'loop', len(L.heads) == 1, 'the blocks are not looked for one by one', C.loc(fn)):
        return
    h = L.heads[0]
    token, n = ('in', ('fld', req, 'search_token')), ('in', ('fld', req, 'block_count'))
    res = set()
    for o in L.body(h):
        w = (C.loc(fn, o.line), C.trail(o))
        gs = [e for e in calls(o, 'get_buckets') if e.obj == this('tethys_store')]
        if o.kind == 'throw':
            continue
        if o.kind != 'iter':
            ck.ob('server', 'end', not gs and o.kind == 'ret', 'buckets are read outside of the loop', *w)
            continue
        if not ck.ob('server', 'read', len(gs) == 1, 'the buckets of a block are read %d times' % len(gs), *w):
            continue
        k = gs[0].args[0]
        i = strip(k[2][1]) if k[0] == 'pure' and k[1] == DERIVE and k[2][0] == token else None
        if not ck.ob('server', 'key', i is not None, 'the buckets read are those of %s' % T.show(k), *w):
            continue
        # the answer may be as long as what is asked from the start
        long = {l: v for x in L.enters(h) for l, v in x.st.store.items() if v[:2] == ('obj', 'std::vector') and v[2][:1] == (n,) and len(v[2]) <= 2}
        put = {}
        for l, v in o.st.store.items():
            if l[0] == 'fld' and l[1][0] == 'elem' and l[1][1] in long and v != ('phi', h, l) and v != ('in', l):
                put.setdefault(l[1], {})[l[2]] = v
        ends = [(i, n)] + [(x[2], ('pure', 'size', (v,))) for x in put for v in (long[x[1]], ('in', x[1]))]
        ck.ob('server', 'all blocks', L.counts(h, i) and any(L.counts(h, x) and L.until(h, x, m) and (
            E.truth(o.st.facts, T.lt(x, m)) is True or E.truth(o.st.facts, T.eq(x, m)) is False) for x, m in ends), 'the blocks are not all looked for, once each', *w)
        if len(put) == 1:
            x, d = next(iter(put.items()))
            res.add(x[1])
            ch = [e for e in o.trace if e.kind == 'call' and e.obj == x[1] and core.meth_of(e.name or '') in CHANGES]
            ck.ob('server', 'answered', not ch and L.counts(h, x[2]) and d == dict(key=k, buckets=gs[0].ret), 'the answer gets %s' % ', '.join(
                '%s: %s' % (a, T.show(b)[:80]) for a, b in d.items()), *w)
            continue
        ps = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back', 'insert')]
        ok = len(ps) == 1 and core.meth_of(ps[0].name) != 'insert'
        if ok:
            a = ps[0].args
            d = {}
            if len(a) == 1 and a[0][0] == 'rec':
                d = dict(a[0][1])
            elif len(a) == 1 and ps[0].alv[0]:
                d = {x[2]: v for x, v in below(ps[0], ps[0].alv[0]).items() if x[0] == 'fld' and x[1] == ps[0].alv[0]}
            ok = d.get('key') == k and d.get('buckets') == gs[0].ret
            res.add(ps[0].obj)
        ck.ob('server', 'answered', ok, 'the answer gets %s' % ', '.join(map(repr, ps)), *w)
    for o in outs:
        if o.kind == 'ret':
            v = o.val
            p = ('phi', h, next(iter(res))) if len(res) == 1 else None
            if len(res) == 1 and p != v and v in [E.load(x.st, next(iter(res))) for x in L.enters(h)]:
                p = v
            ok = p is not None and (v == p or emptied(v) and E.truth(o.st.facts, T.eq(('pure', 'size', (p,)), T.ZERO)) is True) or o.frm is None and E.truth(o.st.facts, T.eq(n, T.ZERO)) is True
            ck.ob('server', 'result', ok, '%s is returned' % T.show(v), C.loc(fn, o.line), C.trail(o))
    for o in L.enters(h):
        for r in res:
            v = E.load(o.st, r)
            ck.ob('server', 'nothing else', emptied(v) or v[:2] == ('obj', 'std::vector') and v[2][:1] == (n,), 'the answer starts with something', C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- decoding
CHANGES = ('insert', 'push_back', 'emplace_back', 'erase', 'clear', 'resize', 'assign', 'pop_back', 'swap', 'operator=', 'emplace')


def delegated(ck, fn):
    E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: any(x in n for x in OPAQUE) or n.endswith('decode_search_results') and
                                f is not None and f.key != fn.key))
    for o in outs:
        if o.kind == 'ret':
            cs = calls(o, 'decode_search_results')
            ok = len(cs) == 1 and o.val == cs[0].ret and len(cs[0].args) == 4 and cs[0].args[1] == pv(fn, 1) and cs[0].alv[2] == this('stash') and \
                cs[0].alv[3] == this('decrypt_decoder')
            ck.ob('decode', 'with the stash and the key', ok, 'the answer is decoded as %s' % ', '.join(map(repr, cs)), C.loc(fn, o.line), C.trail(o))


def turns(L, h, inner):
    """[[piece, ...]] from the head h back to it or out of it"""
    r = []

    def go(p):
        for o in L.body(p[-1].head if p else h):
            if o.kind == 'throw' or o in p:
                continue
            if o.kind == 'iter':
                if o.head == h:
                    r.append(p + [o])
            elif o.kind == 'enter' and o.head in inner:
                go(p + [o])
    go([])
    return r


def added(E, L, o, res):
    """[value whose elements are appended to res by the piece o]; None if something else is done to it"""
    r = []
    for e in o.trace:
        if e.kind != 'call' or e.obj != res or core.meth_of(e.name or '') not in CHANGES:
            continue
        if core.meth_of(e.name) != 'insert' or len(e.args) != 3:
            return None
        a, b = e.args[1], e.args[2]
        end = [x for x in T.subterms(e.args[0]) if x and x[0] == 'iter' and x[1] == res]
        if not (a[0] == b[0] == 'iter' and a[1] == b[1] and a[2] == T.ZERO and end and end[0][2] != T.ZERO and T.has_tag(end[0][2], 'pure')):
            return None
        v = E.load(o.st, a[1])
        if b[2] not in (('pure', 'size', (v,)), ('pure', 'size', (('in', a[1]),))) and not (b[2][0] == 'pure' and b[2][1] == 'size'):
            return None
        r.append((a[1], v))
    return r


def one_by_one(E, L, h, res):
    """the container the loop h appends to res element by element"""
    src = set()
    for o in L.iters(h):
        ps = [e for e in o.trace if e.kind == 'call' and e.obj == res and core.meth_of(e.name or '') in CHANGES]
        if len(ps) != 1 or core.meth_of(ps[0].name) not in ('push_back', 'emplace_back'):
            return None
        v = ps[0].args[0]
        while v[0] == 'in':
            v = v[1]
        if v[0] not in ('ev', 'elem') or not L.counts(h, v[2]):
            return None
        for x in L.exits(h):
            if x.kind == 'throw':
                continue
            ns = [n for f in x.st.facts for n in T.subterms(f) if n and n[0] == 'pure' and n[1] == 'size' and
                  (n[2][0] == v[1] or n[2][0] == ('in', v[1]) or n[2][0] == E.load(x.st, v[1]) if v[1][0] in ('var', 'fld', 'elem', 'deref') else n[2][0] == v[1])]
            if not any(E.truth(x.st.facts, T.eq(v[2], n)) is True or E.truth(x.st.facts, T.lt(v[2], n)) is False for n in ns):
                return None
        src.add((v[1], E.load(o.st, v[1]) if v[1][0] in ('var', 'fld', 'elem') else v[1]))
    return next(iter(src)) if len(src) == 1 else None


def decode(ck, fn):
    E, outs = ck.run(fn, **topts(fn))
    L = C.Loops(E, outs)
    pairs, stash, dec = lv(fn, 1), lv(fn, 2), lv(fn, 3)
    tops = {o.head for o in outs if o.frm is None and o.kind == 'enter'}
    if not ck.ob('decode', 'loop', len(tops) == 1, 'the blocks are not decoded one by one', C.loc(fn)):
        return
    h = next(iter(tops))
    inner = set(L.heads) - {h}
    res = {o.val[2] for o in outs if o.kind == 'ret' and o.val is not None and o.val[0] == 'phi' and o.val[1] == h}
    if not ck.ob('decode', 'result', len(res) == 1, 'what is returned is not what was decoded', C.loc(fn)):
        return
    res = next(iter(res))
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        if o.frm is None and o.kind == 'enter':
            v = E.load(o.st, res)
            ck.ob('decode', 'nothing else', emptied(v), 'the answer starts with something', *w)
        elif o.kind == 'ret':
            ck.ob('decode', 'result', o.val == ('phi', h, res) and not [e for e in o.trace if e.obj == res and core.meth_of(e.name or '') in CHANGES],
                  'the answer is %s' % T.show(o.val), *w)
    size = ('pure', 'size', (('in', pairs),))
    tt = turns(L, h, inner)
    ck.ob('decode', 'turns', bool(tt), 'no block is decoded', C.loc(fn))
    for p in tt:
        last = p[-1]
        w = (C.loc(fn, last.line), C.trail(last))
        ds = [e for o in p for e in calls(o, 'decode_buckets')]
        if not ck.ob('decode', 'decoded', len(ds) == 1 and ds[0].obj in (dec, ('deref', ('in', dec))), 'a block is decoded %d times' % len(ds), *w):
            continue
        d = ds[0]
        a = [plain(x) for x in d.args]
        el = a[0][1][1] if a[0][0] == 'in' and a[0][1][0] == 'fld' and a[0][1][2] == 'key' else None
        ok = el is not None and el[0] == 'elem' and el[1] == pairs
        if ok:
            bk = ('fld', el, 'buckets')
            ok = a[1:] == [('in', ('fld', bk, n)) for n in ('payload_0', 'index_0', 'payload_1', 'index_1')]
        if not ck.ob('decode', 'own buckets', ok, 'what is decoded is %s' % ', '.join(map(T.show, a)), *w):
            continue
        pos = el[2]
        ck.ob('decode', 'all blocks', L.counts(h, pos) and all(E.truth(x.st.facts, T.eq(pos, size)) is True or E.truth(x.st.facts, T.lt(pos, size)) is False
              for x in L.exits(h) if x.kind == 'ret'), 'the blocks are not all decoded, in order', *w)
        key = ('in', ('fld', el, 'key'))
        it = found = None
        for o in p:
            for e in calls(o, 'find') + calls(o, 'count'):
                if e.obj == stash and plain(e.args[0]) == key:
                    it = e.ret
        if not ck.ob('decode', 'stash', it is not None, 'the stash is not looked at', *w):
            continue
        for o in p:
            for b, (lo, hi, ne) in o.st.facts.items():
                if b == it and it[1].endswith('::count'):
                    found = False if hi == 0 else True if lo == 1 or 0 in ne else found
                if b != it and T.mentions(b, it) and any(x and x[0] == 'iter' and x[1] == stash for x in T.subterms(b)):
                    found = False if lo == hi == 0 else True if 0 in ne else found
        if not ck.ob('decode', 'stash found', found is not None, 'it is not looked whether the stash has something', *w):
            continue
        got, bad = [], False
        for o in p:
            x = added(E, L, o, res)
            bad = bad or x is None
            got += x or []
            if o.kind == 'enter':
                y = one_by_one(E, L, o.head, res)
                bad = bad or y is None
                got += [y] if y else []
        ck.ob('decode', 'added', not bad, 'something else than adding whole lists is done to the answer', *w)
        n0 = [x for x in got if x[1] == d.ret or x[0] == d.ret]
        n1 = [x for x in got if x not in n0]
        ck.ob('decode', 'of the buckets', len(n0) == 1, 'what the buckets hold is added %d times' % len(n0), *w)
        s = [x for x in n1 if second(x[0], it) or second(x[1], it) or plain(x[0]) == ('elem', stash, key)]
        ck.ob('decode', 'of the stash', len(n1) == len(s) == (1 if found else 0), 'what the stash holds is added %d times' % len(n1), *w)


# ---------------------------------------------------------------- setup
def made(o, name):
    return [e for e in o.trace if e.kind == 'call' and e.obj == this(name) and (e.name or '').endswith('::(ctor)')]


def setup(ck):
    for fn in ck.find(B + '(ctor)', pred=lambda f: len(f.params) == 3):
        E, outs = ck.run(fn, **topts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            for m, i in (('store_builder', 0), ('counter_db', 1), ('master_prf', 2)):
                e = made(o, m)
                ck.ob('setup', 'builder ' + m, len(e) == 1 and e[0].args == (pv(fn, i),), 'it is made by %s' % ', '.join(map(repr, e)), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(TB + '(ctor)', pred=lambda f: len(f.params) == 4):
        E, outs = ck.run(fn, **topts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            for m, want in (('generic_builder', (0, 1, 2)), ('encryption_encoder', (3,))):
                e = made(o, m)
                ck.ob('setup', 'builder ' + m, len(e) == 1 and tuple(e[0].args) == tuple(pv(fn, i) for i in want), 'it is made by %s' % ', '.join(map(repr, e)),
                      C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(CL + '(ctor)', pred=lambda f: len(f.params) >= 4):
        E, outs = ck.run(fn, **topts(fn, more=('::load_stash',)))
        k = len(fn.params)
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            for m, i in (('counter_db', 0), ('master_prf', k - 2), ('decrypt_decoder', k - 1)):
                e = made(o, m)
                ck.ob('setup', 'client ' + m, len(e) == 1 and e[0].args == (pv(fn, i),), 'it is made by %s' % ', '.join(map(repr, e)), *w)
            ls = calls(o, 'load_stash')
            ck.ob('setup', 'client stash', len(ls) == 1 and ls[0].args[0] == pv(fn, 1), 'the stash is loaded %d times' % len(ls), *w)
    stashed(ck)
    for fn in ck.find(S + '(ctor)', pred=lambda f: len(f.params) == 1 and 'string' in f.params[0]['t']):
        E, outs = ck.run(fn, **topts(fn))
        for o in outs:
            if o.kind == 'ret':
                e = made(o, 'tethys_store')
                ck.ob('setup', 'server store', len(e) == 1 and e[0].args[0] == pv(fn, 0), 'it is made by %s' % ', '.join(map(repr, e)), C.loc(fn, o.line), C.trail(o))


def stashed(ck, cls=CL, o_=topts):
    for fn in ck.find(cls + 'load_stash'):
        E, outs = ck.run(fn, **o_(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            f = [e for e in o.trace if e.kind == 'call' and e.name.endswith('is_file') and e.args[0] == pv(fn, 0)]
            ds = calls(o, 'deserialize_map')
            if f and E.truth(o.st.facts, T.eq0(f[0].ret)) is True:
                ck.ob('setup', 'no stash', not ds, 'a missing stash is read', *w)
                continue
            op = [e for e in o.trace if e.kind == 'call' and (core.meth_of(e.name) == 'open' or e.name.endswith('ifstream::(ctor)')) and e.args]
            skip = [e for m in ('get', 'ignore', 'seekg', 'read', 'getline', 'operator>>', 'readsome') for e in calls(o, m) if op and (e.obj == op[0].obj or op[0].obj in e.alv)]
            ok = len(ds) == 1 and len(op) == 1 and not skip and op[0].args[0] == pv(fn, 0) and ds[0].alv[0] == op[0].obj and ds[0].alv[1] == lv(fn, 1) and \
                E.load(o.st, this('stash')) == ds[0].ret
            ck.ob('setup', 'stash loaded', ok, 'the stash is not what is in its file', *w)


def load(ck, cls=TB, tu=None):
    for fn in ck.find(cls + 'load_inverted_index'):
        E, outs = ck.run(fn, **topts(fn))
        lams = ck.prog.lambdas_of(fn)
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            cb, ps = calls(o, 'addCallbackList'), calls(o, 'parse')
            if o.kind != 'ret':
                continue
            if E.truth(o.st.facts, T.eq0(o.val)) is True or o.val == T.ZERO:
                continue
            ok = len(cb) == 1 and len(ps) == 1 and cb[0].obj == ps[0].obj and o.trace.index(cb[0]) < o.trace.index(ps[0])
            ck.ob('load', 'parsed', ok, 'success is reported for a file that was not parsed', *w)
            mk = [e for e in o.trace if e.kind == 'call' and (e.name or '').endswith('DBParserJSON::(ctor)')]
            ck.ob('load', 'file', len(mk) == 1 and T.mentions(mk[0].args[0], lv(fn, 0)) or len(mk) == 1 and T.mentions(mk[0].args[0], pv(fn, 0)), 'another file is loaded', *w)
            caught = [x for x in o.trace if x.kind in ('catch', 'handler')]
            for c in cb:
                a = c.args[0]
                while a and a[0] == 'obj' and len(a[2]) == 1:
                    a = a[2][0]
                lf = [f for f in lams if a[0] == 'lam' and f.key == a[1]]
                if ck.ob('load', 'callback', len(lf) == 1, 'lists are given to %s' % T.show(a), *w):
                    inserted(ck, lf[0])
        # an exception is not success
        for o in outs:
            if o.kind == 'ret' and o.val != T.ZERO and not calls(o, 'parse'):
                ck.ob('load', 'failure', False, 'success is reported although the file was not parsed', C.loc(fn, o.line), C.trail(o))


def copied(E, outs, v, src):
    """v is what a loop put all the elements of src in"""
    if v[0] != 'phi':
        return False
    L = C.Loops(E, outs)
    if not all(emptied(E.load(o.st, v[2])) for o in L.enters(v[1])):
        return False
    got = one_by_one(E, L, v[1], v[2])
    return got is not None and got[0] == src


def inserted(ck, lf):
    E, outs = ck.run(lf, **topts(lf, more=('TethysBuilder::insert_list', 'PlutoBuilder::insert_list', 'OceanusBuilder::insert_list')))
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(lf, o.line), C.trail(o))
        cs = calls(o, 'insert_list')
        ok = len(cs) == 1 and cs[0].args[0] == pv(lf, 0)
        if ok:
            v = cs[0].args[1]
            d = lv(lf, 1)
            ok = v == pv(lf, 1) or copied(E, outs, v, d) or v[0] == 'obj' and len(v[2]) >= 2 and v[2][0] == ('iter', d, T.ZERO) and v[2][1] == ('iter', d, ('pure', 'size', (('in', d),)))
        ck.ob('load', 'whole list', ok, 'a list of the file is inserted as %s' % ', '.join(map(repr, cs)), *w)
