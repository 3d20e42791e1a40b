"""P27: a Pluto search returns the list the builder cut in full blocks and a remainder"""
import re

from engine import check as C
from engine import core
from engine import terms as T
from engine.poly import Facts
from rules import db, p20
from rules.p12 import opts, pv, this
from rules.p13 import calls
from rules.p17 import lv
from rules.p19 import paths
from rules.p20 import DERIVE, bound, elem_of, emptied, made, mutated, number, one_by_one, room
from rules.p26 import begin, copies, peel

TUS = ['tus/pluto_inst.cpp', 'lib/pluto/rocksdb_store.cpp']
NS = 'sse::pluto::'
B, S, CL, ST = NS + 'PlutoBuilder::', NS + 'PlutoServer::', NS + 'PlutoClient::', NS + 'GenericRocksDBStore::'
OPAQUE = ('::derive_core_key', 'TethysStoreBuilder::', 'CuckooBuilder::', 'CuckooHashTable::', 'RocksDBStoreBuilder::', 'GenericRocksDBStore::',
          'TethysClient::decode', 'DecryptDecoder::', 'EncryptEncoder::', 'TethysStore::', '::load_stash', '::is_file', '::deserialize_map', 'PlutoBuilder::insert_list')
KEY, ID = 16, 8
PRF = 'sse::crypto::Prf::prf'


def popts(fn, more=(), **k):
    return opts(cut='deep', pure=('derive_core_key', 'prf'), opaque_if=lambda n, f=None: any(x in n for x in OPAQUE + tuple(more)) and
                (f is None or f.key != fn.key), **k)


def run(ck):
    ck.load(TUS)
    ck.rule('cut', 'a list is cut in full blocks and a remainder, each element being put in one, in order')
    ck.rule('named', 'the full blocks of a keyword are kept under the keys derived from its token and 1, 2, ..., the remainder under that of 0')
    ck.rule('hidden', 'the number of blocks in the hash table depends on the announced number of entries only')
    ck.rule('built', 'building completes the hash table and the Tethys store')
    ck.rule('server', 'the server reads the blocks 1, 2, ... up to the first one that does not exist, and the buckets of the remainder')
    ck.rule('exact', 'of a block the server returns the elements that were put in it, and no other')
    ck.rule('decode', 'the answer is what Tethys decodes for the remainder, and all the elements of the full blocks')
    ck.rule('request', 'a request bears the token of the keyword')
    ck.rule('layout', 'keys and blocks are written whole, and read as they were written')
    ck.rule('store', 'a block that could not be read is not taken for a block that does not exist')
    ck.rule('setup', 'builder, server and client use the keys and the files they are given')
    ck.rule('load', 'all the lists of a file are inserted, and a file that could not be loaded is reported')
    full = {}
    for fn in ck.find(B + 'insert_list'):
        full[kind(fn)] = cut(ck, fn)
    for fn in ck.find(B + 'build'):
        built(ck, fn)
    for fn in ck.find(S + 'search'):
        server(ck, fn, full.get(kind(fn)))
    client(ck)
    layout(ck)
    store(ck)
    setup(ck)
    p20.load(ck, B)
    for r, n in (('cut', 8), ('named', 4), ('hidden', 6), ('built', 4), ('server', 8), ('exact', 2), ('decode', 1), ('request', 1), ('layout', 4), ('store', 2),
                 ('setup', 8), ('load', 2)):
        ck.floor(r, n)


def kind(fn):
    """the parameters of the scheme it is compiled for"""
    m = re.search(r'(\w+PlutoParams<\d+)', fn.key)
    return m.group(1) if m else None


def puts(o):
    return [e for e in calls(o, 'insert') if e.obj == this('ht_builder')]


def rest(o):
    return [e for e in calls(o, 'insert_list') if e.obj == this('tethys_store_builder')]


# ---------------------------------------------------------------- builder
def cut(ck, fn):
    E, outs = ck.run(fn, **popts(fn))
    L = C.Loops(E, outs)
    kw, lst = pv(fn, 0), lv(fn, 1)
    token = ('pure', PRF, (('in', this('master_prf')), kw))
    size = ('pure', 'size', (('in', lst),))
    most = room(ck)
    h = outer(L, outs, puts)
    if not ck.ob('cut', 'loop', h is not None, 'no full block is ever stored', C.loc(fn)):
        return None
    nums, lens, keeps, blk = set(), set(), set(), None
    inner = {x for x in L.nest(h) if x != h}
    turns = [Turn(p) for p in p20.turns(L, h, inner)]
    if not ck.ob('cut', 'loop', bool(turns), 'no full block is ever stored', C.loc(fn)):
        return None
    early = [o.trace.index(puts(o)[0]) < o.trace.index(p) for o in turns if puts(o) for p in calls(o, 'push_back') + calls(o, 'emplace_back')]
    early = bool(early) and all(early)
    for o in sorted(turns, key=lambda o: len(puts(o))):
        w = (C.loc(fn, o.line), C.trail(o))
        ps = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back') and e.args and elem_of(e.args[0], lst) is not None]
        if not ck.ob('cut', 'element', len(ps) == 1, 'an element of the list is put in %d blocks' % len(ps), *w):
            continue
        p = elem_of(ps[0].args[0], lst)
        ck.ob('cut', 'in order', L.counts(h, p), 'the elements are not taken in order from the first', *w)
        ck.ob('cut', 'all', all(E.truth(x.st.facts, T.eq(p, size)) is True or E.truth(x.st.facts, T.lt(p, size)) is False
                                for x in L.leaves(h) if x.kind != 'throw'), 'the last elements of the list are left out', *w)
        ck.ob('cut', 'one block', blk in (None, ps[0].obj), 'elements are put in several blocks at once', *w)
        blk = ps[0].obj
        ck.ob('cut', 'no other', not rest(o), 'a remainder is stored before all the elements were looked at', *w)
        hts = puts(o)
        changes = [e for e in o.trace if e.obj == blk and e.kind == 'call' and core.meth_of(e.name or '') in p20.CHANGES and e is not ps[0]]
        was = ('phi', h, blk) if early else mutated(E, o, ps[0], blk)
        fs = ('pure', 'size', (was,))
        if not hts:
            ck.ob('cut', 'kept', not changes, 'elements are removed from a block that was not stored', *w)
            lim = bound(o.st.facts, fs)
            keeps.add(lim)
            ck.ob('cut', 'not full', lim is not None and most is not None and lim <= most - (1 if early else 0), 'the remainder can grow past what a bucket has room for', *w)
            continue
        if not ck.ob('cut', 'once', len(hts) == 1 and early is (o.trace.index(hts[0]) < o.trace.index(ps[0])), 'a block is stored %d times' % len(hts), *w):
            continue
        e = hts[0]
        lo, hi, ne = o.st.facts.get(fs, (None, None, ()))
        # one more than a block that was kept can have
        if ck.ob('cut', 'full', lo is not None and (lo == hi or keeps == {lo - 1}), 'a block that is not full is stored in the hash table', *w):
            lens.add(lo)
        at = filled(E, L, o, e, blk, fs, lo)
        n = db.array_len(e_type(ck, fn, e))
        ck.ob('cut', 'stored', at is not None, 'what is stored is not the block: %s' % T.show(e.args[1])[:120], *w)
        ck.ob('cut', 'fits', n is None or lo is None or lo <= n, 'the block has more elements than what is stored has room for', *w)
        now = E.load(o.st, blk)
        if early:
            x = changes[-1] if changes else e
            now = ('mut', x.name, tuple(x.args), x.site) if core.meth_of(x.name) != 'operator=' else x.args[0]
        ck.ob('cut', 'emptied', emptied(now) and all(o.trace.index(x) >= (at or 0) for x in changes), 'the next block starts with what was stored already', *w)
        k = number(e, token)
        if ck.ob('named', 'full', k is not None, 'a block is stored under %s' % T.show(e.args[0])[:120], *w):
            ck.ob('named', 'numbered', at_end(L, o, k, h) == T.add(k, T.ONE) and L.starts(h, k) == {T.ONE}, 'the full blocks are not numbered 1, 2, ...', *w)
            nums.add(k)
    for o in turns:
        for k in nums:
            ck.ob('named', 'same', bool(puts(o)) or at_end(L, o, k, h) == k, 'the number changes although no block was stored', C.loc(fn, o.line), C.trail(o))
        c = ('phi', h, this('complete_lists'))
        v = at_end(L, o, c, h)
        ck.ob('hidden', 'counted', v == T.add(c, T.I(len(puts(o)))), 'the number of blocks in the hash table becomes %s' % T.show(v)[:80], C.loc(fn, o.line), C.trail(o))
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        if o.kind == 'throw':
            continue
        if o.frm is None:
            ck.ob('cut', 'none before', not puts(o) and not rest(o), 'something is stored before the elements are looked at', *w)
            if o.kind == 'enter' and blk is not None:
                ck.ob('cut', 'empty at first', emptied(E.load(o.st, blk)), 'the first block is not empty at first', *w)
                ck.ob('hidden', 'counted', E.load(o.st, this('complete_lists')) in (('in', this('complete_lists')),), 'the number of blocks in the hash table is changed', *w)
        if o.kind != 'ret' or o.frm != h:
            continue
        b = ('phi', h, blk)
        ck.ob('cut', 'full', not puts(o), 'a block that is not full is stored in the hash table', *w)
        ck.ob('hidden', 'counted', E.load(o.st, this('complete_lists')) == ('phi', h, this('complete_lists')), 'the number of blocks in the hash table is changed', *w)
        rs = rest(o)
        if rs:
            ck.ob('cut', 'remainder', len(rs) == 1 and rs[0].args[1] == b, 'the remainder is stored as %s' % ', '.join(map(repr, rs))[:160], *w)
            ck.ob('named', 'remainder', number(rs[0], token) == T.ZERO, 'the remainder is stored under %s' % T.show(rs[0].args[0])[:120], *w)
        else:
            ok = E.truth(o.st.facts, T.eq(('pure', 'size', (b,)), T.ZERO)) is True or any(
                x[0] == 'pure' and x[1].endswith('empty') and T.mentions(x, b) and E.truth(o.st.facts, T.eq0(x)) is False for x in o.st.facts)
            ck.ob('cut', 'remainder', ok, 'the last elements are not stored', *w)
    return lens


def outer(L, outs, what):
    """the loop, inside no other, in which that happens"""
    tops = {o.head for o in outs if o.frm is None and o.kind == 'enter'} | {o.head for o in outs if o.kind == 'enter' and o.frm in L.heads and o not in [x for h in L.heads for x in L.body(h) if o.head in L.nest(h) and h != o.head]}
    return next((h for h in L.heads if h in tops and any(what(o) for x in L.nest(h) for o in L.body(x))), None)


def e_type(ck, fn, e):
    """type of what the hash table stores, as its builder declares it"""
    ts = {db.ptype(g, 1) for g in ck.find(e.name)}
    return ts.pop() if len(ts) == 1 else ''


def at_end(L, o, t, h):
    """the value of t at the end of a turn of the loop h"""
    t = L.at(o.pieces[-1], t, h)
    for x in reversed(o.pieces[:-1]):
        t = L.at(x, t, x.head)
    return t


def filled(E, L, o, e, blk, size, n):
    """the array that is stored got the elements of the block, from its first on: place in the trace where it is done"""
    v = e.alv[1]
    if v is None:
        return None
    r = None
    for i, x in enumerate(o.trace[:o.trace.index(e)]):
        if x.kind != 'call':
            continue
        for d, s, k, y in copies(E, Piece([x])):
            if d == v:
                m = core.meth_of(y.name)
                want = (size, T.I(n)) if m not in ('memcpy', 'memmove') else (T.mul(size, T.I(ID)), T.I((n or 0) * ID))
                r = i if s == blk and k in want else None
        if x.obj == v and not x.name.endswith('(ctor)') and core.meth_of(x.name) not in ('fill', 'begin', 'data', 'operator[]'):
            r = None
    for h in o.loops:
        for j in L.iters(h):
            ws = {(l[2], x) for l, x in j.st.store.items() if l[0] == 'elem' and l[1] == v and x != ('phi', h, l)}
            if len(ws) == 1:
                k, x = ws.pop()
                y = (x[1], x[2]) if x[0] == 'ev' else (x[1][1], x[1][2]) if x[0] == 'in' and x[1][0] == 'elem' else None
                if y in ((blk, k), (size[2][0], k)) and L.counts(h, k) and (L.until(h, k, size) or L.until(h, k, T.I(n))):
                    r = o.starts[h]
    return r


class Turn:
    """the pieces of one turn of a loop"""

    def __init__(self, pieces):
        self.pieces = pieces
        self.trace, self.loops, self.starts = [], [], {}
        for o in pieces:
            self.trace += o.trace
            if o.kind == 'enter':
                self.loops.append(o.head)
                self.starts[o.head] = len(self.trace)
        self.heads = {o.head: o.st for o in pieces if o.kind == 'enter'}
        o = pieces[-1]
        self.st, self.line, self.kind, self.frm, self.head, self.val = o.st, o.line, o.kind, o.frm, o.head, o.val

    def at_head(self, h):
        return {l: v for l, v in self.heads[h].store.items() if l[0] == 'var'}


class Piece:
    def __init__(self, trace):
        self.trace = trace


def built(ck, fn):
    E, outs = ck.run(fn, **popts(fn))
    L = C.Loops(E, outs)
    h = next((h for h in L.heads if any(puts(o) for o in L.iters(h))), None)
    if not ck.ob('hidden', 'loop', h is not None, 'the hash table gets no other block than those of the lists', C.loc(fn)):
        return
    n = ('in', this('n_elts'))
    start = ('in', this('complete_lists'))
    for o in L.iters(h):
        w = (C.loc(fn, o.line), C.trail(o))
        ps = puts(o)
        if not ck.ob('hidden', 'one', len(ps) == 1, '%d blocks are added at once' % len(ps), *w):
            continue
        k = peel(ps[0].args[0])
        ck.ob('hidden', 'random', k[0] == 'call' and core.meth_of(k[1]) == 'random_bytes' and [e for e in o.trace if e.kind == 'call' and e.ret == ps[0].args[0]], 'a block is added under %s' % T.show(k)[:80], *w)
        cs = {x for f in o.st.facts for x in T.subterms(f) if x and x[0] == 'phi' and x[1] == h and L.counts(h, x, start)}
        lim = set()
        for c in cs:
            for f in o.st.facts:
                if T.mentions(f, c):
                    d, kk = T.to_lin(f)
                    x = T.add(f, c) if not T.mentions(T.add(f, c), c) else T.sub(f, c)
                    if not T.mentions(x, c) and not T.mentions(x, start):
                        lim.add(x)
        ok = [x for x in lim if T.mentions(x, n) and all(s == n for s in T.subterms(x) if s and s[0] in ('in', 'phi', 'call')) and
              all(E.truth(q.st.facts, T.lt(c, T.add(x, T.I(j)))) is False for c in cs for q in L.exits(h) if q.kind != 'throw' for j in (bounds(o, c, x),) if j is not None)]
        if not cs:
            ok = missing(E, L, o, h, n, start)
        ck.ob('hidden', 'number', bool(ok), 'the number of blocks depends on something else than the announced number of entries, or on how many there are already', *w)
        for x in ok:
            for s in T.subterms(x):
                if s and s[0] == 'op' and s[1] in ('/', '%', '>>'):
                    ck.ob('hidden', 'empty', Facts(E, {}, n).ge(s[2], T.ZERO), 'for no entry at all there is no end to the blocks that are added', *w)
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        cs = [e for e in calls(o, 'commit') if e.obj == this('ht_builder')]
        bs = [e for e in calls(o, 'build') if e.obj == this('tethys_store_builder')]
        ck.ob('built', 'hash table', len(cs) == 1 and o.frm == h, 'the hash table is completed %d times' % len(cs), *w)
        ck.ob('built', 'store', len(bs) == 1 and bs[0].alv[0] == this('tethys_encryption_encoder') and (len(bs[0].args) < 2 or bs[0].alv[1] is not None), 'the Tethys store is built as %s' % ', '.join(map(repr, bs))[:160], *w)
    for o in outs:
        if o.kind in ('enter', 'iter'):
            ck.ob('built', 'after', not [e for e in calls(o, 'commit') if e.obj == this('ht_builder')], 'the hash table is completed before all the blocks are in it', C.loc(fn, o.line), C.trail(o))


def missing(E, L, o, h, n, start):
    """the numbers of blocks an index that counts down from what is missing stands for"""
    for t in {x for f in o.st.facts for x in T.subterms(f) if x and x[0] == 'phi' and x[1] == h and L.steps(h, x) == {T.I(-1)}}:
        lim = {T.add(x, start) for x in L.starts(h, t) if x != T.ZERO}
        if len(lim) != 1 or not all(E.truth(q.st.facts, T.lt(T.ZERO, t)) is False or E.truth(q.st.facts, T.eq(t, T.ZERO)) is True for q in L.exits(h) if q.kind != 'throw'):
            continue
        x = lim.pop()
        none = all(E.truth(q.st.facts, T.lt(start, x)) is False for q in L.enters(h) if L.at(q, t, h) == T.ZERO)
        if none and T.mentions(x, n) and all(s == n for s in T.subterms(x) if s and s[0] in ('in', 'phi', 'call')):
            return [x]
    return []


def bounds(o, c, x):
    """largest j such that c < x + j is known, in the form the facts give it"""
    for f, (lo, hi, ne) in o.st.facts.items():
        if f == T.sub(c, x) and hi is not None:
            return hi + 1
        if f == T.sub(x, c) and lo is not None:
            return 1 - lo
    return None


# ---------------------------------------------------------------- server
def server(ck, fn, lens):
    E, outs = ck.run(fn, **popts(fn, record_catch=True))
    L = C.Loops(E, outs)
    req = lv(fn, 0)
    token = ('in', ('fld', req, 'search_token'))
    mine = lambda o: [e for e in calls(o, 'get') if e.obj == this('hash_table')]
    h = outer(L, outs, mine)
    if not ck.ob('server', 'loop', h is not None, 'the blocks are not looked for one by one', C.loc(fn)):
        return
    inner = {x for x in L.nest(h) if x != h}
    for o in [Turn(p) for p in p20.turns(L, h, inner)] + [x for x in L.leaves(h) if x.frm == h]:
        w = (C.loc(fn, o.line), C.trail(o))
        gs = mine(o)
        if o.kind == 'throw':
            continue
        if not ck.ob('server', 'read', len(gs) == 1, 'a block is read %d times' % len(gs), *w):
            continue
        g = gs[0]
        k = number(g, token)
        if not ck.ob('server', 'key', k is not None, 'the block read is that of %s' % T.show(g.args[0])[:120], *w):
            continue
        ck.ob('server', 'numbered', L.counts(h, k, T.ONE), 'the blocks looked for are not 1, 2, ...', *w)
        adds = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in p20.CHANGES and o.trace.index(e) > o.trace.index(g) and e.obj is not None and e.obj[0] == 'fld' and e.obj[2] == 'complete_lists']
        if o.kind == 'iter':
            src = [l for l, v in o.st.store.items() if v == g.ret] + [g.ret]
            if not adds and len(o.loops) == 1:
                x = o.loops[0]
                got = [appended(E, L, x, l) for l in {e.obj for q in L.iters(x) for e in q.trace if e.kind == 'call' and e.obj is not None and e.obj[0] == 'fld' and e.obj[2] == 'complete_lists'}]
                ok = len(got) == 1 and got[0] is not None and (got[0][0] in src or got[0][0] == ('in', src[0]))
                ck.ob('exact', 'of the block', ok, 'the answer gets something else than the block that was read', *w)
                ck.ob('exact', 'length', ok and got[0][1] is not None and lens == {got[0][1]}, 'a block has %s elements, and others are returned' % sorted(lens or ()), *w)
                continue
            if not ck.ob('exact', 'added', len(adds) == 1 and core.meth_of(adds[0].name) == 'insert' and len(adds[0].args) == 3, 'the answer gets %s' % ', '.join(map(repr, adds))[:160], *w):
                continue
            a = adds[0]
            p, b, e = (place(x) for x in a.args)
            ok = b[0] == e[0] == 'iter' and b[1] == e[1] and b[1] in src and b[2] == T.ZERO
            ck.ob('exact', 'of the block', ok, 'the answer gets something else than the block that was read', *w)
            ck.ob('exact', 'length', ok and e[2][0] == 'int' and lens == {e[2][1]}, 'a block has %s elements, and %s are returned' % (sorted(lens or ()), T.show(e[2]) if ok else 'others'), *w)
            ck.ob('exact', 'in order', p[0] == 'iter' and p[1] == a.obj and p[2] != T.ZERO, 'the blocks are not returned in order', *w)
        else:
            # the only way out is that the block does not exist
            ck.ob('server', 'end', missed(o, g), 'gives up although the block may exist', *w)
            if o.kind == 'ret':
                bs = [e for e in calls(o, 'get_buckets') if e.obj == this('tethys_store')]
                if ck.ob('server', 'remainder', len(bs) == 1 and number(bs[0], token) == T.ZERO, 'the buckets read are %s' % ', '.join(map(repr, bs))[:160], *w):
                    r = paired(E, o)
                    ck.ob('server', 'answered', r == (bs[0].args[0], bs[0].ret), 'the remainder of the answer is %s' % (r,), *w)
    for o in outs:
        if o.kind in ('iter', 'enter') and o.frm is None or o.kind == 'ret' and o.frm is None:
            ck.ob('server', 'looked for', o.kind != 'ret', 'the answer is given before the blocks are looked for', C.loc(fn, o.line), C.trail(o))
            for e in o.trace:
                if e.kind == 'call' and e.obj is not None and e.obj[0] == 'fld' and e.obj[2] == 'complete_lists' and not e.name.endswith('(ctor)') and core.meth_of(e.name) != 'reserve':
                    ck.ob('exact', 'nothing else', False, 'the answer starts with something', C.loc(fn, o.line), C.trail(o))


def place(v):
    """an iterator or a pointer in a container"""
    v = peel(v)
    if v[0] == 'addr' and v[1][0] == 'elem':
        return ('iter', v[1][1], v[1][2])
    b = [x for x in T.subterms(v) if x and x[0] == 'addr' and x[1][0] == 'elem' and T.sub(v, x)[0] == 'int']
    return ('iter', b[0][1][1], T.add(b[0][1][2], T.sub(v, b[0]))) if b else v


def appended(E, L, h, res):
    """(container, number of elements) the loop h appends to res, element by element"""
    r = set()
    for o in L.iters(h):
        ps = [e for e in o.trace if e.kind == 'call' and e.obj == res and core.meth_of(e.name or '') in p20.CHANGES]
        if len(ps) != 1 or core.meth_of(ps[0].name) not in ('push_back', 'emplace_back'):
            return None
        v = ps[0].args[0]
        l, k = (v[1], v[2]) if v[0] == 'ev' else (v[1][1], v[1][2]) if v[0] == 'in' and v[1][0] == 'elem' else (None, None)
        if l is None or not L.counts(h, k):
            return None
        ends = [x for x in L.exits(h) if x.kind != 'throw' and not [e for e in x.trace if e.kind == 'call' and e.obj == res]]
        n = {lo for x in ends for lo, hi, ne in (x.st.facts.get(k, (None, None, ())),) if lo is not None and (lo == hi or E.truth(o.st.facts, T.lt(k, T.I(lo))) is True)}
        n = n if len([x for x in ends if k in x.st.facts]) == len(ends) else ()
        r.add((l, n.pop() if len(n) == 1 else None))
    return r.pop() if len(r) == 1 else None


def missed(o, g):
    """does the piece go on because the read of the block threw out_of_range, and nothing else?"""
    hs = [e for e in o.trace if e.kind == 'catch']
    return len(hs) == 1 and hs[0].name.replace('const ', '').replace('&', '').strip() == 'std::out_of_range'


def paired(E, o):
    """(key, buckets) of the answer"""
    for e in reversed(o.trace):
        if e.kind == 'call' and core.meth_of(e.name or '') == 'operator=' and e.obj is not None and e.obj[0] == 'fld' and e.obj[2] == 'tethys_bucket_pair':
            v = peel(e.args[0])
            if v[0] == 'rec':
                d = dict(v[1])
                return d.get('key'), d.get('buckets')
            if v[0] == 'ilist' and len(v[1]) == 2:
                return v[1]
            return None
    ks = [v for l, v in o.st.store.items() if l[0] == 'fld' and l[2] in ('key', 'buckets') and l[1][0] == 'fld' and l[1][2] == 'tethys_bucket_pair']
    d = {l[2]: v for l, v in o.st.store.items() if l[0] == 'fld' and l[2] in ('key', 'buckets') and l[1][0] == 'fld' and l[1][2] == 'tethys_bucket_pair'}
    return (d.get('key'), d.get('buckets'))


# ---------------------------------------------------------------- client
def client(ck):
    for fn in ck.find(CL + 'search_request'):
        E, outs = ck.run(fn, **popts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            tok = E.load(o.st, ('fld', ('retobj', 0), 'search_token'))
            if o.val is not None and o.val[0] == 'rec':
                tok = dict(o.val[1]).get('search_token')
            ck.ob('request', 'token', tok == ('pure', PRF, (('in', this('master_prf')), pv(fn, 0))), 'the token is %s' % T.show(tok)[:100], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(CL + 'decode_search_results'):
        E, outs = ck.run(fn, **popts(fn))
        req, rsp = lv(fn, 0), lv(fn, 1)
        full = ('fld', rsp, 'complete_lists')
        L = C.Loops(E, outs)
        for o in [Turn(p) for p in whole_paths(L, outs)]:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            ds = calls(o, 'decode_search_results')
            if not ck.ob('decode', 'remainder', len(ds) == 1 and len(ds[0].args) == 4, 'the remainder is decoded %d times' % len(ds), *w):
                continue
            d = ds[0]
            r = peel(d.args[0])
            tok = dict(r[1]).get('search_token') if r[0] == 'rec' else E.load(o.st, ('fld', d.alv[0], 'search_token')) if d.alv[0] else None
            ck.ob('decode', 'token', tok == ('in', ('fld', req, 'search_token')), 'decodes for the token %s' % T.show(tok or T.ZERO)[:80], *w)
            bp = ('in', ('fld', rsp, 'tethys_bucket_pair'))
            il = [x for x in T.subterms(d.args[1]) if x and x[0] == 'ilist']
            ok = any(x[1] == (bp,) for x in il) or any(e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back') and e.obj == d.alv[1] and e.args == (bp,) for e in o.trace)
            ck.ob('decode', 'buckets', ok, 'decodes %s' % T.show(d.args[1])[:120], *w)
            ck.ob('decode', 'with the stash and the key', d.alv[2] == this('stash') and d.alv[3] == this('decrypt_decoder'), 'decodes with %s and %s' % (T.show(d.args[2])[:60], T.show(d.args[3])[:60]), *w)
            whole = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'insert' and len(e.args) == 3 and ends(e, full)]
            src = {l for l, v in o.st.store.items() if v == d.ret} | {e.obj for e in whole}
            ch = [e for e in o.trace if e.kind == 'call' and e.obj in src and e.obj is not None and e.obj[0] == 'var' and core.meth_of(e.name or '') in p20.CHANGES]
            ok = len(whole) == 1 and ch == whole and o.val == E.load(o.st, whole[0].obj) and d.ret in T.subterms(before(o, whole[0]) or T.ZERO)
            if not ok:
                # the other way round: both are put in a new list
                both = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'insert' and len(e.args) == 3 and e not in whole]
                ok = len(whole) == 1 == len(both) and whole[0].obj == both[0].obj and ch == sorted(whole + both, key=o.trace.index) and o.val == E.load(o.st, whole[0].obj) and \
                    any(ends(both[0], l) for l, v in o.st.store.items() if v == d.ret)
            if not ok and not whole:
                # or one by one
                for h in o.loops:
                    ls = [l for l in o.at_head(h) if one_by_one(E, L, h, l) is not None]
                    ok = ok or len(ls) == 1 and one_by_one(E, L, h, ls[0])[0] == full and o.val == ('phi', h, ls[0]) and not ch and \
                        d.ret in T.subterms(o.at_head(h)[ls[0]])
            ck.ob('decode', 'full blocks', ok, 'the elements of the full blocks are added %d times' % len(whole), *w)


def whole_paths(L, outs):
    for p in paths(L, outs):
        yield [x for x in p if isinstance(x, core.Outcome)]


def before(o, e):
    p = peel(e.args[0])
    return p[2] if p[0] == 'iter' and p[1] == e.obj else None


def ends(e, l):
    """all the elements of l are inserted"""
    a, b = peel(e.args[1]), peel(e.args[2])
    return a[0] == b[0] == 'iter' and a[1] == b[1] == l and a[2] == T.ZERO and b[2][0] == 'pure' and b[2][1] == 'size'


# ---------------------------------------------------------------- bytes
def layout(ck):
    for name in ('PlutoKeySerializer::serialize', 'PlutoValueSerializer::serialize', 'PlutoCuckooHasher::operator()', 'PlutoValueSerializer::deserialize'):
        for fn in ck.find(NS + name):
            E, outs = ck.run(fn, **opts(cut='deep'))
            for o in outs:
                if o.kind != 'ret':
                    continue
                w = (C.loc(fn, o.line), C.trail(o))
                cs = list(copies(E, o))
                if not ck.ob('layout', 'copied', len(cs) == 1, 'is not one copy', *w):
                    continue
                d, s, n, e = cs[0]
                if name.endswith('::deserialize'):
                    src = pv(fn, 0)
                    ck.ob('layout', 'read', s == src or s == ('deref', src), 'reads %s' % T.show(s)[:80], *w)
                    v = o.val
                    ck.ob('layout', 'returned', v is not None and (v[0] == 'bytes' or v == E.load(o.st, d)), 'returns %s' % T.show(v)[:80], *w)
                    continue
                k = db.array_len(db.ptype(fn, 0))
                unit = 1 if 'Value' not in name else ID
                ck.ob('layout', 'whole', s == lv(fn, 0) and n in (T.I(k * unit),) or s == lv(fn, 0) and core.meth_of(e.name) not in ('memcpy', 'memmove') and n == T.I(k) and unit == 1, 'writes %s bytes of %s' % (T.show(n), T.show(s)[:60]), *w)
                if not name.endswith('operator()'):
                    ck.ob('layout', 'written', d == pv(fn, 1) or d == ('deref', pv(fn, 1)), 'writes at %s' % T.show(d)[:60], *w)
    ns = {}
    for m in ('serialize', 'deserialize'):
        for fn in ck.find(NS + 'PlutoValueSerializer::' + m):
            E, outs = ck.run(fn, **opts(cut='deep'))
            ns.setdefault(m, set()).update(c[2] for o in outs for c in copies(E, o))
    for fn in ck.find(NS + 'PlutoValueSerializer::serialization_length'):
        E, outs = ck.run(fn, **opts(cut='deep'))
        ns['length'] = {o.val for o in outs if o.kind == 'ret'}
    ck.ob('layout', 'lengths', len(set().union(*ns.values())) == 1, 'blocks are written and read with the lengths %s' % {k: sorted(map(T.show, v)) for k, v in ns.items()}, NS + 'PlutoValueSerializer')
    for fn in ck.find(NS + 'PlutoKeySerializer::serialization_length'):
        E, outs = ck.run(fn, **opts(cut='deep'))
        ck.ob('layout', 'key length', all(o.val == T.I(KEY) for o in outs if o.kind == 'ret'), 'keys do not have %d bytes' % KEY, C.loc(fn))


# ---------------------------------------------------------------- RocksDB
def store(ck):
    for fn in ck.find(ST + 'get'):
        E, outs = ck.run(fn, **db.opts())
        for o in outs:
            if o.kind != 'throw':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            gs = db.ops(o, 'Get')
            gone = 'out_of_range' in T.show(o.val) if o.val else None
            code = code_of(o, gs)
            if gone:
                ck.ob('store', 'missing', code == 1, 'a block that could not be read is reported as one that does not exist: the results are cut short', *w)
            else:
                ck.ob('store', 'failed', code != 1 and not unknown(o, gs), 'a block that does not exist is reported as a failure', *w)
    for n in ('insert', 'get', 'commit'):
        for fn in ck.find(NS + 'RocksDBStoreBuilder::' + n):
            E, outs = ck.run(fn, **popts(fn))
            for o in outs:
                if o.kind != 'ret':
                    continue
                cs = [e for e in o.trace if e.kind == 'call' and e.obj == this('store')]
                ok = len(cs) == 1 and core.meth_of(cs[0].name) == n and tuple(cs[0].args) == tuple(pv(fn, i) for i in range(len(fn.params))) and not below(cs[0], cs[0].alv) and (n != 'get' or o.val == cs[0].ret)
                ck.ob('store', 'passed', ok, 'is done as %s' % ', '.join(map(repr, cs))[:160], C.loc(fn, o.line), C.trail(o))


def below(e, ls):
    """parts of what is handed over that were changed on their own"""
    return [l for l, v in e.mem or () if l[0] in ('elem', 'fld') and l[1] in ls and v != ('in', l)]


def code_of(o, gs):
    """the status code of the read, when one is known"""
    for f, (lo, hi, ne) in o.st.facts.items():
        if f[0] == 'pure' and f[1].endswith('Status::code') and any(T.mentions(f, g.ret) for g in gs) and lo is not None and lo == hi:
            return lo
    return None


def unknown(o, gs):
    """may the block have been reported missing?"""
    for f, (lo, hi, ne) in o.st.facts.items():
        if f[0] == 'pure' and f[1].endswith('Status::code') and any(T.mentions(f, g.ret) for g in gs):
            return not (1 in ne or lo is not None and lo > 1)
    return True


# ---------------------------------------------------------------- construction
def setup(ck):
    for fn in ck.find(B + '(ctor)', pred=lambda f: len(f.params) == 5):
        E, outs = ck.run(fn, **popts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            for m, i in (('tethys_store_builder', 1), ('ht_builder', 2), ('master_prf', 3), ('tethys_encryption_encoder', 4)):
                e = made(o, m)
                ck.ob('setup', 'builder ' + m, len(e) == 1 and e[0].args == (pv(fn, i),), 'it is made by %s' % ', '.join(map(repr, e))[:160], *w)
            ck.ob('hidden', 'announced', E.load(o.st, this('n_elts')) == pv(fn, 0), 'the announced number of entries is not what is kept', *w)
            ck.ob('hidden', 'none yet', E.load(o.st, this('complete_lists')) == T.ZERO, 'some blocks are counted before there is any', *w)
    for fn in ck.find(S + '(ctor)', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **popts(fn))
        for o in outs:
            if o.kind == 'ret':
                for m, i in (('tethys_store', 0), ('hash_table', 1)):
                    e = made(o, m)
                    ck.ob('setup', 'server ' + m, len(e) == 1 and e[0].args[0] == pv(fn, i), 'it is made by %s' % ', '.join(map(repr, e))[:160], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(CL + '(ctor)', pred=lambda f: len(f.params) >= 3):
        E, outs = ck.run(fn, **popts(fn))
        k = len(fn.params)
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            for m, i in (('master_prf', k - 2), ('decrypt_decoder', k - 1)):
                e = made(o, m)
                ck.ob('setup', 'client ' + m, len(e) == 1 and e[0].args == (pv(fn, i),), 'it is made by %s' % ', '.join(map(repr, e))[:160], *w)
            ls = calls(o, 'load_stash')
            ck.ob('setup', 'client stash', len(ls) == 1 and ls[0].args[0] == pv(fn, 0), 'the stash is loaded %d times' % len(ls), *w)
    p20.stashed(ck, CL, popts)
