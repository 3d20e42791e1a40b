"""P17: a Tethys store answers a query with all the elements its builder was given for that key"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p12 import opts, pv, this
from rules.p13 import calls

TU = 'tus/tethys_inst.cpp'
NS = 'sse::tethys::'
B, S = NS + 'TethysStoreBuilder::', NS + 'TethysStore::'
OPAQUE = ('Hasher::operator()', '::graph_size', 'TethysAllocator::', 'Encoder::', 'Decoder::', 'KVSerializer::', 'awonvm_vector::',
          'TethysGraph::', 'TethysAssignmentInfo::', '::deserialize_map', '::is_file')
EMPTY = T.I((1 << 64) - 1)
ALLOC, DATA, BUILT = this('allocator'), this('data'), this('is_built')


def topts(more=(), **k):
    return opts(cut='deep', opaque_if=lambda n, f=None: any(x in n for x in OPAQUE + tuple(more)), **k)


def lv(fn, i):
    return ('var', fn.params[i]['d'], fn.params[i]['n'], 0)


def inst(fn):
    return 'wide' if 'Wide' in fn.key else 'plain'


def run(ck):
    ck.load([TU])
    ck.rule('where', 'the two buckets of a list are found by the reader with the function of the key the builder used, one in each half of the table')
    ck.rule('insert', 'a list is kept whole with its key, under the index and length its allotment bears, or refused once the store is built')
    ck.rule('once', 'a store is built once, the allotment being computed before anything is written')
    ck.rule('bucket', 'every bucket is started, gets all the lists that end or start there with its side of them, and is finished')
    ck.rule('room', 'nothing is encoded beyond the end of a bucket unnoticed')
    ck.rule('place', 'every bucket is stored at its own position, and the table is committed after the last one')
    ck.rule('stash', 'every list that was cut is written to the stash with its elements and allotment')
    ck.rule('file', 'the stash is a fresh file, and a failed write of it is reported')
    ck.rule('read', 'an answer is what the two buckets hold for the key, followed by what the stash holds for it')
    ck.rule('open', 'a store opens only a committed table, whose size it keeps, and loads the whole stash')
    ck.rule('pairs', 'the pairs of a serialized file are read one by one until its end, each handed over as read')
    where = {}
    for fn in ck.find(B + 'insert_list'):
        insert(ck, fn, where)
    for fn in ck.find(B + 'build'):
        if len(fn.params) == 2:
            build(ck, fn)
        else:
            default(ck, fn)
    reader(ck, where)
    opening(ck)
    kv(ck)
    for r, k in (('where', 6), ('insert', 8), ('once', 6), ('bucket', 20), ('room', 4), ('place', 6), ('stash', 6), ('file', 4), ('read', 6), ('open', 5), ('pairs', 6)):
        ck.floor(r, k)


# ---------------------------------------------------------------- locations
def hashed(t):
    """the result of the key's hash a location is derived from, with its argument"""
    r = {x for x in T.subterms(t) if x and x[0] in ('call', 'pure') and isinstance(x[1], str) and x[1].endswith('Hasher::operator()')}
    return next(iter(r)) if len(r) == 1 else None


def shape(t, size):
    """the location, as a function of the hash and the size of the table"""
    h = hashed(t)
    if h is None:
        return None, None
    return T.subst(T.subst(t, h, ('HASH',)), size, ('SIZE',)), h[2][-1]


def halves(a, b):
    """a in [0, m) and b in [m, SIZE) for some m"""
    if not (a and a[0] == 'op' and a[1] == '%'):
        return False
    m = a[3]
    r = T.sub(b, m)
    return r[0] == 'op' and r[1] == '%' and T.add(r[3], m) == ('SIZE',) and T.mentions(m, ('SIZE',)) and not T.mentions(m, ('HASH',))


def below(e, l):
    return {k: v for k, v in e.mem or () if k != l and core_under(k, l)}


def core_under(k, l):
    while isinstance(k, tuple) and k:
        if k == l:
            return True
        if k[0] not in ('fld', 'elem', 'deref'):
            return False
        k = k[1]
    return False


def insert(ck, fn, where):
    E, outs = ck.run(fn, **topts())
    key, val = lv(fn, 0), lv(fn, 1)
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        ins = [e for e in calls(o, 'insert') if e.obj == ALLOC]
        done = E.truth(o.st.facts, T.eq0(('in', BUILT)))
        push = [e for n in ('push_back', 'emplace_back') for e in calls(o, n) if e.obj == DATA]
        if done is False:
            ck.ob('insert', 'refused ' + inst(fn), o.kind == 'throw' and not ins and not push, 'a list is accepted once the store is built', *w)
            continue
        ck.ob('insert', 'checked ' + inst(fn), done is True, 'it is not checked that the store is not built', *w)
        if o.kind != 'ret':
            continue
        if not ck.ob('insert', 'one ' + inst(fn), len(ins) == 1 and len(push) == 1, 'the list is kept %d times and allotted %d times' % (len(push), len(ins)), *w):
            continue
        e, p = ins[0], push[0]
        if core.meth_of(p.name) == 'push_back':
            m = {k[2]: v for k, v in below(p, p.alv[0]).items() if k[0] == 'fld' and k[1] == p.alv[0]}
            kept = m.get('key'), m.get('values')
        else:
            kept = tuple(p.args)[:2]
        ck.ob('insert', 'kept ' + inst(fn), kept == (('in', key), ('in', val)), 'what is kept is %s' % ', '.join(T.show(x) if x else '?' for x in kept), *w)
        i, after = e.args[2], E.load(o.st, DATA)
        sizes = (T.sub(('pure', 'size', (after,)), T.ONE), ('pure', 'size', (('in', DATA),)))
        ck.ob('insert', 'index ' + inst(fn), i in sizes, 'the list is kept under another index than %s' % T.show(i), *w)
        n = T.sub(e.args[1], ('pure', 'size', (('in', val),)))
        for x in sorted(T.subterms(e.args[1]), key=repr):
            if x and x[0] == 'pure' and x[1] == 'size' and last(o, p, x[2][0], after, sizes, 'values'):
                n = T.sub(e.args[1], x)
        ck.ob('insert', 'length ' + inst(fn), n[0] == 'int' and n[1] >= 0, 'its length is taken to be %s' % T.show(e.args[1]), *w)
        h = below(e, e.alv[0])
        loc = [h.get(('elem', ('fld', e.alv[0], 'h'), T.I(k))) for k in (0, 1)]
        size = [x for l in loc if l for x in T.subterms(l) if x and x[0] == 'pure' and x[1].endswith('::graph_size')]
        if not ck.ob('where', 'found ' + inst(fn), None not in loc and len(set(size)) == 1, 'the buckets of a list are not a function of its key and the size of the table', *w):
            continue
        sh = [shape(l, size[0]) for l in loc]
        ks = {k for _, k in sh}
        ok = all(k == ('in', key) or last(o, p, k, after, sizes) for k in ks)
        ck.ob('where', 'key ' + inst(fn), ok, 'another key is hashed', *w)
        a, b = sh[0][0], sh[1][0]
        ck.ob('where', 'halves ' + inst(fn), a is not None and b is not None and halves(a, b), 'the buckets are %s and %s' % (T.show(a), T.show(b)), *w)
        where.setdefault('builder', set()).add((a, b))


def last(o, push, k, vec, sizes, part='key'):
    """is k the key (or another part) of the last element of the vector, after it was added?"""
    while k and k[0] == 'in':
        k = k[1]
    if not k or k[0] not in ('fld', 'fv') or k[2] != part:
        return False
    x = k[1]
    while x[0] in ('rl', 'in'):
        x = x[1]
    if x[0] in ('ev', 'elem') and x[1] in (vec, DATA):
        return x[2] in sizes
    return any(e.obj == DATA and (e.ret == x or e.ret == ('rl', x)) and o.trace.index(e) > o.trace.index(push) for e in calls(o, 'back'))


# ---------------------------------------------------------------- building
def default(ck, fn):
    E, outs = ck.run(fn, **topts(more=('TethysStoreBuilder::build',)))
    for o in outs:
        if o.kind == 'ret':
            cs = calls(o, 'build')
            ck.ob('once', 'default encoders ' + inst(fn), len(cs) == 1 and len(cs[0].args) == 2, 'the store is built %d times' % len(cs), C.loc(fn, o.line), C.trail(o))


def edge_of(t):
    """(head, list the edge pointer is in, its position, the edge) of an edge of the allocation graph"""
    if t and t[0] == 'rl' and t[1][0] in ('pure', 'call') and t[1][1].endswith('::get_edge'):
        p = t[1][2][-1]
        if p[0] == 'in' and p[1][0] == 'elem':
            return p[1][1], p[1][2], t
    return None


def seen(o):
    """edges looked at on the path"""
    r = []
    for e in calls(o, 'get_edge'):
        x = edge_of(e.ret if e.ret and e.ret[0] == 'rl' else ('rl', e.ret)) or edge_of(('rl', ('pure', e.name, (('in', e.obj), e.args[0]))))
        if x and x not in r:
            r.append(x)
    return r


def used(e, i=None):
    """(index of the list encoded or serialized by e)"""
    for a in e.args:
        for x in T.subterms(a):
            if x and x[0] == 'elem' and x[1] == DATA:
                return x[2]
    return None


def info(o, v, mem):
    """(edge, side) of an allotment handed over"""
    if v[0] == 'obj' and v[1].endswith('TethysAssignmentInfo') and len(v[2]) == 2:
        return v[2][0], v[2][1]
    return None, None


def build(ck, fn):
    E, outs = ck.run(fn, **topts())
    L = C.Loops(E, outs)
    enc, senc = lv(fn, 0), lv(fn, 1)
    t = inst(fn)
    # the heads of the loops over edges, per list of edges
    lists, inner = {}, set()
    for o in outs:
        for c, i, x in seen(o):
            if i[0] == 'phi' or T.has_tag(i, 'phi'):
                hs = {p[1] for p in T.subterms(i) if p and p[0] == 'phi'}
                if o.frm in hs:
                    lists.setdefault(c, (o.frm, i))
                    inner.add(o.frm)
    kinds = {}
    for c, (h, i) in lists.items():
        if c[0] == 'rl' and c[1][1].endswith('::get_stashed_edges'):
            kinds['stash'] = c
        elif c[0] == 'fld' and c[2] in ('in_edges', 'out_edges') and c[1][0] == 'elem':
            kinds[c[2]] = c
    for k in ('in_edges', 'out_edges', 'stash'):
        ck.ob('stash' if k == 'stash' else 'bucket', k + ' ' + t, k in kinds, 'the lists in %s are not looked at' % k, C.loc(fn))
    if len(kinds) < 3:
        return
    vs = {kinds[k][1] for k in ('in_edges', 'out_edges')}
    v = next(iter(vs))
    if not ck.ob('bucket', 'one vertex ' + t, len(vs) == 1 and v[2][0] == 'phi', 'the two kinds of lists belong to different buckets', C.loc(fn)):
        return
    V, H = v[2], v[2][1]
    size = [e.ret for o in outs for e in calls(o, 'graph_size')]
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        once(ck, E, fn, L, o, H, t, w)
        if o.frm is None and o.kind == 'enter':
            names = [core.meth_of(e.name) for e in o.trace if e.kind == 'call']
            ck.ob('once', 'allotment first ' + t, names.count('allocate') == 1, 'the allotment is computed %d times' % names.count('allocate'), *w)
        elif o.frm is not None:
            ck.ob('once', 'allotment once ' + t, not calls(o, 'allocate'), 'the allotment is computed again', *w)
    ck.ob('bucket', 'from the first ' + t, L.counts(H, V), 'buckets are not taken one by one from the first', C.loc(fn))
    verts = ('pure', 'size', (('in', v[1]),))
    for o in L.exits(H):
        if o.kind == 'throw' or o.head in inner and o.head != lists[kinds['stash']][0]:
            continue
        f = o.st.facts
        ok = any(E.truth(f, T.lt(V, n)) is False or E.truth(f, T.eq(V, n)) is True for n in size + [verts])
        ck.ob('bucket', 'to the last ' + t, ok, 'some buckets are not written', C.loc(fn, o.line), C.trail(o))
    wl = set()
    for k in ('in_edges', 'out_edges'):
        h, i = lists[kinds[k]]
        edges(ck, fn, E, L, outs, kinds[k], h, i, V, 0 if k == 'in_edges' else 1, enc, t, wl)
    if ck.ob('bucket', 'written ' + t, len(wl) == 1, 'the lists of a bucket are not encoded one after the other', C.loc(fn)):
        block(ck, fn, E, L, outs, H, V, kinds, lists, next(iter(wl)), enc, t)
    stash(ck, fn, E, L, outs, kinds['stash'], lists, senc, t)


def once(ck, E, fn, L, o, H, t, w):
    b = E.truth(o.st.facts, T.eq0(('in', BUILT)))
    if b is False:
        ck.ob('once', 'again ' + t, o.kind == 'throw' and not [e for e in o.trace if e.kind == 'call' and e.name.startswith(NS)], 'a store can be built twice', *w)
    elif o.frm is None:
        ck.ob('once', 'checked ' + t, b is True, 'it is not checked that the store is not built', *w)
    if o.kind == 'ret':
        ck.ob('once', 'marked ' + t, E.load(o.st, BUILT) == T.ONE, 'the store is not marked as built', *w)


def whole(ck, E, L, fn, rule, name, c, h, i):
    """every edge of the list is looked at"""
    ck.ob(rule, name + ' from the first', L.counts(h, i), 'the lists are not taken one by one from the first', C.loc(fn))
    n = ('pure', 'size', (('in', c),))
    for q in L.exits(h):
        if q.kind == 'throw' or not L.E:
            continue
        ok = E.truth(q.st.facts, T.eq(i, n)) is True or E.truth(q.st.facts, T.lt(i, n)) is False
        ck.ob(rule, name + ' to the last', ok or not mine(L, q, c, h), 'some lists are not looked at', C.loc(fn, q.line), C.trail(q))


def mine(L, q, c, h):
    """does the piece q of the loop h belong to a walk through the list c?"""
    return q.bind in {o.bind for o in L.body(h) if any(x[0] == c for x in seen(o))}


def edges(ck, fn, E, L, outs, c, h, i, V, side, enc, t, wl):
    name = '%s %s' % (c[2], t)
    whole(ck, E, L, fn, 'bucket', name, c, h, i)
    for o in L.body(h):
        es = calls(o, 'encode')
        if o.kind == 'throw':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        if o.kind != 'iter' or o.head != h:
            ck.ob('bucket', name + ' nothing more', not es, 'something else is encoded', *w)
            continue
        if not mine(L, o, c, h):
            continue
        xs = [x for x in seen(o) if x[0] == c]
        if not ck.ob('bucket', name + ' looked at', bool(xs), 'an edge is not looked at', *w):
            continue
        x = xs[0][2]
        idx = ('in', ('fld', x, 'value_index'))
        none = E.truth(o.st.facts, T.eq(idx, EMPTY))
        if none is True:
            ck.ob('bucket', name + ' other edges', not es, 'an edge that is not a list is encoded', *w)
            continue
        if not ck.ob('bucket', name + ' encoded', len(es) == 1 and none is False, 'a list is encoded %d times%s' % (
                len(es), '' if none is False else ', whether the edge is one or not'), *w):
            continue
        e = es[0]
        d = ('elem', DATA, idx)
        a = e.args
        ok = e.obj == enc and len(a) == 5 and a[1] == V and a[2] == ('in', ('fld', d, 'key')) and a[3] == ('in', ('fld', d, 'values'))
        ck.ob('bucket', name + ' list', ok, 'what is encoded is not the list of the edge: %r' % e, *w)
        if len(a) < 5:
            continue
        ck.ob('bucket', name + ' side', info(o, a[4], e.mem) == (('in', x), T.I(side)), 'the allotment handed over is %s' % T.show(a[4]), *w)
        # where
        ps = [l for l in {p[2] for p in T.subterms(a[0]) if p and p[0] == 'phi'} if E.load(o.st, l) == T.add(('phi', h, l), e.ret)]
        ok = len(ps) == 1 and payload(a[0], ('phi', h, ps[0])) is not None
        ck.ob('bucket', name + ' after the others', ok, 'it is encoded at %s' % T.show(a[0]), *w)
        if ok:
            wl.add((ps[0], payload(a[0], ('phi', h, ps[0]))))
            ck.ob('room', name, E.truth(o.st.facts, T.lt(T.I(4096), T.add(('phi', h, ps[0]), e.ret))) is False, 'encoding past the end of the bucket goes unnoticed', *w)


def payload(t, off):
    """the array a pointer t = &array[0] + off points into"""
    b = T.sub(t, off)
    if b[0] == 'addr':
        l = b[1]
        return l[1] if l[0] == 'elem' and l[2] == T.ZERO else l
    return None


def chain(L, outs, H, inner):
    """sequences of pieces from the head H back to it"""
    r = []

    def go(p, used):
        for o in L.body(p[-1].head if p else H):
            if o in used or o.kind == 'throw' or o.kind == 'iter' and o.head != H or p and p[-1].bound != o.bind:
                continue
            q = p + [o]
            if o.kind == 'iter':
                r.append(q)
            elif o.kind == 'enter' and o.head in inner:
                go(q, used | {o})
    go([], frozenset() if False else set())
    return r


def block(ck, fn, E, L, outs, H, V, kinds, lists, wl, enc, t):
    wr, pay = wl
    inner = {lists[kinds[k]][0] for k in ('in_edges', 'out_edges')}
    cs = chain(L, outs, H, inner)
    ck.ob('bucket', 'turn ' + t, bool(cs), 'buckets are not written in turn', C.loc(fn))
    for c in cs:
        o = c[-1]
        w = (C.loc(fn, o.line), C.trail(o))
        ev = [(p, e) for p in c for e in p.trace if e.kind == 'call']
        st = [x for x in ev if core.meth_of(x[1].name) == 'start_block_encoding']
        fi = [x for x in ev if core.meth_of(x[1].name) == 'finish_block_encoding']
        pu = [x for x in ev if core.meth_of(x[1].name) in ('push_back', 'async_push_back') and x[1].name.startswith('sse::abstractio::awonvm_vector')]
        heads = [p.head for p in c[:-1]]
        # both kinds of lists, once each
        ok = len(heads) == 2 and (len(inner) == 1 or set(heads) == inner)
        ck.ob('bucket', 'both kinds ' + t, ok, 'a bucket is written without looking at both kinds of lists', *w)
        if not ck.ob('bucket', 'steps ' + t, len(st) == len(fi) == len(pu) == 1, 'a bucket is started %d times, finished %d times, stored %d times' % (
                len(st), len(fi), len(pu)), *w):
            continue
        (p0, s), (p1, f), (p2, u) = st[0], fi[0], pu[0]
        ck.ob('bucket', 'started ' + t, p0 is c[0] and s.obj == enc and payload(s.args[0], T.ZERO) == pay and s.args[1] == V and
              E.load(p0.st, wr) == s.ret, 'a bucket is started by %r' % s, *w)
        n = E.load(c[-2].st, wr) if len(c) > 1 else None
        n = ('phi', o.frm, wr)
        ck.ob('bucket', 'finished ' + t, p1 is o and f.obj == enc and payload(f.args[0], T.ZERO) == pay and f.args[1] == V and f.args[2] == n and
              T.add(f.args[3], n) == T.I(4096), 'a bucket is finished by %r' % f, *w)
        for a, b in zip(c[:-1], c[1:-1]):
            ck.ob('bucket', 'between ' + t, E.load(b.st, wr) == ('phi', a.head, wr), 'the position changes between the two kinds of lists', *w)
        ck.ob('room', 'end ' + t, E.truth(o.st.facts, T.lt(T.I(4096), T.add(n, f.ret))) is False, 'encoding past the end of the bucket goes unnoticed', *w)
        ok = p2 is o and o.trace.index(u) > o.trace.index(f) and u.alv[0] == pay
        ck.ob('place', 'stored ' + t, ok, 'what is stored is not the finished bucket', *w)
        ck.ob('place', 'position ' + t, E.truth(o.st.facts, T.eq(u.ret, V)) is True, 'a bucket stored at another position goes unnoticed', *w)
        tab = u.obj
        for q in outs:
            cm = [e for e in calls(q, 'commit') if e.obj == tab]
            if q.frm == H and q.kind != 'throw' and q.head not in inner:
                ck.ob('place', 'committed ' + t, len(cm) == 1, 'the table is committed %d times' % len(cm), C.loc(fn, q.line), C.trail(q))
            else:
                ck.ob('place', 'not before ' + t, not cm, 'the table is committed before its last bucket', C.loc(fn, q.line), C.trail(q))
            for e in calls(q, '(ctor)'):
                if e.name.endswith('awonvm_vector::(ctor)'):
                    ck.ob('place', 'path ' + t, e.args[0] == ('in', ('fld', this('params'), 'tethys_table_path')), 'the table is written in %s' % T.show(e.args[0]),
                          C.loc(fn, q.line), C.trail(q))


def stash(ck, fn, E, L, outs, c, lists, senc, t):
    h, i = lists[c]
    whole(ck, E, L, fn, 'stash', t, c, h, i)
    n = ('pure', 'size', (('in', c),))
    out = None
    for o in L.enters(h):
        w = (C.loc(fn, o.line), C.trail(o))
        op = [e for e in o.trace if e.kind == 'call' and (core.meth_of(e.name) == 'open' or e.name.endswith('ofstream::(ctor)')) and e.args]
        path = ('in', ('fld', this('params'), 'tethys_stash_path'))
        ok = len(op) == 1 and op[0].args[0] == path and all(m[0] == 'int' and m[1] & (1 | 2 | 8) == 0 for m in op[0].args[1:])
        ck.ob('file', 'fresh ' + t, ok, 'the stash is opened by %s' % (', '.join(map(repr, op)) or 'nothing'), *w)
        out = op[0].obj if op else None
        ser = [e for e in o.trace if e.kind == 'call' and e.name.endswith('KVSerializer::(ctor)')]
        ck.ob('file', 'target ' + t, bool(ser) and all(e.alv[0] == out for e in ser), 'the stash is written elsewhere', *w)
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        if o.frm == h:
            end = [e for m in ('close', 'flush') for e in calls(o, m) if e.obj == out]
            good = False
            for e in o.trace:
                m = core.meth_of(e.name or '')
                if e.kind == 'call' and e.obj == out and end and o.trace.index(e) > o.trace.index(end[0]):
                    v = E.truth(o.st.facts, T.eq0(e.ret)) if e.ret else None
                    good = good or (m in ('operator!', 'fail') and v is True) or (m in ('good', '(conv:bool)') and v is False)
            ck.ob('file', 'checked ' + t, good, 'a failed write of the stash is not reported', *w)
        else:
            ck.ob('stash', 'empty ' + t, E.truth(o.st.facts, T.eq(n, T.ZERO)) is True or E.truth(o.st.facts, T.lt(T.ZERO, n)) is False,
                  'the stash is not written', *w)
    for o in L.iters(h):
        w = (C.loc(fn, o.line), C.trail(o))
        es = calls(o, 'serialize')
        xs = [x for x in seen(o) if x[0] == c]
        if not xs:
            ck.ob('stash', 'looked at ' + t, False, 'an edge is not looked at', *w)
            continue
        x = xs[0][2]
        idx = ('in', ('fld', x, 'value_index'))
        none = E.truth(o.st.facts, T.eq(idx, EMPTY))
        if none is True:
            ck.ob('stash', 'other edges ' + t, not es, 'an edge that is not a list is written', *w)
            continue
        if not ck.ob('stash', 'written ' + t, len(es) == 1 and none is False, 'a cut list is written %d times' % len(es), *w):
            continue
        e, d = es[0], ('elem', DATA, idx)
        m = below(e, e.alv[1]) if len(e.alv) > 1 and e.alv[1] else {}
        f = {k[2]: v for k, v in m.items() if k[0] == 'fld' and k[1] == e.alv[1]}
        ok = e.args[0] == ('in', ('fld', d, 'key')) and f.get('data') == ('addr', ('fld', d, 'values')) and e.alv[2:] and e.alv[2] == senc
        ck.ob('stash', 'list ' + t, ok, 'what is written is not the list of the edge: %r' % e, *w)
        ai = f.get('assignement_info')
        ck.ob('stash', 'allotment ' + t, ai is not None and info(o, ai, ()) == (('in', x), T.ZERO), 'its allotment is %s' % (T.show(ai) if ai else '?'), *w)


# ---------------------------------------------------------------- reading
def reader(ck, where):
    b = where.get('builder', set())
    ck.ob('where', 'one function', len(b) == 1, 'the builder has several ways to locate lists')
    a0, b0 = next(iter(b)) if b else (None, None)
    size = ('in', this('table_size'))
    locs = {}
    for fn in ck.find(S + 'get_buckets'):
        E, outs = ck.run(fn, **topts())
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            r = o.val[1] if o.val is not None and o.val[0] == 'in' else ('retobj', 0)
            for k, want in ((0, a0), (1, b0)):
                i, p = E.load(o.st, ('fld', ('retobj', 0), 'index_%d' % k)), E.load(o.st, ('fld', ('retobj', 0), 'payload_%d' % k))
                s, key = shape(i, size)
                ck.ob('where', 'reader %d' % k, s == want and key == pv(fn, 0), 'the reader looks in %s' % T.show(i), *w)
                g = [e for e in calls(o, 'get') if e.obj == this('table') and e.ret == p]
                ck.ob('read', 'bucket %d' % k, len(g) == 1 and g[0].args[0] == i, 'the bucket is not the one at %s' % T.show(i), *w)
    for fn in ck.find(S + 'get_list', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **topts(more=('TethysStore::get_buckets',)))
        answers(ck, E, outs, fn, pv(fn, 0), lv(fn, 1))
    for fn in ck.find(S + 'get_list', pred=lambda f: len(f.params) == 1):
        E, outs = ck.run(fn, **topts(more=('TethysStore::get_list',)))
        for o in outs:
            if o.kind == 'ret':
                cs = calls(o, 'get_list')
                ck.ob('read', 'default decoder', len(cs) == 1 and cs[0].args[0] == pv(fn, 0) and o.val == cs[0].ret, 'the answer is another one',
                      C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(S + 'decode_list'):
        E, outs = ck.run(fn, **topts())
        ps = [pv(fn, i) for i in range(len(fn.params))]
        for o in outs:
            if o.kind == 'ret':
                cs = calls(o, 'decode_buckets')
                want = [ps[0]] + ps[-4:]
                ck.ob('read', 'decoding', len(cs) == 1 and list(cs[0].args) == want and o.val == cs[0].ret, 'the buckets decoded are others',
                      C.loc(fn, o.line), C.trail(o))


def stashed(o, E, key):
    """(iterator of the stash entry, found on this path)"""
    for e in calls(o, 'find') + calls(o, 'count'):
        if e.obj == this('stash') and e.args and e.args[0] == key:
            if core.meth_of(e.name) == 'count':
                z = E.truth(o.st.facts, T.eq0(e.ret))
                return e.ret, None if z is None else not z
            for b, (lo, hi, ne) in o.st.facts.items():
                if T.mentions(b, e.ret):
                    if lo == hi == 0:
                        return e.ret, False
                    if 0 in ne:
                        return e.ret, True
            return e.ret, None
    return None, None


def decoding(ck, fn, o, key, dec, rule, buckets, w):
    """the two buckets of the key are decoded once on the path"""
    cs = calls(o, 'decode_buckets')
    if not ck.ob(rule, 'decoded', len(cs) == 1 and (dec is None or cs[0].obj == dec), 'the buckets are decoded %d times' % len(cs), *w):
        return None
    d = cs[0]
    if buckets is None:
        gb = calls(o, 'get_buckets')
        if not ck.ob(rule, 'buckets read', len(gb) == 1 and gb[0].args[0] == key, 'the buckets are read %d times' % len(gb), *w):
            return None
        g = gb[0].ret
        buckets = tuple(('fv', g, n) for n in ('payload_0', 'index_0', 'payload_1', 'index_1'))
    ck.ob(rule, 'right buckets', tuple(d.args) == (key,) + buckets, 'what is decoded is %s' % ', '.join(T.show(a) for a in d.args), *w)
    return d


def answers(ck, E, outs, fn, key, dec, rule='read', buckets=None):
    L = C.Loops(E, outs)
    if not L.heads:
        for o in outs:
            if o.kind == 'ret':
                answer(ck, E, fn, o, key, dec, o.val, rule, buckets)
        return
    if not ck.ob(rule, 'one loop', len(L.heads) == 1, 'the answer is made in several loops', C.loc(fn)):
        return
    h = L.heads[0]
    for o in outs:
        if o.frm is None and o.kind == 'ret':
            answer(ck, E, fn, o, key, dec, o.val, rule, buckets)
    for o in L.enters(h):
        w = (C.loc(fn, o.line), C.trail(o))
        it, found = stashed(o, E, key)
        if not ck.ob(rule, 'stash looked at', it is not None and found is not None, 'the stash is not looked at', *w):
            continue
        d = decoding(ck, fn, o, key, dec, rule, buckets, w)
        if d is None:
            continue
        res = [l for l, v in o.st.store.items() if v == d.ret]
        pos = set()
        for q in sorted(L.body(h), key=lambda q: q.kind != 'iter'):
            if found_at(q, it) != found:
                continue
            w = (C.loc(fn, q.line), C.trail(q))
            adds = [e for e in q.trace if e.kind == 'call' and e.obj in res and core.meth_of(e.name or '') in core_changes]
            if q.kind == 'iter':
                x = adds[0].args[0] if len(adds) == 1 and core.meth_of(adds[0].name) in ('push_back', 'emplace_back') else None
                while x and x[0] == 'in':
                    x = x[1]
                if x and x[0] in ('ev', 'elem'):
                    pos.add(x[2])
                ok = x is not None and x[0] in ('ev', 'elem') and (second(x[1], it) if found else empty(E, q, x[1])) and \
                    x[2][0] == 'phi' and L.counts(h, x[2])
                ck.ob(rule, 'stash added one by one', ok, 'a turn does not add the next element of the stash', *w)
            elif q.kind == 'ret':
                r = q.val
                ok = r is not None and not adds and any(r == ('phi', h, l) for l in res)
                ck.ob(rule, 'answer', ok, 'what the buckets hold is not in the answer', *w)
                end = False
                for x in pos:
                    ns = [n for f in q.st.facts for n in T.subterms(f) if n and n[0] == 'pure' and n[1] == 'size' and (T.mentions(n, it) or second(n[2][0], it))]
                    end = end or any(E.truth(q.st.facts, T.eq(x, n)) is True or E.truth(q.st.facts, T.lt(x, n)) is False for n in ns)
                ck.ob(rule, 'whole stash added', end or not found, 'the elements of the stash are not all in the answer', *w)


def second(x, it):
    """x is the list of the entry `it`"""
    while x and x[0] in ('in', 'rl'):
        x = x[1]
    if x and x[0] == 'elem' and x[1] == this('stash') and it[0] == 'pure' and it[1].endswith('::count'):
        return x[2] == it[2][1]
    return bool(x) and x[0] in ('fld', 'fv') and x[2] == 'second' and T.mentions(x, it)


def empty(E, o, x):
    v = E.load(o.st, x) if x[0] in ('var', 'fld') else x
    return v[0] == 'obj' and not v[2]


def found_at(o, it):
    for b, (lo, hi, ne) in o.st.facts.items():
        if b[0] == 'lin' and T.mentions(b, it) and any(x and x[0] == 'iter' for x in T.subterms(b)) or b[0] != 'lin' and T.mentions(b, it):
            if lo == hi == 0:
                return False
            if 0 in ne or lo is not None and lo > 0:
                return True
    return None


def answer(ck, E, fn, o, key, dec, val, rule='read', buckets=None):
    w = (C.loc(fn, o.line), C.trail(o))
    it, found = stashed(o, E, key)
    if not ck.ob(rule, 'stash looked at', it is not None and found is not None, 'the stash is not looked at', *w):
        return
    d = decoding(ck, fn, o, key, dec, rule, buckets, w)
    if d is None:
        return
    # the result: what was decoded, with the entry of the stash added at one end
    ps = parts(E, o, val, d.ret, it)
    ck.ob(rule, 'answer', ps is not None and ps.count('D') == 1, 'what the buckets hold is not in the answer', *w)
    n = 1 if found else 0
    ck.ob(rule, 'stash added' if found else 'nothing added', ps is None or ps.count('S') == n and len(ps) == n + 1,
          'the elements of the stash are not all in the answer' if found else 'something is added to what the buckets hold', *w)


def parts(E, o, v, d, it):
    """what a list is made of, in any order: 'D', what the buckets hold; 'S', the entry of the stash; None if it is something else"""
    if v is None:
        return None
    if v == d:
        return ['D']
    if second(v, it):
        return ['S']
    if v[0] == 'obj' and len(v[2]) == 1 and v[1].endswith('vector'):
        return parts(E, o, v[2][0], d, it)
    if v[0] == 'obj' and not v[2]:
        return []
    if v[0] == 'mut':
        for e in o.trace:
            m = core.meth_of(e.name) if e.kind == 'call' and e.site == v[3] and e.obj is not None else None
            if m == 'insert' and len(e.args) == 3 or m == 'assign' and len(e.args) == 2:
                a, b = e.args[-2], e.args[-1]
                at = m == 'assign' or [x for x in T.subterms(e.args[0]) if x and x[0] == 'iter' and x[1] == e.obj]
                if not (a[0] == b[0] == 'iter' and a[1] == b[1] and a[2] == T.ZERO and at):
                    return None
                old = parts(E, o, e.objv, d, it) if m == 'insert' else []
                if b[2] == T.ZERO:
                    return old
                if b[2][0] != 'pure' or b[2][1] != 'size':
                    return None
                add = parts(E, o, b[2][2][0], d, it)
                return None if old is None or add is None else old + add
    return None


core_changes = ('insert', 'push_back', 'emplace_back', 'erase', 'clear', 'resize', 'assign', 'pop_back', 'swap')


def opening(ck):
    for fn in [f for f in ck.find(S + '(ctor)') + ck.find(S + 'TethysStore', required=False)]:
        E, outs = ck.run(fn, **topts(more=('::load_stash',), pure=('load_stash',)))
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            cm = calls(o, 'is_committed')
            ok = len(cm) >= 1 and E.truth(o.st.facts, T.eq0(cm[0].ret))
            if o.kind == 'throw':
                continue
            ck.ob('open', 'committed', bool(cm) and ok is False, 'a table that is not committed is opened', *w)
            ct = [e for e in o.trace if e.kind == 'call' and e.obj == this('table') and e.name.endswith('::(ctor)')]
            ck.ob('open', 'table', len(ct) == 1 and ct[0].args[0] == pv(fn, 0), 'the table is opened by %s' % ', '.join(map(repr, ct)), *w)
            n = E.load(o.st, this('table_size'))
            sz = [e.ret for e in calls(o, 'size') if e.obj == this('table')]
            ck.ob('open', 'size', n in sz, 'its size is taken to be %s' % T.show(n), *w)
            ls = calls(o, 'load_stash')
            mine = len(fn.params) < 3 or len(ls) == 1 and ls[0].alv[1:2] == (('var', fn.params[2]['d'], fn.params[2]['n'], 0),) or \
                len(ls) == 1 and ls[0].args[1:2] == (pv(fn, 2),)
            ck.ob('open', 'stash', len(ls) == 1 and ls[0].args[0] == pv(fn, 1) and mine, 'the stash is loaded %d times' % len(ls), *w)
    for fn in ck.find(S + 'load_stash'):
        if 'EmptyDecoder' in fn.key.split('load_stash')[-1]:
            continue
        E, outs = ck.run(fn, **topts())
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            kept = all(E.load(o.st, this(n)) == ('in', this(n)) for n in ('table', 'table_size'))
            ck.ob('open', 'only the stash', kept, 'loading the stash changes something else', *w)
            f = [e for e in o.trace if e.kind == 'call' and e.name.endswith('is_file') and e.args[0] == pv(fn, 0)]
            ds = calls(o, 'deserialize_map')
            if o.kind != 'ret':
                continue
            if f and E.truth(o.st.facts, T.eq0(f[0].ret)) is True:
                ck.ob('open', 'no stash', not ds, 'a missing stash is read', *w)
                continue
            op = [e for e in o.trace if e.kind == 'call' and (core.meth_of(e.name) == 'open' or e.name.endswith('ifstream::(ctor)')) and e.args]
            skip = [e for m in ('get', 'ignore', 'seekg', 'read', 'getline', 'operator>>', 'readsome') for e in calls(o, m)
                    if op and (e.obj == op[0].obj or op[0].obj in e.alv)]
            ok = len(ds) == 1 and len(op) == 1 and not skip and op[0].args[0] == pv(fn, 0) and ds[0].alv[0] == op[0].obj and ds[0].alv[1] == lv(fn, 1) and \
                E.load(o.st, this('stash')) == ds[0].ret
            ck.ob('open', 'stash loaded', ok, 'the stash is not what is in its file', *w)


def stream(e):
    """the pair is written to the stream of the serializer"""
    l = (list(e.alv) + [None])[0] or e.args[0]
    return l is not None and T.mentions(l, this('out_stream'))


def kv(ck):
    A = 'sse::abstractio::'
    for fn in ck.find(A + 'KVSerializer::serialize'):
        if len(fn.params) != 3:
            continue
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: 'Encoder::' in n))
        for o in outs:
            if o.kind == 'ret':
                cs = calls(o, 'serialize_key_value')
                ok = len(cs) == 1 and cs[0].obj == lv(fn, 2) and list(cs[0].args[1:]) == [pv(fn, 0), pv(fn, 1)] and stream(cs[0])
                ck.ob('pairs', 'written', ok, 'a pair is not written once to the stream', C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(A + 'deserialize', pred=lambda f: len(f.params) == 3):
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: 'Decoder::' in n))
        L = C.Loops(E, outs)
        if not ck.ob('pairs', 'loop', len(L.heads) == 1, 'pairs are not read one by one', C.loc(fn)):
            continue
        h, s = L.heads[0], lv(fn, 0)
        for o in L.iters(h):
            w = (C.loc(fn, o.line), C.trail(o))
            rd = calls(o, 'deserialize_key_value')
            cb = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'operator()' and e.obj == lv(fn, 1)]
            ok = len(rd) == 1 and len(cb) == 1 and rd[0].alv[0] == s and rd[0].obj == lv(fn, 2)
            ck.ob('pairs', 'one by one', ok, 'a turn reads %d pairs and hands over %d' % (len(rd), len(cb)), *w)
            if ok:
                a = [strip(x) for x in cb[0].args]
                ck.ob('pairs', 'as read', a == [('fv', rd[0].ret, 'first'), ('fv', rd[0].ret, 'second')], 'what is handed over is %s' % ', '.join(map(T.show, a)), *w)
        for o in L.exits(h):
            if o.kind == 'throw':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            pk = [e for e in calls(o, 'peek') if e.obj == s]
            eof = any(E.truth(o.st.facts, T.eq(e.ret, T.I(-1))) is True for e in pk)
            bad = any(e.obj == s and core.meth_of(e.name) in ('(conv:bool)', 'good') and E.truth(o.st.facts, T.eq0(e.ret)) is True or
                      e.obj == s and core.meth_of(e.name) in ('operator!', 'fail', 'eof', 'bad') and E.truth(o.st.facts, T.eq0(e.ret)) is False
                      for e in o.trace if e.kind == 'call' and e.ret)
            ck.ob('pairs', 'to the end', eof or bad, 'reading stops before the end of the stream', *w)
    for fn in ck.find(A + 'deserialize_map', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: n == A + 'deserialize'))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            ds = calls(o, 'deserialize')
            ck.ob('pairs', 'map read', len(ds) == 1 and ds[0].alv[0] == lv(fn, 0) and ds[0].alv[2] == lv(fn, 1), 'the stream is read %d times' % len(ds), *w)
        for lam in ck.prog.lambdas_of(fn):
            E2, o2 = ck.run(lam, **opts())
            for o in o2:
                if o.kind != 'ret':
                    continue
                w = (C.loc(lam, o.line), C.trail(o))
                k, v = pv(lam, 0), pv(lam, 1)
                st = [(l, x) for l, x in o.st.store.items() if T.mentions(l, k) or T.mentions(x, v) and l[0] not in ('var',)]
                ok = any(T.mentions(l, k) and strip(x) == v for l, x in st) or any(
                    e.kind == 'call' and core.meth_of(e.name or '') in ('emplace', 'insert', 'insert_or_assign', 'operator=') and
                    (any(T.mentions(a, v) for a in e.args)) and (T.mentions(e.obj, k) or any(T.mentions(a, k) for a in e.args)) for e in o.trace)
                ck.ob('pairs', 'map entry', ok, 'a pair that was read is not put in the map', *w)


def strip(t):
    while t and t[0] in ('pure', 'call') and t[1] in ('std::move', 'std::forward'):
        t = t[2][0]
    return t
