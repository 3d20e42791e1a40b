"""P15: the allocator places every element in one of its two buckets or in the stash, and overfills no bucket"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p12 import fld, opts, pv, this
from rules.p13 import calls, examined, exhausted

TU = 'lib/tethys/tethys_allocator.cpp'
D = 'sse::tethys::details::'
NS = D + 'TethysAllocator::'
GRAPH, STASH = this('allocation_graph'), this('stashed_edges')
EDGES = ('fld', ('fld', GRAPH, 'edges'), 'edges')
VERTS = ('fld', ('fld', GRAPH, 'vertices'), 'vertices')
PAGE, SIZE, DONE = fld('page_size'), fld('tethys_graph_size'), fld('allocated')
EMPTY = T.I((1 << 64) - 1)
ADD = ('add_edge', 'add_edge_from_source', 'add_edge_to_sink')
SOLVE = ('compute_residual_maxflow', 'parallel_compute_residual_maxflow')
CAP = 'get_vertex_out_capacity'
STEPS = ADD + SOLVE + (CAP, 'transform_residual_to_flow', 'get_vertex', 'find_source_sink_path')
MUTATE = ('insert', 'emplace', 'erase', 'clear', 'swap', 'operator=', 'push_back', 'pop_back', 'extract', 'merge')


def aopts(**k):
    return opts(opaque_if=lambda n, f=None: core.meth_of(n) in STEPS, pure=(CAP, 'get_vertex'), **k)


def own(l):
    while l and l[0] in ('fld', 'elem', 'deref'):
        if l == ('deref', ('thisptr',)):
            return True
        l = l[1]
    return False


def changed(o):
    w = [T.show(k) for k, v in o.st.store.items() if own(k) and v != ('in', k) and v[0] != 'phi']
    w += [repr(e) for e in o.trace if e.kind == 'call' and e.obj is not None and own(e.obj) and
          core.meth_of(e.name) in MUTATE + ADD + SOLVE]
    return w


def alloc(ck, n, **k):
    return ck.find(NS + n, **k)


def run(ck):
    ck.load([TU])
    ck.rule('insert', 'a list becomes one edge between its two buckets with its own index and length, or is refused with no effect')
    ck.rule('once', 'allocation is run at most once, no list is added after it, and its result cannot be read before it')
    ck.rule('ctor', 'the allocator has one vertex per bucket, keeps the page size, and starts before allocation')
    ck.rule('excess', 'each bucket gets an edge from the source for what exceeds a page, or one to the sink for what is missing')
    ck.rule('order', 'the flow is computed once, after all these edges and before buckets are filled')
    ck.rule('fill', 'the load of a bucket counts what each of its lists puts in it, and no more, and never exceeds a page')
    ck.rule('stash', 'a list is marked as stashed exactly when some of its elements do not fit in the bucket')
    ck.rule('all', 'every bucket is filled, from all the lists that end or start there, other edges being left alone')
    ck.rule('size', 'the table has an even number of buckets')
    ck.rule('told', 'two lists are never taken for the same one among those that were stashed')
    inserts(ck)
    once(ck)
    ctor(ck)
    size(ck)
    told(ck)
    for fn in alloc(ck, 'allocate'):
        E, outs = ck.run(fn, **aopts(cut='deep'))
        L = C.Loops(E, outs)
        degrees(ck, fn, E, L, outs)
        fill(ck, fn, E, L, outs)
    for r, k in (('insert', 4), ('once', 5), ('ctor', 3), ('excess', 4), ('order', 2), ('fill', 6), ('stash', 4), ('all', 4), ('size', 1), ('told', 1)):
        ck.floor(r, k)


def told(ck):
    """the order of the set of stashed edges is that of (index, direction), in whatever way"""
    orders = [(f, a, b) for f in (0, 1) for a in (-1, 1) for b in (-1, 1)]
    for fn in ck.find(D + 'EdgePtr_Templ::operator<'):
        E, outs = ck.run(fn, **opts())
        me, you = ('deref', ('thisptr',)), ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
        if all(o.kind == 'ret' and o.val == T.lt(('in', me), ('in', you)) for o in outs):
            ck.ob('told', 'order', True, '', C.loc(fn))
            continue
        d = [(('in', ('fld', me, n)), ('in', ('fld', you, n))) for n in ('index', 'is_reciprocal')]
        got = {}
        for x, p, q in [(x, p, q) for x in (-1, 0, 1) for p in (0, 1) for q in (0, 1)]:
            case = (x, p - q)
            r = got.setdefault(case, set())
            for o in outs:
                st = o.st.copy()
                ok = True
                (a, b), (e, f) = d
                for t, v in ((T.lt(e, f), p < q), (T.eq(e, f), p == q), (T.lt(f, e), p > q), (T.eq(e, T.I(p)), True), (T.eq(f, T.I(q)), True), (T.lt(a, b), x < 0), (T.eq(a, b), x == 0), (T.lt(b, a), x > 0)):
                    ok = ok and E.assume(st, t, v)
                if ok:
                    r.add(E.truth(st.facts, C.boolterm(o.val)) if o.kind == 'ret' else None)
        ok = any(all(got[c] == {c[f] == a if c[f] else c[1 - f] == b} for c in got) for f, a, b in orders)
        ck.ob('told', 'order', ok, 'is no order on the edges: less for (index, direction) compared as %s' % sorted(c for c, r in got.items() if r != {False}), C.loc(fn))


def inserts(ck):
    for fn in alloc(ck, 'insert'):
        E, outs = ck.run(fn, **aopts())
        key = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
        n, i = pv(fn, 1), pv(fn, 2)
        seen = set()
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            f = o.st.facts
            long, none, done = E.truth(f, T.lt(PAGE, n)), E.truth(f, T.eq(i, EMPTY)), E.truth(f, T.lnot(T.eq0(DONE)))
            add = [e for m in ADD for e in calls(o, m)]
            if o.kind == 'throw' and not add:
                ck.ob('insert', 'refused', True in (long, none, done), 'a list that fits is refused', *w)
                ck.ob('insert', 'refused without effect', not changed(o), 'a refused list changes %s' % ', '.join(changed(o)), *w)
                continue
            if o.kind == 'throw':
                continue
            seen.add('kept')
            ck.ob('insert', 'page', long is False, 'a list longer than a page is accepted', *w)
            ck.ob('insert', 'index', none is False, 'the index that marks other edges is accepted for a list', *w)
            ck.ob('once', 'insert', done is False, 'a list is added after the allocation', *w)
            h = [('in', ('elem', ('fld', key, 'h'), T.I(k))) for k in (0, 1)]
            ok = len(add) == 1 and core.meth_of(add[0].name) == 'add_edge' and add[0].obj == GRAPH and list(add[0].args) == [i, n] + h
            ck.ob('insert', 'edge', ok, 'it becomes %s' % ', '.join(map(repr, add)), *w)
        ck.ob('insert', 'kept', bool(seen), 'every list is refused', C.loc(fn))


def once(ck):
    for n in ('get_stashed_edges', 'get_allocation_graph', 'allocate'):
        for fn in alloc(ck, n):
            E, outs = ck.run(fn, **aopts(cut='deep'))
            want = n != 'allocate'
            for o in outs:
                w = (C.loc(fn, o.line), C.trail(o))
                done = E.truth(o.st.facts, T.lnot(T.eq0(DONE)))
                if o.kind == 'throw' and o.frm is None and not [e for e in o.trace if e.kind == 'call' and e.obj is not None and own(e.obj)]:
                    ck.ob('once', n + ' refused', done is (not want), 'a legitimate call is refused', *w)
                elif o.kind == 'throw':
                    continue
                elif o.frm is None:
                    ck.ob('once', n, done is want, 'the call goes through %s the allocation' % ('before' if want else 'after'), *w)
                if o.kind == 'ret' and want:
                    ck.ob('once', n + ' result', o.val == ('lval', STASH if 'stash' in n else GRAPH) and not changed(o),
                          'it returns %s' % T.show(o.val), *w)
                if not want:
                    v = E.load(o.st, this('allocated'))
                    ck.ob('once', 'marked', (v == T.ONE or E.truth(o.st.facts, v) is True) if o.kind == 'ret' else v in (DONE, T.ZERO) or v[0] == 'phi',
                          'the allocation is %smarked as done' % ('not ' if o.kind == 'ret' else ''), *w)


def ctor(ck):
    for fn in alloc(ck, '(ctor)', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **aopts())
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            for f, v in (('tethys_graph_size', pv(fn, 0)), ('page_size', pv(fn, 1)), ('allocated', T.ZERO)):
                ck.ob('ctor', f, E.load(o.st, this(f)) == v, 'it is %s' % T.show(E.load(o.st, this(f))), *w)
            g = [e for e in o.trace if e.kind == 'call' and e.obj == GRAPH]
            ck.ob('ctor', 'graph', len(g) == 1 and g[0].args[:1] == (pv(fn, 0),), 'the graph is built as %s' % ', '.join(map(repr, g)), *w)


def size(ck):
    for fn in ck.find(D + 'tethys_graph_size'):
        E, outs = ck.run(fn, **aopts())
        for o in outs:
            if o.kind != 'ret':
                continue
            v = o.val
            even = v[0] == 'lin' and all(c % 2 == 0 for _, c in v[1]) and v[2] % 2 == 0 or v[0] == 'int' and v[1] % 2 == 0 or \
                v[0] == 'mul' and T.I(2) in v[1:]
            ck.ob('size', 'even', even, 'the number of buckets is %s' % T.show(v), C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- before the flow
COUNT = ('pure', 'size', (('in', VERTS),))


def index_of(E, o, e, k):
    """the number of the vertex pointer passed as argument k of e"""
    l = e.alv[k] if len(e.alv) > k else None
    m = dict(e.mem or ())
    if l is not None:
        return m.get(('fld', l, 'index'), ('in', ('fld', l, 'index')))
    v = e.args[k]
    if v[0] == 'in':
        return m.get(('fld', v[1], 'index'), ('in', ('fld', v[1], 'index')))
    if v[0] == 'obj' and len(v[2]) == 1:
        return v[2][0]
    if v[0] == 'rec':
        return dict(v[1]).get('index')
    return None


def number(E, outs, x):
    """the number of the vertex x"""
    if x[0] == 'elem' and x[1] == VERTS:
        return x[2]
    if x[0] == 'rl' and x[1][0] in ('pure', 'call') and core.meth_of(x[1][1]) == 'get_vertex':
        r = {index_of(E, o, e, 0) for o in outs for e in calls(o, 'get_vertex') if e.ret == x[1]}
        return r.pop() if len(r) == 1 else None
    return None


def degrees(ck, fn, E, L, outs):
    heads = {o.frm for o in outs if calls(o, CAP)}
    ck.ob('excess', 'buckets', len(heads) == 1 and None not in heads, 'the buckets are not compared to a page one by one', C.loc(fn))
    for h in heads:
        if h is None:
            continue
        turn = None
        for o in L.iters(h):
            w = (C.loc(fn, o.line), C.trail(o))
            cs = calls(o, CAP)
            if not ck.ob('excess', 'load', len(cs) == 1 and cs[0].obj == GRAPH, 'the load of the bucket is not looked at', *w):
                continue
            turn, d = index_of(E, o, cs[0], 0), cs[0].ret
            ck.ob('excess', 'each', turn is not None and L.sweeps(h, turn, [SIZE, COUNT]), 'buckets are not taken one by one, all of them', *w)
            over, under = E.truth(o.st.facts, T.lt(PAGE, d)), E.truth(o.st.facts, T.lt(d, PAGE))
            add = [e for m in ADD for e in calls(o, m)]
            if over is True or under is False and over is None and calls(o, 'add_edge_from_source'):
                want = ('add_edge_from_source', (EMPTY, T.sub(d, PAGE), turn))
            elif under is True or over is False and under is None and calls(o, 'add_edge_to_sink'):
                want = ('add_edge_to_sink', (EMPTY, T.sub(PAGE, d), turn))
            else:
                ck.ob('excess', 'full', over is False and under is False and not add, 'a bucket is not compared to a page', *w)
                continue
            ck.ob('excess', want[0], len(add) == 1 and core.meth_of(add[0].name) == want[0] and add[0].args == want[1] and add[0].obj == GRAPH,
                  'it gets %s' % (', '.join(map(repr, add)) or 'no edge'), *w)
    # the solver: once, on every path from there to the filling
    for o in outs:
        for m in SOLVE:
            for e in calls(o, m):
                ck.ob('order', 'after the edges', o.frm in heads and o.kind != 'iter' or o.frm not in heads and
                      all(p.frm in heads for p in L.enters(o.frm)), 'the flow is computed before the edges are there', C.evloc(e), C.trail(o))
        if o.frm not in heads:
            add = [e for m in ADD for e in calls(o, m)]
            ck.ob('order', 'no late edge', not add, 'an edge is added outside the comparison', C.loc(fn, o.line), C.trail(o))
        ck.ob('order', 'not transformed', not calls(o, 'transform_residual_to_flow'), 'the flow is turned over', C.loc(fn, o.line), C.trail(o))
    for o in outs:
        if o.frm in heads and o.head not in heads and o.kind != 'throw':
            n = sum(len(calls(o, m)) for m in SOLVE)
            ck.ob('order', 'solved', n == 1, 'the flow is computed %d times before buckets are filled' % n, C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- after it
def fill(ck, fn, E, L, outs):
    scans, loads = {}, set()
    for o in outs:
        for lst, h, p, e in examined(o, EDGES):
            if o.frm != h:
                continue
            scans.setdefault(lst, {})[h] = p
            for l, v in o.st.store.items():
                if l[0] == 'var' and v == PAGE and any(('phi', h, l) in T.subterms(t) for t in o.st.facts):
                    loads.add(l)
    for lst in ('in_edges', 'out_edges'):
        ck.ob('all', lst + ' scanned', len(scans.get(lst, {})) == 1, 'the lists in %s are not looked at' % lst, C.loc(fn))
    # or the room that is left there
    rooms = {l for hs in scans.values() for h in hs for o in L.enters(h) for l, v in o.st.store.items()
             if l[0] == 'var' and v == PAGE and any(E.load(q.st, l) != ('phi', h, l) for q in L.iters(h))}
    room = len(rooms) == 1 and not loads
    loads = loads or rooms
    if not ck.ob('fill', 'load', len(loads) == 1, 'the load of a bucket is not kept', C.loc(fn)):
        return
    load = loads.pop()
    inner = {h: lst for lst, hs in scans.items() for h in hs}
    outer = set()
    for o in outs:
        for lst, h, p, e in examined(o, EDGES):
            if o.frm == h:
                edge(ck, fn, E, L, o, lst, h, p, e, load, room)
        if o.frm not in inner:
            st = [x for m in MUTATE for x in calls(o, m) if x.obj == STASH]
            ck.ob('stash', 'elsewhere', not st, 'the stash is changed outside the filling', C.loc(fn, o.line), C.trail(o))
    zero = 0
    for lst, hs in scans.items():
        for h, p in hs.items():
            ck.ob('all', lst, L.counts(h, p[2]), 'the lists are not taken one by one from the first', C.loc(fn))
            for q in L.exits(h):
                if q.kind != 'throw':
                    ck.ob('all', lst + ' to the last', exhausted(E, L, h, p, q), 'some lists are not looked at', C.loc(fn, q.line), C.trail(q))
            for q in L.enters(h):
                v = E.load(q.st, load)
                if q.frm in inner:
                    ck.ob('fill', 'carried', v == ('phi', q.frm, load), 'the load becomes %s' % T.show(v), C.loc(fn, q.line), C.trail(q))
                else:
                    zero += 1
                    ck.ob('fill', 'zero', v == (PAGE if room else T.ZERO), 'the load starts at %s' % T.show(v), C.loc(fn, q.line), C.trail(q))
            # the vertex whose lists these are
            x = p[1][1]
            i = number(E, outs, x)
            if ck.ob('all', lst + ' bucket', i is not None and i[0] == 'phi', 'the lists belong to %s' % T.show(x), C.loc(fn)):
                outer.add((i[1], i))
    ck.ob('fill', 'one load', zero == 1, 'the load of a bucket is not one count over both its kinds of lists', C.loc(fn))
    ck.ob('all', 'one bucket', len(outer) == 1, 'the two kinds of lists belong to different buckets', C.loc(fn))
    for H, t in outer:
        ck.ob('all', 'every bucket', L.sweeps(H, t, [COUNT, SIZE]), 'buckets are not filled one by one, all of them', C.loc(fn))


def edge(ck, fn, E, L, o, lst, h, p, e, load, room=False):
    w = (C.loc(fn, o.line), C.trail(o))
    ff = ('fld', e, 'rec_flow' if lst == 'in_edges' else 'flow')
    old, new = ('in', ff), E.load(o.st, ff)
    # what it was when the list was taken: unknown, possibly changed by an earlier turn
    for t in list(o.st.facts) + list(o.st.store.values()):
        for x in T.subterms(t):
            if x[0] == 'phi' and len(x) == 3 and x[2] == ff:
                old = x
    a, b = ('phi', h, load), E.load(o.st, load)
    f = o.st.facts
    if room:
        a, b = T.sub(PAGE, a), T.sub(PAGE, b)
    st = [x for m in MUTATE for x in calls(o, m) if x.obj == STASH]
    other = [T.show(k) for k, v in o.st.store.items() if own(k) and k != ff and v != ('in', k) and v[0] != 'phi' and k != this('allocated') and
             not core_under(k, STASH)]
    ck.ob('all', lst + ' only', not other, 'it also changes %s' % ', '.join(other), *w)
    empty = E.truth(f, T.eq(('in', ('fld', e, 'value_index')), EMPTY))
    if empty is True:
        ck.ob('all', lst + ' other edges', new == old and b == a and not st, 'an edge that is not a list is counted', *w)
        return
    ck.ob('all', lst + ' lists', empty is False, 'edges that are not lists are counted', *w)
    ck.ob('fill', lst + ' counted', b == T.add(a, new) or E.truth(f, T.eq(b, T.add(a, new))) is True, 'the load becomes %s, the list puts %s there' % (T.show(b), T.show(new)), *w)
    ck.ob('fill', lst + ' page', b == PAGE or E.truth(f, T.lt(PAGE, b)) is False, 'the load may exceed a page', *w)
    over = E.truth(f, T.lt(PAGE, T.add(a, old)))
    if new != old and E.truth(f, T.eq(new, old)) is not True:
        ck.ob('fill', lst + ' full', b == PAGE and over is True, 'elements that fit are left out', *w)
    ok = [x for x in st if core.meth_of(x.name) in ('insert', 'emplace') and len(x.args) == 1 and x.args[0] == ('in', p)]
    if over is True:
        ck.ob('stash', lst + ' added', len(ok) == 1 and len(st) == 1, 'elements left out are in no stash', *w)
    else:
        ck.ob('stash', lst + ' not added', over is False and not st, 'a list that fits is marked as stashed', *w)


def core_under(k, l):
    while isinstance(k, tuple) and k:
        if k == l:
            return True
        if k[0] not in ('fld', 'elem', 'deref'):
            return False
        k = k[1]
    return False
