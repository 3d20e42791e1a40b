"""P14: a path found in the allocation graph is a real way from the source to the sink, and its flow fits every edge"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import p28
from rules.p12 import NS, TU, opts, pv, this
from rules.p13 import (EDGES, SINK, SOURCE, VERTS, PUSH, POP, calls, examined, exhausted, idx, pushes, pvl, same_vertex, unmask,
                       vertex)

G = 'sse::tethys::details::'
NULL = ('glob', G + 'kNullEdgePtr')
PURE = ('get_vertex', 'edge_flow')
MAX = T.I((1 << 64) - 1)


def fields(E, st, l):
    """(index, direction) of the edge pointer held by an lvalue"""
    v = E.load(st, l)
    if v[0] == 'in' and v[1] != l and v[1][0] != 'glob':
        return fields(E, st, v[1])
    return unmask(E.load(st, ('fld', l, 'index'))), E.load(st, ('fld', l, 'is_reciprocal'))


def ptr(E, st, v):
    """(index, direction) of an edge pointer value"""
    if v[0] == 'rec':
        d = dict(v[1])
        return unmask(d.get('index')), d.get('is_reciprocal')
    return fields(E, st, v[1]) if v[0] == 'in' else (None, None)


def backward(E, facts, r):
    if r[0] == 'int':
        return r[1] != 0
    return E.truth(facts, r)


def is_null(E, facts, l, st=None):
    """does the edge pointer held by l designate nothing?"""
    for v in (('in', l), ('phi', None, l)) if st is None else (E.load(st, l), ('in', l)):
        i = [('in', ('fld', l, 'index'))] + ([E.load(st, ('fld', l, 'index'))] if st is not None else [])
        for a, b in [(v, ('in', NULL))] + [(x, ('in', ('fld', NULL, 'index'))) for x in i]:
            t = E.truth(facts, T.eq(a, b))
            if t is None:
                t = E.truth(facts, T.eq(b, a))
            if t is not None:
                return t
    return None


def renamed(t, a, b):
    if isinstance(t, tuple):
        return tuple(renamed(x, a, b) for x in t)
    return b if t == a else t


def odd(E, facts):
    """an edge pointer has the number of the null one, and its direction only differs: there is none"""
    for k in facts:
        if T.mentions(k, ('fld', NULL, 'is_reciprocal')) and E.truth(facts, T.eq0(k)) is False:
            i = renamed(k, 'is_reciprocal', 'index')
            i = T.from_lin(*T.to_lin(i)) if i[0] == 'lin' else i
            if any(E.truth(facts, T.eq0(x)) is True for x in (i, T.sub(T.ZERO, i))):
                return True
    return False


def run(ck):
    ck.load([TU])
    ck.rule('begin', 'the search starts from the source, with no vertex visited, and takes one waiting vertex at a time')
    ck.rule('follow', 'an edge is followed only with flow left in that direction, to an unvisited vertex of the component, queued once')
    ck.rule('parent', 'a vertex that is queued remembers the edge it was reached by, in the direction taken, and is marked visited')
    ck.rule('sink', 'the last edge of a path is recorded only when it has flow left and reaches the sink')
    ck.rule('reason', 'an edge is passed over only without flow left, or towards a visited vertex, the source or another component')
    ck.rule('all', 'every edge leaving or entering a waiting vertex is looked at, and every waiting vertex, unless the sink is found')
    ck.rule('walk', 'the path goes back from the sink, each edge being the one by which its end was reached, until the source')
    ck.rule('order', 'the path lists its edges from the source to the sink, all of them')
    ck.rule('amount', 'the flow of a path is the least flow left along its edges; it is zero without a path')
    ck.rule('same', 'two vertices or edges are taken for the same when their numbers and directions are, and only then')
    same(ck)
    for fn in ck.find(NS + 'find_source_sink_path'):
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: core.meth_of(n) in PURE, pure=PURE))
        outs = [o for o in outs if not odd(E, o.st.facts)]
        L = C.Loops(E, outs)
        last, scans = search(ck, fn, E, L, outs)
        if last is not None:
            path(ck, fn, E, L, outs, last)
    for r, k in (('same', 2), ('begin', 2), ('follow', 4), ('parent', 4), ('sink', 2), ('reason', 6), ('all', 3), ('walk', 4), ('order', 2), ('amount', 3)):
        ck.floor(r, k)


def same(ck):
    D = 'sse::tethys::details::'
    for name, fields in (('EdgePtr_Templ', ('index', 'is_reciprocal')), ('VertexPtr', ('index',))):
        for op in ('==', '!='):
            for fn in ck.find('%s%s::operator%s' % (D, name, op), required=False):
                if len(fn.params) != 1:
                    continue
                E, outs = ck.run(fn, **opts())
                me, you = ('deref', ('thisptr',)), ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
                w = C.loc(fn)
                narrow = [e for b in fn.blocks.values() for top in b['e'] for e in p28.walk(top)
                          if e.get('k') == 'cast' and e.get('ck') == 'BitCast' and (p28.bits((e.get('t') or '').replace('*', '').strip()) or (64,))[0] < 64]
                comp = [e for o in outs for e in C.calls(o, 'memcmp')]
                ck.ob('same', '%s %s' % (name, op), not narrow and all(len(e.args) == 3 and e.args[2] == T.I(8) for e in comp), 'only part of them is compared', w)
                if comp:
                    continue
                for differ in [None] + list(fields):
                    got = set()
                    for o in outs:
                        st = o.st.copy()
                        ok = E.assume(st, T.eq(('in', me), ('in', you)), differ is None)
                        for f in fields:
                            a, b = ('in', ('fld', me, f)), ('in', ('fld', you, f))
                            ok = ok and E.assume(st, T.eq(a, b), f != differ)
                        if ok:
                            got.add(E.truth(st.facts, C.boolterm(o.val)) if o.kind == 'ret' else None)
                    ck.ob('same', '%s %s' % (name, op), got == {(differ is None) == (op == '==')}, 'those that differ in %s: %s' % (differ or 'nothing', sorted(map(str, got))), w)


def visited_fact(E, facts, i):
    """is the vertex at index i marked?"""
    for t in facts:
        for s in T.subterms(t):
            if s[0] in ('ev', 'elem') and len(s) == 3 and s[2] == i and s[1] != VERTS and s[1] != ('in', VERTS):
                lo, hi, ne = facts[t]
                if (lo, hi) == (0, 0):
                    return False
                if lo == 1 or 0 in ne:
                    return True
    return None


def search(ck, fn, E, L, outs):
    scans, last = {}, None
    component = pv(fn, 0)
    for o in outs:
        for lst, h, p, e in examined(o):
            for x in recorded(E, o, p) if o.frm == h else ():
                last = x.obj
    looked = {}
    for o in outs:
        for lst, h, p, e in examined(o):
            if o.frm == h and p not in looked.setdefault((lst, h), []):
                looked[lst, h].append(p)
    for o in outs:
        ex = [x for x in examined(o) if o.frm == x[1]]
        for lst, h, p, e in ex:
            scans.setdefault(lst, set()).add(h)
            w = (C.loc(fn, o.line), C.trail(o))
            fwd = lst == 'out_edges'
            d = ('in', ('fld', e, 'end' if fwd else 'start'))
            di = idx(d[1])
            left = ('in', ('fld', e, 'flow' if fwd else 'rec_flow'))
            i0, r0 = ('in', ('fld', p, 'index')), ('in', ('fld', p, 'is_reciprocal'))
            want = (r0, T.ZERO) if fwd else (T.lnot(r0), T.ONE)
            told = [x for t in o.st.facts for x in T.subterms(t) if x and x[0] == 'pure' and core.meth_of(x[1]) == 'edge_flow' and
                    ptr(E, o.st, x[2][-1])[0] == i0 and ptr(E, o.st, x[2][-1])[1] in want]
            avail = None
            for x in [left] + told:
                for t in (T.lt(T.ZERO, x), T.lnot(T.eq0(x))):
                    avail = E.truth(o.st.facts, t) if avail is None else avail
            sink, source = same_vertex(E, o.st.facts, d, SINK), same_vertex(E, o.st.facts, d, SOURCE)
            seen = visited_fact(E, o.st.facts, di)
            cs = [('in', ('fld', x, 'component')) for x in (vertex(d), ('elem', VERTS, di))]
            cs += [('phi', h, x[1]) for x in cs]
            comp = [E.truth(o.st.facts, T.eq(c, component)) for c in cs]
            comp = ([x for x in comp if x is not None] or [None])[0]
            ps = pushes(o)
            ends = recorded(E, o, p)
            if ps:
                ck.ob('follow', lst + ' flow', avail is True, 'an edge without flow left is followed', *w)
                ck.ob('follow', lst + ' vertex', len(ps) == 1 and ps[0].args[0] == d and sink is False and source is not True,
                      'queues %s' % T.show(ps[0].args[0]), *w)
                ck.ob('follow', lst + ' new', seen is False, 'a vertex already visited is queued again', *w)
                ck.ob('follow', lst + ' component', comp is True, 'a vertex of another component is queued', *w)
                pe = [('fld', x, 'parent_edge') for x in (vertex(d), ('elem', VERTS, di))]
                fs = [fields(E, o.st, x) for x in pe]
                ck.ob('parent', lst, any(f[0] == i0 and f[1] in want for f in fs), 'remembers %s/%s' % tuple(T.show(x) for x in fs[0]), *w)
                ck.ob('parent', lst + ' visited', marked(E, o, di), 'the vertex is not marked visited', *w)
            elif ends:
                for x in ends:
                    f = arg_fields(E, o, x)
                    ck.ob('sink', lst, avail is True and sink is True, 'an edge that does not bring flow to the sink ends a path', *w)
                    ck.ob('sink', lst + ' edge', f[1] in want, 'records %s/%s' % tuple(T.show(y) for y in f), *w)
                    ck.ob('sink', lst + ' one', x.obj == last, 'several edges end a path', *w)
            else:
                ck.ob('reason', lst, avail is False or source is True or seen is True or comp is False,
                      'an edge with flow left is not followed', *w)
            for q in L.exits(h):
                if q.kind == 'throw':
                    continue
                done = any(exhausted(E, L, h, p2, q) for p2 in looked[lst, h])
                found = [x for x in calls(q, 'operator=') if x.obj == last and x.obj is not None]
                ck.ob('all', lst, done or bool(found), 'some edges are not looked at', C.loc(fn, q.line), C.trail(q))
            ck.ob('all', lst + ' from the first', L.counts(h, p[2]), 'some edges are not looked at', *w)
    for lst in ('out_edges', 'in_edges'):
        ck.ob('all', lst + ' scanned', lst in scans, 'the edges in %s are not looked at' % lst, C.loc(fn))
    inner = {h for s in scans.values() for h in s}
    # the waiting vertices
    qs = {e.obj for o in outs for e in pushes(o)}
    first = [o for o in outs if o.frm is None and o.kind == 'enter']
    for o in first:
        ps = pushes(o)
        ck.ob('begin', 'source', len(ps) == 1 and ps[0].args[0] == ('in', SOURCE), 'starts from %s' % [T.show(x.args[0]) for x in ps],
              C.loc(fn, o.line), C.trail(o))
    # the marks: all false at first
    marks = {m for o in outs for m in mark_sets(o)}
    for o in first:
        made = [x for x in o.trace if x.kind == 'call' and x.obj in marks and core.meth_of(x.name) in FILLS]
        for x in made:
            fill = [a for a in x.args[0 if core.meth_of(x.name).endswith('_back') else 1:] if a[0] != 'obj']
            ck.ob('begin', 'unvisited', all(a == T.ZERO or a[0] in ('none', 'pure', 'call') for a in fill),
                  'vertices are marked from the start (%s)' % ', '.join(T.show(a) for a in fill), C.evloc(x), C.trail(o))
    turns = {}
    for o in outs:
        for e in [x for n in POP for x in calls(o, n) if x.obj in qs]:
            turns.setdefault(o.frm, []).append(o)
            w = (C.evloc(e), C.trail(o))
            ck.ob('begin', 'one', len([x for n in POP for x in calls(o, n) if x.obj in qs]) == 1 and o.kind == 'enter' and o.head in inner,
                  'a vertex is taken without being looked at', *w)
            # looked at: the vertex taken (its front or back, as it stood)
            side = 'front' if core.meth_of(e.name) != 'pop_back' else 'back'
            good = {('ev', ('phi', o.frm, e.obj), T.ZERO)} if side == 'front' else {
                ('ev', ('phi', o.frm, e.obj), T.sub(('pure', 'size', (('phi', o.frm, e.obj),)), T.ONE))}
            vs = {t for x in L.iters(o.head) for _, h, p, _ in examined(x) for t in vertices_of(E, x, p, good) if h == o.head}
            ck.ob('begin', 'taken', bool(vs) and vs <= good, 'the vertex looked at is %s' % ', '.join(T.show(x) for x in vs), *w)
    for H in turns:
        for q in outs:
            if q.frm == H and q.head not in inner and q.kind != 'throw':
                empty = any(E.truth(q.st.facts, T.eq0(('pure', 'size', (('phi', H, x),)))) is True for x in qs)
                found = last is not None and (reached(E, L, q, last) or raised(E, L, q, last))
                ck.ob('all', 'waiting', empty or found, 'the search ends while vertices wait', C.loc(fn, q.line), C.trail(q))
    ck.ob('begin', 'loop', bool(turns), 'no waiting vertex is taken', C.loc(fn))
    return last, inner


FILLS = ('(ctor)', 'vector', 'resize', 'assign', 'push_back', 'emplace_back')


def mark_sets(o):
    """the local containers in which a vertex is marked"""
    for l, v in o.st.store.items():
        if l[0] == 'elem' and l[1][0] == 'var' and v == T.ONE:
            yield l[1]
    for x in calls(o, 'operator='):
        if x.args and x.args[0] == T.ONE and x.objv and x.objv[0] == 'ev':
            for y in calls(o, 'operator[]') + calls(o, 'at'):
                if y.obj is not None and y.obj[0] == 'var' and y.args == (x.objv[2],):
                    yield y.obj


def recorded(E, o, p):
    """the edge pointer in p (or its reverse) is kept in a local"""
    return [x for x in calls(o, 'operator=') if x.obj is not None and x.obj[0] == 'var' and x.alv and x.alv[0] is not None and
            arg_fields(E, o, x)[0] == ('in', ('fld', p, 'index'))]


def arg_fields(E, o, x):
    m = dict(x.mem or ())
    l = x.alv[0]
    if ('fld', l, 'index') in m:
        return unmask(m[('fld', l, 'index')]), m.get(('fld', l, 'is_reciprocal'), ('none',))
    v = x.args[0]
    if v[0] == 'in':
        return ('in', ('fld', v[1], 'index')), ('in', ('fld', v[1], 'is_reciprocal'))
    if v[0] == 'ev':
        return ('fv', v, 'index'), ('fv', v, 'is_reciprocal')
    return ('none',), ('none',)


def vertices_of(E, x, p, taken):
    """the vertex pointer whose list p lies in, as far as the piece x tells"""
    r = [y[2][1] for y in T.subterms(p[1]) if y[0] == 'pure' and core.meth_of(y[1]) == 'get_vertex'][:1]
    v = p[1][1] if p[1][0] == 'fld' else ()
    if r or not v:
        return r
    src = idx(SOURCE)
    for t in taken:
        i = ('fv', t, 'index')
        is_source = E.truth(x.st.facts, T.eq0(T.sub(i, src)))
        if is_source is None:
            is_source = E.truth(x.st.facts, T.eq0(T.sub(src, i)))
        if v == this('source') and is_source is True or v == ('elem', VERTS, i) and is_source is False:
            return [t]
    return [('?', p[1])]


def marked(E, o, i):
    for x in calls(o, 'operator='):
        if x.args and x.args[0] == T.ONE and x.objv and x.objv[0] == 'ev' and x.objv[2] == i:
            return True
    return any(l[0] == 'elem' and l[2] == i and l[1] != VERTS and v == T.ONE for l, v in o.st.store.items())


def is_flag(E, L, l, last):
    """is l a flag that is down at first, and raised exactly where the last edge is recorded?"""
    up = down = False
    for o in L.outs:
        new = E.load(o.st, l)
        rec = any(x.obj == last for x in calls(o, 'operator='))
        if o.frm is None:
            down = down or new == T.ZERO
            if new != T.ZERO and o.kind != 'throw' or rec:
                return False
            continue
        if rec and new != T.ONE:
            return False
        if new == T.ONE:
            up = True
            if not rec and E.truth(o.st.facts, T.eq0(('phi', o.frm, l))) is not False and \
                    not any(E.load(p.st, l) == T.ONE for p in L.enters(o.frm)):
                return False
        elif new[0] != 'phi' or new[2] != l:
            return False
    return up and down


def reached(E, L, o, last):
    """is the sink known to have been reached, or not to, at the end of o?"""
    n = is_null(E, o.st.facts, last, o.st)
    return raised(E, L, o, last) if n is None else not n


def raised(E, L, o, last):
    """the same, as told by a flag"""
    for t in o.st.facts:
        if t[0] == 'phi' and t[2][0] == 'var' and t[2] != last:
            z = E.truth(o.st.facts, T.eq0(t))
            if z is not None and is_flag(E, L, t[2], last):
                return not z
    return None


# ---------------------------------------------------------------- the path itself
def path(ck, fn, E, L, outs, S):
    none = [o for o in outs if o.kind == 'ret' and reached(E, L, o, S) is False]
    some = [o for o in outs if o.kind == 'ret' and o not in none]
    pf = fn.params[1]
    out = ('deref', pv(fn, 1))
    for o in none:
        w = (C.loc(fn, o.line), C.trail(o))
        ck.ob('order', 'none', empty_vector(E, o), 'a path is returned although the sink was not reached', *w)
        if E.truth(o.st.facts, T.eq0(pv(fn, 1))) is not True:
            ck.ob('amount', 'none', E.load(o.st, out) == T.ZERO, 'the flow of no path is %s' % T.show(E.load(o.st, out)), *w)
    ck.ob('order', 'both', bool(none) and bool(some), 'paths are not told from their absence', C.loc(fn))
    # loops that walk back
    walks = {}
    for o in outs:
        if o.kind == 'iter' and o.frm == o.head:
            for l, v in o.st.store.items():
                if l[0] == 'var' and v[0] == 'addr' and v[1][0] == 'rl' and v[1][1][0] == 'pure' and core.meth_of(v[1][1][1]) == 'get_vertex':
                    walks.setdefault(o.head, set()).add(l)
    ck.ob('walk', 'back', bool(walks), 'the path is not followed back', C.loc(fn))
    for h, curs in walks.items():
        for cur in curs:
            pe = ('fld', ('deref', ('phi', h, cur)), 'parent_edge')
            for o in L.enters(h):
                step(ck, fn, E, o, cur, S, 'first')
                ck.ob('walk', 'reached', reached(E, L, o, S) is True, 'a path is built although the sink was not reached',
                      C.loc(fn, o.line), C.trail(o))
            for o in L.iters(h):
                step(ck, fn, E, o, cur, pe, 'next')
                ck.ob('walk', 'goes on', is_null(E, o.st.facts, pe) is False, 'goes on from a vertex reached by no edge',
                      C.loc(fn, o.line), C.trail(o))
            for o in L.exits(h):
                if o.kind != 'throw':
                    ck.ob('walk', 'end', is_null(E, o.st.facts, pe) is True, 'the path ends before the source', C.loc(fn, o.line), C.trail(o))
    amount(ck, fn, E, L, outs, S, walks, some, out)
    order(ck, fn, E, L, outs, S, walks, some)


def step(ck, fn, E, o, cur, l, n):
    """cur becomes the vertex at which the edge held by l starts, in the direction it is taken"""
    i, r = fields(E, o.st, l)
    b = backward(E, o.st.facts, r)
    w = (C.loc(fn, o.line), C.trail(o))
    if not ck.ob('walk', n + ' direction', b is not None, 'the direction of the edge is not looked at', *w):
        return
    e = ('elem', EDGES, i)
    want = ('addr', vertex(('in', ('fld', e, 'end' if b else 'start'))))
    got = E.load(o.st, cur)
    ck.ob('walk', n, got == want, 'goes to %s' % T.show(got), *w)


def empty_vector(E, o):
    v = o.val
    if v is None:
        return False
    if v[0] == 'obj':
        return not [a for a in v[2] if a[0] != 'obj']
    return E.truth(o.st.facts, T.eq0(('pure', 'size', (v,)))) is True


def edge_flow(E, st, l):
    i, r = fields(E, st, l)
    return i, r


def is_flow(t, E, st, l):
    """is t the flow left along the edge held by l?"""
    if t[0] == 'pure' and core.meth_of(t[1]) == 'edge_flow':
        a = t[2][-1]
        return a in (E.load(st, l), ('in', l)) or (a[0] == 'in' and fields(E, st, a[1]) == fields(E, st, l))
    i, r = fields(E, st, l)
    e = ('elem', EDGES, i)
    b = backward(E, st.facts, r)
    return b is not None and t == ('in', ('fld', e, 'rec_flow' if b else 'flow'))


def least(E, st, v, l, prev):
    """v is the least of prev and the flow left along the edge held by l"""
    if v[0] == 'in' and v[1][0] == 'rl':
        v = v[1][1]
    if v[0] == 'pure' and core.meth_of(v[1]) == 'min' and len(v[2]) == 2:
        a, b = v[2]
        return (a == prev and is_flow(b, E, st, l)) or (b == prev and is_flow(a, E, st, l))
    fs = [x for t in list(st.facts) + [v] for x in T.subterms(t) if is_flow(x, E, st, l)]
    if v == prev:
        return any(E.truth(st.facts, T.lt(f, v)) is False for f in fs)
    return is_flow(v, E, st, l) and (prev == MAX or E.truth(st.facts, T.lt(prev, v)) is False)


def amount(ck, fn, E, L, outs, S, walks, some, out):
    vals = {E.load(o.st, out) for o in some if E.truth(o.st.facts, T.eq0(pv(fn, 1))) is not True}
    vals |= {v for o in outs for l, v in o.st.store.items() if l == out and v[0] == 'phi' and o in some}
    ck.ob('amount', 'stored', bool(vals) and ('in', out) not in vals, 'the flow of the path is not handed back', C.loc(fn))
    seen = set()
    todo = list(vals)
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if v[0] == 'phi' and v[2] == out:
            # carried through a loop that does not change it
            if not ck.ob('amount', 'kept', all(E.load(o.st, out) == v for o in L.iters(v[1])), 'the flow is changed afterwards', C.loc(fn)):
                continue
            todo += [E.load(o.st, out) for o in L.enters(v[1]) if E.truth(o.st.facts, T.eq0(pv(fn, 1))) is not True]
            continue
        if not ck.ob('amount', 'walked', v[0] == 'phi' and v[1] in walks, 'the flow of the path is %s' % T.show(v), C.loc(fn)):
            continue
        h, l = v[1], v[2]
        for o in L.enters(h):
            got = E.load(o.st, l)
            ck.ob('amount', 'first', least(E, o.st, got, S, MAX), 'starts from %s' % T.show(got), C.loc(fn, o.line), C.trail(o))
        for cur in walks[h]:
            pe = ('fld', ('deref', ('phi', h, cur)), 'parent_edge')
            for o in L.iters(h):
                got = E.load(o.st, l)
                ck.ob('amount', 'next', least(E, o.st, got, pe, v), 'becomes %s' % T.show(got), C.loc(fn, o.line), C.trail(o))


def order(ck, fn, E, L, outs, S, walks, some):
    """the path is filled from its end: position n - 1 holds the last edge, n - 1 - i the edge found at step i"""
    for o in some:
        w = (C.loc(fn, o.line), C.trail(o))
        h = o.frm
        if not ck.ob('order', 'built', h in walks, 'the path is returned before it is complete', *w):
            continue
        if backwards(ck, fn, E, L, S, walks, h, o):
            continue
        put = [(q, e) for q in L.iters(h) for e in writes(q)]
        local = {e[0] for _, e in put}
        head = [(q, e) for q in L.enters(h) for e in writes(q) or filled(E, q, local)]
        vec = {e[0] for _, e in put}
        if not ck.ob('order', 'filled', len(vec) == 1 and {e[0] for _, e in head} == vec and len(head) == len(L.enters(h)),
                     'not every edge of the path is stored', *w):
            continue
        for q in L.enters(h) + L.iters(h):
            k = len([1 for x, _ in put + head if x is q])
            ck.ob('order', 'each', k == 1, 'an edge is stored %d times' % k, C.loc(fn, q.line), C.trail(q))
        v = vec.pop()
        sizes = {n for q in L.enters(h) for n in length(E, q, v)}
        for q, e in head:
            ww = (C.loc(fn, q.line), C.trail(q))
            ck.ob('order', 'last', any(e[1] == T.sub(n, T.ONE) for n in sizes) and e[2] == fields(E, q.st, S), 'the last edge goes to %s' %
                  T.show(e[1]), *ww)
        for q, e in put:
            ww = (C.loc(fn, q.line), C.trail(q))
            ok = False
            for n in sizes:
                i = T.sub(T.sub(n, T.ONE), e[1])
                ok = ok or (L.starts(h, i) == {T.ONE} and L.steps(h, i) == {T.ONE})
            ck.ob('order', 'position', ok, 'stored at %s' % T.show(e[1]), *ww)
            pes = [('fld', ('deref', ('phi', h, c)), 'parent_edge') for c in walks[h]]
            ck.ob('order', 'edge', any(e[2] == fields(E, q.st, x) for x in pes), 'stores %s' % T.show(e[2][0]), *ww)
        for n in sizes:
            # the number of edges was counted by the same walk
            ok = n[0] == 'phi' and n[1] in walks and L.starts(n[1], n) == {T.ONE} and L.steps(n[1], n) == {T.ONE}
            ck.ob('order', 'length', ok, 'the length of the path is %s' % T.show(n), *w)


def appended(q):
    """(vector, (index, direction)) put at the end of a local list of edges"""
    return [(e.obj, arg_fields(None, q, e)) for n in ('push_back', 'emplace_back') for e in calls(q, n)
            if e.obj is not None and e.obj[0] == 'var' and len(e.args) == 1 and e.alv and e.alv[0] is not None]


def backwards(ck, fn, E, L, S, walks, h, o):
    """the path is built from its last edge by appending, and turned round at the end"""
    turned = [e.args[0][1] for e in calls(o, 'reverse') if len(e.args) == 2 and all(a[0] == 'iter' for a in e.args) and
              e.args[0][1] == e.args[1][1] and e.args[0][2] == T.ZERO and e.args[1][2] == E.size_of(o.st, e.args[0][1])]
    if not turned:
        return False
    v = turned[0]
    ck.ob('order', 'turned', len(calls(o, 'reverse')) == 1 and not [e for e in appended(o) if e[0] == v], 'the path is not turned round once',
          C.loc(fn, o.line), C.trail(o))
    for q in L.enters(h):
        new = [e for e in q.trace if e.kind == 'call' and e.obj == v and '(ctor)' in e.name and len([a for a in e.args if a[0] != 'obj'])]
        ck.ob('order', 'last', [f for x, f in appended(q) if x == v] == [fields(E, q.st, S)] and not new and
              not [e for e in calls(q, 'resize') if e.obj == v], 'the path does not start as its last edge alone', C.loc(fn, q.line), C.trail(q))
    for q in L.iters(h):
        pes = [fields(E, q.st, ('fld', ('deref', ('phi', h, c)), 'parent_edge')) for c in walks[h]]
        got = [f for x, f in appended(q) if x == v]
        ck.ob('order', 'edge', len(got) == 1 and got[0] in pes, 'appends %d edges' % len(got), C.loc(fn, q.line), C.trail(q))
    return True


def filled(E, q, local):
    """the last place of a list that is made with one edge everywhere"""
    for e in q.trace:
        if e.kind == 'call' and e.obj in local and '(ctor)' in e.name and len(e.args) >= 2 and e.alv and e.alv[1] is not None:
            m = dict(e.mem or ())
            l = e.alv[1]
            f = (unmask(m[('fld', l, 'index')]), m.get(('fld', l, 'is_reciprocal'), ('none',))) if ('fld', l, 'index') in m else \
                fields(E, q.st, l)
            return [(e.obj, T.sub(e.args[0], T.ONE), f)]
    return []


def length(E, o, v):
    for e in o.trace:
        if e.kind == 'call' and e.obj == v and e.args and (core.meth_of(e.name) == 'resize' or '(ctor)' in e.name):
            yield e.args[0]
    x = E.load(o.st, v)
    if x[0] == 'obj' and x[2]:
        yield x[2][0]


def writes(o):
    """(vector, position, (index, direction)) stored on the path into a local list of edges"""
    r = []
    for e in calls(o, 'operator='):
        if e.obj and e.obj[0] == 'elem' and e.obj[1][0] == 'var' and e.alv:
            m = dict(e.mem or ())
            r.append((e.obj[1], e.obj[2], arg_fields(None, o, e)))
    return r
