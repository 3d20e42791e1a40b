"""P13: flow is neither made nor lost in the allocation graph: edges, updates, augmentation, sums, components"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p12 import NS, TU, opts, own, pv, this

G = 'sse::tethys::details::'
EDGES = ('fld', this('edges'), 'edges')
VERTS = ('fld', this('vertices'), 'vertices')
SINK, SOURCE = ('glob', G + 'kSinkPtr'), ('glob', G + 'kSourcePtr')


def idx(l):
    return ('in', ('fld', l, 'index'))


def calls(o, n):
    return [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == n]


def added(o):
    return [e for n in ('push_back', 'emplace_back') for e in calls(o, n) if len(e.args) == 1]


def same_vertex(E, facts, t, glob):
    """does the vertex pointer value t (an lvalue's contents) designate this special vertex?"""
    if t == ('in', glob):
        return True
    for a in (T.sub(idx(t[1]), idx(glob)), T.sub(idx(glob), idx(t[1]))) if t[0] == 'in' else ():
        v = E.truth(facts, T.eq0(a))
        if v is not None:
            return v
    return None


def writes(o):
    """fields of the object, or of vertices and edges reached from it, that the path changed"""
    return {k: v for k, v in o.st.store.items() if v != ('in', k) and v[0] != 'phi' and
            (own(k) or core_root(k)[0] == 'rl')}


def core_root(l):
    while l[0] in ('fld', 'elem', 'deref') and isinstance(l[1], tuple):
        l = l[1]
    return l


def run(ck):
    ck.load([TU])
    ck.rule('edge', 'a new edge has the given index and capacity, all its capacity left, nothing sent, and the given ends')
    ck.rule('listed', 'a new edge is listed once at its start and once at its end, under the pointer handed back')
    ck.rule('access', 'a pointer designates the edge or vertex at its position, or the sink or the source; looking changes nothing')
    ck.rule('update', 'sending flow moves exactly that amount between the two directions of the edge the pointer designates')
    ck.rule('augment', 'each turn looks for one path and sends its flow once along every edge of it; turns end only without a path')
    ck.rule('jobs', 'the parallel solver runs one job for each component, none twice, and waits for all of them')
    ck.rule('final', 'the final flow of every edge is what was sent along it, and nothing more can be sent back')
    ck.rule('sums', 'a reported flow or capacity is that of the edge, or the sum over exactly the edges entering or leaving')
    ck.rule('components', 'vertices joined by an edge get one component number; numbers run from 1 to their count')
    edges(ck)
    access(ck)
    flows(ck)
    for fn in ck.find(NS + 'compute_residual_maxflow'):
        augment(ck, fn, T.ZERO)
    jobs(ck)
    final(ck)
    sums(ck)
    for fn in ck.find(NS + 'compute_connected_components'):
        components(ck, fn)
    for r, k in (('edge', 15), ('listed', 6), ('access', 6), ('update', 2), ('augment', 6), ('jobs', 3), ('final', 3), ('sums', 6), ('components', 6)):
        ck.floor(r, k)


# ---------------------------------------------------------------- edges
ENDS = {'add_edge': (2, 3), 'add_edge_from_source': (SOURCE, 2), 'add_edge_to_sink': (2, SINK)}


def number(ck, g):
    """the constant a global vertex pointer is made from"""
    j = (ck.prog.globals.get(g[1]) or {}).get('init')
    while j:
        if 'cv' in j:
            return j['cv']
        a = j.get('a') or []
        j = j.get('e') or (a[0] if len(a) == 1 else None)
    return None


def edges(ck):
    a, b = number(ck, SINK), number(ck, SOURCE)
    ck.ob('access', 'source and sink', a is None or a != b, 'the source and the sink have the same number %s' % a)
    for n, ends in ENDS.items():
        for fn in ck.find(NS + n):
            E, outs = ck.run(fn, **opts(pure=()))
            for o in outs:
                if o.kind != 'ret' or E.truth(o.st.facts, T.eq(idx(SINK), idx(SOURCE))) is True:
                    continue
                one_edge(ck, E, fn, o, n, ends)


def one_edge(ck, E, fn, o, n, ends):
    w = (C.loc(fn, o.line), C.trail(o))
    push = [e for e in added(o) if e.obj == EDGES]
    if not ck.ob('edge', n, len(push) == 1, '%d edges are added' % len(push), *w):
        return
    e = push[0]
    mem = {}
    for l, v in e.mem or ():
        if e.alv[0] is not None and l[0] == 'fld':
            p, r = (), l
            while r[0] == 'fld' and r != e.alv[0]:
                p, r = (r[2],) + p, r[1]
            if r == e.alv[0]:
                mem[p] = v
    want = [(('value_index',), pv(fn, 0)), (('capacity',), pv(fn, 1)), (('flow',), pv(fn, 1)), (('rec_flow',), T.ZERO)]
    for p, v in want:
        ck.ob('edge', n + ' ' + '.'.join(p), mem.get(p) == v, 'it is %s' % T.show(mem.get(p, ('none',))), C.evloc(e), w[1])
    for f, x in zip(('start', 'end'), ends):
        v, i = mem.get((f,)), mem.get((f, 'index'))
        if i is None and v is not None and v[0] == 'in' and v[1][0] in ('tmp', 'var'):
            i = E.load(o.st, ('fld', v[1], 'index'))
        ok = i == pv(fn, x) if isinstance(x, int) else v == ('in', x) or i == idx(x)
        ck.ob('edge', n + ' ' + f, ok, 'it is %s' % T.show(i or v or ('none',)), C.evloc(e), w[1])
    # the pointer handed back
    ri, rr = ptr_fields(E, o, o.val)
    after = ('pure', 'size', (E.load(o.st, EDGES),))
    good = (T.sub(after, T.ONE), ('pure', 'size', (('in', EDGES),)))
    ck.ob('listed', n + ' pointer', unmask(ri) in good and rr == T.ZERO, 'the pointer handed back is %s/%s' % (T.show(ri), T.show(rr)), *w)
    lists = [p for p in added(o) if p.obj != EDGES and p.obj[0] == 'fld' and p.obj[2] in ('in_edges', 'out_edges')]
    for f, x in zip(('out_edges', 'in_edges'), ends):
        if isinstance(x, int):
            # a vertex of the graph, unless its number is that of the sink or the source
            if any(E.truth(o.st.facts, T.eq(pv(fn, x), idx(g))) is True for g in (SINK, SOURCE)):
                return
            l = ('fld', ('elem', VERTS, pv(fn, x)), f)
        else:
            l = ('fld', this('source' if x == SOURCE else 'sink'), f)
        hit = [p for p in lists if p.obj == l]
        ck.ob('listed', n + ' ' + f, len(hit) == 1, 'it is listed %d times in %s' % (len(hit), T.show(l)), *w)
        for p in hit:
            m = dict(p.mem or ())
            a = p.alv[0]
            pi, pr = m.get(('fld', a, 'index')), m.get(('fld', a, 'is_reciprocal'))
            ck.ob('listed', n + ' ' + f + ' pointer', (pi, pr) == (ri, rr), 'listed under %s' % T.show(pi or ('none',)), C.evloc(p), w[1])
        lists = [p for p in lists if p not in hit]
    ck.ob('listed', n + ' elsewhere', not lists, 'it is also listed in %s' % ', '.join(T.show(p.obj) for p in lists), *w)


def unmask(t):
    if t and t[0] == 'op' and t[1] == '&' and ('int', (1 << 63) - 1) in t[2:]:
        return [x for x in t[2:] if x[0] != 'int'][0]
    return t


def ptr_fields(E, o, v):
    if v is None or v[0] != 'in':
        return ('none',), ('none',)
    return E.load(o.st, ('fld', v[1], 'index')), E.load(o.st, ('fld', v[1], 'is_reciprocal'))


# ---------------------------------------------------------------- pointers
def access(ck):
    def lv(o):
        return o.val[1] if o.val and o.val[0] == 'lval' else None
    for cls, l in (('EdgeVec', this('edges')), ('VertexVec', this('vertices'))):
        for fn in ck.find(G + cls + '::operator[]'):
            E, outs = ck.run(fn, **opts())
            for o in outs:
                want = ('elem', l, ('in', ('fld', pvl(fn, 0), 'index')))
                ck.ob('access', cls + '[]', o.kind == 'ret' and lv(o) == want and not writes(o), 'designates %s' % T.show(o.val or ('none',)),
                      C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'get_vertex'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            p = ('in', pvl(fn, 0))
            s, r = same_vertex(E, o.st.facts, p, SINK), same_vertex(E, o.st.facts, p, SOURCE)
            want = this('sink') if s else this('source') if r else ('elem', VERTS, idx(pvl(fn, 0))) if s is False and r is False else None
            ck.ob('access', 'get_vertex', o.kind == 'ret' and lv(o) == want and not writes(o), 'designates %s' % T.show(o.val or ('none',)),
                  C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'get_edge'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            ck.ob('access', 'get_edge', o.kind == 'ret' and lv(o) == ('elem', EDGES, idx(pvl(fn, 0))) and not writes(o),
                  'designates %s' % T.show(o.val or ('none',)), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(G + 'EdgePtr_Templ::reciprocal'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            i, r = ptr_fields(E, o, o.val)
            rec = ('in', this('is_reciprocal'))
            ok = r == T.lnot(rec) or r[0] == 'int' and E.truth(o.st.facts, T.eq(rec, T.sub(T.ONE, r))) is True
            ck.ob('access', 'reciprocal', ok and unmask(i) == ('in', this('index')), 'the reciprocal is %s/%s' % (T.show(i), T.show(r)),
                  C.loc(fn, o.line), C.trail(o))


def pvl(fn, i):
    p = fn.params[i]
    return ('var', p['d'], p['n'], 0)


def flows(ck):
    for n in ('update_flow', 'edge_flow'):
        for fn in ck.find(G + 'EdgeVec::' + n):
            E, outs = ck.run(fn, **opts())
            p = pvl(fn, 0)
            e = ('elem', this('edges'), idx(p))
            fl, rf = ('fld', e, 'flow'), ('fld', e, 'rec_flow')
            for o in outs:
                rec = E.truth(o.st.facts, ('in', ('fld', p, 'is_reciprocal')))
                w = (C.loc(fn, o.line), C.trail(o))
                if rec is None or o.kind != 'ret':
                    ck.ob('update', n, False, 'the direction is not looked at', *w)
                    continue
                if n == 'edge_flow':
                    ck.ob('update', n, o.val == ('in', rf if rec else fl) and not writes(o), 'returns %s' % T.show(o.val), *w)
                    continue
                c = pv(fn, 1)
                a, b = E.load(o.st, fl), E.load(o.st, rf)
                s = 1 if rec else -1
                ck.ob('update', n, a == T.add(('in', fl), T.mul(T.I(s), c)) and b == T.add(('in', rf), T.mul(T.I(-s), c)),
                      'the edge becomes %s / %s' % (T.show(a), T.show(b)), *w)
                other = [k for k in writes(o) if k not in (fl, rf)]
                ck.ob('update', n + ' only', not other, 'changes %s' % ', '.join(T.show(k) for k in other[:2]), *w)


# ---------------------------------------------------------------- augmenting paths
STEPS = ('find_source_sink_path', 'update_flow')


def augment(ck, fn, component):
    E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: core.meth_of(n) in STEPS))
    n = core.meth_of(fn.name) if not fn.key.rpartition('::')[2].startswith('lambda') else 'job'
    L = C.Loops(E, outs)
    turns = [(o, e) for o in outs for e in calls(o, 'find_source_sink_path')]
    if not ck.ob('augment', n + ' path', bool(turns), 'no path is looked for', C.loc(fn)):
        return
    heads = set()
    over = {}                    # what tells that a piece knows that there is no path
    for o, e in turns:
        w = (C.evloc(e), C.trail(o))
        ck.ob('augment', n + ' component', component is None or e.args[0] == component, 'looks in component %s' % T.show(e.args[0]), *w)
        ck.ob('augment', n + ' one', len(calls(o, 'find_source_sink_path')) == 1, 'several paths are looked for in one turn', *w)
        kept = carried(L, o, e)
        if kept:
            # the path is looked at by the next turn
            h, P, got = kept
            for q in L.body(h):
                sent(ck, fn, E, L, n, q, P, got)
                over.setdefault(id(q), []).append(P)
                if q.kind == 'enter':
                    heads.add(q.head)
            continue
        sent(ck, fn, E, L, n, o, e.ret, {('out', e.name, e.site, 1)})
        over.setdefault(id(o), []).append(e.ret)
        if o.kind == 'enter':
            heads.add(o.head)
    for o in outs:
        if o.kind == 'ret':
            # the solver ends only after a turn that found no path
            ps = over.get(id(o), ())
            ck.ob('augment', n + ' end', any(E.truth(o.st.facts, T.eq0(('pure', 'size', (P,)))) is True for P in ps),
                  'the search ends although a path was found', C.loc(fn, o.line), C.trail(o))
        for x in calls(o, 'update_flow'):
            ck.ob('augment', n + ' only', o.frm in heads, 'flow is sent outside of a path', C.evloc(x), C.trail(o))


def carried(L, o, e):
    """(loop, path, amounts) when the path found is kept for the next turn of a loop"""
    if o.kind not in ('enter', 'iter'):
        return None
    h = o.head
    for l, v in o.st.store.items():
        if v != e.ret or l[0] != 'var':
            continue
        P = ('phi', h, l)
        if not any(T.mentions(t, P) for q in L.body(h) for t in q.st.facts):
            continue
        finds = [(q, x) for q in L.enters(h) + L.iters(h) for x in calls(q, 'find_source_sink_path') if L.E.load(q.st, l) == x.ret]
        if len(finds) < len(L.enters(h) + L.iters(h)):
            continue
        got = {('phi', h, k) for k in o.st.store if k[0] == 'var' and
               all(L.E.load(q.st, k) == ('out', x.name, x.site, 1) for q, x in finds)}
        return h, P, got
    return None


def sent(ck, fn, E, L, n, o, P, got):
    """the piece o, at whose end P is the path last found, sends one of the amounts got along P, or ends"""
    w = (C.loc(fn, o.line), C.trail(o))
    ups = calls(o, 'update_flow')
    empty = E.truth(o.st.facts, T.eq0(('pure', 'size', (P,))))
    if empty is not True:
        # the loop that follows sends the flow along the path
        h = o.head
        its = L.iters(h) if o.kind == 'enter' else []
        if not ck.ob('augment', n + ' sent', o.kind == 'enter' and bool(its) and not ups, 'a path is found and no flow is sent', *w):
            return
        for p in its:
            xs = calls(p, 'update_flow')
            ww = (C.loc(fn, p.line), C.trail(p))
            if not ck.ob('augment', n + ' each', len(xs) == 1, 'flow is sent %d times along an edge of the path' % len(xs), *ww):
                continue
            a = xs[0].args
            ok = a[0][0] in ('ev', 'in') and xs[0].obj == this('edges') and on_path(a[0], P)
            ck.ob('augment', n + ' edge', bool(ok), 'flow is sent along %s' % T.show(a[0]), *ww)
            ck.ob('augment', n + ' amount', a[1] in got, 'sends %s' % T.show(a[1]), *ww)
            if ok:
                ck.ob('augment', n + ' all', L.sweeps(h, ok, [('pure', 'size', (P,))]), 'some edges of the path are passed over', *ww)
    elif o.kind in ('ret', 'enter'):
        ck.ob('augment', n + ' end', not ups, 'flow is sent along an empty path', *w)


def on_path(t, P):
    """the position on P that the edge pointer t was read from"""
    if t[0] == 'ev' and t[1] == P:
        return t[2]
    if t[0] == 'in' and t[1][0] == 'elem':
        return t[1][2]
    return None


def jobs(ck):
    for fn in ck.find(NS + 'parallel_compute_residual_maxflow'):
        E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: core.meth_of(n) in STEPS + ('compute_connected_components', 'enqueue')))
        L = C.Loops(E, outs)
        n = ('in', this('n_components'))
        lams = ck.prog.lambdas_of(fn)
        spawn = [(o, e) for o in outs for e in calls(o, 'enqueue')]
        if not ck.ob('jobs', 'spawned', bool(spawn), 'no job is given to the pool', C.loc(fn)):
            continue
        first = [o for o in outs if o.frm is None and o.kind != 'throw']
        ck.ob('jobs', 'components', all(calls(o, 'compute_connected_components') for o in first), 'jobs are made from no components', C.loc(fn))
        heads = set()
        for o, e in spawn:
            w = (C.evloc(e), C.trail(o))
            lam = e.args[0]
            h = o.frm
            heads.add(h)
            if not ck.ob('jobs', 'loop', o.kind == 'iter' and o.head == h and lam[0] == 'lam' and len(calls(o, 'enqueue')) == 1,
                         'the jobs are not one for each component', *w):
                continue
            job = [f for f in lams if f.key == lam[1]]
            find = [f for f in job if any(True for x in core.walk_exprs(f.j) if x.get('fn', '').endswith('find_source_sink_path'))]
            k = None
            for f in job:
                F, fo = ck.run(f, **opts(cut='deep', opaque_if=lambda n, f=None: core.meth_of(n) in STEPS))
                for p in fo:
                    for c in calls(p, 'find_source_sink_path'):
                        k = c.args[0]
            # the component searched by the job is the captured counter
            cap = [c for c in lam[2] if c[0] != 'this' and k is not None and k[0] == 'in' and c[1] == k[1][2]]
            ok = bool(cap) and cap[0][2] != 'r'
            if ck.ob('jobs', 'own component', ok, 'a job does not search a component of its own', *w):
                i = cap[0][3]
                ck.ob('jobs', 'all components', L.counts(h, i) and all(E.truth(p.st.facts, T.lt(n, i)) is True
                                                                       for p in L.exits(h) if p.kind != 'throw'),
                      'the components searched are not 0 to their number', *w)
            kept = [x for x in calls(o, 'push_back') + calls(o, 'emplace_back') if x.args and x.args[0] == e.ret]
            ck.ob('jobs', 'kept', len(kept) == 1, 'the job is not waited for', *w)
            for x in kept:
                waited(ck, fn, E, outs, L, x.obj)
        for lf in lams:
            if any(True for x in core.walk_exprs(lf.j) if (x.get('fn') or '').endswith('find_source_sink_path')):
                augment(ck, lf, None)
        for o in outs:
            if o.kind == 'ret':
                # the end is reached only out of the waiting loop, after the spawning loop
                ck.ob('jobs', 'order', o.frm is not None and o.frm not in heads, 'the solver ends while jobs run', C.loc(fn, o.line), C.trail(o))


def waited(ck, fn, E, outs, L, jobs_l):
    gets = [(o, e) for o in outs for e in calls(o, 'get') + calls(o, 'wait') if e.obj is not None and e.obj[0] == 'elem' and e.obj[1] == jobs_l]
    hs = {o.frm for o, e in gets if o.kind == 'iter' and o.head == o.frm}
    good = False
    for h in hs:
        it = L.iters(h)
        ix = {e.obj[2] for o, e in gets if o.frm == h}
        each = all(len([1 for p, e in gets if p is o]) == 1 for o in it)
        full = all(L.counts(h, i) and all(any(E.truth(q.st.facts, c(i, s)) is r for s in sizes(q) for c, r in
                                              ((lambda a, b: T.eq(a, b), True), (lambda a, b: T.lt(a, b), False)))
                                          for q in L.exits(h) if q.kind != 'throw') for i in ix)
        good = good or (each and full)
    ck.ob('jobs', 'waited', good, 'not all jobs are waited for', C.loc(fn))


def sizes(o):
    return {s for t in o.st.facts for s in T.subterms(t) if s[0] == 'pure' and s[1] == 'size'}


# ---------------------------------------------------------------- final flows
def final(ck):
    for fn in ck.find(NS + 'transform_residual_to_flow'):
        E, outs = ck.run(fn, **opts(cut='deep'))
        L = C.Loops(E, outs)
        hs = [h for h in L.heads if L.iters(h)]
        done = False
        for h in hs:
            for o in L.iters(h):
                ks = [k for k, v in o.st.store.items() if k[0] == 'fld' and k[2] in ('flow', 'rec_flow') and k[1][0] == 'elem' and
                      k[1][1] == EDGES and v[:1] != ('phi',) or (k[0] == 'fld' and k[2] == 'flow' and k[1][0] == 'elem' and k[1][1] == EDGES and v[1:] != (h, k) and v[0] == 'phi')]
                es = {k[1] for k in ks}
                w = (C.loc(fn, o.line), C.trail(o))
                if not ck.ob('final', 'each', len(es) == 1, 'an edge is passed over', *w):
                    continue
                e = es.pop()
                fl, rf = E.load(o.st, ('fld', e, 'flow')), E.load(o.st, ('fld', e, 'rec_flow'))
                old = ('fld', e, 'rec_flow')
                ck.ob('final', 'flow', fl in (('phi', h, old), ('in', old)), 'the flow becomes %s' % T.show(fl), *w)
                ck.ob('final', 'back', rf == T.ZERO, 'the flow sent back becomes %s' % T.show(rf), *w)
                i = e[2]
                n = ('pure', 'size', (('in', EDGES),))
                ck.ob('final', 'all', L.counts(h, i) and all(E.truth(q.st.facts, T.eq(i, n)) is True or
                                                            E.truth(q.st.facts, T.lt(i, n)) is False
                                                            for q in L.exits(h) if q.kind != 'throw'), 'not all edges are converted', *w)
                done = True
        ck.ob('final', 'loop', done, 'the edges are not converted', C.loc(fn))
        for o in outs:
            if o.kind == 'ret':
                ck.ob('final', 'reached', o.frm in hs, 'the end is reached without converting the edges', C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- sums
def edge_field(t):
    """the pointer and field an edge value was read from"""
    if t[0] == 'in' and t[1][0] == 'fld' and t[1][1][0] == 'elem' and t[1][1][1] == EDGES:
        i = t[1][1][2]
        if i[0] == 'in' and i[1][0] == 'fld' and i[1][2] == 'index':
            return ('in', i[1][1]), t[1][2]
        if i[0] == 'fv' and i[2] == 'index':
            return i[1], t[1][2]
    return None, None


def total(ck, fn, E, outs, o):
    """-> (list, field) when the value returned is the sum of that field over the edges of that list"""
    v = o.val
    if v is None:
        return None
    if v[0] in ('pure', 'call') and core.meth_of(v[1]) == 'accumulate' and len(v[2]) == 4 and v[2][3][0] == 'lam':
        a, b, z, lam = v[2]
        lf = [f for f in ck.prog.lambdas_of(fn) if f.key == lam[1]]
        if z != T.ZERO or a[0] != 'iter' or b[0] != 'iter' or a[1] != b[1] or a[2] != T.ZERO or not lf:
            return None
        if b[2] != ('pure', 'size', (('in', a[1]),)):
            return None
        F, fo = ck.run(lf[0], **opts())
        fields = set()
        for p in fo:
            d = T.sub(p.val, pv(lf[0], 0)) if p.kind == 'ret' else ('none',)
            ptr, f = edge_field(d)
            fields.add(f if ptr == ('in', pvl(lf[0], 1)) else None)
        return (a[1], fields.pop()) if len(fields) == 1 else None
    if v[0] == 'phi':
        h = v[1]
        L = C.Loops(E, outs)
        if L.starts(h, v) != {T.ZERO} or o.frm != h:
            return None
        st = L.steps(h, v)
        if len(st) != 1:
            return None
        ptr, f = edge_field(list(st)[0])
        if ptr is None:
            return None
        l, i = (ptr[1], ptr[2]) if ptr[0] == 'ev' else (ptr[1][1], ptr[1][2]) if ptr[0] == 'in' and ptr[1][0] == 'elem' else (None, None)
        if l is None or not L.counts(h, i):
            return None
        n = ('pure', 'size', (('in', l) if ptr[0] == 'in' else l,))
        if E.truth(o.st.facts, T.eq(i, n)) is True or E.truth(o.st.facts, T.lt(i, n)) is False:
            return (l if ptr[0] == 'in' else l[1], f)
    return None


SUMS = {'get_flow': ('source', 'out_edges', 'flow'), 'get_vertex_in_flow': (None, 'in_edges', 'flow'),
        'get_vertex_out_flow': (None, 'out_edges', 'flow'), 'get_vertex_in_capacity': (None, 'in_edges', 'capacity'),
        'get_vertex_out_capacity': (None, 'out_edges', 'capacity')}


def sums(ck):
    for n, (v, lst, field) in SUMS.items():
        for fn in ck.find(NS + n):
            E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: core.meth_of(n) == 'get_vertex', pure=('get_vertex',)))
            for o in outs:
                if o.kind != 'ret':
                    continue
                t = total(ck, fn, E, outs, o)
                if v:
                    want = [('fld', this(v), lst), ('fld', this('sink'), 'in_edges')]     # the same, by conservation
                else:
                    want = [('fld', ('rl', ('pure', NS + 'get_vertex', (('in', ('deref', ('thisptr',))), ('in', pvl(fn, 0))))), lst)]
                ck.ob('sums', n, t is not None and t[0] in want and t[1] == field,
                      'reports %s' % (T.show(o.val) if t is None else 'the sum of %s over %s' % (t[1], T.show(t[0]))),
                      C.loc(fn, o.line), C.trail(o))
    for n, field in (('get_edge_flow', 'flow'), ('get_edge_capacity', 'capacity')):
        for fn in ck.find(NS + n):
            E, outs = ck.run(fn, **opts())
            for o in outs:
                if o.kind == 'ret':
                    ck.ob('sums', n, edge_field(o.val) == (('in', pvl(fn, 0)), field), 'reports %s' % T.show(o.val), C.loc(fn, o.line))


# ---------------------------------------------------------------- components
PURE = ('get_vertex',)


def examined(o, edges=EDGES):
    """(list name, head, edge pointer lvalue, edge lvalue) of the adjacency-list edges looked at on the path"""
    r = []
    for e in calls(o, 'operator[]'):
        if e.obj == edges and e.args:
            i = e.args[0]
            p = i[1][1] if i[0] == 'in' and i[1][0] == 'fld' else None
            if p and p[0] == 'elem' and p[1][0] == 'fld' and p[1][2] in ('in_edges', 'out_edges') and p[2][0] == 'phi':
                x = (p[1][2], p[2][1], p, ('elem', edges, i))
                if x not in r:
                    r.append(x)
    return r


def vertex(t):
    return ('rl', ('pure', NS + 'get_vertex', (('in', ('deref', ('thisptr',))), t)))


def exhausted(E, L, h, p, q):
    n = [('pure', 'size', (('in', p[1]),))]
    return any(E.truth(q.st.facts, T.eq(p[2], s)) is True or E.truth(q.st.facts, T.lt(p[2], s)) is False for s in n)


PUSH = ('push_front', 'push_back', 'push', 'emplace_back', 'emplace_front', 'emplace')
POP = ('pop_front', 'pop_back', 'pop')


def pushes(o, queue=None):
    return [e for n in PUSH for e in calls(o, n) if e.obj is not None and e.obj[0] == 'var' and len(e.args) == 1 and
            (queue is None or e.obj == queue)]


def components(ck, fn):
    E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda n, f=None: core.meth_of(n) in PURE, pure=PURE))
    L = C.Loops(E, outs)
    label = {}                   # value given to a vertex, per scanned list
    scans = {}
    for o in outs:
        for lst, h, p, e in examined(o):
            if o.frm != h:
                continue
            scans.setdefault(lst, set()).add(h)
            w = (C.loc(fn, o.line), C.trail(o))
            d = ('in', ('fld', e, 'end' if lst == 'out_edges' else 'start'))
            cs = [('fld', x, 'component') for x in (vertex(d), ('elem', VERTS, idx(d[1])))]
            c = ([x for x in cs if x in o.st.store or any(T.mentions(t, x) for t in o.st.facts)] or cs)[0]
            special = [same_vertex(E, o.st.facts, d, g) for g in (SINK, SOURCE)]
            ps = pushes(o)
            now = E.load(o.st, c)
            old = [x for x in (('phi', h, c), ('in', c)) if E.truth(o.st.facts, T.eq0(x)) is not None]
            fresh = E.truth(o.st.facts, T.eq0(old[0])) if old else None
            if ps:
                ck.ob('components', lst + ' fresh', fresh is True and special == [False, False] and len(ps) == 1 and ps[0].args[0] == d,
                      'a vertex is visited that is not a new neighbour', *w)
                ck.ob('components', lst + ' label', now not in (('phi', h, c), ('in', c)), 'a vertex is visited and keeps no component', *w)
                label.setdefault(lst, set()).add(now)
            else:
                ck.ob('components', lst + ' reason', True in special or fresh is False, 'a new neighbour is passed over', *w)
                ck.ob('components', lst + ' kept', now in (('phi', h, c), ('in', c)), 'the component of a vertex changes', *w)
            ck.ob('components', lst + ' all', L.counts(h, p[2]) and all(exhausted(E, L, h, p, q) for q in L.exits(h) if q.kind != 'throw'),
                  'some edges of a vertex are passed over', *w)
    for lst in ('out_edges', 'in_edges'):
        ck.ob('components', lst, lst in scans and lst in label, 'the edges in %s are not followed' % lst, C.loc(fn))
    inner = {h for s in scans.values() for h in s}
    roots = [(o, e) for o in outs if o.frm not in inner for e in pushes(o)]
    given = {v for s in label.values() for v in s}
    for o, e in roots:
        w = (C.evloc(e), C.trail(o))
        H, a = o.frm, e.args[0]
        i = E.load(o.st, ('fld', a[1], 'index')) if a[0] == 'in' else ('none',)
        n = [('pure', 'size', (('in', VERTS),)), ('in', this('graph_size'))]
        if not ck.ob('components', 'every vertex', H is not None and L.sweeps(H, i, n), 'some vertices get no component', *w):
            continue
        c = ('fld', ('elem', VERTS, i), 'component')
        k = E.load(o.st, c)
        old = [x for x in (('phi', H, c), ('in', c)) if E.truth(o.st.facts, T.eq0(x)) is True]
        ck.ob('components', 'new', bool(old), 'a vertex that has a component starts another', *w)
        p = T.sub(k, T.ONE) if k[0] != 'phi' else k
        if not ck.ob('components', 'label', given == {k} and p[0] == 'phi' and p[1] == H, 'a component gets the numbers %s and %s' % (
                T.show(k), ', '.join(T.show(x) for x in given)), *w):
            continue
        num, gap = p[2], T.sub(k, p)            # kept in num: the last number given, or the next one
        ck.ob('components', 'first', L.starts(H, p) == {T.sub(T.ONE, gap)}, 'the first component has another number than 1', *w)
        for q in L.iters(H):
            ww = (C.loc(fn, q.line), C.trail(q))
            v = E.load(q.st, num)
            if q.frm == H:
                ck.ob('components', 'skip', v == p and any(E.truth(q.st.facts, T.eq0(x)) is False for x in (('phi', H, c), ('in', c))),
                      'a vertex without a component is passed over', *ww)
                continue
            r = E.load(q.st, c)
            if v == T.add(p, T.ONE):
                ck.ob('components', 'next', r != T.ZERO, 'a counted component loses its first vertex', *ww)
            else:
                alone = any(f[1] == 1 for t, f in q.st.facts.items() if t[0] == 'phi')
                ck.ob('components', 'alone', v == p and r == T.ZERO and alone, 'a component is not counted', *ww)
        for q in outs:
            if q.kind == 'ret':
                m = E.load(q.st, this('n_components'))
                ck.ob('components', 'number', m == T.sub(E.load(q.st, num), T.sub(T.ONE, gap)), 'the number of components becomes %s' % T.show(m),
                      C.loc(fn, q.line))
        # everything that is queued is looked at
        qs = {e.obj for o, e in roots}
        for q in outs:
            for x in [y for n in POP for y in calls(q, n) if y.obj in qs]:
                ck.ob('components', 'visit', q.kind == 'enter' and q.head in inner, 'a vertex is taken and not looked at', C.evloc(x), C.trail(q))
        for q in L.iters(H):
            if q.frm != H:
                ck.ob('components', 'drained', any(f[0] == 0 and f[1] == 0 for t, f in q.st.facts.items() if t[0] == 'pure' and t[1] == 'size'),
                      'vertices are left in the queue', C.loc(fn, q.line), C.trail(q))
