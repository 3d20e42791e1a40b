"""P12: the allocation graph is built, then solved, then read, within its bounds"""
from engine import check as C
from engine import core
from engine import terms as T

NS = 'sse::tethys::details::TethysGraph::'
TU = 'lib/tethys/tethys_graph.cpp'
BUILDING, RESIDUAL, MAXFLOW = T.I(0), T.I(1), T.I(2)
SKIP = ('operator<<', 'logger', 'info', 'debug', 'warn', 'error', 'endl', 'operator+', 'to_string')
MUTATE = ('push_back', 'emplace_back', 'pop_back', 'clear', 'erase', 'insert', 'resize', 'assign', 'swap', 'operator=')


def this(n):
    return ('fld', ('deref', ('thisptr',)), n)


def fld(n):
    return ('in', this(n))


def pv(fn, i):
    p = fn.params[i]
    return ('in', ('var', p['d'], p['n'], 0))


def opts(**k):
    k.setdefault('interest', lambda ev: core.meth_of(ev.name or '') not in SKIP and
                 not (ev.name or '').startswith('std::basic_string') and 'basic_format' not in (ev.name or ''))
    return k


def own(l):
    """part of this object"""
    while l and l[0] in ('fld', 'elem', 'deref'):
        if l == ('deref', ('thisptr',)):
            return True
        l = l[1]
    return False


def changed(o):
    """what the path changed in the graph"""
    w = [T.show(k) for k, v in o.st.store.items() if own(k) and v != ('in', k)]
    w += [repr(e) for e in o.trace if e.kind == 'call' and e.obj is not None and own(e.obj) and core.meth_of(e.name) in MUTATE]
    return w


ADD = {'add_edge': (2, 3), 'add_edge_from_source': (2,), 'add_edge_to_sink': (2,)}
SOLVE = ('compute_residual_maxflow', 'parallel_compute_residual_maxflow')
READ = ('get_flow', 'get_edge_flow', 'get_vertex_in_flow', 'get_vertex_out_flow')
CAP = ('get_edge_capacity', 'get_vertex_in_capacity', 'get_vertex_out_capacity')


# the parts of the solver, decided on their own
STEPS = ('find_source_sink_path', 'update_flow', 'compute_connected_components', 'get_vertex', 'enqueue')


def run(ck):
    ck.load([TU])
    ck.rule('ctor', 'a graph has at least one vertex, as many as asked for, and starts in its building phase')
    ck.rule('phase', 'an operation takes place only in its phase; in any other it throws and changes nothing')
    ck.rule('bounds', 'an edge is added only between vertices of the graph; otherwise the call throws and changes nothing')
    ck.rule('refuse', 'an operation is refused only outside its phase or for a vertex that is not in the graph')
    ck.rule('next', 'solving and transforming move to the next phase, at their end only; nothing else changes the phase')
    state = fld('state')
    for fn in ck.find('sse::tethys::details::TethysGraph::(ctor)', pred=lambda f: len(f.params) == 1 and not f.j.get('implicit')
                      and 'TethysGraph' not in f.params[0]['t']):
        E, outs = ck.run(fn, **opts())
        n = pv(fn, 0)
        for o in outs:
            z = E.truth(o.st.facts, T.eq0(n))
            if o.kind == 'throw':
                ck.ob('ctor', 'refuse', z is True, 'a graph of some size is refused', C.loc(fn, o.line), C.trail(o))
                continue
            ck.ob('ctor', 'empty', z is False, 'a graph without vertices is accepted', C.loc(fn, o.line), C.trail(o))
            s, g = E.load(o.st, this('state')), E.load(o.st, this('graph_size'))
            ck.ob('ctor', 'start', s == BUILDING and g == n, 'phase %s, size %s' % (T.show(s), T.show(g)), C.loc(fn, o.line))
            v = E.load(o.st, ('fld', this('vertices'), 'vertices'))
            ck.ob('ctor', 'vertices', v[0] == 'obj' and v[2][:1] == (n,), 'the vertices are %s' % T.show(v), C.loc(fn, o.line))

    # the constructor makes them equal
    sizes = (fld('graph_size'), ('pure', 'size', (('in', ('fld', this('vertices'), 'vertices')),)))

    def guarded(n, need, after=None, bounds=()):
        for fn in ck.find(NS + n):
            E, outs = ck.run(fn, **opts(cut='all', opaque_if=lambda name, f=None: core.meth_of(name) in STEPS and f is not fn))
            for o in outs:
                w = (C.loc(fn, o.line), C.trail(o))
                conds = ([((T.eq(state, need),), 'phase')] if need is not None else []) + \
                    [(tuple(T.lt(pv(fn, i), n) for n in sizes), 'bounds') for i in bounds]
                if o.kind == 'throw':
                    ck.ob('refuse', n, any(E.truth(o.st.facts, c) is False for cs, _ in conds for c in cs),
                          'the call is refused for another reason', *w)
                    ck.ob('phase', n + ' refused', not changed(o), 'a refused call changes %s' % ', '.join(changed(o)[:3]), *w)
                    continue
                for cs, r in conds:
                    ck.ob(r, n, any(E.truth(o.st.facts, c) is True for c in cs), 'goes on when %s is not known' % T.show(cs[0]), *w)
                if o.kind != 'ret':
                    continue
                s = E.load(o.st, this('state'))
                want = after if after is not None else state
                ck.ob('next', n, s == want or (want == state and need is not None and s == need) or
                      E.truth(o.st.facts, T.eq(s, want)) is True, 'the phase becomes %s' % T.show(s), *w)

    for n, b in ADD.items():
        guarded(n, BUILDING, None, b)
    for n in SOLVE:
        guarded(n, BUILDING, RESIDUAL)
    guarded('transform_residual_to_flow', RESIDUAL, MAXFLOW)
    for n in READ:
        guarded(n, MAXFLOW)
    for n in CAP:
        guarded(n, None)
    guarded('compute_connected_components', None)
    for r, k in (('ctor', 3), ('phase', 10), ('bounds', 3), ('refuse', 6), ('next', 6)):
        ck.floor(r, k)
