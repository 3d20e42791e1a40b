"""P07: buffers and the file descriptor of the vector are released exactly once, never while in use"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import av
from rules.p06 import pv

FREES = ('free', 'operator delete', 'posix_memalign_free')


def fold(t):
    """constant value of max/min of constants, else None"""
    if t[0] == 'int':
        return t[1]
    if t[0] == 'rl':
        return fold(t[1])
    if t[0] in ('in', 'deref', 'addr'):
        return fold(t[1])
    if t[0] in ('pure', 'call') and core.meth_of(t[1]) in ('max', 'min'):
        v = [fold(x) for x in t[2]]
        if None in v:
            return None
        return max(v) if core.meth_of(t[1]) == 'max' else min(v)
    return None


def run(ck):
    ck.load(av.TU)
    ck.rule('alloc-size', 'every transfer buffer is at least one element long')
    ck.rule('in-flight', 'a buffer is never freed by the submitting operation once its request has been accepted')
    ck.rule('refused', 'an operation that fails frees every buffer it allocated, exactly once, unless its request was accepted')
    ck.rule('handler', 'a completion handler releases its buffer exactly once: the write handler frees it, the read handler frees it '
                       'or hands it to the callback, never both')
    ck.rule('move', 'moving a vector transfers file, mode, size, state and scheduler, and leaves the source without a file to close')
    ck.rule('close-once', 'destruction closes the file at most once, and only this vector\'s file')
    for m in ('async_push_back', 'async_get'):
        for fn in av.each(ck, m):
            single(ck, fn)
    for fn in av.each(ck, 'async_gets'):
        batch(ck, fn)
    for fn in av.each(ck, '(ctor)'):
        if len(fn.params) == 1 and '&&' in fn.params[0]['t']:
            moved(ck, fn)
    for fn in av.each(ck, '(dtor)'):
        E, outs = ck.run(fn, **av.opts())
        for o in outs:
            cl = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'close']
            ok = len(cl) <= 1 and all(e.args[0] == av.this('m_fd') for e in cl)
            ck.ob('close-once', av.inst(fn), ok, 'closes %r' % cl, C.loc(fn, o.line), C.trail(o))
            # the source of a move has no scheduler and is committed
            none = av.this('m_io_scheduler')
            for e in o.trace:
                if e.kind == 'call' and e.obj == ('deref', none):
                    ok = E.truth(av.facts(e), T.eq0(none)) is False or E.truth(o.st.facts, T.eq0(av.COMMITTED)) is True
                    ck.ob('move', av.inst(fn) + ' source', ok, 'the destruction of the source of a move uses its scheduler', C.evloc(e), C.trail(o))
    for r, k in (('alloc-size', 6), ('in-flight', 6), ('refused', 4), ('handler', 6), ('move', 12), ('close-once', 2)):
        ck.floor(r, k)


def allocs(o):
    return [e for e in o.trace if av.io(e, av.ALLOC)]


def bufof(e):
    """the term of the buffer an allocation produced (None: failed path)"""
    return ('out', e.name, e.site, 0) if core.meth_of(e.name) == 'posix_memalign' else e.ret


def frees(o):
    return [e for e in o.trace if av.io(e, FREES)]


def size_ok(ck, e, fn, sg):
    a = e.args[1:] if core.meth_of(e.name) in ('aligned_alloc', 'memalign') else e.args[2:] if core.meth_of(e.name) == 'posix_memalign' else e.args
    n = fold(a[0]) if a else None
    ck.ob('alloc-size', sg, n is not None and n >= av.elem_size(fn), 'allocates %s bytes' % (T.show(a[0]) if a else '?'), C.evloc(e))


def isbuf(t):
    return t[0] == 'out' and core.meth_of(t[1]) in av.ALLOC or t[0] in ('call', 'pure') and core.meth_of(t[1]) in av.ALLOC


def single(ck, fn):
    E, outs = ck.run(fn, **av.opts(repeat=2))
    sg = av.inst(fn)
    for o in outs:
        al = allocs(o)
        for e in al:
            size_ok(ck, e, fn, sg)
        fr = frees(o)
        sub = [e for e in o.trace if av.io(e, av.SUBMITS)]
        acc = None
        for e in sub:
            acc = E.truth(o.st.facts, T.eq(e.ret, T.ONE))
        freed = [e for e in fr if isbuf(e.args[0])]
        if sub:
            buf = sub[0].args[1]
            got = isbuf(buf) and E.truth(av.facts(sub[0]), T.eq0(buf)) is not True
            ck.ob('in-flight', sg + ' valid', got, 'submits %s' % T.show(buf), C.evloc(sub[0]), C.trail(o))
            early = [e for e in freed if o.trace.index(e) < o.trace.index(sub[0])]
            ck.ob('in-flight', sg, not early and (acc is False or not freed), 'frees the buffer of a request that %s' % (
                'is about to be submitted' if early else 'was accepted'), C.loc(fn, o.line), C.trail(o))
            if acc is False:
                ck.ob('refused', sg, len(freed) == 1 and freed[0].args[0] == buf, '%d frees after a refusal' % len(freed),
                      C.loc(fn, o.line), C.trail(o))
        elif al:
            # allocated, never submitted: only fine when the allocation failed
            b = [t for t in o.st.facts if isbuf(t)]
            failed = E.truth(o.st.facts, T.eq0(al[0].ret)) is False if core.meth_of(al[0].name) == 'posix_memalign' else False
            failed = failed or any(E.truth(o.st.facts, T.eq0(t)) is True for t in b)
            ck.ob('refused', sg + ' unsubmitted', failed or len(freed) == 1, 'the buffer is neither submitted nor freed',
                  C.loc(fn, o.line), C.trail(o))
    for lf in av.handlers(ck, fn):
        if len(lf.params) == 2:
            handler(ck, lf, sg, 'push' in fn.name, av.elem_size(fn))


def handler(ck, lf, sg, write, n):
    E, outs = ck.run(lf, repeat=2)
    buf, res = pv(lf, 0), pv(lf, 1)
    for o in outs:
        fr = [e for e in frees(o) if e.args[0] == buf]
        given = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'operator()' and buf in e.args]
        # a smart pointer that still owns the buffer at the end of the handler deletes it
        ck.ob('handler', sg, o.kind == 'ret' and len(fr) + len(given) == 1 and (not write or len(fr) == 1),
              'the buffer is freed %d times and handed over %d times' % (len(fr), len(given)), C.loc(lf, o.line), C.trail(o))


def elems(t):
    """index of submissions[i].buf"""
    for x in T.subterms(t):
        if x[0] in ('elem', 'ev'):
            return x[2]
    return None


def batch(ck, fn):
    E, outs = ck.run(fn, **av.opts(record_assume=lambda c: T.has_tag(c, 'phi') or 'size(' in T.show(c)))
    sg = av.inst(fn)
    for o in outs:
        sub = [e for e in o.trace if av.io(e, ('submit_preads',))]
        for e in allocs(o):
            size_ok(ck, e, fn, sg)
        i = o.trace.index(sub[0]) if sub else None
        for e in frees(o):
            if i is None or o.trace.index(e) < i:
                if i is not None:
                    ck.ob('in-flight', sg + ' early', False, 'frees a buffer that is about to be submitted', C.evloc(e), C.trail(o))
                continue
            x, r = elems(e.args[0]), sub[0].ret
            f = av.facts(e)
            # refused, or not among the first r requests
            ok = E.truth(f, T.lt(T.ZERO, r)) is False or (x is not None and E.truth(f, T.lt(x, r)) is False)
            n = [y for y in f_sizes(f) if x is not None and E.truth(f, T.lt(x, y)) is not True and E.truth(f, T.eq(x, y)) is not False]
            ck.ob('refused', sg + ' end', not n, 'frees element %s of %s' % (T.show(x) if x else '', [T.show(y) for y in n]), C.evloc(e), C.trail(o))
            ck.ob('in-flight', sg, ok, 'frees %s although the request may have been accepted' % T.show(e.args[0]), C.evloc(e), C.trail(o))
        if sub and o.kind == 'ret':
            ck.ob('in-flight', sg + ' accepted', not [e for e in frees(o) if o.trace.index(e) > i], 'frees accepted buffers',
                  C.loc(fn, o.line), C.trail(o))
        al = allocs(o)
        if o.kind == 'throw' and o.val == ('opaque-exception',) and not any(e.kind == 'throw' for e in o.trace):
            continue       # thrown on the way by something that is not known to throw
        if o.kind == 'throw' and al and o.trace:
            # what was queued must be released: some free loop starts at the first refused request
            queued = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) in ('push_back', 'emplace_back')
                      and e.name.startswith('std::vector')]
            if not queued:
                continue
            fr = frees(o)
            last = o.trace.index(sub[0]) if sub else -1
            after = [e for e in fr if o.trace.index(e) > last]
            empty = none_left(E, o, sub)
            first = [e for e in after if first_refused(E, e, sub)]
            ck.ob('refused', sg, empty or bool(first), 'queued buffers are not freed', C.loc(fn, o.line), C.trail(o))
    # the release loops visit every element from their start on
    E, outs = ck.run(fn, **av.opts(cut='deep'))
    L = C.Loops(E, outs)
    for h in L.heads:
        for o in L.iters(h):
            for x in {elems(e.args[0]) for e in frees(o)} - {None}:
                ys = list(C.unknowns(x, h))
                d = L.steps(h, ys[0]) if len(ys) == 1 else {T.ONE}
                ck.ob('refused', sg + ' next', d in ({T.ONE}, {T.I(-1)}), 'the loop goes from a buffer to the one %s further' % ', '.join(map(T.show, d)),
                      C.loc(fn, o.line), C.trail(o))
    for lf in av.handlers(ck, fn):
        if len(lf.params) == 2:
            handler(ck, lf, sg, False, av.elem_size(fn))


def f_sizes(f):
    return {s for t in f for s in T.subterms(t) if s[0] == 'pure' and core.meth_of(s[1]) == 'size' and s[2][0][0] != 'in'}


def first_refused(E, e, sub):
    x = elems(e.args[0])
    if x is None:
        return False
    if x == T.ZERO:
        return not sub or E.truth(av.facts(e), T.lt(T.ZERO, sub[0].ret)) is False
    if any(T.sub(n, x) == T.ONE for n in f_sizes(av.facts(e))):
        return True            # from the last one down
    return bool(sub) and E.truth(av.facts(e), T.eq(x, sub[0].ret)) is True


def none_left(E, o, sub):
    """the path knows that the queue is empty, or that every request was accepted"""
    for t in o.st.facts:
        for s in T.subterms(t):
            if s[0] == 'pure' and core.meth_of(s[1]) == 'size':
                # there is one submission per request (P06)
                if E.truth(o.st.facts, T.eq0(s)) is True:
                    return True
                if sub and E.truth(o.st.facts, T.lt(sub[0].ret, s)) is False:
                    return True
    return False


def moved(ck, fn):
    E, outs = ck.run(fn, **av.opts())
    sg = av.inst(fn) + ' move'
    p = fn.params[0]
    src = ('var', p['d'], p['n'], 0)
    for o in outs:
        ck.ob('move', sg, o.kind == 'ret', 'the move throws', C.loc(fn))
        for f in ('m_filename', 'm_use_direct_io', 'm_fd', 'm_size', 'm_is_committed', 'm_io_scheduler'):
            v = E.load(o.st, av.fld(f))
            w = ('in', ('fld', src, f))
            ck.ob('move', sg + ' ' + f, v == w, '%s becomes %s' % (f, T.show(v)), C.loc(fn), C.trail(o))
        left = E.load(o.st, ('fld', src, 'm_fd'))
        ck.ob('move', sg + ' source', E.truth(o.st.facts, T.lt0(left)) is True, 'the source still closes %s' % T.show(left),
              C.loc(fn), C.trail(o))
