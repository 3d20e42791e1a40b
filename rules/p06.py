"""P06: element i of the vector is the i-th appended value: offsets, lengths, bounds, positions, callbacks"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import av


def excused(E, o, write):
    """the path knows of something wrong"""
    f = o.st.facts
    if o.val == ('opaque-exception',):
        return True     # handed on after something called had thrown
    bad = E.truth(f, T.eq0(av.COMMITTED)) is (False if write else True) or E.truth(f, T.eq0(av.this('m_io_scheduler'))) is True
    size = av.this('m_size')
    for t in f:
        for s in T.subterms(t):
            if not write and (s[0] == 'in' and (s[1][0] == 'var' or s[1][0] == 'fld' and s[1][2] == 'index')) and \
                    E.truth(f, T.lt(s, size)) is False:
                bad = True      # out of bounds
            if write and E.truth(f, T.eq0(av.this('m_use_direct_io'))) is False and s[0] == 'op' and s[1] in ('&', '%') and E.truth(f, T.eq0(s)) is False or \
                    write and E.truth(f, T.eq0(av.this('m_use_direct_io'))) is False and s[0] in ('pure', 'call') and core.meth_of(s[1]) == 'is_aligned' and E.truth(f, T.eq0(s)) is True:
                bad = True      # not aligned
    for e in o.trace:
        if av.io(e, ('posix_memalign',)):
            bad = bad or E.truth(f, T.eq0(e.ret)) is False or E.truth(f, T.eq0(('out', e.name, e.site, 0))) is True
        elif av.io(e, av.ALLOC):
            bad = bad or E.truth(f, T.eq0(e.ret)) is True
        elif av.io(e, av.WRITES + av.READS):
            # what was transferred or accepted is looked at
            bad = bad or any(T.mentions(t, e.ret) for t in f)
    return bad


def par(fn, i=0):
    p = fn.params[i]
    return ('var', p['d'], p['n'], 0)


def pv(fn, i=0):
    return ('in', par(fn, i))


def run(ck):
    ck.load(av.TU)
    ck.rule('append', 'an append writes the whole element once, at byte offset (claimed position) x (element size) of the vector\'s '
                      'file, and returns that position')
    ck.rule('claim', 'the position of an append comes from one atomic read-modify-write of the size that adds one, so two appends '
                     'never share a position; nothing else changes the size')
    ck.rule('append-complete', 'a synchronous append returns normally only when the whole element was written')
    ck.rule('bounds', 'every read is preceded on its path by the test index < size')
    ck.rule('read', 'a read asks for exactly one element at byte offset index x (element size) of the vector\'s file')
    ck.rule('read-complete', 'a synchronous read returns the bytes read, and only when the whole element was read')
    ck.rule('deliver', 'the completion handler of a read invokes the caller\'s callback exactly once: with the buffer when the whole '
                       'element was read, with null otherwise')
    ck.rule('request', 'a batch submits, for every request, its own index with its own callback, and submits the batch')
    ck.rule('refusal', 'an append or a read is refused only in the wrong state, without a scheduler, for a position or an address '
                       'that is not valid, without memory, or when the transfer did not succeed')
    for fn in av.each(ck, 'push_back'):
        append(ck, fn, False)
    for fn in av.each(ck, 'async_push_back'):
        append(ck, fn, True)
    for fn in av.each(ck, 'get'):
        E, outs = ck.run(fn, **av.opts())
        sg, n = av.inst(fn), av.elem_size(fn)
        for o in outs:
            rd = [e for e in o.trace if av.io(e, av.READS)]
            for e in rd:
                bound(ck, E, e, pv(fn), sg, o)
                ok = e.args[0] == av.this('m_fd') and e.args[2] == T.I(n) and e.args[3] == T.mul(T.I(n), pv(fn))
                ck.ob('read', sg, ok, repr(e), C.evloc(e), C.trail(o))
            if o.kind == 'ret':
                ok = len(rd) == 1 and full(E, o.st.facts, rd[0].ret, n)
                ck.ob('read-complete', sg, ok, 'returns after %r' % rd, C.loc(fn, o.line), C.trail(o))
                ck.ob('read-complete', sg + ' value', o.val[0] == 'out' and core.meth_of(o.val[1]) in av.READS,
                      'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
    for fn in av.each(ck, 'async_get'):
        E, outs = ck.run(fn, **av.opts())
        sg, n = av.inst(fn), av.elem_size(fn)
        for o in outs:
            rd = [e for e in o.trace if av.io(e, av.READS)]
            if o.kind == 'ret':
                ck.ob('read', sg + ' once', len(rd) == 1, 'returns after %d submissions' % len(rd), C.loc(fn, o.line), C.trail(o))
            for e in rd:
                bound(ck, E, e, pv(fn), sg, o)
                ok = e.args[0] == av.this('m_fd') and e.args[2] == T.I(n) and e.args[3] == T.mul(T.I(n), pv(fn)) and e.args[1] == e.args[4]
                ck.ob('read', sg, ok, repr(e), C.evloc(e), C.trail(o))
        handlers(ck, fn, sg, n)
    for fn in av.each(ck, 'async_gets'):
        batch(ck, fn)
    for fn in av.each(ck, 'size'):
        E, outs = ck.run(fn, **av.opts())
        for o in outs:
            ck.ob('claim', av.inst(fn), o.val == av.this('m_size'), 'size() is %s' % T.show(o.val), C.loc(fn))
    for m, write in (('push_back', True), ('async_push_back', True), ('get', False), ('async_get', False), ('async_gets', False)):
        for fn in av.each(ck, m):
            E, outs = ck.run(fn, **av.opts(record_assume=lambda c: False))
            for o in outs:
                if o.kind == 'throw':
                    ck.ob('refusal', av.inst(fn), excused(E, o, write), 'throws although nothing is wrong', C.loc(fn, o.line), C.trail(o))
    for m in ('reserve', 'commit', 'get', 'async_get', 'set_use_direct_access'):
        for fn in av.each(ck, m):
            E, outs = ck.run(fn, **av.opts())
            for o in outs:
                v = E.load(o.st, av.fld('m_size'))
                ck.ob('claim', av.inst(fn), v == av.this('m_size'), 'the size ends as %s' % T.show(v), C.loc(fn, o.line), C.trail(o))
    for r, k in (('append', 8), ('claim', 10), ('append-complete', 2), ('bounds', 6), ('read', 6), ('read-complete', 4),
                 ('deliver', 4), ('request', 4)):
        ck.floor(r, k)


def full(E, facts, ret, n):
    """the call's result is known to equal the element size"""
    for t in (ret, ('trunc', 'int', ret)):
        if E.truth(facts, T.eq(t, T.I(n))) is True:
            return True
    return any(t[0] == 'trunc' and t[-1] == ret and v[0] == v[1] == n for t, v in facts.items() if isinstance(v, tuple)) or \
        any(T.mentions(t, ret) and v[0] == v[1] == n for t, v in facts.items())


def bound(ck, E, e, idx, sg, o):
    ck.ob('bounds', sg, E.truth(av.facts(e), T.lt(idx, av.this('m_size'))) is True, 'reads at %s without index < size' % T.show(idx),
          C.evloc(e), C.trail(o))


def append(ck, fn, asy):
    E, outs = ck.run(fn, **av.opts())
    sg, n = av.inst(fn), av.elem_size(fn)
    for o in outs:
        claims = [e for e in o.trace if e.kind == 'call' and e.obj == av.fld('m_size') and core.meth_of(e.name) != 'load']
        w = [e for e in o.trace if av.io(e, av.WRITES)]
        fin = E.load(o.st, av.fld('m_size'))
        if w or o.kind == 'ret':
            ok = len(claims) == 1 and core.meth_of(claims[0].name) in av.RMW[:2] and fin == T.add(av.this('m_size'), T.ONE)
            ck.ob('claim', sg, ok, 'the position is claimed by %r' % claims, C.loc(fn, o.line), C.trail(o))
        else:
            ck.ob('claim', sg + ' refused', fin == av.this('m_size'), 'a refused append changes the size to %s' % T.show(fin),
                  C.loc(fn, o.line), C.trail(o))
        for e in w:
            ok = e.args[0] == av.this('m_fd') and e.args[2] == T.I(n) and e.args[3] == T.mul(T.I(n), av.this('m_size'))
            if asy:
                cp = [x for x in map(copied, o.trace[:o.trace.index(e)]) if x]
                whole = E.load(o.st, ('deref', e.args[1])) == ('in', par(fn)) and not cp
                ok = ok and (whole or cp == [(e.args[1], ('addr', par(fn)), T.I(n))]) and e.args[4] == e.args[1]
            else:
                ok = ok and e.args[1] == ('addr', par(fn))
            ck.ob('append', sg, ok, repr(e), C.evloc(e), C.trail(o))
        if o.kind == 'ret':
            ck.ob('append', sg + ' once', len(w) == 1 and o.val == av.this('m_size'), 'returns %s after %r' % (T.show(o.val), w),
                  C.loc(fn, o.line), C.trail(o))
            if w:
                ok = full(E, o.st.facts, w[0].ret, 1 if asy else n)
                ck.ob('append-complete', sg, ok, 'returns although %s' % (
                    'the request may have been refused' if asy else 'the write may be incomplete'), C.loc(fn, o.line), C.trail(o))


def copied(x):
    """(destination, source, bytes) of a copy of bytes"""
    if x.kind == 'call' and core.meth_of(x.name) in ('memcpy', 'memmove'):
        return x.args[:3]
    if x.kind == 'call' and x.name == 'std::copy' and len(x.args) == 3:
        return x.args[2], x.args[0], T.sub(x.args[1], x.args[0])
    return None


def handlers(ck, fn, sg, n):
    for lf in av.handlers(ck, fn):
        if len(lf.params) != 2:
            continue
        E, outs = ck.run(lf)
        buf, res = pv(lf, 0), pv(lf, 1)
        for o in outs:
            cb = [e for e in o.trace if e.kind == 'call' and 'function' in e.name and core.meth_of(e.name) == 'operator()']
            ok = o.kind == 'ret' and len(cb) == 1
            t = E.truth(o.st.facts, T.eq(res, T.I(n)))
            if ok:
                a = cb[0].args[0]
                ok = (a == buf) if t is True else (a == T.ZERO) if t is False else False
            ck.ob('deliver', sg, ok, 'callback called as %r when the whole element was%s read' % (cb, {True: '', False: ' not', None:
                  ' or was not'}[t]), C.loc(lf, o.line), C.trail(o))


def batch(ck, fn):
    sg, n = av.inst(fn), av.elem_size(fn)
    req = pv(fn)
    size = av.this('m_size')

    def about(c):
        return T.has_tag(c, 'phi') or T.mentions(c, size)
    E, outs = ck.run(fn, **av.opts(record_assume=about))
    seen = 0
    guards = guard_loops(E, outs, size)
    for o in outs:
        first = set()          # containers whose first element passed the test
        done = set()           # guard loops that ran to their end on this path
        subs = []
        for e in o.trace:
            if e.kind == 'assume':
                for el in below(E, e, size):
                    first.add(el)
                g = loop_exit(E, e)
                if g is not None and g in guards:
                    done.add(guards[g])
            elif ('PReadSumission::(ctor)' in (e.name or '') or core.meth_of(e.name or '') == 'emplace_back') and \
                    len(e.args) == 6:
                seen += 1
                idx = [t for t in T.subterms(e.args[3]) if t[0] == 'in' and t[1][0] == 'fld' and t[1][2] == 'index']
                x = idx[0] if len(idx) == 1 else None
                ok = x is not None and e.args[0] == av.this('m_fd') and e.args[2] == T.I(n) and e.args[3] == T.mul(T.I(n), x) and \
                    e.args[1] == e.args[4]
                ck.ob('read', sg, ok, repr(e), C.evloc(e), C.trail(o))
                if x is None:
                    continue
                el = x[1][1]
                ok = E.truth(av.facts(e), T.lt(x, size)) is True or el in first or (el[0] == 'elem' and el[1] in done)
                ck.ob('bounds', sg, ok, 'request %s is submitted without index < size' % T.show(x), C.evloc(e), C.trail(o))
                cap = [t for t in T.subterms(e.args[5]) if t[0] == 'in' and t[1][0] == 'fld' and t[1][2] == 'callback']
                ck.ob('request', sg, set(cap) == {('in', ('fld', el, 'callback'))},
                      'request %s completes callback %s' % (T.show(el), [T.show(c) for c in cap]), C.evloc(e), C.trail(o))
                subs.append(e)
        sb = [e for e in o.trace if av.io(e, ('submit_preads', 'submit_pread'))]
        if o.kind == 'ret':
            ck.ob('request', sg + ' submits', len(sb) == 1 or (sb and core.meth_of(sb[0].name) == 'submit_pread'),
                  'returns after %d submissions' % len(sb), C.loc(fn, o.line), C.trail(o))
            for e in sb:
                if core.meth_of(e.name) == 'submit_preads':
                    all_ = [y for t in o.st.facts for y in T.subterms(t) if y[0] == 'pure' and core.meth_of(y[1]) == 'size']
                    all_ += [('trunc', 'int', y) for y in all_]
                    ok = any(E.truth(o.st.facts, T.eq(e.ret, y)) is True or E.truth(o.st.facts, T.lt(e.ret, y)) is False for y in all_)
                else:
                    ok = E.truth(o.st.facts, T.eq(e.ret, T.ONE)) is True
                ck.ob('request', sg + ' accepted', ok, 'returns although some requests may have been refused', C.evloc(e), C.trail(o))
        pushes = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) in ('push_back', 'emplace_back')
                  and e.name.startswith('std::vector')]
        if o.kind == 'ret':
            ck.ob('request', sg + ' queued', len(pushes) >= len(set((e.args) for e in subs)),
                  '%d of %d built submissions are queued' % (len(pushes), len(subs)), C.loc(fn, o.line), C.trail(o))
    if not seen and 'PReadSumission' in str(fn.blocks):
        ck.ob('request', sg + ' submits', False, 'every batch is refused', C.loc(fn))
        return
    if not seen:
        raise core.AnalysisBroken('%s builds no submission' % sg)
    handlers(ck, fn, sg, n)


def below(E, ev, size):
    """the elements whose index the recorded branch decision bounds by the size"""
    c, v = ev.args
    out = []
    for t in T.subterms(c):
        if t[0] == 'in' and t[1][0] == 'fld' and t[1][2] == 'index' and t[1][1][0] == 'elem':
            st = core.State()
            st.facts = {}
            if E.assume(st, c, v == T.ONE) and E.truth(st.facts, T.lt(t, size)) is True:
                out.append(t[1][1])
    return out


def loop_cond(c):
    """(counter, container) when c compares a loop counter with the size of a container"""
    ph = [t for t in T.subterms(c) if t[0] == 'phi']
    sz = [t for t in T.subterms(c) if t[0] == 'pure' and core.meth_of(t[1]) == 'size']
    if len(set(ph)) == 1 and len(set(sz)) == 1 and not T.has_tag(c, 'elem'):
        return ph[0], sz[0]
    return None


def loop_exit(E, ev):
    """the counter of the loop that this decision leaves because the counter reached the container's size"""
    lc = loop_cond(ev.args[0])
    if lc is None:
        return None
    st = core.State()
    st.facts = {}
    if not E.assume(st, ev.args[0], ev.args[1] == T.ONE):
        return None
    return lc[0] if E.truth(st.facts, T.lt(lc[0], lc[1])) is not True and leaves(E, st, lc) else None


def leaves(E, st, lc):
    return E.truth(st.facts, T.lnot(T.eq(lc[0], lc[1]))) is False or E.truth(st.facts, T.lt(lc[0], lc[1])) is False


def guard_loops(E, outs, size):
    """{counter: container} of the loops in which every iteration that reaches the next one has tested its element"""
    good, bad = {}, set()
    for o in outs:
        open_ = None
        tested0 = set()
        for e in o.trace:
            if e.kind == 'assume':
                els = below(E, e, size)
                for el in els:
                    tested0.add(el)
                    if open_ and el == ('elem', el[1], el[2]) and T.mentions(el[2], open_[0]):
                        good[open_[0]] = el[1]
                        open_ = None
                lc = loop_cond(e.args[0])
                if lc and not els:
                    if open_:
                        bad.add(open_[0])
                        open_ = None
                    g = loop_exit(E, e)
                    if g is None:
                        open_ = lc
                    elif not any(el[2] == T.ZERO for el in tested0):
                        bad.add(g)
        if open_ and o.kind == 'ret':
            bad.add(open_[0])
    return {k: v for k, v in good.items() if k not in bad}


