"""P08: every accepted IO query completes exactly once with its own callback, and schedulers stop cleanly"""
from engine import check as C
from engine import core
from engine import terms as T
from engine.poly import Facts
from rules.av import fld, this
from rules.p06 import pv

LX = 'sse::abstractio::LinuxAIOScheduler::'
TP = 'sse::abstractio::ThreadPoolAIOScheduler::'
TUS = ['lib/abstractio/linux_aio_scheduler.cpp', 'lib/abstractio/thread_pool_aio_scheduler.cpp',
       'lib/abstractio/scheduler.cpp']
SKIP = ('operator<<', 'to_string', 'operator+', 'strerror', 'perror', '__errno_location')


def opts(**k):
    k.setdefault('interest', lambda ev: core.meth_of(ev.name or '') not in SKIP and not (ev.name or '').startswith(
        ('std::basic_string', 'fmt::', 'spdlog::', 'std::runtime_error')))
    k.setdefault('opaque_if', lambda n, f: core.meth_of(n) in SKIP)
    return k


def named(o, *names):
    return [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in names]


def known(E, o, t):
    """what some point of the path knows about the result of a call"""
    for f in [o.st.facts] + [dict(e.facts or ()) for e in reversed(o.trace)]:
        v = E.truth(f, t)
        if v is not None:
            return v
    return None


def mfield(t, n):
    """t is the member n of this, whatever version of it"""
    return any(x[0] == 'fld' and x[2] == n for x in T.subterms(t) if len(x) == 3)


def run(ck):
    ck.load(TUS)
    ck.rule('query', 'an accepted single query hands the kernel exactly the caller\'s descriptor, buffer, length and offset, with a '
                     'request that holds the caller\'s data and callback, and is counted once before it is submitted')
    ck.rule('batch', 'a batch builds one control block per query, in order, from that query\'s own fields, and submits all of them')
    ck.rule('result', 'the submission call returns the outcome of the submission')
    ck.rule('resubmit', 'after the kernel accepted k of n control blocks, the remaining n-k are submitted from position k on; nothing '
                        'is submitted twice or skipped; when the queue is full the same ones are submitted again after a bounded wait')
    ck.rule('refused', 'when the kernel refuses, every remaining request is released and counted as failed, and the number returned '
                       'is the number accepted, or -1 when none was')
    ck.rule('complete', 'for every event returned by the kernel, exactly the request attached to it is notified once with the '
                        'event\'s result, then released once')
    ck.rule('guarded', 'the waiting flag of the submission queue is only written under its lock')
    ck.rule('request', 'a request holds the data and the callback it was created with')
    ck.rule('drain', 'the completion thread stops only when asked to and when as many queries completed or failed as were submitted; '
                     'the completed count grows by exactly the number of events handled')
    ck.rule('stop', 'waiting for completions asks the thread to stop, then joins it; destruction does so before the kernel context '
                    'is destroyed; construction starts the thread only once the context exists and fails otherwise')
    ck.rule('refuse-stopped', 'a stopped scheduler accepts no query and returns an error')
    ck.rule('pool-query', 'a pooled query is counted before it is queued, performs exactly the caller\'s read or write, calls the '
                          'callback once with the caller\'s data and the result, and only then, under the lock, is uncounted and '
                          'wakes the waiter')
    ck.rule('pool-wait', 'waiting on the pooled scheduler holds the lock and lasts until no query is running; destruction waits')
    ck.rule('pool-shared', 'the shared pool is created once, by a thread-safe initialization')
    ck.rule('base-batch', 'the default batch submits the queries in order, each with its own fields, stops at the first one refused, '
                          'and returns the number accepted')
    linux(ck)
    pool(ck)
    base(ck)
    for r, k in (('query', 2), ('batch', 1), ('resubmit', 2), ('refused', 2), ('complete', 1), ('request', 1), ('drain', 1), ('stop', 4),
                 ('refuse-stopped', 3), ('pool-query', 2), ('pool-wait', 2), ('base-batch', 2), ('result', 3)):
        ck.floor(r, k)


# ---------------------------------------------------------------- Linux AIO
def linux(ck):
    sub = C.users(ck.prog, LX, 'io_submit')
    if not sub:
        raise core.AnalysisBroken('no function calls io_submit')
    for fn in sub:
        submitter(ck, fn)
    helpers = {f.name for f in sub if core.meth_of(f.name) not in ('submit_pread', 'submit_pwrite', 'submit_preads')}
    request(ck)
    for m, prep in (('submit_pread', 'io_prep_pread'), ('submit_pwrite', 'io_prep_pwrite')):
        for fn in ck.find(LX + m):
            query(ck, fn, prep, helpers)
    for fn in ck.find(LX + 'submit_preads'):
        queries(ck, fn, helpers)
    for fn in C.users(ck.prog, LX, 'io_getevents'):
        completer(ck, fn)
    lifecycle(ck)
    flag = fld('m_waiting_submissions')
    for fn in C.users(ck.prog, LX, 'io_submit') + C.users(ck.prog, LX, 'io_getevents'):
        E, outs = ck.run(fn, cut=True, **opts(record_write=lambda ev: ev.obj == flag))
        for o in outs:
            for e in o.trace:
                if e.kind == 'write':
                    ck.ob('guarded', core.meth_of(fn.name), bool(e.locks), 'written without the lock', C.evloc(e), C.trail(o))


def requests(o):
    return [e for e in o.trace if (e.name or '').endswith('LinuxAIORequest::(ctor)')]


def stopped(E, facts):
    return E.truth(facts, T.eq0(this('m_stop_flag')))


def submits(o, helpers):
    return [e for e in o.trace if e.kind == 'call' and (e.name in helpers or core.meth_of(e.name) == 'io_submit')]


def query(ck, fn, prep, helpers):
    E, outs = ck.run(fn, **opts(opaque_if=lambda n, f: core.meth_of(n) in SKIP or n in helpers,
                                record_write=lambda ev: T.show(ev.obj).endswith('.data')))
    sg = core.meth_of(fn.name)
    seen = 0
    for o in outs:
        s = submits(o, helpers)
        rq, pr = requests(o), named(o, 'io_prep_pread', 'io_prep_pwrite')
        st = stopped(E, o.st.facts)
        if s or rq:
            ck.ob('refuse-stopped', sg, st is True, 'a query is submitted without knowing that the scheduler is running',
                  C.loc(fn, o.line), C.trail(o))
        elif st is not True:
            ck.ob('refuse-stopped', sg, o.kind == 'ret' and E.truth(o.st.facts, T.lt0(o.val)) is True,
                  'a stopped scheduler returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
        if not s:
            ck.ob('query', sg + ' nothing queued', not rq, 'a request is created but not submitted', C.loc(fn, o.line), C.trail(o))
            ck.ob('result', sg + ' refusal', o.kind != 'ret' or E.truth(o.st.facts, T.lt0(o.val)) is True,
                  'returns %s although nothing was submitted' % (o.val and T.show(o.val)), C.loc(fn, o.line), C.trail(o))
            continue
        seen += 1
        d = [pv(fn, i) for i in range(6)]
        ok = len(rq) == 1 and len(pr) == 1 and core.meth_of(pr[0].name) == prep and list(pr[0].args[1:5]) == d[:4]
        ok = ok and d[4] in rq[0].args and d[5] in rq[0].args
        ck.ob('query', sg, ok, '%r with %r' % (pr, rq), C.loc(fn, o.line), C.trail(o))
        w = [e for e in o.trace if e.kind == 'write' and T.show(e.obj).endswith('iocb.data') or e.kind == 'write' and '.data' in T.show(e.obj)]
        iocb = pr[0].args[0] if pr else None
        att = [e for e in w if iocb and ('addr', e.obj[1]) == iocb and o.trace.index(e) < o.trace.index(s[0])]
        ok = bool(att) and pr and o.trace.index(att[-1]) > o.trace.index(pr[0]) and att[-1].args[0][0] == 'new' and \
            'LinuxAIORequest' in T.show(att[-1].args[0])
        ck.ob('query', sg + ' attached', bool(ok), 'the control block carries %r' % [e.args for e in w], C.evloc(s[0]), C.trail(o))
        vals = set(s[0].args) | {v for _, v in s[0].mem or ()}
        ck.ob('query', sg + ' submitted', T.ONE in s[0].args and iocb in vals, 'submits %r' % s[0], C.evloc(s[0]), C.trail(o))
        inc = [e for e in o.trace if e.kind == 'call' and mfield(e.obj or (), 'm_submitted_queries_count')]
        before = [e for e in inc if o.trace.index(e) < o.trace.index(s[0])]
        ok = len(inc) == 1 and before == inc and core.meth_of(inc[0].name) in ('fetch_add', 'operator++', 'operator+=') and \
            (core.meth_of(inc[0].name) == 'operator++' or inc[0].args[0] == T.ONE)
        ck.ob('query', sg + ' counted', ok, 'the query is counted by %r' % inc, C.evloc(s[0]), C.trail(o))
        if s[0].name in helpers and o.kind == 'ret':
            ck.ob('result', sg, o.val in (s[0].ret, ('trunc', 'int', s[0].ret)), 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
    if not seen:
        raise core.AnalysisBroken(sg + ' submits nothing')


def queries(ck, fn, helpers):
    E, outs = ck.run(fn, cut=True, **opts(opaque_if=lambda n, f: core.meth_of(n) in SKIP or n in helpers,
                                          record_write=lambda ev: ev.obj[0] in ('fld', 'elem')))
    sg = core.meth_of(fn.name)
    L = C.Loops(E, outs)
    subs = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
    build = [h for h in L.heads if any(requests(o) for o in L.body(h))]
    for o in outs:
        st = stopped(E, o.st.facts)
        if submits(o, helpers) or requests(o):
            ck.ob('refuse-stopped', sg, st is True, 'queries are submitted without knowing that the scheduler is running',
                  C.loc(fn, o.line), C.trail(o))
        elif o.kind == 'ret' and st is not True:
            ck.ob('refuse-stopped', sg, E.truth(o.st.facts, T.lt0(o.val)) is True, 'a stopped scheduler returns %s' % T.show(o.val),
                  C.loc(fn, o.line), C.trail(o))
        s = submits(o, helpers)
        for e in s:
            # free of the arrays only after submission
            fr = [x for x in named(o, 'free') if o.trace.index(x) < o.trace.index(e)]
            ck.ob('batch', sg + ' arrays', not fr, 'the control blocks are freed before they are submitted', C.evloc(e), C.trail(o))
            if e.name in helpers and o.kind == 'ret':
                ck.ob('result', sg, o.val in (e.ret, ('trunc', 'int', e.ret)), 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
    if len(build) != 1:
        raise core.AnalysisBroken('%s: %d loops build requests' % (sg, len(build)))
    h = build[0]
    arrays, places = set(), set()
    for o in L.iters(h):
        rq, pr = requests(o), named(o, 'io_prep_pread')
        if len(pr) != 1 or len(rq) != 1:
            ck.ob('batch', sg, False, 'an iteration prepares %r and builds %r' % (pr, rq), C.loc(fn, o.line), C.trail(o))
            continue
        el = {x[1] for a in pr[0].args[1:] for x in T.subterms(a) if x[0] == 'fld' and x[1][0] == 'elem'}
        el = el.pop() if len(el) == 1 else None
        ok = el is not None and el[1] == subs and list(pr[0].args[1:5]) == [('in', ('fld', el, n)) for n in ('fd', 'buf', 'len', 'offset')]
        ok = ok and ('in', ('fld', el, 'data')) in rq[0].args and ('in', ('fld', el, 'callback')) in rq[0].args
        ck.ob('batch', sg, ok, '%r with %r' % (pr[0], rq[0]), C.evloc(pr[0]), C.trail(o))
        if el is None:
            continue
        ck.ob('batch', sg + ' in order', L.counts(h, el[2]), 'query %s is handled next' % T.show(el[2]), C.evloc(pr[0]), C.trail(o))
        blk = C.address(pr[0].args[0])
        w = [e for e in o.trace if e.kind == 'write']
        att = [e for e in w if e.obj[0] == 'fld' and e.obj[2] == 'data' and C.whereis(e.obj[1]) == blk]
        ok = bool(att) and att[-1].args[0][0] == 'new' and o.trace.index(att[-1]) > o.trace.index(pr[0])
        ck.ob('batch', sg + ' attached', ok, 'the control block carries %r' % [e.args for e in w], C.evloc(pr[0]), C.trail(o))
        put = [e for e in w if C.address(e.args[0]) == blk]
        # listed at the next place of an array
        at = C.whereis(put[0].obj) if len(put) == 1 else None
        ok = at is not None and L.steps(h, at) == {T.ONE} and len(L.starts(h, at)) == 1
        ck.ob('batch', sg + ' listed', ok, 'the control block is listed by %r' % put, C.evloc(pr[0]), C.trail(o))
        # distinct control blocks
        ck.ob('batch', sg + ' distinct', L.steps(h, blk) == {T.ONE}, 'control block %s' % T.show(blk), C.evloc(pr[0]), C.trail(o))
        if ok:
            arrays.update(L.starts(h, at))
            places.add(at)
        for what, x, width in (('control blocks', blk, 64), ('list', at, 8)):
            for b in L.starts(h, x) if x is not None else ():
                if b[0] == 'call' and b[1] in ('calloc', 'malloc'):
                    n = ('pure', 'size', (('in', subs),))
                    got = b[2][0] if b[1] == 'malloc' else T.mul(b[2][0], b[2][1])
                    ok = Facts(E, o.st.facts, n).ge(got, T.mul(T.I(width), n))
                    ck.ob('batch', sg + ' room', ok, 'the array of the %s has %s bytes' % (what, T.show(got)), C.evloc(put[0] if put else pr[0]), C.trail(o))
        inc = [e for e in o.trace if e.kind == 'call' and mfield(e.obj or (), 'm_submitted_queries_count')]
        cnt = fld('m_submitted_queries_count')
        ph = ('phi', h, cnt)
        ck.ob('batch', sg + ' counted', len(inc) == 1 and E.load(o.st, cnt) in (T.add(ph, T.ONE), T.add(('in', cnt), T.ONE)),
              'counted by %r' % inc, C.evloc(pr[0]), C.trail(o))
    for o in L.exits(h):
        for e in submits(o, helpers):
            a = [x for x in arrays if any(C.address(y) == x for y in e.args)]
            # as many as were listed: one for each turn
            n = [y for y in e.args if any(numbered(E, L, h, o, T.sub(p, x), y) for x in a for p in places)]
            ck.ob('batch', sg + ' submitted', bool(a) and bool(n), 'submits %r' % e, C.evloc(e), C.trail(o))
        if o.kind == 'ret':
            ck.ob('batch', sg + ' submits', len(submits(o, helpers)) == 1, 'returns without submitting', C.loc(fn, o.line), C.trail(o))
    # the loop runs over the whole batch
    for o in L.iters(h):
        for e in named(o, 'io_prep_pread'):
            for x in T.subterms(e.args[2]):
                if x[0] == 'elem' and x[1] == subs:
                    szs = [s for p in L.exits(h) for t in p.st.facts for s in T.subterms(t) if s[0] == 'pure' and
                           core.meth_of(s[1]) == 'size' and ('in', subs) in s[2]]
                    ck.ob('batch', sg + ' whole', bool(szs) and L.until(h, x[2], szs[0]), 'the batch is left before its end',
                          C.evloc(e), C.trail(o))


def numbered(E, L, h, o, i, n):
    """n is the number of turns, i being the number of turns so far, once the loop was left by o"""
    return n == i or L.final(o, h, n) == L.final(o, h, i) or L.counts(h, i) and E.truth(o.st.facts, T.lt(i, n)) is False and all(
        E.truth(x.st.facts, T.lt(i, n)) is True for x in L.iters(h))


def submitter(ck, fn):
    E, outs = ck.run(fn, cut=True, **opts())
    sg = core.meth_of(fn.name)
    L = C.Loops(E, outs)
    hs = [h for h in L.heads if any(named(o, 'io_submit') for o in L.body(h))]
    for o in outs:
        for e in named(o, 'io_submit'):
            ck.ob('resubmit', sg + ' looped', o.frm in hs, 'submits once, without handling a partial acceptance', C.evloc(e), C.trail(o))
    for h in hs:
        relh = set()
        for o in L.iters(h):
            s = named(o, 'io_submit')
            if not s:
                continue
            e = s[0]
            n, p, r = e.args[1], C.address(e.args[2]), e.ret
            n2, p2 = L.at(o, n, h), L.at(o, p, h)
            neg = known(E, o, T.lt0(r))
            acc = r if neg is False else T.ZERO
            ok = neg is not None and len(s) == 1 and T.sub(n, n2) == acc and T.sub(p2, p) in (acc, T.mul(T.I(8), acc)) and \
                mfield(e.args[0], 'm_ioctx')
            ck.ob('resubmit', sg, ok, 'after %s of %s from %s were accepted, submits %s from %s' % (
                T.show(acc), T.show(n), T.show(p), T.show(n2), T.show(p2)), C.evloc(e), C.trail(o))
            ok = len(fn.params) < 2 or L.starts(h, n) == {pv(fn, 1)} and L.starts(h, p) == {pv(fn)}
            ck.ob('resubmit', sg + ' whole', ok, 'submits %s from %s at first' % ([T.show(x) for x in L.starts(h, n)], [T.show(x) for x in L.starts(h, p)]), C.evloc(e), C.trail(o))
            if neg is True:
                w = [x for x in o.trace if x.kind == 'call' and core.meth_of(x.name).startswith('wait')]
                ok = known(E, o, T.eq(r, T.I(-11))) is True
                ck.ob('resubmit', sg + ' retry', ok, 'an error is retried', C.evloc(e), C.trail(o))
                for x in w:
                    ck.ob('resubmit', sg + ' bounded wait', core.meth_of(x.name) in ('wait_for', 'wait_until') and bool(x.locks),
                          'waits for queue space without a time limit or without the lock: the wake-up may already be gone',
                          C.evloc(x), C.trail(o))
            ck.ob('resubmit', sg + ' kept', not [x for x in o.trace if x.name == 'delete'], 'a request is released and resubmitted',
                  C.evloc(e), C.trail(o))
        done = [o for o in L.exits(h) if o.kind == 'ret' and (not named(o, 'io_submit') or known(E, o, T.lt0(named(o, 'io_submit')[0].ret)) is False)]
        ck.ob('resubmit', sg + ' ends', bool(done), 'goes on after all the queries were accepted', C.loc(fn))
        for o in L.exits(h):
            s = named(o, 'io_submit')
            if o.kind == 'enter' and s and E.truth(o.st.facts, T.lt0(s[0].ret)) is True:
                relh.add((o.head, s[0].args[1], C.address(s[0].args[2])))
            elif o.kind == 'ret' and not s:
                ok = len(fn.params) >= 2 and E.truth(o.st.facts, T.eq(o.val, pv(fn, 1))) is True
                ck.ob('refused', sg + ' all accepted', ok, 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
            elif o.kind == 'ret':
                ck.ob('refused', sg + ' releases', False, 'returns without releasing the refused requests', C.loc(fn, o.line), C.trail(o))
        for rh, n, p in sorted(relh, key=repr):
            good = False
            for o in L.iters(rh):
                dl = [x for x in o.trace if x.name == 'delete']
                ok = len(dl) == 1
                if ok:
                    ok = field_of(dl[0].args[0]) == 'data'
                    ok = ok and covers(E, L, h, rh, owner(dl[0].args[0]), n, p)
                    good = good or ok
                ck.ob('refused', sg, ok, 'releases %r of the %s refused requests from %s' % (dl, T.show(n), T.show(p)),
                      C.loc(fn, o.line), C.trail(o))
            ck.ob('refused', sg + ' releases', good, 'refused requests are not released', C.loc(fn))
            for o in L.exits(rh):
                if o.kind != 'ret':
                    continue
                f = [x for x in o.trace if x.kind == 'call' and mfield(x.obj or (), 'm_failed_queries_count')]
                ok = len(f) == 1 and core.meth_of(f[0].name) in ('fetch_add', 'operator+=') and f[0].args[0] == n
                ck.ob('refused', sg + ' counted', ok, 'counted by %r' % f, C.loc(fn, o.line), C.trail(o))
                left = T.sub(pv(fn, 1), n)
                none = E.truth(o.st.facts, T.eq0(left))
                ok = (o.val == T.I(-1)) if none is True else (o.val == left) if none is False else False
                ck.ob('refused', sg + ' reported', ok, 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))


def covers(E, L, g, h, blk, n, p):
    """the control block is *p[0], *p[1], ... up to n over the iterations of h, that is entered from a turn of g"""
    if blk[0] != 'deref' or blk[1][0] != 'in':
        return False
    a, p = C.whereis(blk[1][1]), C.address(p)
    end = T.add(p, n)
    if {L.canon(g, x) for x in L.starts(h, a)} != {L.canon(g, p)} or L.steps(h, a) != {T.ONE}:
        return False
    return all(any(E.truth(o.st.facts, T.lt(f(a), f(end))) is False for f in (lambda x: x, lambda x: L.canon(g, x)))
               for o in L.exits(h) if o.kind != 'throw')


def completer(ck, fn):
    E, outs = ck.run(fn, cut='all', **opts())
    sg = core.meth_of(fn.name)
    L = C.Loops(E, outs)
    inner = [h for h in L.heads if any(x.name == 'delete' or called(x) for o in L.iters(h) if o.frm == h for x in o.trace)]
    outer = [h for h in L.heads if any(named(o, 'io_getevents') for o in L.body(h))]
    if len(inner) != 1 or len(outer) != 1 or inner == outer:
        raise core.AnalysisBroken('%s: loops not recognised' % sg)
    h, g = inner[0], outer[0]
    get = [e for o in L.body(g) for e in named(o, 'io_getevents')]
    r, buf = get[0].ret, get[0].args[3]
    for e in get:
        ck.ob('complete', sg + ' fetch', e.ret == r and mfield(e.args[0], 'm_ioctx'), repr(e), C.evloc(e))
    for o in L.iters(h):
        nt = [x for x in o.trace if called(x)]
        dl = [x for x in o.trace if x.name == 'delete']
        ok = len(nt) == 1 and len(dl) == 1 and o.trace.index(nt[0]) < o.trace.index(dl[0])
        if ok:
            d, (data, res) = dl[0].args[0], nt[0].args
            ok = data[0] == 'in' and data[1] == ('fld', ('deref', d), USERDATA[0]) and nt[0].obj == ('fld', ('deref', d), USERDATA[1]) \
                and d[0] in ('in', 'fv') and res[0] == d[0] and field_of(d) == 'data' and field_of(res) == 'res' and owner(d) == owner(res)
            if ok:
                w = owner(d)
                if w[0] == 'ev' and w[1][0] == 'obj' and w[1][1] == 'std::vector' and buf[0] == 'addr' and buf[1][0] == 'elem' and buf[1][2] == T.ZERO:
                    # of a vector the kernel filled
                    whole = E.load(o.st, buf[1][1])
                    w = ('elem', buf[1][1], w[2]) if whole == w[1] else w
                elif w[0] == 'ev':
                    # an element of the array, by value
                    w = ('elem', E.deref(buf), w[2]) if w[1] == E.load(o.st, E.deref(buf)) else w
                a, b = C.whereis(w), C.address(buf)
                ok = L.starts(h, a) == {b} and L.steps(h, a) == {T.ONE} and L.until(h, a, T.add(b, r))
        ck.ob('complete', sg, ok, 'notifies %r, releases %r' % (nt, dl), C.loc(fn, o.line), C.trail(o))
    # the events are handled after every fetch
    for o in L.body(g):
        if named(o, 'io_getevents'):
            ck.ob('complete', sg + ' handled', o.kind == 'enter' and o.head == h or E.truth(o.st.facts, T.lt(T.ZERO, r)) is False,
                  'events are fetched but not handled', C.loc(fn, o.line), C.trail(o))
    c = fld('m_completed_queries_count')
    done = None
    each = ('phi', h, c)
    one = L.steps(h, each) == {T.ONE} and L.starts(h, each) == {('phi', g, c)}
    for o in L.iters(g):
        if o.frm == g:
            ok = E.load(o.st, c) in (('phi', g, c), ('in', c))
            ck.ob('drain', sg + ' nothing completed', ok, 'the completed count becomes %s' % T.show(E.load(o.st, c)), C.loc(fn, o.line), C.trail(o))
    for o in L.exits(h):
        if o.kind == 'iter' and o.head == g:
            fin = E.load(o.st, c)
            ph = ('phi', g, c)
            pos = E.truth(o.st.facts, T.lt(T.ZERO, r))
            if one and fin == each:
                done = True
                continue
            ok = fin == T.add(ph, r) and pos is not False and (pos is True or E.truth(o.st.facts, T.lt0(r)) is False) or fin in (ph, ('in', c)) and pos is False
            ck.ob('drain', sg + ' completed', ok, 'the completed count becomes %s' % T.show(fin), C.loc(fn, o.line), C.trail(o))
            done = True
        elif o.kind == 'ret':
            ck.ob('drain', sg, False, 'stops in the middle', C.loc(fn, o.line), C.trail(o))
    for o in L.body(g):
        if o.kind != 'ret':
            continue
        total = T.sub(T.add(('phi', g, c), this('m_failed_queries_count')), this('m_submitted_queries_count'))
        ok = stopped(E, o.st.facts) is False and E.truth(o.st.facts, T.lt0(total)) is False
        ck.ob('drain', sg, ok, 'the thread stops although queries may be pending or it was not asked to', C.loc(fn, o.line), C.trail(o))
    if not done:
        raise core.AnalysisBroken('%s: the end of an iteration was not found' % sg)


def called(e):
    return e.kind == 'call' and e.name.startswith('std::function') and core.meth_of(e.name) == 'operator()'


USERDATA = ['m_user_data', 'm_callback']


def request(ck):
    """which members of a request hold the data and the callback"""
    for fn in ck.find(LX + 'LinuxAIORequest::(ctor)', pred=lambda f: len(f.params) >= 3):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            got = {}
            for l, v in o.st.store.items():
                if l[0] == 'fld' and l[1] == ('deref', ('thisptr',)):
                    got[v] = l[2]
            ok = o.kind == 'ret' and pv(fn, 1) in got and pv(fn, 2) in got
            ck.ob('request', 'LinuxAIORequest', ok, 'stores %s' % {T.show(k): v for k, v in got.items()}, C.loc(fn))
            if ok:
                USERDATA[:] = [got[pv(fn, 1)], got[pv(fn, 2)]]


def field_of(t):
    return t[1][2] if t[0] == 'in' and t[1][0] == 'fld' else t[2] if t[0] == 'fv' else None


def owner(t):
    return t[1][1] if t[0] == 'in' else t[1][1] if t[1][0] == 'in' else t[1]


def lifecycle(ck):
    stop = fld('m_stop_flag')
    for fn in ck.find(LX + 'wait_completions'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            j, ok = named(o, 'join'), True
            fl = [e for e in o.trace if e.kind == 'call' and e.obj == stop and core.meth_of(e.name) in ('operator=', 'store', 'exchange')]
            able = [e.ret for e in named(o, 'joinable')]
            ok = len(fl) >= 1 and fl[0].args[0] == T.ONE and E.load(o.st, stop) == T.ONE
            if j:
                ok = ok and o.trace.index(fl[0]) < o.trace.index(j[0]) and not j[0].locks
            else:
                ok = ok and any(E.truth(o.st.facts, T.eq0(x)) is True for x in able)
            ck.ob('stop', 'wait_completions', ok, 'stops by %r, joins by %r' % (fl, j), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(LX + '(dtor)'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            ds = named(o, 'io_destroy')
            pre = o.trace[:o.trace.index(ds[0])] if ds else ()
            names = [core.meth_of(e.name) for e in pre if e.kind == 'call']
            able = [e.ret for e in named(o, 'joinable')]
            ok = len(ds) == 1 and mfield(ds[0].args[0], 'm_ioctx') and ('join' in names or any(
                E.truth(o.st.facts, T.eq0(x)) is True for x in able))
            ck.ob('stop', '(dtor)', ok, 'the context is destroyed by %r after %s' % (ds, names), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(LX + '(ctor)', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            su = named(o, 'io_setup')
            th = [e for e in o.trace if (e.name or '').endswith('thread::(ctor)') and e.args]
            ok = len(su) == 1 and E.truth(o.st.facts, T.eq0(su[0].ret)) is (o.kind == 'ret')
            if o.kind == 'ret':
                ok = ok and len(th) == 1 and o.trace.index(th[0]) > o.trace.index(su[0]) and ('thisptr',) in th[0].args
                for f, v in (('m_stop_flag', T.ZERO), ('m_submitted_queries_count', T.ZERO), ('m_completed_queries_count', T.ZERO),
                             ('m_failed_queries_count', T.ZERO)):
                    ok = ok and C.boolterm(E.load(o.st, fld(f))) in (C.boolterm(v), T.ZERO)
                ok = ok and E.load(o.st, fld('m_page_size')) == pv(fn)
            else:
                ok = ok and not th
            ck.ob('stop', '(ctor)', ok, 'ends with %s after %r and %r' % (o.kind, su, th), C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- thread pool
def pool(ck):
    cnt = fld('m_running_queries')
    for m, io in (('submit_pread', 'pread'), ('submit_pwrite', 'pwrite')):
        for fn in ck.find(TP + m):
            sg = 'pool ' + m
            E, outs = ck.run(fn, **opts(opaque_if=lambda n, f: core.meth_of(n) in SKIP + ('enqueue', 'logger', 'error', 'warn')))
            lams = set()
            for o in outs:
                q = named(o, 'enqueue')
                inc = [e for e in o.trace if e.kind == 'call' and e.obj == cnt and core.meth_of(e.name) in (
                    'operator++', 'fetch_add', 'operator+=')]
                ok = o.kind == 'ret' and len(q) == 1 and o.val == T.ONE and E.load(o.st, cnt) == T.add(('in', cnt), T.ONE) and \
                    len(inc) == 1 and o.trace.index(inc[0]) < o.trace.index(q[0])
                ck.ob('pool-query', sg, ok, 'ends with %s after %r' % (o.val and T.show(o.val), q), C.loc(fn, o.line), C.trail(o))
                for e in q:
                    for a in e.args:
                        x = next((x for x in T.subterms(a) if x[0] == 'lam'), None)
                        if x:
                            # with the closures it may have captured in turn
                            lams.add((x, tuple((l, v) for l, v in o.st.store.items() if v[0] == 'lam' and l[0] == 'var')))
            if len(lams) != 1:
                raise core.AnalysisBroken(sg + ': task not recognised')
            task(ck, fn, *list(lams)[0], io, sg)
    for fn in ck.find(TP + 'wait_completions'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            w = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name).startswith('wait') and 'condition_variable' in e.name]
            ok = o.kind == 'ret' and all(e.locks for e in w) and (bool(w) or bool(named(o, 'lock')))
            ck.ob('pool-wait', 'wait_completions', ok, 'waits by %r' % w, C.loc(fn, o.line), C.trail(o))
            if len(w) and len(w[-1].args) > 1:
                pred(ck, fn, w[-1])
            else:
                ck.ob('pool-wait', 'predicate', E.truth(o.st.facts, T.eq0(E.load(o.st, cnt))) is True,
                      'the wait ends while queries may be running', w and C.evloc(w[-1]) or C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(TP + '(dtor)'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            w = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name).startswith('wait')]
            ck.ob('pool-wait', '(dtor)', bool(w), 'does not wait for the running queries', C.loc(fn, o.line), C.trail(o))
    shared(ck)


def pred(ck, fn, w):
    cnt = fld('m_running_queries')
    for lf in ck.prog.lambdas_of(fn):
        if lf.params:
            continue
        E, outs = ck.run(lf)
        for o in outs:
            v = C.boolterm(o.val)
            ok = False
            ts = {x for t in [v] + list(o.st.facts) for x in T.subterms(t) if x and x[0] == 'in' and mfield(x, 'm_running_queries')}
            if len(ts) == 1:
                none = T.eq0(next(iter(ts)))
                ok = all(not C.possible(E, o.st.facts, v, b) or C.implies(E, o.st.facts, v if b else T.lnot(v), none if b else T.lnot(none)) for b in (True, False))
            ck.ob('pool-wait', 'predicate', ok, 'the wait ends when %s' % T.show(v), C.loc(lf, o.line), C.trail(o))


def task(ck, fn, lam, caps, io, sg):
    lf = ck.prog.fns.get(lam[1]) or next((f for f in ck.prog.lambdas_of(fn) if lam[1] in f.key), None)
    if lf is None:
        raise core.AnalysisBroken(sg + ': task body not found')
    st = core.State()
    st.store.update(caps)
    # what it captured has the value it had
    for c in lam[2]:
        if c[0] != 'this' and c[2] != 'r':
            st.store[('var', c[0], c[1], 0)] = c[3]
    E, outs = ck.run(lf, init=st, **opts(opaque_if=lambda n, f: core.meth_of(n) in SKIP + ('logger', 'error', 'warn')))

    def named_cap(t, i):
        while t[0] == 'pure' and t[1] in ('std::move', 'std::forward') or t[0] == 'obj' and len(t[2]) == 1:
            t = t[2][0]
        return t == ('in', ('var', fn.params[i]['d'], fn.params[i]['n'], 0))
    for o in outs:
        rw = named(o, 'pread', 'pwrite', 'pread64', 'pwrite64')
        cb = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'operator()' and 'function' in e.name]
        ok = len(rw) == 1 and core.meth_of(rw[0].name).startswith(io) and all(named_cap(a, i) for i, a in enumerate(rw[0].args))
        ck.ob('pool-query', sg + ' performs', ok, repr(rw), C.loc(lf, o.line), C.trail(o))
        ok = o.kind == 'ret' and len(cb) == 1 and len(rw) == 1 and named_cap(cb[0].args[0], 4) and (cb[0].objv is None or named_cap(cb[0].objv, 5)) and cb[0].args[1] == rw[0].ret
        ck.ob('pool-query', sg + ' completes', ok, repr(cb), C.loc(lf, o.line), C.trail(o))
        dec = [e for e in o.trace if e.kind == 'call' and e.obj and mfield(e.obj, 'm_running_queries')
               and core.meth_of(e.name) in ('operator--', 'fetch_sub', 'operator-=')]
        nt = named(o, 'notify_all', 'notify_one')
        ok = len(dec) == 1 and bool(nt) and bool(dec[0].locks) and bool(nt[-1].locks) and bool(cb) and \
            o.trace.index(cb[0]) < o.trace.index(dec[0]) < o.trace.index(nt[-1])
        ck.ob('pool-query', sg + ' ends', ok, 'uncounted by %r, wakes by %r' % (dec, nt), C.loc(lf, o.line), C.trail(o))


def shared(ck):
    """the object that runs the tasks comes from a function-local static"""
    import json
    for fn in ck.prog.fns.values():
        if not fn.file.endswith('thread_pool_aio_scheduler.cpp') or not fn.blocks or 'lambda' in fn.key:
            continue
        s = json.dumps(list(fn.blocks.values()))
        if 'ThreadPool::(ctor)' in s:
            E, outs = ck.run(fn, **opts(record_write=lambda ev: True))
            for o in outs:
                bad = [e for e in o.trace if e.kind == 'write' and e.obj[0] == 'glob']
                ck.ob('pool-shared', core.meth_of(fn.name), not [e for e in bad if e.op != 'init'],
                      'the shared pool is assigned by %r: two first queries may each create one' % bad, C.loc(fn, o.line), C.trail(o))


# ---------------------------------------------------------------- default batch
def unint(v):
    if v[0] == 'iter':
        return v[2]
    for x in [x for x in T.subterms(v) if x[0] == 'trunc' and x[1] == 'int']:
        v = T.subst(v, x, x[2])
    return v


def base(ck):
    for fn in ck.find('sse::abstractio::Scheduler::submit_preads'):
        E, outs = ck.run(fn, cut=True, **opts())
        L = C.Loops(E, outs)
        subs = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
        hs = [h for h in L.heads if any(named(o, 'submit_pread') for o in L.body(h))]
        if not hs and any(named(o, 'submit_pread') for o in outs):
            o = [o for o in outs if named(o, 'submit_pread')][0]
            ck.ob('base-batch', 'order', False, 'only the first query is ever submitted', C.loc(fn, o.line), C.trail(o))
            continue
        if len(hs) != 1:
            raise core.AnalysisBroken('default batch loop not recognised')
        h = hs[0]
        idx = None
        for o in L.body(h):
            s = named(o, 'submit_pread')
            for e in s:
                el = {x[1] for a in e.args for x in T.subterms(a) if x[0] == 'fld' and x[1][0] == 'elem'}
                el = el.pop() if len(el) == 1 else None
                ok = el is not None and el[1] == subs and list(e.args) == [('in', ('fld', el, n)) for n in (
                    'fd', 'buf', 'len', 'offset', 'data', 'callback')]
                ck.ob('base-batch', 'fields', ok, repr(e), C.evloc(e), C.trail(o))
                if el is not None:
                    idx = el[2]
                    ck.ob('base-batch', 'order', L.counts(h, idx), 'query %s is next' % T.show(idx), C.evloc(e), C.trail(o))
            if o.kind == 'iter':
                ok = len(s) == 1 and E.truth(o.st.facts, T.eq(s[0].ret, T.ONE)) is True
                ck.ob('base-batch', 'stops', ok, 'goes on after %r' % s, C.loc(fn, o.line), C.trail(o))
        for o in outs:
            if o.kind == 'ret' and idx is not None and o.frm == h:
                # the value returned is the number of accepted queries
                v, n = unint(o.val), unint(idx)
                ok = v == n or all(unint(T.sub(L.at(a, v, h), L.at(a, n, h))) == T.ZERO for a in L.enters(h) + L.iters(h)) or (L.starts(h, v) == {T.ZERO} and L.steps(h, v) == {T.ONE})
                ck.ob('base-batch', 'count', ok, 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
