"""P18: an asynchronous Tethys query calls back once, with what the synchronous one would have answered"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.av import RMW
from rules.p12 import pv, this
from rules.p13 import calls
from rules.p17 import S, TU, answers, lv, shape, topts


def run(ck):
    ck.load([TU])
    ck.rule('where', 'the asynchronous query reads the two buckets the synchronous one reads')
    ck.rule('tagged', 'each of the two buckets is handed over once, with the index it was read at')
    ck.rule('kept', 'the two buckets are kept in two places, each with its own index')
    ck.rule('last', 'the answer is made by the second of the callbacks to have kept its bucket, and by it only')
    ck.rule('after', 'a callback does not touch the shared state once it has announced its bucket, unless it makes the answer')
    ck.rule('once', 'the query is answered once, the shared state being freed once and not used afterwards')
    ck.rule('answer', 'the answer is what the two buckets hold for the key, followed by what the stash holds for it')
    ck.rule('failed', 'a bucket that could not be read is not decoded')
    ck.rule('start', 'a query starts from a fresh state bearing its key, its decoder and null counters')
    sync = buckets_of(ck)
    for fn in ck.find(S + 'async_get_buckets'):
        fetch(ck, fn, sync)
    for fn in ck.find(S + 'async_get_list_helper'):
        helper(ck, fn)
    starts(ck)
    for r, k in (('where', 2), ('tagged', 4), ('kept', 4), ('last', 4), ('after', 4), ('once', 4), ('answer', 6), ('start', 4)):
        ck.floor(r, k)


def buckets_of(ck):
    """the locations of the synchronous reader"""
    r = set()
    for fn in ck.find(S + 'get_buckets'):
        E, outs = ck.run(fn, **topts())
        for o in outs:
            if o.kind == 'ret':
                r.add(tuple(shape(E.load(o.st, ('fld', ('retobj', 0), 'index_%d' % k)), ('in', this('table_size')))[0] for k in (0, 1)))
    return next(iter(r)) if len(r) == 1 else (None, None)


def requests(o):
    """(index, callback) asked to the table on the path"""
    r = []
    for e in o.trace:
        if e.kind != 'call' or e.obj != this('table'):
            continue
        m = core.meth_of(e.name)
        if m == 'async_get':
            r.append((e.args[0], e.args[1]))
        elif m == 'async_gets':
            v = e.args[0]
            l = next((x[1] for x in T.subterms(v) if x and x[0] == 'ilist'), None)
            if l is None:
                l = pushed(o, e)
            if l is None:
                return None
            for x in l:
                if not (x[0] == 'obj' and len(x[2]) >= 2):
                    return None
                r.append((x[2][0], x[2][1]))
    return r


def pushed(o, e):
    """the elements of the local vector handed over, when it is filled one by one"""
    c = e.alv[0] if e.alv else None
    if not c or c[0] != 'var':
        return None
    r = []
    for x in o.trace[:o.trace.index(e)]:
        m = core.meth_of(x.name or '')
        if x.kind == 'call' and x.obj == c and m not in ('(ctor)', 'reserve'):
            if m == 'emplace_back' and len(x.args) > 1:
                r.append(('obj', '', tuple(x.args)))
            elif m in ('push_back', 'emplace_back'):
                v = x.args[0]
                mem = {k[2]: w for k, w in (x.mem or ()) if k[0] == 'fld' and x.alv and k[1] == x.alv[0]}
                if v[0] != 'obj' and {'index', 'callback'} <= set(mem):
                    v = ('obj', '', (mem['index'], mem['callback']))
                r.append(v)
            else:
                return None
    return r


def unwrap(t):
    while t and (t[0] == 'obj' and len(t[2]) == 1 or t[0] in ('pure', 'call') and t[1] in ('std::move', 'std::forward')):
        t = t[2][0]
    return t


def fetch(ck, fn, sync):
    E, outs = ck.run(fn, **topts())
    cb = lv(fn, 1)
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        rq = requests(o)
        if not ck.ob('where', 'two requests', rq is not None and len(rq) == 2, 'the table is asked for %s buckets' % (len(rq) if rq is not None else 'unknown'), *w):
            continue
        got = [shape(i, ('in', this('table_size'))) for i, _ in rq]
        ck.ob('where', 'same buckets', {g[0] for g in got} == set(sync) and None not in sync and all(g[1] == pv(fn, 0) for g in got),
              'the buckets read are %s' % ', '.join(T.show(g[0]) if g[0] else '?' for g in got), *w)
        for i, c in rq:
            c = unwrap(c)
            lf = [f for f in ck.prog.lambdas_of(fn) if c[0] == 'lam' and f.key == c[1]]
            if not ck.ob('tagged', 'callback', len(lf) == 1, 'a bucket is handed over to %s' % T.show(c), *w):
                continue
            caps = {x[0]: x for x in c[2] if x[0] != 'this'}
            tag(ck, lf[0], i, caps, cb)


def tag(ck, lf, index, caps, cb):
    E, outs = ck.run(lf, **topts())
    for o in outs:
        w = (C.loc(lf, o.line), C.trail(o))
        if o.kind == 'throw':
            continue
        cs = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'operator()' and root(e.obj, caps)[0] in (cb, ('in', cb))]
        if not ck.ob('tagged', 'handed over', len(cs) == 1, 'a bucket is handed over %d times' % len(cs), *w):
            continue
        e = cs[0]
        a0, a1 = unwrap(e.args[0]), e.args[1]
        ck.ob('tagged', 'bucket', a0 == pv(lf, 0), 'what is handed over is %s' % T.show(a0), *w)
        v, how = root(a1, caps)
        ck.ob('tagged', 'index', v == index and how == 'v', 'the bucket at %s is handed over with %s' % (T.show(index), T.show(v)), *w)


def root(t, caps):
    """what the captured t was in the function that made the callback -> (value or lvalue, how)"""
    l = t
    while l and l[0] == 'in':
        l = l[1]
    if l and l[0] == 'var' and l[1] in caps:
        c = caps[l[1]]
        return c[3], c[2]
    return t, None


# ---------------------------------------------------------------- the callback of a list query
def feasible(o, base):
    """values among 0, 1 a counter can have had on the path"""
    r = set()
    for n in (0, 1):
        ok = True
        for b, (lo, hi, ne) in o.st.facts.items():
            if T.mentions(b, base):
                v = T.subst(b, base, T.I(n))
                while v[0] == 'trunc':
                    v = v[2]
                if v[0] == 'int' and (lo is not None and v[1] < lo or hi is not None and v[1] > hi or v[1] in ne):
                    ok = False
        if ok:
            r.add(n)
    return r


def under(l, s):
    while isinstance(l, tuple) and l:
        if l == s:
            return True
        if l[0] not in ('fld', 'elem', 'deref', 'in'):
            return False
        l = l[1]
    return False


def helper(ck, fn):
    E, outs = ck.run(fn, **topts(more=('async_get_buckets',)))
    state, cb = lv(fn, 1), lv(fn, 0)
    st = ('deref', ('in', state))
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        cs = calls(o, 'async_get_buckets')
        c = unwrap(cs[0].args[1]) if cs else ('none',)
        lf = [f for f in ck.prog.lambdas_of(fn) if c[0] == 'lam' and f.key == c[1]]
        if not ck.ob('start', 'buckets asked', len(cs) == 1 and len(lf) == 1 and cs[0].args[0] == ('in', ('fld', st, 'key')),
                     'the buckets of the key are asked %d times' % len(cs), *w):
            continue
        caps = {x[0]: x for x in c[2] if x[0] != 'this'}
        byval = all(x[2] == 'v' for x in caps.values())
        ck.ob('start', 'captures', byval, 'the callback refers to variables of the query, which it outlives', *w)
        callback(ck, lf[0], st, cb)


def callback(ck, lf, st, cb):
    E, outs = ck.run(lf, record_write=lambda ev: under(ev.obj, st), atomic_loads=True, **topts())
    bucket, index = lv(lf, 0), pv(lf, 1)
    places = {}
    per = []
    for o in outs:
        w = (C.loc(lf, o.line), C.trail(o))
        if o.frm is not None or o.kind == 'throw':
            continue
        rmw = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in RMW and e.obj and under(e.obj, st)]
        cnt = []
        for e in rmw:
            if e.obj not in cnt:
                cnt.append(e.obj)
        if not ck.ob('last', 'counters', len(rmw) == len(cnt) == 2 and all(core.meth_of(e.name) in ('fetch_add', 'operator++', 'operator+=') and (
                core.meth_of(e.name) == 'operator++' or e.args[0] == T.ONE) for e in rmw),
                     'the shared counters are incremented by %s' % (', '.join(map(repr, rmw)) or 'nothing'), *w):
            continue
        s, c = rmw
        order = [a for a in c.args[1:] if a[0] == 'int']
        ck.ob('last', 'ordered', not order or core.meth_of(c.name) != 'fetch_add' or order[0][1] in (4, 5), 'the bucket kept may not be visible to the other callback', *w)
        # the places
        wr = [(k, e) for k, e in enumerate(o.trace) if e.kind == 'write' and e.obj not in cnt and e.obj[0] == 'fld' and e.obj[1] == st]
        kb = [(k, e) for k, e in wr if e.args[0] == ('in', bucket)]
        ki = [(k, e) for k, e in wr if e.args[0] == index]
        if not ck.ob('kept', 'bucket and index', len(kb) == 1 and len(ki) == 1 and len(wr) <= 2, 'a bucket is kept %d times and its index %d times' % (len(kb), len(ki)), *w):
            continue
        at = o.trace.index(c)
        ck.ob('last', 'kept before', max(kb[0][0], ki[0][0]) < at and o.trace.index(s) < at, 'a bucket is announced before it is kept', *w)
        rd = [e for e in o.trace if e.kind == 'call' and (core.meth_of(e.name or '') == 'load' or '(conv:' in (e.name or '')) and e.obj in cnt]
        ck.ob('last', 'read once', not rd, 'a counter is read apart from its increment: the other callback may have incremented it meanwhile', *w)
        slot, done = feasible(o, ('in', s.obj)), feasible(o, ('in', c.obj))
        ck.ob('kept', 'place chosen', len(slot) == 1, 'the place of a bucket does not depend on the order of the callbacks', *w)
        for k in slot:
            places.setdefault(k, set()).add((kb[0][1].obj, ki[0][1].obj))
        per.append((o, slot, done, c, at, w))
    p0, p1 = places.get(0, set()), places.get(1, set())
    ok = len(p0) == len(p1) == 1 and not set(next(iter(p0))) & set(next(iter(p1)))
    if not ck.ob('kept', 'two places', ok, 'the two buckets are kept in the same place', C.loc(lf)):
        return
    a, b = next(iter(p0)), next(iter(p1))
    for o, slot, done, c, at, w in per:
        cbs = [(k, e) for k, e in enumerate(o.trace) if e.kind == 'call' and core.meth_of(e.name or '') == 'operator()' and e.obj in (cb, ('in', cb))]
        dels = [(k, e) for k, e in enumerate(o.trace) if e.kind == 'call' and e.name == 'delete' and e.args and e.args[0] == st[1]]
        first = 1 not in done
        if len(done) != 1:
            ck.ob('last', 'by the last', False, 'whether a callback is the last does not decide that it answers', *w)
            continue
        if first:
            ck.ob('last', 'not by the first', not cbs and not calls(o, 'decode_buckets'), 'the first callback answers', *w)
            touch = [e for k, e in enumerate(o.trace) if k > at and not (k == at + 1 and e.kind == 'write' and e.obj == c.obj) and (under(e.obj, st) if e.obj else False or any(x and under(x, st) for x in e.alv or ()) or
                                                                     any(T.mentions(x, st[1]) for x in e.args if x))]
            ck.ob('after', 'state left', not touch and not dels, 'the first callback uses the shared state after it announced its bucket', *w)
            continue
        if not ck.ob('once', 'answered', len(cbs) == 1, 'the last callback answers %d times' % len(cbs), *w):
            continue
        ck.ob('once', 'freed', len(dels) == 1, 'the shared state is freed %d times' % len(dels), *w)
        if dels:
            k0 = dels[0][0]
            late = [e for k, e in enumerate(o.trace) if k > k0 and (e.obj and under(e.obj, st) or any(x and T.mentions(x, st) for x in (e.alv or ()) if x))]
            ck.ob('once', 'not used afterwards', not late, 'the shared state is used after it was freed', *w)
        k = next(iter(slot)) if len(slot) == 1 else 0
        mine, other = (a, b) if k == 0 else (b, a)
        o.val = cbs[0][1].args[0]
        mb = ((('in', ('deref', ('in', bucket))), index), (('in', ('deref', ('in', other[0]))), ('in', other[1])))
        d = calls(o, 'decode_buckets')
        if ck.ob('answer', 'decoded once', len(d) == 1 and len(d[0].args) == 5, 'the buckets are decoded %d times' % len(d), *w):
            e = d[0]
            got = ((e.args[1], e.args[2]), (e.args[3], e.args[4]))
            ck.ob('answer', 'both buckets', set(got) == set(mb), 'what is decoded is %s' % ', '.join(T.show(x) for x in e.args), *w)
            ck.ob('answer', 'decoder', under(e.obj, st) or e.obj[0] == 'deref' and under(e.obj[1], st), 'another decoder is used', *w)
            nulls = [p for p in (('in', bucket), ('in', other[0])) if E.truth(o.st.facts, T.eq0(p)) is not False]
            ck.ob('failed', 'both read', not nulls, 'a bucket is decoded although it may not have been read', *w)
            answers(ck, E, [o], lf, ('in', ('fld', st, 'key')), None, rule='answer', buckets=tuple(e.args[1:]))


def starts(ck):
    for fn in ck.find(S + 'async_get_list'):
        E, outs = ck.run(fn, **topts(more=('async_get_list_helper',)))
        cb = lv(fn, len(fn.params) - 1)
        t = 'given decoder' if len(fn.params) == 3 else 'default decoder'
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            cs = calls(o, 'async_get_list_helper')
            if not ck.ob('start', 'once ' + t, len(cs) == 1 and unwrap(cs[0].args[0]) == ('in', cb) and cs[0].args[1][0] == 'new', 'the query is started %d times' % len(cs), *w):
                continue
            p = cs[0].args[1]
            l = ('deref', p)
            f = {k[2]: v for k, v in (cs[0].mem or ()) if k[0] == 'fld' and k[1] == l} if not isinstance(cs[0].mem, dict) else {}
            f = f or {k[2]: v for k, v in o.st.store.items() if k[0] == 'fld' and k[1] == l}
            ck.ob('start', 'key ' + t, f.get('key') == pv(fn, 0), 'the state bears another key', *w)
            ck.ob('start', 'counters ' + t, counters(ck, f), 'the counters of the state do not start at zero', *w)
            if len(fn.params) == 3:
                ck.ob('start', 'decoder ' + t, ('addr', lv(fn, 1)) in f.values(), 'the decoder given is not used', *w)


def counters(ck, f):
    names = set()
    for fn in ck.find(S + 'async_get_list_helper'):
        for lf in ck.prog.lambdas_of(fn):
            E, outs = ck.run(lf, **topts())
            for o in outs:
                for e in o.trace:
                    if e.kind == 'call' and core.meth_of(e.name or '') in RMW and e.obj and e.obj[0] == 'fld':
                        names.add(e.obj[2])
    return len(names) == 2 and all(f.get(n) == T.ZERO for n in names)
