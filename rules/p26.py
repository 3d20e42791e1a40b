"""P26: an Oceanus table returns what was put under a key"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p12 import opts, pv, this

TUS = ['tus/oceanus_inst.cpp', 'lib/oceanus/cuckoo.cpp']
NS = 'sse::oceanus::'
AL, B, H = NS + 'details::CuckooAllocator::', NS + 'CuckooBuilder::', NS + 'CuckooHashTable::'
OPAQUE = ('awonvm_vector', 'remove_file', 'CuckooAllocator::insert', 'match_key', 'Serializer', 'Hasher::operator')
NONE = T.I((1 << 64) - 1)
KEY = 16


def sopts(fn, **k):
    def hide(n, f=None):
        return any(x in n for x in OPAQUE) and not (f is not None and f.key == fn.key)
    return opts(cut='deep', pure=('match_key',), opaque_if=hide, **k)


def run(ck):
    ck.load(TUS)
    ck.rule('place', 'an element is only ever put where its own key is looked up, and what was there is carried on')
    ck.rule('put', 'key and value are stored together and handed to the allocator under their own number')
    ck.rule('spill', 'an element that found no place is reported')
    ck.rule('table', 'the slots of both tables are written in order, each with the element the allocator put there')
    ck.rule('lookup', 'both slots of the key are looked at, and the value beside the key is the answer')
    ck.rule('async', 'of both reads the last one answers, once, with the value found or none')
    ck.rule('layout', 'keys and values are written where they are read, side by side')
    ck.rule('passed', 'Oceanus hands keys and values on unchanged')
    place(ck)
    put(ck)
    table(ck)
    lookup(ck)
    layout(ck)
    passed(ck)
    for r, n in (('place', 6), ('put', 3), ('spill', 1), ('table', 8), ('lookup', 4), ('async', 6), ('layout', 4), ('passed', 4)):
        ck.floor(r, n)


def evs(o, *names):
    return [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in names]


def peel(v):
    while v is not None and (v[0] == 'obj' and len(v[2]) == 1 or v[0] == 'pure' and v[1] in ('std::move', 'std::forward') and len(v[2]) == 1):
        v = v[2][0]
    return v


# ---------------------------------------------------------------- allocator
def place(ck):
    for fn in ck.find(AL + 'CuckooAllocator', required=False) or ck.find(AL + '(ctor)'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            n = E.load(o.st, this('cuckoo_table_size'))
            for t in ('table_0', 'table_1'):
                es = [e for e in evs(o, '(ctor)') if e.obj == this(t)]
                ck.ob('place', 'size', len(es) == 1 and es[0].args[:1] == (n,), '%s does not have the number of slots that is used' % t, C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(AL + 'insert'):
        E, outs = ck.run(fn, **sopts(fn))
        L = C.Loops(E, outs)
        n = 0
        for o in outs:
            if o.kind == 'ret':
                lo, hi, ne = o.st.facts.get(pv(fn, 1), (None, None, frozenset()))
                ck.ob('place', 'sentinel', E.truth(o.st.facts, T.eq(pv(fn, 1), NONE)) is False, 'takes the number that stands for no element', C.loc(fn, o.line), C.trail(o))
        for h in L.heads:
            carried = set()
            for o in L.enters(h):
                for l, v in o.st.store.items():
                    if l[0] == 'fld' and l[2] == 'value_index' and l[1][0] == 'var' and v == pv(fn, 1):
                        carried.add(l[1])
                        k = E.load(o.st, ('fld', l[1], 'key'))
                        ck.ob('place', 'key', k == pv(fn, 0), 'starts with another key: %s' % T.show(k)[:100], C.loc(fn, o.line), C.trail(o))
            if not ck.ob('place', 'carried', len(carried) == 1, 'no element is carried', C.loc(fn)):
                continue
            V = carried.pop()
            was = {f: ('phi', h, ('fld', V, f)) for f in ('key', 'value_index')}
            for o in L.iters(h):
                n += 1
                w = (C.loc(fn, o.line), C.trail(o))
                slots = {x for l in o.st.store for x in [l if l[0] == 'elem' else l[1] if l[0] == 'fld' and l[1][0] == 'elem' else None]
                         if x is not None and x != V and E.load(o.st, ('fld', x, 'value_index')) == was['value_index']}
                if not ck.ob('place', 'put', len(slots) == 1, 'the element is put in %d slots' % len(slots), *w):
                    continue
                s = slots.pop()
                ck.ob('place', 'whole', E.load(o.st, ('fld', s, 'key')) == was['key'], 'the element is put without its key', *w)
                for f in ('key', 'value_index'):
                    x = E.load(o.st, ('fld', V, f))
                    ck.ob('place', 'kicked', x in (('phi', h, ('fld', s, f)), ('in', ('fld', s, f))), 'what was in the slot is not carried on but %s' % T.show(x)[:100], *w)
                t = number(fn, E, o, s[1])
                if not ck.ob('place', 'table', t is not None, 'puts it in %s' % T.show(s[1])[:160], *w):
                    continue
                j = s[2][2][2] if s[2][0] == 'op' and s[2][2][0] == 'ev' else t
                if t[0] == 'int' and j[0] == 'phi':
                    lo, hi, ne = o.st.facts.get(j, (None, None, ()))
                    if t[1] == 0 and lo == hi == 0 or t[1] == 1 and (lo == 1 or 0 in ne):
                        t = j
                a = ('ev', ('fv', was['key'], 'h'), t)
                ok = s[2][0] == 'op' and s[2][1] == '%' and s[2][3] == ('in', this('cuckoo_table_size')) and s[2][2] in (a, ('ev', ('phi', h, ('fld', ('fld', V, 'key'), 'h')), t), ('in', ('elem', ('fld', ('fld', V, 'key'), 'h'), t)), ('phi', h, ('elem', ('fld', ('fld', V, 'key'), 'h'), t)))
                ck.ob('place', 'slot', ok, 'puts it in slot %s of table %s' % (T.show(s[2])[:160], T.show(t)), *w)
                if t[0] == 'phi':
                    y = L.at(o, t, h)
                    ck.ob('place', 'tables', y in (T.ZERO, T.ONE) or y == T.sub(T.ONE, t) or y[0] == 'op' and y[1] == '^' and set(y[2:]) == {T.ONE, t} or y[0] == 'op' and y[1] in ('%', '&') and T.mentions(y, t) and y[3] == T.I(2 if y[1] == '%' else 1) or y[0] == 'op' and y[1] == '&' and y[2] == T.ONE, 'goes on with table %s' % T.show(y)[:60], *w)
                    ck.ob('place', 'tables', L.starts(h, t) <= {T.ZERO, T.ONE}, 'starts with table %s' % [T.show(x) for x in L.starts(h, t)], *w)
            for o in L.exits(h):
                if o.kind == 'ret':
                    ck.ob('place', 'left', o.val == E.load(o.st, ('fld', V, 'value_index')), 'reports %s' % T.show(o.val)[:100], C.loc(fn, o.line), C.trail(o))
        ck.ob('place', 'loop', n > 0, 'no element is put', C.loc(fn))


def number(fn, E, o, l):
    """which table an lvalue is -> its number"""
    two = [('addr', this('table_0')), ('addr', this('table_1'))]
    if l in (this('table_0'), this('table_1')):
        return T.I(int(l == this('table_1')))
    if l[0] == 'deref' and l[1] in two:
        return T.I(two.index(l[1]))
    if l[0] == 'deref' and l[1][0] == 'ev' and any(s and s[0] == 'ilist' and list(s[1]) == two for s in T.subterms(l[1][1])):
        return l[1][2]
    if l[0] == 'deref' and l[1][0] == 'phi':
        return None
    return None


# ---------------------------------------------------------------- builder
def put(ck):
    for fn in ck.find(B + 'insert'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind not in ('ret', 'throw'):
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            done = E.truth(o.st.facts, C.boolterm(('in', this('is_committed'))))
            ins = [e for e in evs(o, 'insert') if 'CuckooAllocator' in e.name]
            ps = [e for e in evs(o, 'push_back') if e.obj == this('data')]
            if o.kind == 'throw' and not ins:
                ck.ob('put', 'refused', done is True, 'refuses an element', *w)
                continue
            ck.ob('put', 'open', done is False, 'takes an element after the table was written', *w)
            if not ck.ob('put', 'once', len(ins) == len(ps) == 1, 'stores the element %d times, and places it %d times' % (len(ps), len(ins)), *w):
                continue
            p, i = ps[0], ins[0]
            n = o.trace.index(p)
            sers = {}
            for e in o.trace[:n]:
                if e.kind == 'call' and core.meth_of(e.name or '') == 'serialize' and len(e.args) == 2:
                    sers[at(e.args[1], p.alv[0])] = e
            ck.ob('put', 'payload', set(sers) == {0, KEY} and 'KeySerializer' in sers[0].name and sers[0].args[0] == pv(fn, 0) and 'KeySerializer' not in sers[KEY].name and sers[KEY].args[0] == pv(fn, 1),
                  'the element is not key and value side by side', *w)
            k = peel(i.args[0])
            ck.ob('put', 'hashed', k[0] in ('call', 'pure') and 'Hasher' in k[1] and k[2][-1] == pv(fn, 0), 'placed by %s' % T.show(k)[:100], *w)
            ck.ob('put', 'number', i.args[1] == p.ret, 'placed under number %s' % T.show(i.args[1])[:100], *w)
            left = E.truth(o.st.facts, T.eq(i.ret, NONE))
            if left is not True:
                ck.ob('spill', 'reported', o.kind == 'throw', 'an element that found no place is dropped without an error', *w)
            else:
                ck.ob('put', 'taken', o.kind == 'ret', 'fails although the element was placed', *w)


def at(v, l):
    """offset of a pointer in an array"""
    base = ('addr', ('elem', l, T.ZERO))
    if v == base or v == ('addr', l):
        return 0
    d = T.sub(v, base)
    if d[0] == 'int':
        return d[1]
    if v[0] == 'addr' and v[1][0] == 'elem' and v[1][1] == l and v[1][2][0] == 'int':
        return v[1][2][1]
    return None


def table(ck):
    data = this('data')
    for fn in ck.find(B + 'CuckooBuilder', required=False) or ck.find(B + '(ctor)', pred=lambda f: f.params and 'Param' in f.params[0]['t']):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind == 'ret':
                es = [e for e in evs(o, '(ctor)') if e.obj == data]
                if es:
                    ck.ob('table', 'file', any(s and s[0] == 'fld' and s[2] == 'value_file_path' for s in T.subterms(es[0].args[0])) or es[0].args[0][0] == 'fv' and es[0].args[0][2] == 'value_file_path',
                          'elements are kept in %s' % T.show(es[0].args[0])[:100], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(B + 'commit'):
        E, outs = ck.run(fn, **sopts(fn))
        L = C.Loops(E, outs)
        order = []
        out = None
        for o in outs:
            for e in evs(o, '(ctor)'):
                if 'awonvm_vector::' in e.name and e.obj is not None and e.obj[0] == 'var':
                    out = e.obj
                    ck.ob('table', 'path', any(s and s[0] == 'fld' and s[2] == 'cuckoo_table_path' for s in T.subterms(e.args[0])), 'the table is written to %s' % T.show(e.args[0])[:100], C.evloc(e), C.trail(o))
        for h in sorted(L.heads, key=str):
            for o in L.iters(h):
                w = (C.loc(fn, o.line), C.trail(o))
                ps = [e for e in evs(o, 'push_back') if e.obj == out]
                if not ps and not any(evs(x, 'push_back') for x in L.iters(h)):
                    continue
                if not ck.ob('table', 'slot', len(ps) == 1, 'a slot is written %d times' % len(ps), *w):
                    continue
                v = ps[0].args[0]
                s = {x for k in list(o.st.facts) + [v] for x in T.subterms(k) if x and x[0] == 'fld' and x[2] == 'value_index' and x[1][0] == 'elem'}
                if not ck.ob('table', 'element', len(s) == 1, 'is not about one slot', *w):
                    continue
                s = s.pop()
                t, i = s[1][1], s[1][2]
                empty = E.truth(o.st.facts, T.eq(('in', s), NONE))
                got = v[0] in ('call', 'pure') and core.meth_of(v[1]) == 'get' and v[2] == (('addr', data), ('in', s))
                ck.ob('table', 'content', empty is False and got or empty is True and v[0] != 'call', 'the slot is written with %s' % T.show(v)[:100], *w)
                ck.ob('table', 'sweep', L.counts(h, i), 'does not write every slot in order', *w)
                if (h, t) not in order:
                    order.append((h, t))
                for z in L.exits(h):
                    ok = z.kind == 'throw' or any(T.mentions(k, i) and any(y and y[0] == 'pure' and y[1] == 'size' for y in T.subterms(k)) and lo == hi == 0 for k, (lo, hi, ne) in z.st.facts.items())
                    ck.ob('table', 'all', ok, 'stops before the last slot', C.loc(fn, z.line), C.trail(z))
        # first table before the second
        mem = this('allocator')
        first = [h for h, t in order if t == ('fld', mem, 'table_0')]
        second = [h for h, t in order if t == ('fld', mem, 'table_1')]
        ok = len(first) == len(second) == 1
        if ck.ob('table', 'both', ok, 'writes %s' % [T.show(t) for _, t in order], C.loc(fn)):
            ck.ob('table', 'order', any(o.frm == first[0] or first[0] in heads(outs, o) for o in L.enters(second[0])), 'the second table is written first', C.loc(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            if E.truth(o.st.facts, C.boolterm(('in', this('is_committed')))) is True:
                continue
            from rules.p25 import so_far
            t = so_far(E, outs, o, len(o.trace))
            cs = [e for e in t if e.kind == 'call' and core.meth_of(e.name or '') == 'commit' and e.obj == out]
            rm = [e for e in t if e.kind == 'call' and core.meth_of(e.name or '') == 'remove_file']
            ck.ob('table', 'committed', len(cs) == 1 and bool(second) and o.frm == second[0], 'the table is not committed once it is complete', *w)
            for e in rm:
                ck.ob('table', 'removed', e.args[0] == ('in', ('fld', this('params'), 'value_file_path')) and bool(cs) and t.index(e) > t.index(cs[0]), 'removes the elements before the table is complete, or another file', *w)
            x = E.load(o.st, this('is_committed'))
            ck.ob('table', 'closed', x == T.ONE, 'can be written again', *w)
            gets = [k for k, e in enumerate(t) if e.kind == 'call' and core.meth_of(e.name or '') == 'get' and e.obj == data]
            dc = [k for k, e in enumerate(t) if e.kind == 'call' and core.meth_of(e.name or '') == 'commit' and e.obj == data]
            ck.ob('table', 'readable', len(dc) == 1 and all(k > dc[0] for k in gets), 'elements are read before they are committed', *w)


def heads(outs, o):
    r, seen = set(), set()
    while o is not None and o.frm is not None and o.frm not in seen:
        seen.add(o.frm)
        r.add(o.frm)
        o = next((x for x in outs if x.kind == 'enter' and x.head == o.frm), None)
    return r


# ---------------------------------------------------------------- table
def where(v, key, n):
    """which of the two slots of the key this is"""
    for i in (0, 1):
        x = v if i == 0 else T.sub(v, n)
        if x[0] == 'op' and x[1] == '%' and x[3] == n:
            hs = [s for s in T.subterms(x[2]) if s and s[0] in ('call', 'pure') and 'Hasher' in s[1]]
            ev = x[2]
            j = ev[2] if ev[0] == 'ev' else ev[1][2] if ev[0] == 'in' and ev[1][0] == 'elem' else None
            if j == T.I(i) and (len(hs) == 1 and hs[0][2][-1] == key):
                return i
    return None


def matched(E, o, v, key, st):
    """the payload is (True) or is not (False) that of the key"""
    for k, (lo, hi, ne) in o.st.facts.items():
        if k[0] == 'pure' and core.meth_of(k[1]) == 'match_key' and v in k[2]:
            return True if lo == 1 or 0 in ne else False if lo == hi == 0 else None
    return None


def lookup(ck):
    n = ('in', this('table_size'))
    for fn in ck.find(H + 'CuckooHashTable', required=False) or ck.find(H + '(ctor)', pred=lambda f: f.params and 'string' in f.params[0]['t']):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind == 'ret':
                w = (C.loc(fn, o.line), C.trail(o))
                sz = [e.ret for e in evs(o, 'size') if e.obj == this('table')]
                x = E.load(o.st, this('table_size'))
                ck.ob('lookup', 'size', bool(sz) and x == ('op', '/', sz[0], T.I(2)) or bool(sz) and x[0] == 'op' and x[1] in ('/', '>>') and x[2] == sz[0] and x[3] == T.I(2 if x[1] == '/' else 1), 'the size of a table is %s' % T.show(x)[:80], *w)
                cs = [e.ret for e in evs(o, 'is_committed')]
                ck.ob('lookup', 'committed', any(E.truth(o.st.facts, C.boolterm(c)) is True for c in cs), 'opens a table that is not complete', *w)
    for fn in ck.find(H + 'get'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind not in ('ret', 'throw'):
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            gs = [e for e in evs(o, 'get') if e.obj == this('table')]
            wh = [where(e.args[0], pv(fn, 0), n) for e in gs]
            ck.ob('lookup', 'slots', None not in wh and len(set(wh)) == len(wh), 'looks at %s' % [T.show(e.args[0])[:100] for e in gs], *w)
            ser = [e for e in evs(o, 'serialize') if 'KeySerializer' in e.name and e.args[0] == pv(fn, 0)]
            ms = [e for e in evs(o, 'match_key')]
            ck.ob('lookup', 'key', len(ser) == 1 and all(ser[0].args[1][0] == 'addr' and any(a is not None and at(ser[0].args[1], a) == 0 for a in m.alv) for m in ms), 'compares with another key', *w)
            hit = [e for e in gs if matched(E, o, e.ret, None, None)]
            if o.kind == 'ret':
                ds = evs(o, 'deserialize')
                ok = len(hit) == 1 == len(ds) and o.val is not None and peel(o.val) == ds[0].ret and any(x is not None and at(ds[0].args[0], x) == KEY for m in ms for x in m.alv if m.ret is not None and hit[0].ret in m.args)
                ck.ob('lookup', 'value', ok, 'answers %s' % T.show(o.val or T.ZERO)[:100], *w)
            else:
                ck.ob('lookup', 'missed', set(wh) == {0, 1} and not hit and all(matched(E, o, e.ret, None, None) is False for e in gs), 'gives up before both slots were looked at', *w)
    for fn in ck.find(H + 'async_get'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            qs = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('async_gets', 'async_get') and e.obj == this('table')]
            ls = {x for e in qs for x in e.alv if x is not None}
            rs = [x for e in qs for a in e.args for x in reqs(a) if not any(a[0] == 'mut' for a in e.args)] + [x for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back') and e.obj in ls
                                                                                                      for x in ([e.args] if len(e.args) == 2 else reqs(e.args[0]))] + [e.args for e in qs if core.meth_of(e.name) == 'async_get']
            wh = sorted(str(where(r[0], pv(fn, 0), n)) for r in rs)
            ck.ob('async', 'slots', wh == ['0', '1'], 'reads %s' % [T.show(r[0])[:100] for r in rs], *w)
            cb = {peel(r[1])[1] for r in rs if peel(r[1])[0] == 'lam'}
            if not ck.ob('async', 'callback', len(cb) == 1 and all(peel(r[1])[0] == 'lam' for r in rs), 'the reads have different callbacks', *w):
                continue
            g = ck.prog.fns[cb.pop()]
            answer(ck, g)


def reqs(v):
    """(place, callback) of the requests in a list"""
    return [s[2] for s in T.subterms(v) if s and s[0] == 'obj' and s[1].endswith('GetRequest') and len(s[2]) == 2]


def answer(ck, g):
    E, outs = ck.run(g, **sopts(g))
    val = pv(g, 0)
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        w = (C.loc(g, o.line), C.trail(o))
        adds = [e for e in o.trace if e.kind == 'call' and e.name.startswith('std::') and core.meth_of(e.name) in ('fetch_add', 'operator++', 'fetch_sub', 'operator--', 'operator+=')]
        if not ck.ob('async', 'counted', len(adds) == 1, 'counted %d times' % len(adds), *w):
            continue
        c = adds[0]
        k = ('in', c.obj)
        m = core.meth_of(c.name)
        last = E.truth(o.st.facts, T.eq(k, T.ONE))
        cbs = [e for e in evs(o, 'operator()') if 'function' in e.name]
        dels = [e for e in o.trace if e.kind == 'call' and e.name == 'delete']
        dels = [e for e in dels if not any(s and s[0] == 'fld' for s in T.subterms(e.args[0])) and e.args[0] != val and not T.mentions(e.args[0], val)]
        got = E.truth(o.st.facts, C.boolterm(val))
        ma = [e for e in evs(o, 'match_key')]
        hit = any(E.truth(o.st.facts, C.boolterm(e.ret)) is True for e in ma)
        if got is True:
            ck.ob('async', 'compared', len(ma) == 1 and any(T.mentions(a, val) for a in ma[0].args), 'a payload is not compared with the key', *w)
        kept = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('operator=', 'swap', 'reset') and e.args and (e.args[0] == val or T.mentions(e.args[0], val)) and e.obj is not None and e.obj[0] == 'fld' and o.trace.index(e) < o.trace.index(c)]
        ck.ob('async', 'kept', bool(kept) == hit, 'the payload that was looked for is not kept, or another one is', *w)
        if last is None:
            ck.ob('async', 'last', False, 'does not tell the last of both reads', *w)
            continue
        if not last:
            ck.ob('async', 'once', not cbs and not dels, 'answers before the other read is complete', *w)
            continue
        if not ck.ob('async', 'answered', len(cbs) == 1 and len(dels) == 1, 'answers %d times, and frees what both reads share %d times' % (len(cbs), len(dels)), *w):
            continue
        ds = evs(o, 'deserialize')
        if hit:
            some = True
        else:
            some = None
            for f, (lo, hi, ne) in o.st.facts.items():
                if f[0] == 'in' and f[1][0] == 'fld' and f[1][2] == 'result' or f[0] == 'in' and f[1][0] == 'fld' and kept and f[1] == kept[0].obj:
                    some = False if lo == hi == 0 else True if 0 in ne else None
        t = o.trace
        if some:
            ok = len(ds) == 1
            p = ds[0].args[0] if ok else None
            off = T.sub(p, first(p)) if ok and first(p) is not None else None
            ck.ob('async', 'value', ok and off == T.I(KEY) and t.index(ds[0]) < t.index(cbs[0]) and not any('nullopt' in str(a) for a in cbs[0].args), 'answers none, or something else than the value', *w)
        elif some is False:
            ck.ob('async', 'none', not ds, 'answers a value that was not found', *w)
        else:
            ck.ob('async', 'known', False, 'answers without knowing whether the key was found', *w)
    ck.ob('async', 'paths', n > 0, 'never ends', C.loc(g))


def first(p):
    return next((s for s in T.subterms(p) if s and s[0] == 'addr' and s[1][0] == 'elem' and s[1][2] == T.ZERO), None)


# ---------------------------------------------------------------- layout
def copies(E, o):
    for e in evs(o, 'memcpy', 'copy', 'copy_n', 'memmove'):
        m = core.meth_of(e.name)
        if len(e.args) != 3:
            continue
        if m in ('memcpy', 'memmove'):
            yield begin(e.args[0]), begin(e.args[1]), e.args[2], e
        elif m == 'copy_n':
            yield begin(e.args[2]), begin(e.args[0]), T.mul(e.args[1], T.I(1)), e
        else:
            yield begin(e.args[2]), begin(e.args[0]), T.sub(end(e.args[1]), end(e.args[0])), e


def begin(v):
    """the object whose start this points to"""
    v = peel(v)
    if v[0] == 'iter' and v[2] == T.ZERO:
        return v[1]
    if v[0] == 'addr':
        l = v[1]
        return l[1] if l[0] == 'elem' and l[2] == T.ZERO else l
    return v


def end(v):
    v = peel(v)
    return v[2] if v[0] == 'iter' else v


def layout(ck):
    size = {}
    for cls in ('OceanusKeySerializer', 'OceanusContentSerializer'):
        for fn in ck.find(NS + cls + '::serialization_length'):
            E, outs = ck.run(fn, **sopts(fn))
            for o in outs:
                if o.kind == 'ret':
                    size[cls] = o.val
    k, c = size.get('OceanusKeySerializer'), size.get('OceanusContentSerializer')
    ck.ob('layout', 'sizes', k == T.I(KEY) and c is not None and c[0] == 'int' and (c[1] + KEY) % 4096 == 0, 'key and value take %s and %s bytes' % (k, c))
    for name, src, dst, n in ((NS + 'OceanusKeySerializer::serialize', 0, 1, k), (NS + 'OceanusContentSerializer::serialize', 0, 1, c)):
        for fn in ck.find(name):
            E, outs = ck.run(fn, **sopts(fn))
            a = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
            for o in outs:
                if o.kind == 'ret':
                    cs = list(copies(E, o))
                    ck.ob('layout', 'written', len(cs) == 1 and cs[0][0] == pv(fn, 1) and cs[0][1] == a and cs[0][2] == n, 'writes %s' % [[T.show(y)[:60] for y in x[:3]] for x in cs], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'OceanusContentSerializer::deserialize'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind == 'ret':
                cs = list(copies(E, o))
                ck.ob('layout', 'read', len(cs) == 1 and cs[0][1] == pv(fn, 0) and cs[0][2] == c and o.val is not None and (o.val == ('in', cs[0][0]) or o.val == E.load(o.st, cs[0][0]) or cs[0][0] == ('retobj', 0)),
                      'reads %s' % [[T.show(y)[:60] for y in x[:3]] for x in cs], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'OceanusCuckooHasher::operator()'):
        E, outs = ck.run(fn, **sopts(fn))
        a = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
        for o in outs:
            if o.kind == 'ret':
                cs = list(copies(E, o))
                ck.ob('layout', 'hash', len(cs) == 1 and cs[0][1] == a and cs[0][2] == T.I(KEY) and cs[0][0][0] == 'fld' and cs[0][0][2] == 'h', 'hashes %s' % [[T.show(y)[:60] for y in x[:3]] for x in cs], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'details::match_key'):
        E, outs = ck.run(fn, **sopts(fn))
        L = C.Loops(E, outs)
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            if o.val[0] in ('pure', 'call') and core.meth_of(o.val[1]) in ('equal', 'memcmp'):
                ck.ob('layout', 'match', True)
                continue
            yes = o.val == T.ONE or E.truth(o.st.facts, C.boolterm(o.val)) is True
            if yes:
                ix = [k2 for k2, (lo, hi, ne) in o.st.facts.items() if k2[0] == 'phi' and lo is not None and lo >= KEY]
                ok = bool(ix) and L.counts(ix[0][1], ix[0])
                for h in L.heads:
                    for z in L.iters(h):
                        eq = [k2 for k2, (lo, hi, ne) in z.st.facts.items() if lo == hi == 0 and k2[0] == 'lin' and sum(1 for s in T.subterms(k2) if s and s[0] == 'in' and s[1][0] == 'elem' or s and s[0] == 'ev') >= 2]
                        ok = ok and bool(eq)
                ck.ob('layout', 'match', ok, 'takes a payload for that of the key that is not', *w)
            else:
                ck.ob('layout', 'differ', o.val == T.ZERO and any(0 in ne for k2, (lo, hi, ne) in o.st.facts.items()), 'rejects the payload of the key', *w)


def passed(ck):
    for name, cls, meth, n in ((NS + 'Oceanus::get', 'CuckooHashTable', 'get', 1), (NS + 'Oceanus::async_get', 'CuckooHashTable', 'async_get', 2),
                               (NS + 'OceanusBuilder::insert', 'CuckooBuilder', 'insert', 2), (NS + 'OceanusBuilder::commit', 'CuckooBuilder', 'commit', 0)):
        for fn in ck.find(name):
            E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda x, f=None: 'Cuckoo' in x))
            for o in outs:
                if o.kind == 'ret':
                    es = [e for e in evs(o, meth) if cls in e.name]
                    ok = len(es) == 1 and tuple(peel(a) for a in es[0].args) == tuple(pv(fn, i) for i in range(n)) and (meth != 'get' or peel(o.val) == es[0].ret)
                    ck.ob('passed', meth, ok, 'hands on %s' % [[T.show(a)[:60] for a in e.args] for e in es], C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'OceanusBuilder::make_cuckoo_builder_params'):
        E, outs = ck.run(fn, **opts(cut='deep'))
        for o in outs:
            if o.kind == 'ret':
                f = {x: (dict(o.val[1]).get(x) if o.val[0] == 'rec' else E.load(o.st, ('fld', ('retobj', 0), x))) for x in ('value_file_path', 'cuckoo_table_path', 'max_search_depth')}
                ck.ob('passed', 'files', f['cuckoo_table_path'] == pv(fn, 0) and f['value_file_path'] != pv(fn, 0) and f['value_file_path'] is not None, 'elements and table share a file', C.loc(fn, o.line), C.trail(o))
    for name in (B + '(dtor)', NS + 'OceanusBuilder::(dtor)'):
        for fn in ck.prog.find(name, False) or []:
            E, outs = ck.run(fn, **opts(cut='deep', opaque_if=lambda x, f=None: core.meth_of(x) == 'commit'))
            for o in outs:
                if o.kind == 'ret':
                    done = E.truth(o.st.facts, C.boolterm(('in', this('is_committed')))) is True
                    ck.ob('passed', 'committed', done or len(evs(o, 'commit')) == 1, 'the table is not written', C.loc(fn, o.line), C.trail(o))
