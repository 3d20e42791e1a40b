"""P02: what a store returns for a key is what was last stored under exactly that key"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import db

SIZES = {'unsigned long': 8, 'uint64_t': 8, 'vp_inst::Rec': 16, 'unsigned int': 4}


def vsize(t):
    t = t.replace('const', '').replace('&', '').strip()
    if t.startswith('std::array'):
        return None
    return SIZES.get(t)


def value_range(fn, i, n):
    """the argument forms that denote the n bytes of parameter i"""
    p = db.param(fn, i)
    return [('range', ('addr', p), T.I(n)), ('range', ('addr', ('elem', p, T.ZERO)), T.I(n))]


def out_of(get):
    """the bytes RocksDB returned"""
    def f(t):
        return t[0] == 'out' and core.meth_of(t[1]) == 'Get'
    return f


def from_get(v, n):
    """v = n bytes from the start of the string Get returned"""
    return v[0] == 'bytes' and v[2] == T.I(n) and v[1][0] == 'ev' and v[1][2] == T.ZERO and v[1][1][0] == 'out' \
        and core.meth_of(v[1][1][1]) == 'Get'


def run(ck):
    ck.load(db.TUS)
    ck.rule('key', 'every Get/Put/Delete addresses the record named by exactly the bytes of the caller\'s key')
    ck.rule('stored-value', 'the bytes handed to Put are exactly the bytes of the caller\'s value')
    ck.rule('returned-value', 'when found, the out parameter holds the bytes Get returned, from the first byte on and over '
                              'the whole object; when not found it is left as the caller passed it')
    ck.rule('list-encode', 'storing a list appends the serialization of every element once, in list order, and stores the '
                           'whole accumulated string')
    ck.rule('list-decode', 'reading a list starts from an empty list, decodes from the first byte returned to the last, and '
                           'appends every decoded element once, in order, until decoding ends')
    for n, kind, fn in db.bool_fns(ck):
        lst = 'ListStore' in n
        same = lambda name, f=None: 'ListStore' in name and core.meth_of(name) == core.meth_of(fn.name)
        E, outs = ck.run(fn, **db.opts(cut='deep', opaque_if=same) if lst else db.opts(repeat=2))
        sg = db.sig(fn)
        if lst and any(e.kind == 'call' and same(e.name) for o in outs for e in o.trace):
            forward(ck, outs, fn, sg, same)
            continue
        if lst and kind == 'put':
            encode(ck, E, outs, fn, sg)
        elif lst:
            decode(ck, E, outs, fn, sg)
        for o in outs:
            if o.kind != 'ret' and not lst:
                continue
            for x in db.ops(o, 'Get', 'Delete', 'Put'):
                ck.ob('key', sg, db.covers_key(fn, db.karg(x)), 'key argument is %s' % T.show(db.karg(x)), C.evloc(x))
            g = db.ops(o, 'Get')
            if lst:
                continue
            if n == 'RocksDBCounter::set':
                puts(ck, o, fn, sg, 1, 4)
            if n == 'RockDBWrapper::put':
                puts(ck, o, fn, sg, 1, vsize(db.ptype(fn, 1)))
            if kind == 'get':
                oi = len(fn.params) - 1
                lv = db.param(fn, oi)
                elem = ('elem', lv, T.ZERO)
                v = E.load(o.st, lv)
                found = E.truth(o.st.facts, db.ok(g[0])) if g else None
                if 'basic_string' in db.ptype(fn, oi):
                    # Get writes it directly
                    good = v[0] == 'out' and core.meth_of(v[1]) == 'Get'
                    ck.ob('returned-value', sg, good, 'the string returned is %s' % T.show(v), C.loc(fn, o.line), C.trail(o))
                    continue
                sz = vsize(db.ptype(fn, oi))
                if sz is None:
                    raise core.AnalysisBroken('value type of %s' % sg)
                for w, val in ((True, True), (False, False)):
                    st = db.state_with(E, o, val)
                    if st is None:
                        continue
                    if val:
                        good = from_get(v, sz) or from_get(E.load(o.st, elem), sz)
                    else:
                        good = v == ('in', lv) and elem not in o.st.store
                    # paths where the outcome was never tested carry both
                    if found is None and not good:
                        good = False
                    ck.ob('returned-value', sg + (' found' if val else ' absent'), good,
                          'out parameter is %s when the operation returns %s' % (T.show(v), val), C.loc(fn, o.line),
                          C.trail(o))
    for n, m, i in (('insert', 'Put', 1), ('get', 'Get', None)):
        for fn in ck.find('sse::pluto::GenericRocksDBStore::' + n):
            E, outs = ck.run(fn, **db.opts(record_write=lambda ev: ev.name == 'memcpy'))
            sg = db.sig(fn)
            for o in outs:
                for x in db.ops(o, m):
                    ck.ob('key', sg, db.covers_key(fn, db.karg(x)), 'key argument is %s' % T.show(db.karg(x)), C.evloc(x))
                if n == 'insert':
                    puts(ck, o, fn, sg, 1, 40)
                elif o.kind == 'ret':
                    good = [v for k, v in o.st.store.items() if from_get(v, 40)]
                    ck.ob('returned-value', sg, bool(good), 'the returned array is not filled from the value read',
                          C.loc(fn, o.line), C.trail(o))
    for r, k in (('key', 20), ('stored-value', 4), ('returned-value', 8), ('list-encode', 2), ('list-decode', 4)):
        ck.floor(r, k)


def puts(ck, o, fn, sg, i, n):
    for x in db.ops(o, 'Put'):
        u = db.unwrap(x.args[-1])
        ck.ob('stored-value', sg, u in value_range(fn, i, n), 'value argument is %s' % T.show(x.args[-1]), C.evloc(x))


def forward(ck, outs, fn, sg, same):
    """an overload that only passes its arguments on to another one"""
    di = next(i for i, p in enumerate(fn.params) if 'std::list' in p['t'] or '__cxx11::list' in p['t'])
    key = tuple(db.pval(fn, i) for i in range(di))
    n = db.array_len(db.ptype(fn, 0))
    for o in outs:
        cs = [e for e in o.trace if e.kind == 'call' and (same(e.name) or db.is_db(e))]
        ok = len(cs) == 1 and o.kind == 'ret' and o.val == cs[0].ret
        d = None
        if ok:
            a = cs[0].args
            d = next((i for i, l in enumerate(cs[0].alv) if l == db.param(fn, di)), None)
            k = d is not None and a[:d]
            k0 = db.param(fn, 0)
            ok = k == key or n is not None and k and k[0] in (('addr', ('elem', k0, T.ZERO)), ('addr', k0)) and k[1:] == (T.I(n),) or \
                n is None and len(key) == 1 and k and k == (('addr', ('elem', k0, T.ZERO)), ('pure', 'size', (key[0],)))
        ck.ob('key', sg, ok, 'passes on %r' % cs, C.loc(fn, o.line), C.trail(o))


APPEND = ('operator+=', 'append', 'push_back')
ADD = ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'splice', 'merge', 'resize')
LOOK = ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'front', 'back')


def encode(ck, E, outs, fn, sg):
    data = db.param(fn, 1)
    L = C.Loops(E, outs)
    size = ('pure', 'size', (('in', data),))
    accs = set()
    for o in outs:
        for x in db.ops(o, 'Put'):
            u = db.unwrap(x.args[-1])
            acc = None
            whole = False
            if u[0] == 'range' and u[1][0] == 'addr' and u[1][1][0] == 'elem' and u[1][1][2] == T.ZERO:
                acc = u[1][1][1]
                whole = u[2] == T.ZERO or (u[2][0] == 'pure' and core.meth_of(u[2][1]) == 'size' and u[2][2] == (E.load(o.st, acc),))
            elif u[0] == 'whole':
                acc = next((k for k, v in o.st.store.items() if v == u[1] and k[0] == 'var'), None)
                whole = acc is not None
            if acc:
                accs.add(acc)
            ck.ob('list-encode', sg + ' whole', whole, 'Put receives %s' % T.show(x.args[-1]), C.evloc(x))
    heads = set()
    for o in outs:
        ser = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'serialize']
        # every element is serialised, and appended to what was there
        good, why = True, ''
        for acc in accs:
            v, want = E.load(o.st, acc), [e.ret for e in ser]
            if o.frm is None and not want:
                continue
            got = []
            while v[0] in ('pure', 'call') and v[1] == 'std::operator+' and len(v[2]) == 2:
                got.insert(0, v[2][1])
                v = v[2][0]
            if got != want:
                good, why = False, 'a serialized element is not appended' if len(got) < len(want) else 'something other than the element just serialized is appended'
            elif o.frm is not None and v != ('phi', o.frm, acc):
                good, why = False, 'what was appended before is lost'
        ck.ob('list-encode', sg + ' each', good, why, C.loc(fn, o.line), C.trail(o))
        for e in ser:
            # elements are visited from the first to the end of the list
            a = e.args[0]
            h = o.frm
            ok = o.kind == 'iter' and o.head == h and len(ser) == 1 and a[0] == 'in' and a[1][0] == 'elem' and a[1][1] == data and \
                L.counts(h, a[1][2]) and L.until(h, a[1][2], size)
            ck.ob('list-encode', sg + ' all', ok, 'the list is not visited from begin to end', C.loc(fn, o.line), C.trail(o))
            heads.add(h)
    for h in heads:
        for o in L.iters(h):
            ck.ob('list-encode', sg + ' all', any(core.meth_of(e.name) == 'serialize' for e in o.trace if e.kind == 'call'),
                  'an element is skipped', C.loc(fn, o.line), C.trail(o))
        for o in L.enters(h):
            for acc in accs:
                v = E.load(o.st, acc)
                ok = (v[0] == 'obj' and not v[2]) or core.meth_of(v[1]) == 'reserve' if v[0] in ('obj', 'mut', 'out') else False
                ck.ob('list-encode', sg + ' empty', ok, 'the accumulated string starts as %s' % T.show(v), C.loc(fn, o.line), C.trail(o))
    if not heads:
        ck.ob('list-encode', sg + ' all', False, 'no element of the list is serialized', C.loc(fn))


def decode(ck, E, outs, fn, sg):
    di = next(i for i, p in enumerate(fn.params) if 'std::list' in p['t'] or '__cxx11::list' in p['t'])
    data = db.param(fn, di)
    L = C.Loops(E, outs)
    get = next((g for o in outs if o.frm is None for g in db.ops(o, 'Get')), None)
    evs = {id(o): [e for e in o.trace if e.kind == 'call' and (core.meth_of(e.name) == 'deserialize' or (
        e.obj == data and core.meth_of(e.name) not in LOOK))] for o in outs}

    def dess(o):
        return [e for e in evs[id(o)] if core.meth_of(e.name) == 'deserialize']

    def carried(h, what):
        """variables that at every arrival at h hold what(arrival)"""
        arr = L.enters(h) + L.iters(h)
        cand = None
        for o in arr:
            w = what(o)
            here = {k for k, v in o.st.store.items() if w is not None and v == w}
            cand = here if cand is None else cand & here
        return cand or set()

    def last(o, f):
        d = dess(o)
        return f(d[-1]) if d else None

    def start(b):
        return b[0] == 'iter' and b[2] == T.ZERO

    for o in outs:
        ev, des = evs[id(o)], dess(o)
        where = (C.loc(fn, o.line), C.trail(o))
        found = E.truth(o.st.facts, db.ok(get)) if get else None
        if o.frm is None:
            # emptied before anything is appended
            first = next((e for e in ev if e.obj == data), None)
            ck.ob('list-decode', sg + ' cleared', first is not None and core.meth_of(first.name) in (
                'clear', 'operator=', 'swap', 'assign'), 'the list is not emptied first', *where)
        if found is not True:
            ck.ob('list-decode', sg + ' absent', not des and not [e for e in ev if core.meth_of(e.name) in ADD],
                  'decodes although nothing was found', *where)
            continue
        if o.kind == 'throw':
            continue
        good, why = True, ''
        h = o.frm
        # an element decoded by the previous piece of path and not appended yet
        owed, state = None, None
        if h is not None:
            for lv in carried(h, lambda x: last(x, lambda d: d.ret)):
                state = E.truth(o.st.facts, C.boolterm(('phi', h, lv)))
            if state is True:
                owed = [('phi', h, lv) for lv in carried(h, lambda x: last(x, lambda d: ('out', d.name, d.site, 2)))]
        ended = state is False
        prev = None
        for e in ev:
            m = core.meth_of(e.name)
            if m == 'deserialize':
                if owed or ended:
                    good, why = False, 'a decoded element is not appended to the result'
                b, end = e.args[0], e.args[1]
                if prev is not None:
                    okb = b == ('out', prev.name, prev.site, 0)
                elif b[0] == 'phi':
                    vals = [E.load(x.st, b[2]) for x in L.enters(b[1]) + L.iters(b[1])]
                    okb = all(start(v) or (v[0] == 'out' and core.meth_of(v[1]) == 'deserialize' and v[3] == 0) for v in vals)
                else:
                    okb = start(b) and h is None
                if not okb:
                    good, why = False, 'decoding starts at %s' % T.show(b)
                if not (end[0] == 'iter' and end[2][0] == 'pure' and core.meth_of(end[2][1]) == 'size' and end[2][2][0][0] == 'out'):
                    good, why = False, 'decoding stops at %s' % T.show(end)
                prev = e
                t = E.truth(o.st.facts, C.boolterm(e.ret))
                owed = [('out', e.name, e.site, 2)] if t is True else None
                ended = t is False
                if t is None and not (e is des[-1] and o.kind in ('enter', 'iter')):
                    good, why = False, 'goes on whether or not an element was decoded'
            elif m in ADD:
                if m not in ('push_back', 'emplace_back'):
                    good, why = False, 'elements are added with %s' % m
                elif not owed or e.args[-1] not in owed:
                    good, why = False, 'something other than the element just decoded is appended'
                owed = None
            elif not (h is None and prev is None):
                good, why = False, 'the list is changed by %s' % m
        if o.kind == 'ret':
            if owed:
                good, why = False, 'a decoded element is not appended to the result'
            elif not ended:
                good, why = False, 'a record that was found is not decoded to its end'
        elif owed and not (h is None or state is not None or carried(o.head, lambda x: last(x, lambda d: d.ret))):
            good, why = False, 'a decoded element is not appended to the result'
        ck.ob('list-decode', sg + ' each', good, why, *where)
