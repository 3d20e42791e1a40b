"""P25: a Janus search returns every index inserted and not removed for the keyword"""
from engine import check as C
from engine import core
from engine import terms as T
from engine.poly import Facts
from rules.p12 import opts, pv, this

TUS = ['lib/janus/janus_client.cpp', 'lib/janus/janus_server.cpp', 'lib/utils/utils.cpp', 'lib/utils/rocksdb_wrapper.cpp']
NS = 'sse::janus::'
CL, S = NS + 'JanusClient::', NS + 'JanusServer::'
OPAQUE = ('DianaClient::', 'DianaServer::', 'RocksDBCounter::', 'RockDBListStore', '::hex_string', 'PuncturableEncryption', 'PuncturableDecryption', '::extract_tag', '::Prf')
PURE = ('prf', 'derive_key', 'hex_string', 'extract_tag', 'inc_puncture', 'initial_keyshare', 'encrypt', 'get_match_count', 'operator+')
ADDED = ('push_back', 'emplace_back', 'push_front', 'emplace_front')
FRONT = ('push_front', 'emplace_front')
SEARCH = ('search', 'search_parallel')
CAT = ('operator+', 'operator+=', 'append', 'push_back')


def sopts(fn=None, **k):
    def hide(n, f=None):
        if fn is not None and f is not None and f.key == fn.key:
            return False
        return any(x in n for x in OPAQUE) or (f is not None and n in (S + 'search', S + 'search_parallel'))
    return opts(cut='deep', pure=PURE, opaque_if=hide, closures=True, **k)


def run(ck):
    ck.load(TUS)
    ck.rule('number', 'numbers are spelled with the same number of characters whatever their value')
    ck.rule('keys', 'tags, encryption keys, tokens and both update trees are derived with keys of their own')
    ck.rule('epoch', 'insertion, removal and search use the whole keyword with the number of searches that found something')
    ck.rule('insert', 'an insertion carries the index encrypted under the tag of (keyword, index)')
    ck.rule('remove', 'the removal number n punctures the key a nth time, at the tag of (keyword, index)')
    ck.rule('request', 'a search bears the token of the keyword, the insertions and removals of the epoch and the key punctured as often as there were removals')
    ck.rule('next', 'a search with something to find starts a new epoch durably before the counters of the old one are dropped')
    ck.rule('stored', 'the server keeps insertions and removals apart, each under its own token')
    ck.rule('shares', 'the key is rebuilt from the first share followed by the share of every removal')
    ck.rule('tags', 'the tag of every removal is collected')
    ck.rule('cached', 'what earlier searches found is delivered and kept, but for what was removed since')
    ck.rule('new', 'each insertion that decrypts is delivered once and kept with its tag, and no other')
    ck.rule('kept', 'what was delivered replaces what was kept for the token, and a failure to do so is reported')
    ck.rule('results', 'what is delivered is what is returned')
    ck.rule('entry', 'an entry read from what was kept is the entry that was written')
    numbers(ck)
    keys(ck)
    client(ck)
    for name, member in (('insert', 'insertion_server_'), ('remove', 'deletion_server_')):
        for fn in ck.find(S + name):
            E, outs = ck.run(fn, **sopts(fn))
            for o in outs:
                if o.kind == 'ret':
                    es = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'insert' and 'DianaServer' in e.name]
                    ck.ob('stored', name, len(es) == 1 and es[0].obj == this(member) and es[0].args[:1] == (pv(fn, 0),), 'hands %s' % es, C.loc(fn, o.line), C.trail(o))
    for fn in sorted((f for n in SEARCH for f in ck.find(S + n)), key=lambda f: f.key):
        search(ck, fn)
    entry(ck)
    for r, k in (('number', 2), ('keys', 6), ('epoch', 4), ('insert', 2), ('remove', 2), ('request', 4), ('next', 4), ('stored', 2), ('shares', 2), ('tags', 4), ('cached', 6), ('new', 4), ('kept', 4), ('results', 4), ('entry', 2)):
        ck.floor(r, k)


# ---------------------------------------------------------------- client
def numbers(ck):
    for fn in ck.find('sse::utility::hex_string', pred=lambda f: 'long' in f.params[0]['t'] or 'int' in f.params[0]['t']):
        E, outs = ck.run(fn, **opts(cut='deep'))
        size = 16 if 'long' in fn.params[0]['t'] else 8
        for o in outs:
            if o.kind != 'ret':
                continue
            w = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('setw', 'width')]
            f = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('setfill', 'fill')]
            ck.ob('number', 'width', len(w) == 1 and w[0].args[-1] == T.I(size) and len(f) == 1 and f[0].args[-1] == T.I(48), 'a number of %d digits is not padded to them with 0' % size,
                  C.loc(fn, o.line), C.trail(o))


def pieces(v):
    """the parts of a concatenation"""
    if v[0] in ('pure', 'call') and core.meth_of(v[1]) in CAT and len(v[2]) == 2:
        return pieces(v[2][0]) + pieces(v[2][1])
    if v[0] == 'obj' and 'basic_string' in v[1] and len(v[2]) >= 1:
        return pieces(v[2][0])
    return [v]


def coded(v, kw):
    """(number, shape) of a string that tells the keyword and a number"""
    ps = pieces(v)
    nums = [p for p in ps if p[0] in ('pure', 'call') and core.meth_of(p[1]) == 'hex_string' and len(p[2]) == 1]
    if len(nums) != 1 or ps.count(kw) != 1 or any(p[0] not in ('str', 'int') for p in ps if p not in nums and p != kw):
        return None
    return nums[0][2][0], tuple('#' if p in nums else '*' if p == kw else p for p in ps)


def method(v, name, member):
    """arguments of a call of the method of a member of the client"""
    if v is not None and v[0] in ('pure', 'call') and core.meth_of(v[1]) == name and v[2] and v[2][0] in (('addr', this(member)), ('in', this(member))):
        return v[2][1:]
    return None


def keys(ck):
    for fn in ck.find(CL + 'JanusClient', required=False) or ck.find(CL + '(ctor)'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind not in ('ret', 'enter'):
                continue
            got, first = {}, None
            for e in o.trace:
                if e.kind == 'call' and (e.name or '').endswith('::(ctor)') and e.obj is not None and e.obj[0] == 'fld' and e.obj[1] == ('deref', ('thisptr',)):
                    got[e.obj[2]] = e
            w = (C.loc(fn, o.line), C.trail(o))
            der = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'derive_key']
            m = got.get('master_prf_')
            ck.ob('keys', 'master', m is not None and m.args[:1] == (pv(fn, 3),) and all(o.trace.index(m) < o.trace.index(e) and e.obj == this('master_prf_') for e in der),
                  'keys are not derived with the master key', *w)
            use = []
            for mem, ix in (('tag_prf_', (0,)), ('punct_enc_master_prf_', (0,)), ('kw_token_prf_', (0,)), ('insertion_client_', (1, 2)), ('deletion_client_', (1, 2))):
                e = got.get(mem)
                for i in ix:
                    v = e.args[i] if e is not None and len(e.args) > i else None
                    d = next((x for x in der if x.ret == v), None)
                    if ck.ob('keys', mem, d is not None and len(d.args) == 1 and label(d.args[0]) is not None or v is not None and v[0] == 'obj' and len(v[2]) == 1 and any(x.ret == v[2][0] for x in der),
                             'is not keyed with a derived key', *w):
                        use.append(label(d.args[0]) if d is not None else v)
            ck.ob('keys', 'distinct', len(set(use)) == len(use), 'two of them have the same key', *w)
            ps = [got[x].args[0] for x in ('insertion_client_', 'deletion_client_', 'search_counter_map_') if x in got and got[x].args]
            ck.ob('keys', 'files', len(set(ps)) == 3 == len(ps) and all(p in [pv(fn, i) for i in range(3)] for p in ps), 'two of the maps are in the same place', *w)


def label(v):
    while v[0] == 'obj' and v[2] and v[2][0][0] in ('str', 'obj'):
        v = v[2][0]
    return v if v[0] in ('str', 'int') else None


def epoch(ck, E, o, fn, m, rule='epoch'):
    """the string is that of the current epoch of the keyword -> (number, shape)"""
    w = (C.loc(fn, o.line), C.trail(o))
    c = coded(m, pv(fn, 0))
    if not ck.ob(rule, 'string', c is not None, 'does not tell keyword and number of searches: %s' % T.show(m)[:160], *w):
        return None
    gets = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'get' and 'RocksDBCounter' in e.name and e.obj == this('search_counter_map_')]
    ok = False
    for e in gets:
        if len(e.args) != 2 or e.args[0] != pv(fn, 0):
            continue
        known = E.truth(o.st.facts, C.boolterm(e.ret))
        out = ('out', e.name, e.site, 1)
        if known is True:
            ok = ok or c[0] == out
        elif known is False:
            ok = ok or c[0] == T.ZERO or c[0] == out and e.args[1] == T.ZERO and quiet(ck)
        else:
            ok = ok or c[0] == out and e.args[1] == T.ZERO and quiet(ck)
    ck.ob(rule, 'number', ok, 'numbered %s' % T.show(c[0])[:100], *w)
    return c


def quiet(ck):
    """the counter leaves its output alone when it has no value for the key"""
    r = True
    for fn in ck.find('sse::sophos::RocksDBCounter::get'):
        E, outs = ck.run(fn, **opts(cut='deep'))
        v = ('var', fn.params[1]['d'], fn.params[1]['n'], 0)
        for o in outs:
            if o.kind == 'ret' and not (o.val is not None and (o.val == T.ONE or E.truth(o.st.facts, C.boolterm(o.val)) is True)):
                x = E.load(o.st, v)
                r = r and x == ('in', v)
    return r


def client(ck):
    shapes, tags = set(), set()

    def cipher(v, name, E, o):
        """arguments of the operation, and the string the key is derived from"""
        if v is None or v[0] not in ('pure', 'call') or core.meth_of(v[1]) != name or not v[2]:
            return None, None
        b = v[2][0]
        if b[0] == 'addr':
            b = E.load(o.st, b[1])
        if b[0] == 'in' and b[1] in o.st.store:
            b = E.load(o.st, b[1])
        if b[0] != 'obj' or not b[1].endswith('PuncturableEncryption') or len(b[2]) != 1:
            return None, None
        d = b[2][0]
        if d[0] == 'obj' and len(d[2]) == 1:
            d = d[2][0]
        d = method(d, 'derive_key', 'punct_enc_master_prf_')
        return v[2][1:], d[0] if d else None

    def tag(fn, v):
        d = method(v, 'prf', 'tag_prf_')
        c = coded(d[0], pv(fn, 0)) if d else None
        if c is not None and c[0] == pv(fn, 1):
            tags.add(c[1])
            return True
        return False

    for name, rule, member, op in (('insertion_request', 'insert', 'insertion_client_', 'encrypt'), ('removal_request', 'remove', 'deletion_client_', 'inc_puncture')):
        for fn in ck.find(CL + name):
            E, outs = ck.run(fn, **sopts(fn))
            for o in outs:
                if o.kind != 'ret':
                    continue
                w = (C.loc(fn, o.line), C.trail(o))
                es = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'insertion_request' and 'DianaClient' in e.name]
                if not ck.ob(rule, 'sent', len(es) == 1 and es[0].obj == this(member) and o.val == es[0].ret and len(es[0].args) == 2, 'sends %s' % es, *w):
                    continue
                m, v = es[0].args
                c = epoch(ck, E, o, fn, m)
                if c is not None:
                    shapes.add(c[1])
                a, k = cipher(v, op, E, o)
                if not ck.ob(rule, 'sealed', a is not None and len(a) == 2 and k == m, 'does not use the key of the epoch: %s' % T.show(v)[:160], *w):
                    continue
                ck.ob(rule, 'tag', tag(fn, a[1]), 'the tag is not that of keyword and index: %s' % T.show(a[1])[:160], *w)
                if rule == 'insert':
                    ck.ob(rule, 'index', a[0] == pv(fn, 1), 'encrypts %s' % T.show(a[0])[:80], *w)
                else:
                    n = T.sub(a[0], T.ONE)
                    d = method(n, 'get_match_count', member)
                    ck.ob(rule, 'count', d is not None and d[:1] == (m,), 'punctures number %s' % T.show(a[0])[:120], *w)
    for fn in ck.find(CL + 'search_request'):
        E, outs = ck.run(fn, **sopts(fn))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))

            def field(n):
                if o.val[0] == 'rec':
                    return dict(o.val[1]).get(n)
                return E.load(o.st, ('fld', ('retobj', 0), n))
            t = method(field('keyword_token'), 'prf', 'kw_token_prf_')
            ck.ob('request', 'token', t == (pv(fn, 0),), 'the token is not that of the keyword', *w)
            reqs = {}
            for f, member in (('insertion_search_request', 'insertion_client_'), ('deletion_search_request', 'deletion_client_')):
                v = field(f)
                es = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == 'search_request' and e.obj == this(member)]
                ok = len(es) == 1 and v in (es[0].ret, ('in', es[0].ret))
                if ck.ob('request', f, ok, 'is not the request of its own client: %s' % T.show(v or T.ZERO)[:120], *w):
                    reqs[member] = es[0]
            if len(reqs) != 2:
                continue
            ins, dele = reqs['insertion_client_'], reqs['deletion_client_']
            m = ins.args[0]
            c = epoch(ck, E, o, fn, m)
            if c is not None:
                shapes.add(c[1])
            ck.ob('epoch', 'both', dele.args[0] == m, 'insertions and removals of different epochs', *w)
            a, k = cipher(field('first_key_share'), 'initial_keyshare', E, o)
            ck.ob('request', 'share', a is not None and k == m and a == (('fv', dele.ret, 'add_count'),), 'the first share is not that of the removals: %s' % T.show(field('first_key_share') or T.ZERO)[:160], *w)
            # new epoch
            found = [('fv', e.ret, 'add_count') for e in (ins, dele)]
            some = not all(E.truth(o.st.facts, T.eq0(x)) is True for x in found)
            ev = [e for e in o.trace if e.kind == 'call']
            sets = [e for e in ev if core.meth_of(e.name or '') in ('set', 'increment', 'get_and_increment') and 'RocksDBCounter' in e.name]
            drops = [e for e in ev if core.meth_of(e.name or '') == 'remove_keyword']
            if some:
                ok = len(sets) == 1 and c is not None and sets[0].obj == this('search_counter_map_') and sets[0].args[0] == pv(fn, 0) and \
                    (core.meth_of(sets[0].name) != 'set' or sets[0].args[1] == T.add(c[0], T.ONE))
                ck.ob('next', 'number', ok, 'found something, sets %s' % [tuple(T.show(x)[:60] for x in e.args) for e in sets], *w)
                if ok and core.meth_of(sets[0].name) != 'get_and_increment':
                    ck.ob('next', 'reported', E.truth(o.st.facts, C.boolterm(sets[0].ret)) is True, 'goes on when the new epoch could not be recorded', *w)
            for e in drops:
                ck.ob('next', 'dropped', e.args[:1] == (m,) and e.obj in (this('insertion_client_'), this('deletion_client_')), 'drops the counters of %s' % T.show(e.args[0])[:100], *w)
                ck.ob('next', 'after', not some or sets and ev.index(sets[0]) < ev.index(e), 'drops the counters before the new epoch is recorded', *w)
                ck.ob('next', 'late', ev.index(e) > max(ev.index(ins), ev.index(dele)), 'drops the counters before they are read', *w)
    ck.ob('epoch', 'shape', len(shapes) == 1, 'the strings of the epoch have %d shapes' % len(shapes))
    ck.ob('remove', 'same tag', len(tags) == 1, 'the tags have %d shapes' % len(tags))


# ---------------------------------------------------------------- server
def lid(l):
    """an object, whatever function it is seen from"""
    return ('var', l[1]) if l is not None and l[0] == 'var' else l


def evs(o, *names):
    return [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in names]


def nested(ck, fn):
    for g in ck.prog.lambdas_of(fn):
        yield g
        yield from nested(ck, g)


def reqf(fn, name):
    return ('in', ('fld', ('var', fn.params[0]['d'], fn.params[0]['n'], 0), name))


def search(ck, fn):
    E, outs = ck.run(fn, **sopts(fn))
    other = [(o, e) for o in outs for e in evs(o, *SEARCH) if e.name.startswith(S)]
    if other:
        return delegate(ck, fn, E, outs, other)
    bodies = [(fn, E, outs)]
    for g in nested(ck, fn):
        bodies.append((g,) + ck.run(g, **sopts(g)))
    K, decr = shares(ck, fn, E, outs)
    first = fn.params[-1]
    if 'function' in first['t']:
        out = ('var', first['d'])
    else:
        out = None
        for o in outs:
            if o.kind == 'ret' and o.val is not None:
                r = result(E, o)
                ck.ob('results', 'list', r is not None, 'returns %s' % T.show(o.val)[:100], C.loc(fn, o.line), C.trail(o))
                out = r or out
    if K is None:
        return
    kc = cached(ck, fn, bodies, K, out)
    kn = new(ck, fn, bodies, decr, out)
    kept(ck, fn, E, outs, kc, kn)


def result(E, o):
    """the local list that is returned"""
    v = o.val
    if v[0] == 'phi':
        return lid(v[2])
    for l, x in o.st.store.items():
        if l[0] == 'var' and x == v:
            return lid(l)
    return None


def delivered(o, out):
    """what is delivered in the order of the trace"""
    r = []
    for e in o.trace:
        if e.kind != 'call' or not e.args:
            continue
        m = core.meth_of(e.name or '')
        if lid(e.obj) == out and (m == 'operator()' or m in ADDED):
            r.append(e)
    return r


def shares(ck, fn, E, outs):
    """the list the key is made of, as (list, position of the first removal); the decryptor"""
    K = decr = None
    n = 0
    for o in outs:
        for e in evs(o, '(ctor)'):
            if 'PuncturableDecryption::' not in e.name or not e.args or e.args[0][0] not in ('obj', 'mut', 'in', 'call'):
                continue
            n += 1
            w = (C.evloc(e), C.trail(o))
            decr = lid(e.obj)
            ends = range_of(e.args[0])
            if ends is None:
                ck.ob('shares', 'range', False, 'the key is made of %s' % T.show(e.args[0])[:160], *w)
                continue
            l, a, b = ends
            before = so_far(E, outs, o, o.trace.index(e))
            fr = [x for x in before if x.kind == 'call' and x.obj == l and core.meth_of(x.name or '') in FRONT + ADDED + ('insert', 'emplace', 'pop_front', 'pop_back', 'erase', 'clear', 'remove_if', 'remove')]
            ok = len(fr) == 1 and core.meth_of(fr[0].name) in FRONT and fr[0].args == (reqf(fn, 'first_key_share'),) or \
                len(fr) == 1 and core.meth_of(fr[0].name) in ('insert', 'emplace') and len(fr[0].args) == 2 and fr[0].args[1] == reqf(fn, 'first_key_share') and at_begin(fr[0].args[0], l)
            ck.ob('shares', 'first', ok, 'the first share does not come first', *w)
            v = E.load(o.st, l)
            ck.ob('shares', 'whole', a == T.ZERO and b[0] == 'pure' and b[1] == 'size', 'the key is not made of all shares', *w)
            src = None
            for x in before:
                if x.kind == 'call' and core.meth_of(x.name or '') in SEARCH and 'DianaServer' in x.name and x.obj == this('deletion_server_'):
                    src = x
            ok = src is not None and src.args[:1] == (reqf(fn, 'deletion_search_request'),) and bool(fr) and dict(fr[0].mem or ()).get(l) == src.ret
            ck.ob('shares', 'removals', ok, 'the shares are not those of the removals', *w)
            K = (lid(l), T.ONE, src.ret if src is not None else None)
    ck.ob('shares', 'made', n > 0, 'no key is made', C.loc(fn))
    return K, decr


def so_far(E, outs, o, n):
    """what happened before the n-th event of a piece of path, each loop on the way having run at most once"""
    r, seen = list(o.trace[:n]), set()
    while o.frm is not None and o.frm not in seen:
        seen.add(o.frm)
        h = o.frm
        its = [x for x in outs if x.kind == 'iter' and x.head == h]
        pre = [x for x in outs if x.kind == 'enter' and x.head == h]
        if not pre:
            break
        body = {id(e): e for x in its for e in x.trace}
        o = pre[0]
        r = list(o.trace) + list(body.values()) + r
    return r


def at_begin(v, l):
    while v[0] == 'obj' and len(v[2]) == 1:
        v = v[2][0]
    return v == ('iter', l, T.ZERO)


def range_of(v):
    """(container, first, last) an object is made of"""
    while v[0] == 'obj' and len(v[2]) == 1:
        v = v[2][0]
    if v[0] != 'obj' or len(v[2]) < 2:
        return None
    r = []
    for x in v[2][:2]:
        while x[0] in ('pure', 'obj', 'call') and len(x[2]) == 1:
            x = x[2][0]
        if x[0] != 'iter':
            return None
        r.append(x)
    return (r[0][1], r[0][2], r[1][2]) if r[0][1] == r[1][1] else None


def elem_at(t):
    """(list, position) of an element read"""
    if t[0] == 'ev':
        return t[1], t[2]
    if t[0] == 'in' and t[1][0] == 'elem':
        return t[1][1], t[1][2]
    return None


def tags(ck, fn, E, L, outs, K, R):
    """a loop puts the tag of every removal into R"""
    n = 0
    for h in L.heads:
        its = L.iters(h)
        adds = [e for o in its for e in evs(o, 'insert', 'emplace') if lid(e.obj) == R]
        if not adds:
            continue
        for o in its:
            n += 1
            w = (C.loc(fn, o.line), C.trail(o))
            es = [e for e in evs(o, 'insert', 'emplace') if lid(e.obj) == R]
            if not ck.ob('tags', 'each', len(es) == 1, 'the tag of a removal is not collected', *w):
                continue
            v = es[0].args[-1]
            x = elem_at(v[2][0]) if v[0] in ('pure', 'call') and core.meth_of(v[1]) == 'extract_tag' and len(v[2]) == 1 else None
            if not ck.ob('tags', 'tag', x is not None and (lid(x[0]) == K[0] or is_list(x[0], K[0]) or x[0] == K[2]), 'collects %s' % T.show(v)[:100], *w):
                continue
            i = x[1]
            ph = [y for y in T.subterms(i) if y and y[0] == 'phi' and y[1] == h]
            st = {T.add(y, T.sub(i, ph[0])) for y in L.starts(h, ph[0])} if ph else set()
            st = {y[2] if y[0] == 'iter' else y for y in st}
            shared = [z for z in outs if any(lid(y.obj) == K[0] for y in evs(z, *FRONT, 'insert', 'emplace'))]
            early = any(y.kind == 'enter' and y.head == h for y in outs) and shared and all(not any(lid(y.obj) == K[0] for y in evs(z, *FRONT, 'insert', 'emplace')) for z in L.enters(h) + its)
            ck.ob('tags', 'from', bool(ph) and st <= {T.ZERO, T.ZERO if early else K[1]} and bool(st), 'starts with share %s' % [T.show(y) for y in st], *w)
            step = {T.sub(y[2] if y[0] == 'iter' else y, ph[0]) for y in (L.at(z, ph[0], h) for z in its)} if ph else set()
            ck.ob('tags', 'step', step == {T.ONE}, 'does not go on to the next share', *w)
            for z in L.exits(h):
                if z.kind == 'throw':
                    continue
                F = Facts(E, z.st.facts)
                ok = any(k[0] == 'lin' and T.mentions(k, ph[0]) and size_of(k, K[0]) and hi == 0 == lo or
                         T.mentions(k, ph[0]) and size_of(k, K[0]) and lo is not None and lo >= 0 for k, (lo, hi, ne) in z.st.facts.items()) if ph else False
                ck.ob('tags', 'all', ok, 'stops before the last share', C.loc(fn, z.line), C.trail(z))
    return n


def is_list(v, l):
    """v is the value of the list"""
    return v[0] == 'in' and lid(v[1]) == l or v[0] == 'phi' and lid(v[2]) == l or v[0] == 'mut'


def size_of(k, l):
    """the term has the size of a list"""
    return any(s and s[0] == 'pure' and s[1] == 'size' for s in T.subterms(k))


def part(t):
    """(object, field)"""
    if t[0] == 'in' and t[1][0] == 'fld':
        return t[1][1], t[1][2]
    if t[0] == 'fv':
        return t[1], t[2]
    return None, None


def removed(E, o, e):
    """whether the tag that was looked up was found"""
    if core.meth_of(e.name) in ('count', 'contains'):
        return E.truth(o.st.facts, T.lnot(T.eq0(e.ret)))
    for k, (lo, hi, ne) in o.st.facts.items():
        if T.mentions(k, e.ret):
            if lo == hi == 0:
                return False
            if 0 in ne:
                return True
    return None


def pairs(e):
    """the members of a pair added to a list"""
    a = e.args
    if len(a) == 1 and a[0][0] in ('obj', 'pure', 'call') and len(a[0][2]) == 2 and ('pair' in a[0][1]):
        a = a[0][2]
    if len(a) == 1 and a[0][0] == 'rec':
        d = dict(a[0][1])
        a = (d.get('first'), d.get('second'))
    if len(a) == 1 and a[0][0] == 'ilist' and len(a[0][1]) == 2:
        a = a[0][1]
    return tuple(a)


def cached(ck, fn, bodies, K, out):
    """-> the list of cached results that are kept"""
    n, keep = 0, None
    for g, E, outs in bodies:
        L = C.Loops(E, outs)
        gets = [(o, e) for o in outs for e in evs(o, 'get') if 'RockDBListStore' in e.name]
        if not gets:
            continue
        for o, e in gets:
            ck.ob('cached', 'token', e.obj == this('cached_results_edb_') and e.args[:1] == (reqf(fn, 'keyword_token'),), 'reads what was kept for another token', C.evloc(e), C.trail(o))
        src = lid(gets[0][1].alv[1])
        if g is not fn:
            runs(ck, fn, bodies[0][1], bodies[0][2], g)
        R = None
        for h in L.heads:
            its = L.iters(h)
            look = [e for o in its for e in evs(o, 'count', 'find', 'contains') if 'set::' in e.name]
            if not look:
                continue
            R = lid(look[0].obj)
            it = None
            for o in its:
                n += 1
                w = (C.loc(g, o.line), C.trail(o))
                ls = [e for e in evs(o, 'count', 'find', 'contains') if lid(e.obj) == R]
                if not ck.ob('cached', 'looked up', len(ls) == 1 and len(ls[0].args) == 1 and part(ls[0].args[0])[1] == 'second', 'the tag of the entry is not looked up', *w):
                    continue
                x = part(ls[0].args[0])[0]
                gone = removed(E, o, ls[0])
                if not ck.ob('cached', 'decided', gone is not None, 'goes on without knowing whether the entry was removed', *w):
                    continue
                ds = delivered(o, out)
                if gone:
                    ck.ob('cached', 'removed', not ds, 'delivers an entry that was removed', *w)
                else:
                    ck.ob('cached', 'delivered', len(ds) == 1 and part(ds[0].args[0]) == (x, 'first'), 'an entry that was not removed is delivered %d times' % len(ds), *w)
                er = [e for e in evs(o, 'erase') if lid(e.obj) == src]
                ad = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ADDED and lid(e.obj) != out]
                y = elem_at(('in', x)) or elem_at(x)
                if x[0] == 'deref' and x[1][0] == 'phi' and x[1][1] == h or y is not None and y[1][0] == 'phi' and y[1][1] == h and any(lid(e.obj) == src for z in its for e in evs(z, 'erase')):
                    p = x[1] if x[0] == 'deref' else y[1]
                    ck.ob('cached', 'entry', x[0] == 'deref' or lid(y[0]) == src or is_list(y[0], src), 'looks at %s' % T.show(x)[:100], *w)
                    ck.ob('cached', 'start', all(s[0] == 'iter' and lid(s[1]) == src and s[2] == T.ZERO for s in (E.load(z.st, p[2]) for z in L.enters(h))), 'does not start with the first entry', *w)
                    inc = [e for e in evs(o, 'operator++') if e.obj == p[2]]
                    if gone:
                        ok = len(er) == 1 and within(er[0].args[0], p) and E.load(o.st, p[2]) == er[0].ret and not inc
                        ck.ob('cached', 'dropped', ok, 'an entry that was removed is kept, or the next one skipped', *w)
                    else:
                        at = E.load(o.st, p[2])
                        ck.ob('cached', 'kept', not er and (len(inc) == 1 and at != p and at[0] != 'iter' or at[0] == 'iter' and lid(at[1]) == src and at[2] == T.add(p, T.ONE)), 'an entry is dropped or skipped', *w)
                    keep = src
                    for z in L.exits(h):
                        ok = z.kind == 'throw' or any(T.mentions(k, p) and size_of(k, src) and lo == hi == 0 for k, (lo, hi, ne) in z.st.facts.items())
                        ck.ob('cached', 'all', ok, 'stops before the last entry', C.loc(g, z.line), C.trail(z))
                else:
                    ok = y is not None and (lid(y[0]) == src or is_list(y[0], src) or y[0][0] == 'out')
                    if not ck.ob('cached', 'entry', ok, 'looks at %s' % T.show(x)[:100], *w):
                        continue
                    ck.ob('cached', 'sweep', L.counts(h, y[1]), 'does not look at every entry', *w)
                    if gone:
                        ck.ob('cached', 'dropped', not ad, 'keeps an entry that was removed', *w)
                    else:
                        ok = len(ad) == 1 and (ad[0].args == (x,) or ad[0].args == (('in', x),) or [part(z) for z in pairs(ad[0])] == [(x, 'first'), (x, 'second')])
                        if ck.ob('cached', 'kept', ok, 'an entry that was not removed is not kept', *w):
                            keep = lid(ad[0].obj)
                    for z in L.exits(h):
                        ok = z.kind == 'throw' or any(T.mentions(k, y[1]) and size_of(k, src) and lo == hi == 0 for k, (lo, hi, ne) in z.st.facts.items())
                        ck.ob('cached', 'all', ok, 'stops before the last entry', C.loc(g, z.line), C.trail(z))
        ck.ob('tags', 'collected', R is not None and tags(ck, g, E, L, outs, K, R) > 0, 'the tags that were removed are not collected', C.loc(g))
    ck.ob('cached', 'filtered', n > 0, 'what was found before is not delivered', C.loc(fn))
    return keep


def within(v, p):
    while v[0] == 'obj' and len(v[2]) == 1:
        v = v[2][0]
    return v == p or v[0] == 'iter' and v[2] == p


def runs(ck, fn, E, outs, g):
    """the closure runs on a thread that has finished when the search goes on"""
    for o in outs:
        if o.kind != 'ret':
            continue
        th = [e for e in o.trace if e.kind == 'call' and e.args and any(a[0] == 'lam' and a[1] == g.key for a in e.args) and (e.name or '').endswith('::(ctor)') and 'thread' in e.name]
        js = [e for e in evs(o, 'join') if th and e.obj == th[0].obj]
        puts = [e for e in evs(o, 'put') if 'RockDBListStore' in e.name]
        w = (C.loc(fn, o.line), C.trail(o))
        direct = inlined(outs, g)
        if direct:
            continue
        ok = len(th) == len(js) == 1
        if ck.ob('cached', 'joined', ok, 'what was found before is not waited for', *w):
            t = o.trace
            ck.ob('cached', 'in time', all(t.index(js[0]) < t.index(p) for p in puts), 'what was found before is stored before it is complete', *w)


def inlined(outs, g):
    """the closure is called on the spot: its loops are among those of the search"""
    hs = [o for o in outs if o.kind == 'enter' and isinstance(o.head, tuple) and o.head[0] == g.key]
    return bool(hs) and not any('RockDBListStore' in e.name for o in hs for e in evs(o, 'put'))


def new(ck, fn, bodies, decr, out):
    """-> the list of new results that are kept"""
    n, keep = 0, None
    g0, E0, outs0 = bodies[0]
    srcs = [(o, e) for o in outs0 for e in evs(o, *SEARCH) if 'DianaServer' in e.name and e.obj == this('insertion_server_')]
    for o, e in srcs:
        ck.ob('new', 'request', e.args[:1] == (reqf(fn, 'insertion_search_request'),), 'searches something else than the insertions', C.evloc(e), C.trail(o))
    if not ck.ob('new', 'searched', bool(srcs), 'the insertions are not searched', C.loc(fn)):
        return None
    e = srcs[0][1]
    lam = next((a for a in e.args if a[0] == 'lam'), None)
    todo = []
    if lam is not None:
        g, E, outs = next((b for b in bodies if b[0].key == lam[1]), (None, None, None))
        if g is None:
            ck.ob('new', 'callback', False, 'unknown callback', C.evloc(e))
            return None
        ct = pv(g, 0)
        todo = [(g, E, o, ct, None) for o in outs if o.kind == 'ret']
    else:
        L = C.Loops(E0, outs0)
        for h in L.heads:
            for o in L.iters(h):
                for d in evs(o, 'decrypt'):
                    y = elem_at(d.args[0])
                    if y is not None and (y[0] == e.ret or y[0][0] in ('phi', 'var')):
                        todo.append((fn, E0, o, d.args[0], None))
                        ck.ob('new', 'sweep', L.counts(h, y[1]), 'does not look at every insertion', C.loc(fn, o.line), C.trail(o))
                        for z in L.exits(h):
                            ok = z.kind == 'throw' or any(T.mentions(k, y[1]) and size_of(k, None) and lo == hi == 0 for k, (lo, hi, ne) in z.st.facts.items())
                            ck.ob('new', 'all', ok, 'stops before the last insertion', C.loc(fn, z.line), C.trail(z))
                if not evs(o, 'decrypt') and any(evs(z, 'decrypt') for z in L.iters(h)):
                    ck.ob('new', 'each', False, 'an insertion is skipped', C.loc(fn, o.line), C.trail(o))
    for g, E, o, ct, _ in todo:
        n += 1
        w = (C.loc(g, o.line), C.trail(o))
        ds = evs(o, 'decrypt')
        if not ck.ob('new', 'decrypted', len(ds) == 1 and lid(ds[0].obj) == decr and ds[0].args[0] == ct, 'an insertion is not decrypted', *w):
            continue
        d = ds[0]
        ok = E.truth(o.st.facts, C.boolterm(d.ret))
        r = ('out', d.name, d.site, 1)
        dl = delivered(o, out)
        ad = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ADDED and lid(e.obj) != out]
        if ok is True:
            ck.ob('new', 'delivered', len(dl) == 1 and dl[0].args[0] == r, 'an index that was decrypted is delivered %d times' % len(dl), *w)
            p = pairs(ad[0]) if len(ad) == 1 else None
            if ck.ob('new', 'kept', p is not None and len(p) == 2 and p[0] == r and p[1][0] in ('pure', 'call') and core.meth_of(p[1][1]) == 'extract_tag' and p[1][2] == (ct,),
                     'an index that was decrypted is not kept with its tag', *w):
                keep = lid(ad[0].obj)
        else:
            ck.ob('new', 'rejected', ok is False and not dl and not ad, 'delivers what was not decrypted', *w)
    ck.ob('new', 'each', n > 1, 'the insertions are not decrypted', C.loc(fn))
    return keep


def kept(ck, fn, E, outs, kc, kn):
    n = 0
    for o in outs:
        if o.kind not in ('ret', 'throw'):
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        ps = [e for e in evs(o, 'put') if 'RockDBListStore' in e.name]
        if o.kind == 'throw':
            continue
        n += 1
        if not ck.ob('kept', 'once', len(ps) == 1, 'the results are stored %d times' % len(ps), *w):
            continue
        p = ps[0]
        ck.ob('kept', 'token', p.obj == this('cached_results_edb_') and p.args[:1] == (reqf(fn, 'keyword_token'),), 'stored under another token', *w)
        ck.ob('kept', 'reported', E.truth(o.st.facts, C.boolterm(p.ret)) is True, 'goes on when the results could not be stored', *w)
        lists = {lid(p.alv[1])}
        ever, added = set(lists), {}
        for e in reversed(so_far(E, outs, o, o.trace.index(p))):
            ever |= lists
            if e.kind == 'call' and (core.meth_of(e.name or '') in ADDED or core.meth_of(e.name or '') == 'get' and 'RockDBListStore' in e.name):
                l = lid(e.obj if core.meth_of(e.name) in ADDED else e.alv[1])
                added[l] = added.get(l, False) or l in lists
            if e.kind == 'call' and lid(e.obj) in lists and core.meth_of(e.name or '') in ('operator=', 'swap') and len(e.args) == 1:
                lists = lists - {lid(e.obj)} | ({lid(e.args[0][2])} if e.args[0][0] == 'phi' else set()) | ({lid(e.alv[0])} if e.alv[0] is not None and e.alv[0][0] == 'var' else set())
            elif e.kind == 'call' and lid(e.obj) in lists and core.meth_of(e.name or '') in ('splice', 'insert', 'merge'):
                for i, a in enumerate(e.args):
                    if e.alv[i] is not None and e.alv[i][0] == 'var':
                        lists.add(lid(e.alv[i]))
                    while a[0] in ('obj', 'pure') and len(a[2]) == 1:
                        a = a[2][0]
                    if a[0] == 'iter' and len(e.args) == 3 and i == 1 and a[2] == T.ZERO:
                        lists.add(lid(a[1]))
        ever |= lists
        ck.ob('kept', 'cached', kc is not None and added.get(kc, kc in ever), 'what was found before is not stored again', *w)
        ck.ob('kept', 'new', kn is not None and added.get(kn, kn in ever), 'what was found is not stored', *w)
    ck.ob('kept', 'stored', n > 0, 'nothing is stored', C.loc(fn))


def delegate(ck, fn, E, outs, other):
    """a search that hands its request to another one"""
    for o, e in other:
        w = (C.evloc(e), C.trail(o))
        ck.ob('results', 'request', e.args[:1] == (pv(fn, 0),), 'searches something else', *w)
        lam = next((a for a in e.args if a[0] == 'lam'), None)
        if lam is None:
            ck.ob('results', 'passed', o.kind == 'ret' and o.val == e.ret or any(a == pv(fn, len(fn.params) - 1) for a in e.args), 'the callback is not passed on', *w)
            continue
        g = next(x for x in nested(ck, fn) if x.key == lam[1])
        E2, outs2 = ck.run(g, **sopts(g))
        lst = None
        for x in outs2:
            if x.kind != 'ret':
                continue
            w2 = (C.loc(g, x.line), C.trail(x))
            ds = [d for d in x.trace if d.kind == 'call' and d.args and (core.meth_of(d.name or '') in ADDED or core.meth_of(d.name or '') == 'operator()')]
            ok = len(ds) == 1 and ds[0].args[0] == pv(g, 0)
            ck.ob('results', 'received', ok, 'an index is passed on %d times' % len(ds), *w2)
            if ok and core.meth_of(ds[0].name) in ADDED:
                lst = ds[0].obj
                own = lst[0] == 'elem' and lst[2] == pv(g, 1)
                ck.ob('results', 'own list', own or bool(ds[0].locks), 'threads share a list', *w2)
        if lst is not None:
            merged(ck, fn, E, outs, lst, pv(fn, 1))


def merged(ck, fn, E, outs, lst, n):
    """all lists are put together"""
    from rules import p22
    base = lst[1] if lst[0] == 'elem' else lst
    L = C.Loops(E, outs)
    ok = False
    for o in outs:
        for e in evs(o, '(ctor)'):
            if e.obj is not None and lid(e.obj) == lid(base) and 'vector' in e.name and e.args:
                ck.ob('results', 'lists', Facts(E, o.st.facts, n).ge(e.args[0], T.add(n, T.ONE)), 'the thread for earlier results has no list', C.evloc(e), C.trail(o))
    for h in L.heads:
        for o in L.iters(h):
            for e in evs(o, 'splice', 'insert', 'merge'):
                src = [a for a in e.alv if a is not None and a[0] == 'elem' and lid(a[1]) == lid(base)]
                if len(src) == 1:
                    i = src[0][2]
                    w = (C.loc(fn, o.line), C.trail(o))
                    st = L.starts(h, i)
                    moved = any(is_first(x, base) for x in L.enters(h) for x in [E.load(x.st, e.obj)])
                    ck.ob('results', 'from', st == {T.ZERO} or st == {T.ONE} and moved, 'starts with list %s' % [T.show(x) for x in st], *w)
                    ck.ob('results', 'step', L.steps(h, i) == {T.ONE}, 'skips lists', *w)
                    for z in L.exits(h):
                        ok = any(T.mentions(k, i) and size_of(k, None) and lo is not None and lo >= 0 for k, (lo, hi, ne) in z.st.facts.items()) or Facts(E, z.st.facts, n).ge(i, T.add(n, T.ONE))
                        ck.ob('results', 'all', ok, 'leaves lists out', C.loc(fn, z.line), C.trail(z))
                        if z.kind == 'ret':
                            ck.ob('results', 'returned', result(E, z) == lid(e.obj) or z.val == E.load(z.st, e.obj), 'returns something else', C.loc(fn, z.line), C.trail(z))
                    ok = True
    ck.ob('results', 'merged', ok, 'the lists are not put together', C.loc(fn))


def is_first(v, base):
    return any(s and s[0] == 'elem' and lid(s[1]) == lid(base) and s[2] == T.ZERO for s in T.subterms(v)) or v[0] == 'ev' and v[2] == T.ZERO


# ---------------------------------------------------------------- entries
SIZES = {'first': 8, 'second': 16}


def entry(ck):
    lay = set()
    for fn in ck.find('sse::sophos::serialization::serialize'):
        E, outs = ck.run(fn, **sopts(fn, interest=lambda ev: core.meth_of(ev.name or '') in ('append', 'operator+=', 'push_back')))
        x = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            r = [written(E, o, p, x) for p in parts(E, o, o.val)]
            if ck.ob('entry', 'written', None not in r and sorted(r) == sorted(SIZES.items()), 'an entry is written as %s' % T.show(o.val)[:200], *w):
                lay.add(tuple(f for f, _ in r))
    for fn in ck.find('sse::sophos::serialization::deserialize'):
        E, outs = ck.run(fn, **sopts(fn))
        b, e, x = (('var', fn.params[i]['d'], fn.params[i]['n'], 0) for i in range(3))
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            if o.val == T.ZERO or E.truth(o.st.facts, C.boolterm(o.val)) is False:
                left = room(E, o, b, e)
                ck.ob('entry', 'refused', left is None or left < 24, 'an entry that is there is not read', *w)
                continue
            left = room(E, o, b, e)
            ck.ob('entry', 'complete', left is not None and left >= 24, 'reads %s bytes when only %s are known to be there' % (24, left), *w)
            ck.ob('entry', 'next', moved(E, o, b) == 24, 'does not go on to the next entry', *w)
            got = {}
            for c in evs(o, 'copy', 'copy_n', 'memcpy'):
                s = reads(E, o, c, b)
                if s is not None:
                    got[s[0]] = s[1:]
            v = E.load(o.st, x)
            while v[0] == 'pure' and v[1] in ('std::move', 'std::forward'):
                v = v[2][0]
            fs = {f: E.load(o.st, ('fld', x, f)) for f in SIZES}
            if v[0] in ('pure', 'call', 'obj') and len(v[2]) == 2:
                fs = dict(zip(('first', 'second'), v[2]))
            order = {}
            for l, (off, n) in got.items():
                for f in SIZES:
                    if l == ('fld', x, f) or fs[f] in (E.load(o.st, l), ('in', l)):
                        order[f] = (off, n)
            ok = set(order) == set(SIZES) and all(order[f][1] == n for f, n in SIZES.items())
            if ck.ob('entry', 'read', ok, 'the parts of an entry are read from %s' % order, *w):
                seq = tuple(sorted(order, key=lambda f: order[f][0]))
                lay.add(seq)
                ck.ob('entry', 'places', order[seq[0]][0] == 0 and order[seq[1]][0] == SIZES[seq[0]], 'the parts of an entry overlap or have a gap', *w)
    ck.ob('entry', 'same', len(lay) == 1, 'written as %s' % sorted(lay))


def parts(E, o, v):
    """the pieces a string is made of"""
    if v[0] == 'in' and v[1] in o.st.store:
        v = E.load(o.st, v[1])
    if v[0] in ('pure', 'call') and core.meth_of(v[1]) in CAT and len(v[2]) == 2:
        return parts(E, o, v[2][0]) + parts(E, o, v[2][1])
    if v[0] == 'mut' and core.meth_of(v[1]) in ('append', 'operator+='):
        for e in o.trace:
            if e.kind == 'call' and e.site == v[3]:
                old = dict(e.mem or ()).get(e.obj)
                return (parts(E, o, old) if old is not None else []) + ([('obj', 'std::basic_string', v[2])] if len(v[2]) >= 2 else parts(E, o, v[2][0]))
    if v[0] == 'obj' and 'basic_string' in v[1] and (not v[2] or v[2][0][0] == 'obj' and 'allocator' in v[2][0][1]):
        return []
    return [v]


def written(E, o, p, x):
    """(field, bytes) of a piece"""
    if p[0] != 'obj' or 'basic_string' not in p[1] or len(p[2]) < 2:
        return None
    a, b = p[2][:2]
    if a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1] and a[1][0] == 'fld' and a[1][1] == x:
        n = T.sub(b[2], a[2])
        return (a[1][2], n[1]) if a[2] == T.ZERO and n[0] == 'int' else None
    if a[0] == 'addr' and b[0] == 'int':
        l = a[1][1] if a[1][0] == 'elem' and a[1][2] == T.ZERO else a[1]
        if l[0] == 'fld' and l[1] == x:
            return l[2], b[1]
    return None


def off(v, b):
    """how far an iterator is from where the entry begins"""
    if v == ('in', b):
        return 0
    if v[0] in ('pure', 'call') and core.meth_of(v[1]) in ('operator+', 'next') and len(v[2]) == 2 and v[2][1][0] == 'int':
        n = off(v[2][0], b)
        return None if n is None else n + v[2][1][1]
    if v[0] == 'addr' and v[1][0] == 'deref':
        return off(v[1][1], b)
    if v[0] == 'addr' and v[1][0] == 'elem' and v[1][1] == ('deref', ('in', b)) and v[1][2][0] == 'int':
        return v[1][2][1]
    d = T.sub(v, ('in', b))
    return d[1] if d[0] == 'int' else None


def room(E, o, b, e):
    """bytes known to be left"""
    n = None
    for k, (lo, hi, ne) in o.st.facts.items():
        if k[0] in ('pure', 'call') and core.meth_of(k[1]).startswith('operator') and len(k[2]) == 2 and lo is not None and lo == hi:
            op = core.meth_of(k[1])[8:]
            x, y = k[2]
            if op in ('<', '<=') and x == ('in', e) and off(y, b) is not None and lo == 0:
                n = max(n or 0, off(y, b) + (op == '<='))
            if op in ('>', '>=') and y == ('in', e) and off(x, b) is not None and lo == 0:
                n = max(n or 0, off(x, b) + (op == '>='))
            if op in ('<', '<=') and y == ('in', e) and off(x, b) is not None and lo == 1:
                n = max(n or 0, off(x, b) + (op == '<'))
            if op in ('>', '>=') and x == ('in', e) and off(y, b) is not None and lo == 1:
                n = max(n or 0, off(y, b) + (op == '>'))
    F = Facts(E, o.st.facts)
    d = T.sub(('in', e), ('in', b))
    for m in (24, 16, 8, 1):
        if F.ge(d, T.I(m)):
            return max(n or 0, m)
    for x in [e2.ret for e2 in evs(o, 'distance', 'operator-') if e2.ret is not None]:
        for m in (24, 16, 8, 1):
            if F.ge(x, T.I(m)):
                return max(n or 0, m)
    return n


def moved(E, o, b):
    """how far the place to read from has moved"""
    v = E.load(o.st, b)
    n = off(v, b)
    if n is not None:
        return n
    n = 0
    for e in o.trace:
        if e.kind == 'call' and e.obj == b and core.meth_of(e.name or '') == 'operator+=' and e.args[0][0] == 'int':
            n += e.args[0][1]
        elif e.kind == 'call' and core.meth_of(e.name or '') == 'advance' and e.alv and e.alv[0] == b and e.args[1][0] == 'int':
            n += e.args[1][1]
    return n


def reads(E, o, c, b):
    """(object, offset, bytes) of a copy out of the entry"""
    m, a = core.meth_of(c.name), c.args
    if len(a) != 3:
        return None
    src, dst = (a[0], a[2]) if m != 'memcpy' else (a[1], a[0])
    f = off(src, b)
    n = a[1] if m == 'copy_n' else a[2] if m == 'memcpy' else None
    if f is None:
        # the place may have moved on since
        return None
    if m == 'copy':
        t = off(a[1], b)
        n = None if t is None else T.I(t - f)
    if n is None or n[0] != 'int':
        return None
    while dst[0] == 'pure' and len(dst[2]) == 1:
        dst = dst[2][0]
    l = dst[1] if dst[0] == 'iter' and dst[2] == T.ZERO else dst[1] if dst[0] == 'addr' else None
    if l is None:
        return None
    if l[0] == 'elem' and l[2] == T.ZERO:
        l = l[1]
    return l, f, n[1]
