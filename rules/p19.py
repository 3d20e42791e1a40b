"""P19: what is encrypted in the block of a Tethys table is what is decrypted from it"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import p16
from rules.p13 import calls

TU = 'tus/tethys_client_inst.cpp'
NS = 'sse::tethys::encoders::'
ENC, DEC = NS + 'EncryptEncoder::', NS + 'DecryptDecoder::'
INNER = ('EncodeSeparateEncoder::', 'EncodeSeparateDecoder::')
BLOCK = 4096
pl, pv = p16.pl, p16.pv


def opts(**k):
    d = dict(cut='deep', record_copies=True, repeat=8, opaque_if=lambda n, f=None: any(x in n for x in INNER))
    d.update(k)
    return d


def inner(fn, e, member):
    """e is a call of the wrapped encoder or decoder"""
    return e.kind == 'call' and e.obj == ('fld', ('deref', ('thisptr',)), member)


def run(ck):
    ck.load([TU, p16.TU])
    ck.rule('whole', 'a block is encrypted once, whole, after it was completely encoded, and decrypted once, whole, before it is decoded')
    ck.rule('nonce', 'the nonce of a block is its index in the table, on both sides, and nothing else')
    ck.rule('key', 'the key is the one given at construction')
    ck.rule('inner', 'everything else is what the wrapped encoder does, with the same arguments')
    ck.rule('blocks', 'decrypted buckets are decoded for the indexes they were read at, and the same control values are counted as without encryption')
    for fn in ck.find(ENC + 'finish_block_encoding'):
        encryption(ck, fn)
    for fn in ck.find(DEC + 'decode_buckets'):
        widths(ck, fn, {2: 64, 4: 64})
        decryption(ck, fn)
    for n, m, ret in (('start_block_encoding', 'encoder', True), ('encode', 'encoder', True), ('serialize_key_value', 'encoder', False),
                      ('start_tethys_encoding', 'encoder', False), ('finish_tethys_table_encoding', 'encoder', False), ('finish_tethys_encoding', 'encoder', False)):
        for fn in ck.find(ENC + n):
            if n in ('encode', 'start_block_encoding'):
                widths(ck, fn, {1: 64})
            delegates(ck, fn, m, n, ret)
    for fn in ck.find(DEC + 'deserialize_key_value'):
        E, outs = ck.run(fn, **opts())
        if all(o.kind == 'ret' and any(inner(fn, e, 'decoder') for e in o.trace) for o in outs):
            delegates(ck, fn, 'decoder', 'deserialize_key_value', True)
        else:
            p16.deserialize(Inner(ck), fn)
    for cls, f in ((ENC, 'encryption_key'), (DEC, 'decryption_key')):
        for fn in ck.find(cls + '(ctor)', pred=lambda f: len(f.params) == 1 and 'Coder<' not in f.params[0]['t']):
            E, outs = ck.run(fn, **opts())
            for o in outs:
                v = E.load(o.st, ('fld', ('deref', ('thisptr',)), f))
                ck.ob('key', f, v == pv(fn, 0), 'the key is %s' % T.show(v), C.loc(fn, o.line), C.trail(o))
    control(ck)
    for r, k in (('whole', 3), ('nonce', 3), ('key', 3), ('inner', 5)):
        ck.floor(r, k)


def control(ck):
    """control entries counted in the length of a list, with and without encryption"""
    r = {}
    for fn in ck.find('sse::tethys::TethysStoreBuilder::insert_list'):
        if 'Wide' in fn.key:
            continue
        E, outs = ck.run(fn, cut='deep', opaque_if=lambda n, f=None: n.endswith('TethysAllocator::insert') or n.endswith('Hasher::operator()') or
                         n.endswith('::graph_size'))
        for o in outs:
            for e in calls(o, 'insert'):
                if e.name.endswith('TethysAllocator::insert') and len(e.args) == 3:
                    k = T.sub(e.args[1], ('pure', 'size', (pv(fn, 1),)))
                    r.setdefault('EncryptEncoder' in fn.key, []).append((k, C.loc(fn, e.line)))
    plain = {k for k, _ in r.get(False, ())}
    for k, w in r.get(True, ()):
        ck.ob('blocks', 'control values', {k} == plain and k[0] == 'int', 'lists to encrypt are counted as %s longer, others as %s' % (
            T.show(k), ', '.join(map(T.show, plain))), w)


class Inner:
    """reports the obligations of another rule set under this property's rule"""

    def __init__(self, ck):
        self.ck = ck

    def __getattr__(self, n):
        return getattr(self.ck, n)

    def ob(self, rule, *a, **k):
        return self.ck.ob('inner', *a, **k)


# ---------------------------------------------------------------- what buffers hold
def base(t):
    """the buffer a pointer points to the start of"""
    x, off = p16.ptr(t)
    if x is not None and off == T.ZERO:
        return x
    if x is None and t[0] == 'in':
        return ('deref', t)
    if t[0] == 'iter' and t[2] == T.ZERO:
        return t[1]
    return None


def nonce_of(e, p, have):
    b = base(p)
    for l, v in e.mem or ():
        # written byte after byte in a loop, and not since
        if p == ('addr', l) and v == ('phi', v[1], ('elem', b, T.ZERO)) and ('nonce', v[1], b) in have:
            return have[('nonce', v[1], b)]
    for l, v in e.mem or ():
        if l == b:
            return v
        if p == ('addr', l):
            return v[1] if v[0] == 'ev' and v[2] == T.ZERO else v
    return None


def strip(v):
    while v[0] == 'trunc' or v[0] == 'cast':
        v = v[-1]
    return v


def mixes(E, L, h):
    """[(X, Y)]: in the loop h every byte of X becomes itself xor the byte of Y at the same place; None if it does something else to arrays"""
    r = None
    for i in L.iters(h):
        mine = []
        for l, v in i.st.store.items():
            if l[0] != 'elem' or not T.mentions(l, ('phi', h)) and not any(x and x[0] == 'phi' and x[1] == h for x in T.subterms(l)):
                continue
            v = strip(v)
            if v == ('phi', h, l) or v == ('in', l):
                continue
            if v[0] != 'op' or v[1] != '^':
                return None
            parts = []
            for s in v[2:]:
                s = strip(s)
                if s[0] in ('in', 'R') and s[1][0] == 'elem' and s[1][2] == l[2]:
                    parts.append(s[1][1])
                elif s[0] == 'phi' and s[1] == h and s[2][0] == 'elem' and s[2][2] == l[2]:
                    parts.append(s[2][1])
                elif s[0] == 'ev' and s[2] == l[2]:
                    parts.append(s[1])
                else:
                    return None
            pos = l[2]
            if not (L.counts(h, pos) and L.until(h, pos, T.I(BLOCK)) and E.truth(i.st.facts, T.lt(pos, T.I(BLOCK))) is True):
                return None
            mine.append((l[1], tuple(parts)))
        mine = sorted(mine, key=repr)
        if r is not None and mine != r:
            return None
        r = mine
    return r or []


def spelled(E, L, h):
    """{array: what its 8 bytes are} of the arrays the loop h writes byte after byte, least significant first, and nothing else"""
    r = {}
    for i in L.iters(h):
        for l, v in i.st.store.items():
            if l[0] != 'elem' or not any(x and x[0] == 'phi' and x[1] == h for x in T.subterms(l[2])):
                continue
            v = strip(v)
            if v[0] == 'op' and v[1] == '&' and len(v) == 4 and T.I(255) in v[2:]:
                v = strip([x for x in v[2:] if x != T.I(255)][0])
            ok = v[:2] == ('op', '>>') and v[3] == T.mul(T.I(8), l[2]) and not any(x and x[0] == 'phi' and x[1] == h for x in T.subterms(v[2]))
            if not ok or not L.sweeps(h, l[2], (T.I(8),)) or r.setdefault(l[1], ('bytes', v[2], T.I(8))) != ('bytes', v[2], T.I(8)):
                return {}
    return r


def paths(L, outs):
    """[(piece or loop head, ...)] from the entry to each end of the function"""
    def go(o, seen):
        if o.kind == 'enter':
            if o.head in seen:
                return
            for x in L.exits(o.head):
                for p in go(x, seen + (o.head,)):
                    yield (o, o.head) + p
        else:
            yield (o,)
    for o in outs:
        if o.frm is None:
            yield from go(o, ())


def contents(ck, fn, E, L, path, onstep):
    """walk a path, keeping what each buffer holds: ('plain', X) as found, ('ks', nonce, key, size), ('xor', what, ks)"""
    have = {}

    def get(x):
        return have.get(x, ('plain', x))

    for p in path:
        if not isinstance(p, core.Outcome):
            sp = spelled(E, L, p)
            if sp:
                have.update((('nonce', p, x), v) for x, v in sp.items())
                continue
            m = mixes(E, L, p)
            if m is None:
                have.clear()
                have['lost'] = True
                continue
            new = {}
            for x, parts in m:
                vs = [get(y) for y in parts]
                ks = [v for v in vs if v[0] == 'ks']
                other = [v for v in vs if v[0] != 'ks']
                new[x] = ('xor', other[0], ks[0]) if len(ks) == 1 and len(other) == 1 else ('?',)
            have.update(new)
            continue
        for e in p.trace:
            if e.kind == 'copy':
                have[e.objv[1]] = get(e.obj)
            if e.kind != 'call':
                continue
            n = core.meth_of(e.name or '')
            if n == 'crypto_stream_chacha20' and len(e.args) == 4:
                have[base(e.args[0])] = ('ks', nonce_of(e, e.args[2], have), base(e.args[3]), e.args[1])
            elif n == 'crypto_stream_chacha20_xor' and len(e.args) == 5:
                have[base(e.args[0])] = ('xor', get(base(e.args[1])), ('ks', nonce_of(e, e.args[3], have), base(e.args[4]), e.args[2]))
            elif n == 'crypto_stream_chacha20_xor_ic' and len(e.args) == 6 and e.args[4] == T.ZERO:
                have[base(e.args[0])] = ('xor', get(base(e.args[1])), ('ks', nonce_of(e, e.args[3], have), base(e.args[5]), e.args[2]))
            elif n == 'transform' and len(e.args) == 5:
                a, z, b, d, f = e.args
                x = [base(t) for t in (a, b, d)]
                full = a[0] == z[0] == 'iter' and a[1] == z[1] and T.sub(z[2], a[2]) == T.I(BLOCK)
                vs = [get(t) for t in x[:2]]
                ks = [v for v in vs if v[0] == 'ks']
                other = [v for v in vs if v[0] != 'ks']
                have[x[2]] = ('xor', other[0], ks[0]) if full and len(ks) == len(other) == 1 and xors(ck, fn, f) else ('?',)
            else:
                b = p16.blit(e)
                if b and b[0] == 'copy':
                    d, s = base(b[1]), base(b[2])
                    if d is not None:
                        have[d] = get(s) if b[3] == T.I(BLOCK) else ('?',)
                elif b and b[0] == 'elems' and base(b[1]) is not None:
                    have[base(b[1])] = get(b[2][0]) if b[3] == T.I(BLOCK) and b[2][1] == T.ZERO else ('?',)
                elif n == 'operator=' and e.alv and e.alv[0] is not None and e.obj is not None:
                    have[e.obj] = get(e.alv[0])
                else:
                    onstep(e, get, have)
    return get


def xors(ck, fn, f):
    """f(a, b) is a ^ b"""
    if f[0] == 'obj':
        return f[1].startswith('std::bit_xor')
    if f[0] != 'lam':
        return False
    for l in ck.prog.lambdas_of(fn):
        if l.key == f[1] and len(l.params) == 2:
            E, outs = ck.run(l, **opts())
            want = {pv(l, 0), pv(l, 1)}
            return all(o.kind == 'ret' and strip(o.val)[0] == 'op' and strip(o.val)[1] == '^' and {strip(x) for x in strip(o.val)[2:]} == want for o in outs)
    return False


def judge(ck, fn, what, v, plain, index, keyfld, w):
    """v is plain xored with the keystream of index and key"""
    ok = v[0] == 'xor' and v[1] == plain and v[2][0] == 'ks'
    ck.ob('whole', what, ok and v[2][3] == T.I(BLOCK), '%s holds %s' % (what, descr(v)), *w)
    if ok:
        ck.ob('nonce', what, v[2][1] == ('bytes', index, T.I(8)), 'its nonce is %s' % (T.show(v[2][1]) if v[2][1] else 'unknown'), *w)
        ck.ob('key', what, v[2][2] == ('fld', ('deref', ('thisptr',)), keyfld), 'its key is %s' % (T.show(v[2][2]) if v[2][2] else 'unknown'), *w)


def descr(v):
    if v[0] == 'plain':
        return 'the bytes of %s, as they were found' % T.show(v[1]) if isinstance(v[1], tuple) else 'what was encoded'
    if v[0] == 'ks':
        return 'a keystream'
    if v[0] == 'xor':
        n = v[2][3] if v[2][0] == 'ks' else None
        return '%s xored with %s' % (descr(v[1]), '%s bytes of keystream' % T.show(n) if n else 'something')
    return 'something else'


NARROW = {'unsigned char': 8, 'uint8_t': 8, 'char': 8, 'signed char': 8, 'bool': 1, 'unsigned short': 16, 'uint16_t': 16, 'short': 16,
          'int': 31, 'unsigned int': 32, 'uint32_t': 32, 'int32_t': 31}


def widths(ck, fn, least):
    """the parameters hold what they are given: least maps their index to the bits they need"""
    for i, n in least.items():
        t = fn.params[i]['t'].replace('const ', '').strip()
        ck.ob('inner', 'parameter', NARROW.get(t, 64) >= n, 'parameter %d of %s is a %s' % (i, core.meth_of(fn.name), t), C.loc(fn, fn.line))


def encryption(ck, fn):
    widths(ck, fn, {1: 64, 2: 13, 3: 13})
    E, outs = ck.run(fn, **opts())
    L = C.Loops(E, outs)
    buf = ('deref', pv(fn, 0))
    for path in paths(L, outs):
        o = path[-1]
        if o.kind == 'throw':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        seen = []

        def step(e, get, have):
            if inner(fn, e, 'encoder'):
                ok = core.meth_of(e.name) == 'finish_block_encoding' and tuple(e.args) == tuple(pv(fn, i) for i in range(4))
                ck.ob('inner', 'finish', ok, 'the block is finished with %r' % e, *w)
                ck.ob('whole', 'finished first', get(buf)[0] == 'plain', 'the block is finished after it was encrypted', *w)
                have[buf] = ('plain', buf)
                seen.append(e)
        get = contents(ck, fn, E, L, path, step)
        ck.ob('inner', 'finish', len(seen) == 1, 'the block is finished %d times by the wrapped encoder' % len(seen), *w)
        judge(ck, fn, 'written block', get(buf), ('plain', buf), pv(fn, 1), 'encryption_key', w)
        n = T.sub(T.I(BLOCK), pv(fn, 2))
        ck.ob('whole', 'bytes', o.val == n, '%s is returned, not what completes the block' % T.show(o.val), *w)


def decryption(ck, fn):
    E, outs = ck.run(fn, **opts())
    L = C.Loops(E, outs)
    for path in paths(L, outs):
        o = path[-1]
        if o.kind == 'throw':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        seen = []

        def step(e, get, have):
            if inner(fn, e, 'decoder'):
                seen.append(e)
                a = e.alv
                ck.ob('inner', 'decode key', core.meth_of(e.name) == 'decode_buckets' and a[0] == pl(fn, 0), '%r is called' % e, *w)
                ck.ob('blocks', 'indexes', e.args[2] == pv(fn, 2) and e.args[4] == pv(fn, 4), 'the blocks are decoded as those of other indexes', *w)
                for k in (1, 3):
                    judge(ck, fn, 'bucket %d' % (k // 2), get(a[k]), ('plain', pl(fn, k)), pv(fn, k + 1), 'decryption_key', w)
        contents(ck, fn, E, L, path, step)
        if ck.ob('inner', 'decode', len(seen) == 1, 'the decrypted buckets are decoded %d times' % len(seen), *w):
            ck.ob('inner', 'elements', o.val == seen[0].ret, '%s is returned' % T.show(o.val), *w)


def delegates(ck, fn, member, name, ret):
    E, outs = ck.run(fn, **opts())
    for o in outs:
        if o.kind == 'throw':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        cs = [e for e in o.trace if inner(fn, e, member)]
        ok = len(cs) == 1 and core.meth_of(cs[0].name) == name and len(cs[0].args) == len(fn.params) and all(
            a == pv(fn, i) or l == pl(fn, i) or l == ('deref', pv(fn, i)) for i, (a, l) in enumerate(zip(cs[0].args, cs[0].alv)))
        ck.ob('inner', name, ok, 'the wrapped encoder is called as %s' % (', '.join(map(repr, cs)) or 'nothing'), *w)
        if ok and ret:
            ck.ob('inner', name + ' result', o.val == cs[0].ret, '%s is returned' % T.show(o.val), *w)
