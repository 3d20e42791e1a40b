"""P16: every element of a Tethys list is written once, in a bucket or in the stash, and read back from there"""
import re

from engine import check as C
from engine import core
from engine import terms as T
from engine.core import AnalysisBroken
from engine.poly import Facts
from rules.p12 import this
from rules.p13 import calls

TU = 'tus/tethys_inst.cpp'
NS = 'sse::tethys::encoders::'
ENC, DEC = NS + 'EncodeSeparateEncoder::', NS + 'EncodeSeparateDecoder::'
COPY = ('memcpy', 'memmove', 'copy', 'copy_n', '__builtin_memcpy')
FILL = ('fill', 'fill_n', 'memset')
INCOMING = 0


def pl(fn, i):
    return ('var', fn.params[i]['d'], fn.params[i]['n'], 0)


def pv(fn, i):
    return ('in', pl(fn, i))


def opts(**k):
    d = dict(cut='deep', facts_on_events=True) if False else dict(cut='deep')
    d.update(k)
    return d


def tail(fn):
    """the template arguments of the class, which name the instantiation"""
    m = re.search(r'code\w+<(.*?)>::', fn.key)
    a = m.group(1) if m else ''
    return 'wide' if 'Wide' in a else 'plain'


def width(fn):
    return 24 if tail(fn) == 'wide' else 8


# ---------------------------------------------------------------- raw memory
def ptr(t, bases=()):
    """a pointer as (what it points into, byte offset)"""
    d = [(x, T.sub(t, x)) for x in sorted(T.subterms(t), key=repr) if x and (x[0] == 'addr' or x in bases)]
    for x, rest in d:
        if any(y and y != x and (y[0] == 'addr' or y in bases) for y in T.subterms(rest)):
            continue
        if T.mentions(rest, x):
            continue
        if x[0] == 'addr':
            l = x[1]
            if l[0] == 'elem':
                return (l[1], T.add(l[2], rest)) if l[2] != T.ZERO or rest != T.ZERO else (l[1], T.ZERO)
            return l, rest
        return x, rest
    return None, t


def blit(e):
    """(kind, destination, source, size) of a copy or fill; kind 'elems' counts elements of a container"""
    if e.kind != 'call' or not e.name:
        return None
    n, a = e.name.split('::')[-1], e.args
    if e.name not in ('std::' + n, n):
        return None
    if n in ('memcpy', 'memmove', '__builtin_memcpy') and len(a) == 3:
        return 'copy', a[0], a[1], a[2]
    if n == 'copy' and len(a) == 3:
        if a[0][0] == a[1][0] == 'iter' and a[0][1] == a[1][1]:
            return 'elems', a[2], (a[0][1], a[0][2]), T.sub(a[1][2], a[0][2])
        return 'copy', a[2], a[0], T.sub(a[1], a[0])
    if n == 'copy_n' and len(a) == 3:
        if a[0][0] == 'iter':
            return 'elems', a[2], (a[0][1], a[0][2]), a[1]
        return 'copy', a[2], a[0], a[1]
    if n == 'fill' and len(a) == 3:
        return 'fill', a[0], a[2], T.sub(a[1], a[0])
    if n == 'fill_n' and len(a) == 3:
        return 'fill', a[0], a[2], a[1]
    if n == 'memset' and len(a) == 3:
        return 'fill', a[0], a[1], a[2]
    return None


def value_at(e, p):
    """the value the pointer p points to when e happens"""
    for l, v in e.mem or ():
        if p == ('addr', l):
            return v
    return None


def blits(o, base, dest=True):
    """[(event, kind, offset in base, other side, size)]"""
    r = []
    for e in o.trace:
        b = blit(e)
        if not b:
            continue
        k, d, s, n = b
        side = d if dest else s
        if not dest and k != 'copy':
            if k == 'elems' and s[0] == base:
                r.append((e, k, s[1], d, n))
            continue
        if side[0] == 'iter':
            if side[1] == base:
                r.append((e, k, side[2], s if dest else d, n))
            continue
        x, off = ptr(side, (base,))
        if x == base:
            r.append((e, k, off, s if dest else d, n))
    return r


def loop_copies(E, L, h):
    """[(destination, first position, source, first position, number)] of the copies the loop h makes element by element; None if it is not just copying"""
    r = set()
    for i in L.iters(h):
        for l, v in i.st.store.items():
            if l[0] != 'elem' or not any(x and x[0] == 'phi' and x[1] == h for x in T.subterms(l[2])):
                continue
            while v[0] == 'trunc':
                v = v[-1]
            if v[0] in ('in', 'ev', 'phi') and v != ('phi', h, l):
                s, q = (v[1], v[2]) if v[0] == 'ev' else (v[-1][1], v[-1][2]) if v[-1][0] == 'elem' else (None, None)
            else:
                s = q = None
            p = l[2]
            if s is None or not (L.steps(h, p) == L.steps(h, q) == {T.ONE} and len(L.starts(h, p)) == len(L.starts(h, q)) == 1):
                return None
            a, b = next(iter(L.starts(h, p))), next(iter(L.starts(h, q)))
            n = [T.sub(T.I(hi + 1), k) for x, (lo, hi, ne) in i.st.facts.items() if hi is not None and T.sub(p, x)[0] == 'int'
                 for k in (T.sub(a, T.sub(p, x)),) if L.until(h, x, T.I(hi + 1))]
            # or counted until a place is reached
            ends = {L.final(o, h, p) for o in L.exits(h) if o.kind not in ('throw', 'noreturn')}
            end = next(iter(ends)) if len(ends) == 1 else p
            if not n and a[0] == end[0] == 'int' and a[1] <= end[1]:
                n = [T.sub(end, a)]
            if not n:
                return None
            r.add((l[1], a, s, b, n[0]))
    return sorted(r, key=repr)


def same(E, facts, a, b):
    return a == b or E.truth(facts, T.eq(a, b)) is True


def split(assigned, orig, c):
    """what a bucket keeps of a list of orig elements when `assigned` entries were allotted to it: [(conditions >= 0, number of elements)]"""
    room = T.sub(assigned, T.I(c))
    return [((T.sub(T.ZERO, room),), T.ZERO), ((T.sub(room, T.ONE), T.sub(orig, room)), room), ((T.sub(room, T.ONE), T.sub(T.sub(room, orig), T.ONE)), orig)]


def is_share(E, facts, n, assigned, orig, c):
    bad = []
    for cond, want in split(assigned, orig, c):
        F = Facts(E, facts, orig, assigned, *cond)
        if F.possible() and not F.eq(n, want):
            bad.append('%s instead of %s' % (T.show(n), T.show(want)))
    return bad


def run(ck):
    ck.load([TU])
    ck.rule('layout', 'a list is written as its length, its key and its elements, at fixed non-overlapping places, padding between them only')
    ck.rule('share', 'a bucket gets what fits of the list in the entries allotted to it once the header is counted, and nothing of an empty list')
    ck.rule('part', 'the bucket of an incoming edge gets the first elements, that of an outgoing edge the last, and the stash all the others')
    ck.rule('room', 'two headers are counted in the length of a list, so that what is not stashed fits in its two buckets')
    ck.rule('end', 'the rest of a bucket is zeroed, so that reading stops there')
    ck.rule('read', 'reading walks the lists of a bucket with the layout they were written with, and returns all the elements of the requested one')
    ck.rule('bounds', 'reading never goes past the end of the bucket, whatever it contains')
    ck.rule('both', 'both buckets are read')
    ck.rule('stash', 'stashed elements are written after the key and their number, and read back in that format')
    ck.rule('cut', 'a stash file that ends in the middle of a list is an error')
    ck.rule('edge', 'the allotment of a list is taken from its edge, on the side of the bucket being written')
    lay = {}
    control = lengths(ck)
    for fn in ck.find(ENC + 'encode'):
        encode(ck, fn, lay, control)
    blocks(ck)
    for fn in ck.find(DEC + 'decode_single_bucket'):
        decode(ck, fn, lay[tail(fn)])
    both(ck)
    for fn in ck.find(ENC + 'serialize_key_value'):
        serialize(ck, fn, lay[tail(fn)], control[tail(fn)])
    for fn in ck.find(DEC + 'deserialize_key_value'):
        deserialize(ck, fn)
    edges(ck)
    for r, k in (('layout', 8), ('share', 8), ('part', 8), ('room', 2), ('end', 4), ('read', 8), ('bounds', 6), ('both', 2), ('stash', 8), ('cut', 2), ('edge', 4)):
        ck.floor(r, k)


def lengths(ck):
    """control entries counted in the length of a list by the builder: length handed to the allocator - size of the list"""
    r = {}
    for fn in ck.find('sse::tethys::TethysStoreBuilder::insert_list'):
        E, outs = ck.run(fn, **opts(opaque_if=lambda n, f=None: n.endswith('TethysAllocator::insert') or n.endswith('Hasher::operator()') or
                                    n.endswith('::graph_size')))
        for o in outs:
            for e in calls(o, 'insert'):
                if e.name.endswith('TethysAllocator::insert') and len(e.args) == 3:
                    for x in T.subterms(e.args[1]):
                        k = T.sub(e.args[1], x)
                        if x and x[0] == 'pure' and x[1] == 'size' and k[0] == 'int':
                            r['wide' if 'Wide' in fn.key else 'plain'] = k[1]
    if set(r) != {'wide', 'plain'}:
        raise AnalysisBroken('the length of a list is not its size plus a constant: %s' % r)
    return r


# ---------------------------------------------------------------- writing
def encode(ck, fn, lay, control):
    W, K = width(fn), control[tail(fn)]
    buf = pv(fn, 0)
    key, vals = pl(fn, 2), pl(fn, 3)
    info = pl(fn, 4)
    f = {n: ('in', ('fld', info, n)) for n in ('list_length', 'assigned_list_length', 'edge_orientation')}
    orig = T.sub(f['list_length'], T.I(K))
    size = ('pure', 'size', (('in', vals),))
    E, outs = ck.run(fn, **opts())
    L = C.Loops(E, outs)
    found = set()
    # pass 1: the layout
    for o in outs:
        for e, k, off, src, n in blits(o, buf):
            if k == 'copy' and o.frm is None and off[0] == 'int':
                x, d = ptr(src)
                what = 'key' if x in (key, ('elem', key, T.ZERO)) and d == T.ZERO else 'length' if n == T.I(8) else '?'
                found.add((what, off, n))
    lens = {x for x in found if x[0] == 'length'}
    keys = {x for x in found if x[0] == 'key'}
    if not (len(lens) == len(keys) == 1):
        ck.ob('layout', 'header ' + tail(fn), False, 'the header is not a length and a key at fixed places: %s' % sorted(map(str, found)), C.loc(fn))
        raise_layout(lay, tail(fn))
        return
    lo, ln = next(iter(lens))[1][1], 8
    ko, kn = next(iter(keys))[1][1], next(iter(keys))[2]
    ck.ob('layout', 'whole key ' + tail(fn), kn == T.I(16), '%s bytes of the key are written' % T.show(kn), C.loc(fn))
    ck.ob('layout', 'no overlap ' + tail(fn), lo + ln <= ko or ko + 16 <= lo, 'the length and the key overlap', C.loc(fn))
    hdr = None
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        if not E.assume(copy(o.st), T.lt(f['list_length'], T.I(K)), False):
            continue
        mine = blits(o, buf)
        if o.kind in ('ret', 'enter') and o.frm is None and not mine:
            if o.kind == 'ret':
                ck.ob('layout', 'nothing written ' + tail(fn), o.val == T.ZERO, '%s is returned when nothing is written' % T.show(o.val), *w)
                hd = hdr_of(outs, buf, vals, W, L)
                bad = is_share(E, o.st.facts, T.ZERO, f['assigned_list_length'], orig, hd) if hd is not None else ['no elements are ever written']
                ck.ob('share', 'nothing ' + tail(fn), not bad, 'a list is left out: %s' % '; '.join(bad), *w)
            continue
        if o.frm is not None:
            continue
        # the header
        if not any(T.lt and k == 'copy' for _, k, _, _, _ in mine):
            continue
        n = None
        for e, k, off, src, sz in mine:
            if k == 'copy' and off == T.I(lo) and sz == T.I(8):
                n = value_at(e, src)
        elems = elements(E, L, o, outs, buf, vals, W)
        ck.ob('layout', 'length ' + tail(fn), n is not None, 'the length is not written', *w)
        ck.ob('layout', 'elements ' + tail(fn), elems is not None, 'the elements are not copied one after the other', *w)
        if n is None or elems is None:
            continue
        start, b, e_, ends = elems
        hdr = start
        ck.ob('layout', 'after the header ' + tail(fn), start >= max(lo + 8, ko + 16) and start % W == 0,
              'the elements start at %d, within the header' % start, *w)
        pads = [(off, sz) for _, k, off, _, sz in mine if k == 'fill']
        for off, sz in pads:
            ok = off[0] == sz[0] == 'int' and any(x <= off[1] and off[1] + sz[1] <= y for x, y in gaps(lo, ko, start))
            ck.ob('layout', 'padding ' + tail(fn), ok, 'padding of %s bytes at %s overwrites something' % (T.show(sz), T.show(off)), *w)
        others = [e for e, k, off, src, sz in mine if k != 'fill' and not (off == T.I(lo) and sz == T.I(8)) and not (off == T.I(ko) and sz == T.I(16))
                  and e not in ends['events']]
        ck.ob('layout', 'nothing else ' + tail(fn), not others, 'something else is written: %s' % ', '.join(map(repr, others)), *w)
        c = start // W
        bad = is_share(E, o.st.facts, n, f['assigned_list_length'], orig, c)
        ck.ob('share', 'some ' + tail(fn), not bad, 'the bucket gets %s' % '; '.join(bad), *w)
        F = Facts(E, o.st.facts, orig, f['assigned_list_length'], T.sub(T.ZERO, n))
        ck.ob('share', 'no empty list ' + tail(fn), not F.possible(), 'a null length, which ends a bucket, can be written for an empty list', *w)
        # which elements
        inc = E.truth(o.st.facts, T.eq(f['edge_orientation'], T.I(INCOMING)))
        if inc is None:
            ok = False
        elif inc:
            ok = b == T.ZERO and same(E, o.st.facts, e_, n)
        else:
            ok = e_ == size and same(E, o.st.facts, b, T.sub(size, n)) or same(E, o.st.facts, T.sub(e_, b), n) and same(E, o.st.facts, e_, size)
        ck.ob('part', 'bucket ' + tail(fn), ok, 'elements [%s, %s) of %s are written for an %s edge' % (
            T.show(b), T.show(e_), T.show(size), 'incoming' if inc else 'outgoing' if inc is False else 'arbitrary'), *w)
        for x in ends['rets']:
            ck.ob('layout', 'size ' + tail(fn), x, 'what is returned is not the number of bytes written', *w)
    if hdr is None:
        ck.ob('layout', 'elements ' + tail(fn), False, 'no element is ever written', C.loc(fn))
        raise_layout(lay, tail(fn))
        return
    ck.ob('room', tail(fn), K * W == 2 * hdr, 'a list of n elements is allotted n + %d entries, while its two headers take %d' % (K, 2 * hdr // W), C.loc(fn))
    lay[tail(fn)] = dict(len=lo, key=ko, hdr=hdr)


def copy(st=None, facts=None):
    s = core.State()
    s.facts = dict(st.facts if st is not None else facts)
    return s


def raise_layout(lay, t):
    lay[t] = None


def gaps(lo, ko, start):
    a, b = sorted(((lo, 8), (ko, 16)))
    return [(0, a[0]), (a[0] + a[1], b[0]), (b[0] + b[1], start)]


def hdr_of(outs, buf, vals, W, L):
    for o in outs:
        if o.frm is None:
            x = elements(L.E, L, o, outs, buf, vals, W)
            if x:
                return x[0] // W
    return None


def source_elem(src, vals):
    """position of the element of vals a pointer points to"""
    if src[0] == 'addr' and src[1][0] == 'elem' and src[1][1] == vals:
        return src[1][2]
    x, off = ptr(src)
    if x == vals:
        return off
    return None


def quot(n, w):
    """n / w, if n is a multiple of w whatever it is"""
    fs, k = T.to_lin(n)
    if k % w or any(c % w for c in dict(fs).values()):
        return None
    return T.from_lin({x: c // w for x, c in dict(fs).items()}, k // w)


def elements(E, L, o, outs, buf, vals, W):
    """(offset of the first element, first position, end position, details) for the path o"""
    # in one go
    for e, k, off, src, n in blits(o, buf):
        if k == 'elems' and src[0] == vals and off[0] == 'int':
            end = T.add(src[1], n)
            ok = [o.kind == 'ret' and same(E, o.st.facts, o.val, T.add(off, T.mul(n, T.I(W))))]
            return off[1], src[1], end, dict(events=[e], rets=ok)
        if k == 'copy' and off[0] == 'int' and n[0] != 'int':
            p, m = source_elem(src, vals), quot(n, W)
            if p is not None and m is not None:
                ok = [o.kind == 'ret' and same(E, o.st.facts, o.val, T.add(off, n))]
                return off[1], p, T.add(p, m), dict(events=[e], rets=ok)
    # one by one
    if o.kind != 'enter':
        return None
    h = o.head
    off = pos = None
    for i in L.iters(h):
        if not agree(E, o.st.facts, i.st.facts):
            continue
        # a pointer into the buffer can be moved along it
        bs = [(e, b[0], T.sub(b[1], buf), b[2], b[3]) for e in i.trace for b in (blit(e),) if b]
        if len(bs) != 1 or bs[0][1] != 'copy' or bs[0][4] != T.I(W):
            return None
        p = source_elem(bs[0][3], vals)
        if p is None or off is not None and (bs[0][2], p) != (off, pos):
            return None
        off, pos = bs[0][2], p
    if off is None or L.steps(h, off) != {T.I(W)} or L.steps(h, pos) != {T.ONE}:
        return None
    s, b = L.at(o, off, h), L.at(o, pos, h)
    xs = {x for x in T.subterms(pos) if x and x[0] == 'phi' and x[1] == h}
    if s[0] != 'int' or len(xs) != 1:
        return None
    x = next(iter(xs))
    base = T.sub(pos, x)
    if T.mentions(base, x):
        return None
    pos = x
    ends, rets = set(), []
    for x in L.exits(h):
        if x.kind != 'ret' or not agree(E, o.st.facts, x.st.facts):
            continue
        # the position at which the loop is left
        e = end_of(E, x, pos, o)
        ends.add(e and T.add(base, e))
        rets.append(x.val == off)
    ends.discard(None)
    if len(ends) != 1:
        return None
    return s[1], b, next(iter(ends)), dict(events=[], rets=rets)


def agree(E, f, g):
    """the facts of a path that enters a loop can hold together with those of a piece that leaves it"""
    F, G = Facts(E, f), Facts(E, g)
    F.rs, F.ne = F.rs + G.rs, F.ne + G.ne
    return F.possible()


def end_of(E, x, pos, o):
    """the unique value of pos known at the end of the loop"""
    for b, (lo, hi, ne) in x.st.facts.items():
        if T.mentions(b, pos) and lo is not None and lo == hi:
            for s in (1, -1):
                # s * pos + rest == lo
                rest = T.sub(b, pos) if s == 1 else T.add(b, pos)
                if not T.mentions(rest, pos):
                    return T.sub(T.I(lo), rest) if s == 1 else T.sub(rest, T.I(lo))
    # or pos >= n, with steps of one
    for b, (lo, hi, ne) in sorted(x.st.facts.items(), key=repr):
        if not T.mentions(b, pos):
            continue
        rest = T.sub(b, pos)
        if not T.mentions(rest, pos) and lo is not None:
            return T.sub(T.I(lo), rest)
        rest = T.add(b, pos)
        if not T.mentions(rest, pos) and hi is not None:
            return T.sub(rest, T.I(hi))
    return None


def blocks(ck):
    for fn in ck.find(ENC + 'start_block_encoding'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            if o.kind == 'ret':
                ck.ob('end', 'start ' + tail(fn), o.val == T.ZERO and not blits(o, pv(fn, 0)), 'a new bucket starts with %s bytes' % T.show(o.val),
                      C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(ENC + 'finish_block_encoding'):
        E, outs = ck.run(fn, **opts())
        buf, done, left = pv(fn, 0), pv(fn, 2), pv(fn, 3)
        L = C.Loops(E, outs)
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            bs = blits(o, buf)
            if o.frm is not None:
                # byte by byte
                at = wrote(L, o.frm, buf)
                ok = len(at) == 1 and at[0][1] == T.ZERO and L.sweeps(o.frm, T.sub(at[0][0], done), [left])
                ck.ob('end', 'zeroed ' + tail(fn), ok and not bs, 'the rest of the bucket is not zeroed', *w)
                ck.ob('end', 'count ' + tail(fn), same(E, o.st.facts, o.val, left), '%s is returned' % T.show(o.val), *w)
                continue
            if not bs:
                ok = E.truth(o.st.facts, T.eq(left, T.ZERO)) is True
                ck.ob('end', 'zeroed ' + tail(fn), ok, 'the rest of the bucket is left as it is', *w)
                ck.ob('end', 'count ' + tail(fn), same(E, o.st.facts, o.val, T.ZERO), '%s is returned' % T.show(o.val), *w)
                continue
            ok = len(bs) == 1 and bs[0][1] == 'fill' and bs[0][2] == done and bs[0][3] == T.ZERO and same(E, o.st.facts, bs[0][4], left)
            ck.ob('end', 'zeroed ' + tail(fn), ok, 'the rest of the bucket gets %s' % ', '.join(repr(b[0]) for b in bs), *w)
            ck.ob('end', 'count ' + tail(fn), same(E, o.st.facts, o.val, left), '%s is returned' % T.show(o.val), *w)


def wrote(L, h, base):
    """[(offset in base, value)] of what the turns of a loop assign there"""
    r = set()
    for i in L.iters(h):
        for l, v in i.st.store.items():
            off = T.sub(l[1], base) if l[0] == 'deref' else l[2] if l[0] == 'elem' and l[1] in (base, ('deref', base)) else None
            if off is not None and not T.mentions(off, base):
                r.add((off, v))
    return sorted(r, key=repr)


# ---------------------------------------------------------------- reading
def decode(ck, fn, lay):
    if lay is None:
        return
    W, t = width(fn), tail(fn)
    key, bucket, res = pl(fn, 0), pl(fn, 1), pl(fn, 2)
    SIZE = T.I(4096)
    E, outs = ck.run(fn, **opts())
    L = C.Loops(E, outs)
    # the loop over lists is the one that reads lengths
    def reads(o):
        return blits(o, bucket, dest=False)
    heads = {o.frm for o in outs if any(n == T.I(8) and not pushes(o, res) for _, k, off, d, n in reads(o) if k in ('copy', 'elems')) and o.frm is not None
             and not any(o.frm == i.head for i in outs if i.kind == 'enter' and i.frm is not None)}
    if not ck.ob('read', 'lists ' + t, len(heads) == 1, 'the lists of a bucket are not read one after the other', C.loc(fn)):
        return
    h = next(iter(heads))
    P = None
    for o in L.body(h):
        for e, k, off, d, n in reads(o):
            if n == T.I(8) and P is None:
                P = T.sub(off, T.I(lay['len']))
    hdr = T.I(lay['hdr'])
    ck.ob('read', 'from the start ' + t, L.starts(h, P) == {T.ZERO}, 'reading starts at %s' % ', '.join(map(T.show, L.starts(h, P))), C.loc(fn))
    for o in outs:
        if o.frm is None and o.kind != 'enter':
            ck.ob('read', 'looked at ' + t, o.kind == 'throw', 'the bucket is not looked at', C.loc(fn, o.line), C.trail(o))
            continue
        if o.frm is None:
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        facts = o.st.facts
        rs = reads(o)
        if o.frm != h:
            continue
        # what is read in this turn, in the layout of the encoder
        n = k_ = None
        whole = [r for r in rs if ptr(r[3])[0] == res]
        for e, k, off, d, sz in rs:
            if ptr(d)[0] == res:
                continue
            what = 'length' if (off, sz) == (T.add(P, T.I(lay['len'])), T.I(8)) else 'key' if (off, sz) == (T.add(P, T.I(lay['key'])), T.I(16)) else None
            ok = d[0] == 'addr'
            ck.ob('read', 'header ' + t, what is not None and k in ('copy', 'elems') and ok, '%s bytes are read at %s' % (T.show(sz), T.show(off)), *w)
            ck.ob('bounds', 'header ' + t, E.truth(facts, T.lt(SIZE, T.add(off, sz))) is False,
                  '%s bytes are read at %s, which can be past the end' % (T.show(sz), T.show(off)), *w)
            if what and ok:
                x, z = ptr(d)
                v = E.load(o.st, x)
                if what == 'length':
                    n = v
                else:
                    k_ = v
        left = T.sub(T.sub(SIZE, P), hdr)
        # the product of the length by the size of an element could wrap around
        fits = n is not None and E.truth(facts, T.lt(T.binop('/', left, T.I(W)), n)) is False
        toolong = n is not None and E.truth(facts, T.lt(T.binop('/', left, T.I(W)), n)) is True
        zero = n is not None and E.truth(facts, T.eq(n, T.ZERO))
        match = None
        if k_ is not None:
            match = matched(E, o, k_, key)
        if o.kind == 'ret' and whole:
            # the elements in one go, at the end of the results
            ck.ob('read', 'match ' + t, match is True, 'the elements of a list are read without its key being the requested one', *w)
            ck.ob('bounds', 'elements ' + t, fits, 'the length of the list is not compared to what is left of the bucket', *w)
            old = ('pure', 'size', (('in', res),))
            grown = [e for e in changes(o, res) if core.meth_of(e.name) == 'resize' and o.trace.index(e) < o.trace.index(whole[0][0])]
            ok = n is not None and len(whole) == 1 and [e for e in changes(o, res)] == grown and len(grown) == 1 and \
                same(E, facts, grown[0].args[0], T.add(old, n)) and whole[0][1] in ('copy', 'elems') and \
                ptr(whole[0][3]) == (res, old) and whole[0][2] == T.add(P, hdr) and whole[0][4] == T.mul(n, T.I(W))
            ck.ob('read', 'all elements ' + t, ok, 'the elements are not all added to the results', *w)
            continue
        if o.kind == 'ret':
            full = E.truth(facts, T.lt(T.add(P, hdr), SIZE)) is False
            why = full or zero is True or toolong is True
            ck.ob('read', 'stop ' + t, why, 'reading stops before the end of the bucket', *w)
            ck.ob('read', 'nothing added ' + t, not pushes(o, res) and not changes(o, res), 'something is returned from there', *w)
        elif o.kind == 'iter' and o.head == h:
            ck.ob('read', 'other list ' + t, match is False, 'a list is skipped without its key being compared to the requested one', *w)
            if n is not None:
                ck.ob('read', 'next list ' + t, T.sub(L.at(o, P, h), P) == T.add(hdr, T.mul(n, T.I(W))),
                      'the next list is looked for %s further' % T.show(T.sub(L.at(o, P, h), P)), *w)
            ck.ob('read', 'nothing added ' + t, not pushes(o, res), 'elements of another list are returned', *w)
        elif o.kind == 'enter':
            ck.ob('read', 'match ' + t, match is True, 'the elements of a list are read without its key being the requested one', *w)
            ck.ob('bounds', 'elements ' + t, fits, 'the length of the list is not compared to what is left of the bucket', *w)
            if n is None:
                continue
            ih = o.head
            for i in L.iters(ih):
                iw = (C.loc(fn, i.line), C.trail(i))
                ir = reads(i)
                ps = pushes(i, res)
                ok = len(ir) == 1 and ir[0][4] == T.I(W) and len(ps) == 1
                ck.ob('read', 'element ' + t, ok, 'an element is not read once and returned once', *iw)
                if not ok:
                    continue
                x, z = ptr(ir[0][3])
                ck.ob('read', 'value ' + t, ps[0].args and ps[0].args[0] == ('bytes', ('in', ('deref', ir[0][0].args[1])), T.I(W)) or
                      ps[0].args and ps[0].args[0] == E.load(i.st, x), 'another value is returned: %r' % ps[0], *iw)
                off = ir[0][2]
                ck.ob('read', 'first element ' + t, L.starts(ih, off) == {T.add(P, hdr)} and L.steps(ih, off) == {T.I(W)},
                      'elements are read at %s, then every %s bytes' % (', '.join(map(T.show, L.starts(ih, off))), ', '.join(map(T.show, L.steps(ih, off)))), *iw)
                # how many: a counter from 0 by 1, compared to the length
                cnt = counter(E, L, ih, i, n)
                ck.ob('bounds', 'count ' + t, cnt is not None, 'more elements than the length of the list can be read', *iw)
                if cnt is not None:
                    ck.ob('read', 'all elements ' + t, L.until(ih, cnt, n), 'reading stops before the last element', *iw)
            for x in L.exits(ih):
                if x.kind == 'iter':
                    ck.ob('read', 'after the match ' + t, T.sub(L.at(x, P, h), P) is not None and False, 'reading goes on after the list was found',
                          C.loc(fn, x.line), C.trail(x))


def counter(E, L, h, i, n):
    """an unknown of the loop counting from zero by one that is below n in its iterations"""
    for b in i.st.facts:
        for x in sorted(C.unknowns(b, h), key=repr):
            for c in (x, T.sub(n, x)):
                if L.counts(h, c) and E.truth(i.st.facts, T.lt(c, n)) is True:
                    return c
    return None


def pushes(o, res):
    return [e for e in o.trace if e.kind == 'call' and e.obj == res and core.meth_of(e.name) in ('push_back', 'emplace_back')]


def changes(o, res):
    return [e for e in o.trace if e.kind == 'call' and e.obj == res and core.meth_of(e.name) not in
            ('reserve', 'size', 'capacity', 'begin', 'end', 'empty', 'data')]


def matched(E, o, v, key):
    kv = ('in', key)
    for x in (T.eq(v, kv), T.eq(kv, v)):
        r = E.truth(o.st.facts, x)
        if r is not None:
            return r
    for e in o.trace:
        if e.kind == 'call' and e.name and core.meth_of(e.name) in ('memcmp', 'bcmp') and len(e.args) == 3 and e.args[2] == T.I(16):
            r = E.truth(o.st.facts, T.eq(e.ret, T.ZERO))
            if r is not None:
                return r
    return None


def both(ck):
    for fn in ck.find(DEC + 'decode_buckets'):
        E, outs = ck.run(fn, **opts(opaque_if=lambda n, f=None: core.meth_of(n) == 'decode_single_bucket'))
        for o in outs:
            if o.kind != 'ret':
                ck.ob('both', tail(fn), o.kind == 'throw', 'a loop', C.loc(fn, o.line), C.trail(o))
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            cs = calls(o, 'decode_single_bucket')
            bs = sorted((c.alv[1] for c in cs), key=repr)
            want = sorted((pl(fn, 1), pl(fn, 3)), key=repr)
            ck.ob('both', 'buckets ' + tail(fn), bs == want, 'the buckets read are %s' % ', '.join(T.show(b) for b in bs), *w)
            ck.ob('both', 'key ' + tail(fn), all(c.alv[0] == pl(fn, 0) for c in cs), 'another key is looked for', *w)
            ck.ob('both', 'result ' + tail(fn), len({c.alv[2] for c in cs}) == 1 and
                  (o.val == E.load(o.st, cs[-1].alv[2]) if cs else False), 'what is read is not all returned', *w)


# ---------------------------------------------------------------- stash
def writes(o, name='write'):
    return [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') == name and len(e.args) == 2]


def serialize(ck, fn, lay, K):
    if lay is None:
        return
    W, t, c = width(fn), tail(fn), lay['hdr'] // width(fn)
    key, v = pl(fn, 1), pl(fn, 2)
    f = {n: ('in', ('fld', ('fld', v, 'assignement_info'), n)) for n in ('list_length', 'assigned_list_length', 'dual_assigned_list_length')}
    orig = T.sub(f['list_length'], T.I(K))
    vals = ('deref', ('in', ('fld', v, 'data')))
    size = ('pure', 'size', (('in', vals),))
    E, outs = ck.run(fn, **opts(max_states=60000))
    L = C.Loops(E, outs)
    for o in outs:
        w = (C.loc(fn, o.line), C.trail(o))
        if not E.assume(copy(o.st), T.lt(f['list_length'], T.I(K)), False) or o.kind == 'throw':
            continue
        if o.frm is not None:
            continue
        ws = writes(o)
        if not ws and o.kind == 'ret':
            # nothing is stashed: the shares cover the list
            bad = []
            for s1, s2, F in shares(E, o.st.facts, f, orig, c):
                if not F.eq(T.add(s1, s2), orig):
                    bad.append('%s and %s of %s' % (T.show(s1), T.show(s2), T.show(orig)))
            ck.ob('stash', 'nothing left ' + t, not bad, 'elements are dropped: the buckets have %s' % '; '.join(bad[:3]), *w)
            continue
        if o.kind != 'enter' and not ws:
            continue
        ok = len(ws) >= 2 and ws[0].args[1] == T.I(16) and ptr(ws[0].args[0])[0] in (key, ('elem', key, T.ZERO)) and ptr(ws[0].args[0])[1] == T.ZERO
        ck.ob('stash', 'key ' + t, ok, 'the key is not written first', *w)
        n = value_at(ws[1], ws[1].args[0]) if len(ws) > 1 and ws[1].args[1] == T.I(8) else None
        ck.ob('stash', 'count ' + t, n is not None, 'the number of elements is not written after the key', *w)
        if n is None:
            continue
        if o.kind == 'ret' and len(ws) == 3:
            # in one go
            b, m = source_elem(ws[2].args[0], vals), quot(ws[2].args[1], W)
            bad = [] if b is not None and m is not None else ['is not written as elements of the list']
            for s1, s2, F in shares(E, o.st.facts, f, orig, c, T.sub(size, orig), T.sub(orig, size)) if not bad else ():
                if not F.eq(b, s1):
                    bad.append('starts at %s instead of %s' % (T.show(b), T.show(s1)))
                if not (F.eq(n, T.sub(T.sub(orig, s1), s2)) and F.eq(m, n)):
                    bad.append('has %s elements, %s written' % (T.show(n), T.show(m)))
            ck.ob('stash', 'elements ' + t, True, '', *w)
            ck.ob('part', 'stash ' + t, not bad, 'the stashed part %s' % '; '.join(sorted(set(bad))[:4]), *w)
            continue
        h = o.head if o.kind == 'enter' else None
        if h is None:
            ck.ob('stash', 'elements ' + t, False, 'the elements are not written', *w)
            continue
        for i in L.iters(h):
            if not agree(E, o.st.facts, i.st.facts):
                continue
            iw = (C.loc(fn, i.line), C.trail(i))
            es = writes(i)
            p = source_elem(es[0].args[0], vals) if len(es) == 1 and es[0].args[1] == T.I(W) else None
            if not ck.ob('stash', 'elements ' + t, p is not None and L.steps(h, p) == {T.ONE}, 'the elements are not written one by one', *iw):
                continue
            b = L.at(o, p, h)
            bad = []
            for s1, s2, F in shares(E, o.st.facts, f, orig, c, T.sub(size, orig), T.sub(orig, size)):
                if not F.eq(b, s1):
                    bad.append('starts at %s instead of %s' % (T.show(b), T.show(s1)))
                if not F.eq(n, T.sub(T.sub(orig, s1), s2)):
                    bad.append('has %s elements' % T.show(n))
            for x in [x for x in L.exits(h) if x.kind != 'throw' and agree(E, o.st.facts, x.st.facts)] + [i]:
                for s1, s2, F in shares(E, x.st.facts, f, orig, c, T.sub(size, orig), T.sub(orig, size)):
                    end = T.sub(size, s2)
                    # the position grows by one and is compared to the end in every turn: it is never past it
                    inv = [T.sub(end, p)] if F.ge(end, b) else []
                    if x is not i and F.possible(T.sub(T.sub(end, p), T.ONE), *inv):
                        bad.append('stops before %s' % T.show(end))
                    if x is i and F.possible(T.sub(p, end), *inv):
                        bad.append('goes past %s' % T.show(end))
            ck.ob('part', 'stash ' + t, not bad, 'the stashed part %s' % '; '.join(sorted(set(bad))[:4]), *iw)


def shares(E, facts, f, orig, c, *assumed):
    """(share of the first bucket, share of the second, facts) in the feasible cases"""
    a, d = f['assigned_list_length'], f['dual_assigned_list_length']
    r = []
    for c1, x in split(a, orig, c):
        for c2, y in split(d, orig, c):
            # the flow allots no more entries than the list has
            F = Facts(E, facts, orig, a, d, T.sub(T.sub(f['list_length'], a), d), *(assumed + c1 + c2))
            if F.possible():
                r.append((x, y, F))
    return r


def deserialize(ck, fn):
    W, t = width(fn), tail(fn)
    E, outs = ck.run(fn, **opts())
    L = C.Loops(E, outs)
    heads = L.heads
    if not ck.ob('stash', 'read back ' + t, len(heads) == 1, 'the elements are not read one by one', C.loc(fn)):
        return
    h = heads[0]
    kl = nl = None
    for o in L.enters(h):
        w = (C.loc(fn, o.line), C.trail(o))
        rs = writes(o, 'read')
        ok = len(rs) == 2 and rs[0].args[1] == T.I(16) and rs[1].args[1] == T.I(8) and rs[0].args[0][0] == rs[1].args[0][0] == 'addr'
        ck.ob('stash', 'read header ' + t, ok, 'the key and the number of elements are not read first', *w)
        if ok:
            kl, nl = rs[0].args[0][1], rs[1].args[0][1]
            kl = kl[1] if kl[0] == 'elem' else kl
    if nl is None:
        return
    vec = None
    for i in L.iters(h):
        w = (C.loc(fn, i.line), C.trail(i))
        rs = writes(i, 'read')
        ps = [e for e in i.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('push_back', 'emplace_back')]
        ok = len(rs) == 1 and rs[0].args[1] == T.I(W) and len(ps) == 1 and rs[0].args[0][0] == 'addr' and \
            i.trace.index(rs[0]) < i.trace.index(ps[0]) and \
            (ps[0].args[0] == E.load(i.st, rs[0].args[0][1]) or ps[0].args[0][:3] == ('out', rs[0].name, rs[0].site))
        ck.ob('stash', 'read element ' + t, ok, 'an element is not read once and kept once', *w)
        vec = ps[0].obj if ps else None
        n = E.load(i.st, nl)
        cnt = counter(E, L, h, i, n)
        ck.ob('stash', 'read count ' + t, cnt is not None and L.until(h, cnt, n), 'the number of elements read is not the one found', *w)
    every = [all(good(E, o) for o in L.enters(h)), all(good(E, o) for o in L.iters(h)), all(good(E, o) for o in L.exits(h) if o.kind == 'ret')]
    ck.ob('cut', t, every[2] or every[0] and every[1], 'a file that ends too early goes unnoticed, and what it lacks is made up', C.loc(fn))
    for o in L.exits(h):
        if o.kind != 'ret':
            continue
        mk = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in ('make_pair',)]
        v = o.val
        ok = True
        if mk:
            ok = len(mk[0].alv) == 2 and {mk[0].alv[0], mk[0].alv[1]} == {kl, vec} and mk[0].alv[0] == kl or list(mk[0].args) == [E.load(o.st, kl), ('phi', h, vec)]
        elif v is not None and v[0] == 'obj':
            ok = len(v[2]) == 2 and T.mentions(v[2][1], vec) if vec else False
        ck.ob('stash', 'pair ' + t, ok, 'what is returned is not the key and the elements', C.loc(fn, o.line), C.trail(o))


def good(E, o):
    """the stream is known to be in order after the last read of the path"""
    last = max([i for i, e in enumerate(o.trace) if e in writes(o, 'read')], default=-1)
    for e in o.trace[last + 1:]:
        m = core.meth_of(e.name or '') if e.kind == 'call' else None
        v = E.truth(o.st.facts, T.eq0(e.ret)) if m and e.ret else None
        if m in ('operator!', 'fail') and v is True or m in ('good', '(conv:bool)') and v is False:
            return True
        if m == 'gcount':
            rd = [x for x in o.trace[:o.trace.index(e)] if x in writes(o, 'read')]
            if rd and E.truth(o.st.facts, T.eq(e.ret, rd[-1].args[1])) is True:
                return True
    return False


def edges(ck):
    for fn in ck.find('sse::tethys::TethysAssignmentInfo::(ctor)', pred=lambda f: len(f.params) == 2):
        E, outs = ck.run(fn, **opts())
        e = pl(fn, 0)
        g = {n: ('in', ('fld', e, n)) for n in ('capacity', 'flow', 'rec_flow')}
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            out = E.truth(o.st.facts, T.eq(pv(fn, 1), T.I(INCOMING)))
            a, d = (g['rec_flow'], g['flow']) if out else (g['flow'], g['rec_flow'])
            if out is None:
                x = E.truth(o.st.facts, T.eq(pv(fn, 1), T.ONE))
                a, d = (g['flow'], g['rec_flow']) if x else (g['rec_flow'], g['flow'])
            for n, want in (('list_length', g['capacity']), ('edge_orientation', pv(fn, 1)), ('assigned_list_length', a), ('dual_assigned_list_length', d)):
                have = E.load(o.st, this(n))
                ck.ob('edge', n, have == want or same(E, o.st.facts, have, want), 'it is %s' % T.show(have), *w)
