"""P09: misaligned IO queries are refused before anything is queued, by reads, batched reads and writes alike"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.av import this
from rules.p06 import pv
from rules.p08 import LX, SKIP, named, opts, requests, submits

SECTOR = 512


def conds(buf, length, off):
    """(name, value that must be zero, code returned otherwise)"""
    pg = this('m_page_size')
    return [('buffer', lambda t: t in (T.binop('&', buf, T.sub(pg, T.ONE)), ('op', '%', buf, pg)), -1024),
            ('length', lambda t: remainder(t, length), -1026), ('offset', lambda t: remainder(t, off), -1025)]


def remainder(t, x):
    k = T.sub(x, T.mul(T.binop('/', x, T.I(SECTOR)), T.I(SECTOR)))
    return t in (('op', '%', x, T.I(SECTOR)), T.binop('&', x, T.I(SECTOR - 1)), k, T.sub(T.ZERO, k))


def zero(E, facts, match):
    """True: some matching value is known to be zero; False: known not to be"""
    r = None
    for t in facts:
        for s in T.subterms(t):
            if match(s):
                v = E.truth(facts, T.eq0(s))
                if v is not None:
                    r = v
    return r


def run(ck):
    ck.load(['lib/abstractio/linux_aio_scheduler.cpp'])
    ck.rule('checked', 'a query is queued only when its buffer is page-aligned and its length and offset are multiples of the sector')
    ck.rule('code', 'a refusal for alignment returns the error code of a check that failed')
    ck.rule('first', 'in a batch, all queries are checked before the first one is queued')
    ck.rule('accepts', 'a query that passes the checks on a running scheduler is submitted')
    helpers = {f.name for f in C.users(ck.prog, LX, 'io_submit') if not core.meth_of(f.name).startswith('submit_p')}
    kw = dict(opaque_if=lambda n, f: core.meth_of(n) in SKIP or n in helpers)
    for m in ('submit_pread', 'submit_pwrite'):
        for fn in ck.find(LX + m):
            E, outs = ck.run(fn, **opts(**kw))
            cs = conds(pv(fn, 1), pv(fn, 2), pv(fn, 3))
            for o in outs:
                sub = submits(o, helpers) or requests(o)
                for e in sub[:1]:
                    for n, match, _ in cs:
                        ck.ob('checked', m + ' ' + n, zero(E, dict(e.facts or ()), match) is True, 'the %s is not checked' % n,
                              C.evloc(e), C.trail(o))
                if not sub and o.kind == 'ret':
                    code(ck, E, o, fn, m, cs)
                running = E.truth(o.st.facts, T.eq0(this('m_stop_flag'))) is True
                if running and all(zero(E, o.st.facts, c[1]) is True for c in cs):
                    ck.ob('accepts', m, bool(sub), 'a well-formed query is refused', C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(LX + 'submit_preads'):
        batch(ck, fn, helpers, kw)
    for r, k in (('checked', 6), ('code', 6), ('first', 3), ('accepts', 2)):
        ck.floor(r, k)


def code(ck, E, o, fn, m, cs):
    failed = [c for n, match, c in cs if zero(E, o.st.facts, match) is False]
    if E.truth(o.st.facts, T.eq0(this('m_stop_flag'))) is False:
        return
    ck.ob('code', m, o.val[0] == 'int' and o.val[1] in failed, 'returns %s when the failed checks are %s' % (T.show(o.val), failed),
          C.loc(fn, o.line), C.trail(o))


def batch(ck, fn, helpers, kw):
    E, outs = ck.run(fn, cut=True, **opts(**kw))
    m = core.meth_of(fn.name)
    L = C.Loops(E, outs)
    subs = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
    build = [h for h in L.heads if any(requests(o) for o in L.body(h))]
    guards = {}                 # loop -> kinds of checks it makes of every element
    for h in L.heads:
        for n in ('buffer', 'length', 'offset'):
            ok = bool(L.iters(h))
            for o in L.iters(h):
                ok = ok and any(check(E, L, h, o, x, n) for x in indices(o, subs))
            if ok:
                guards.setdefault(h, set()).add(n)
    for h in build:
        for n in ('buffer', 'length', 'offset'):
            before = [g for g, k in guards.items() if n in k and g != h and precedes(L, g, h)]
            ck.ob('first', m + ' ' + n, bool(before), 'the batch is queued without checking every %s first' % n, C.loc(fn))
    for o in outs:
        if o.kind == 'ret' and o.val == T.ZERO and E.truth(o.st.facts, T.eq0(('pure', 'size', (('in', subs),)))) is True:
            continue            # nothing to submit
        if o.kind == 'ret' and not submits(o, helpers) and o.frm in guards:
            x = indices(o, subs)
            cs = [c for i in x for c in conds(*[('in', ('fld', ('elem', subs, i), f)) for f in ('buf', 'len', 'offset')])]
            code(ck, E, o, fn, m, cs)


def indices(o, subs):
    return {x[2] for t in o.st.facts for x in T.subterms(t) if x[0] == 'elem' and x[1] == subs}


def check(E, L, h, o, i, n):
    el = [x for t in o.st.facts for x in T.subterms(t) if x[0] == 'elem' and x[2] == i]
    if not el:
        return False
    cs = conds(*[('in', ('fld', el[0], f)) for f in ('buf', 'len', 'offset')])
    match = [c[1] for c in cs if c[0] == n][0]
    if zero(E, o.st.facts, match) is not True:
        return False
    sizes = {s for p in L.exits(h) for t in p.st.facts for s in T.subterms(t) if s[0] == 'pure' and core.meth_of(s[1]) == 'size'}
    ends = [p for p in L.exits(h) if p.kind == 'enter']
    return L.counts(h, i) and bool(sizes) and bool(ends) and all(
        any(L.E.truth(p.st.facts, T.lt(i, s)) is False for s in sizes) for p in ends)


def precedes(L, g, h):
    """every way into loop h comes out of loop g"""
    return all(o.frm == g for o in L.enters(h)) and bool(L.enters(h))
