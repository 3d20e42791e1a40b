"""P03: a persistent counter never repeats and never goes back"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import db
from rules.p02 import from_get

NOTFOUND = 1


def run(ck):
    ck.load(['lib/utils/rocksdb_wrapper.cpp'])
    ck.rule('step', 'when the counter exists, the value written back is the value read plus one')
    ck.rule('start', 'a starting value is written only when RocksDB answered that the key does not exist; any other read '
                     'failure writes nothing')
    ck.rule('persisted', 'the number handed to the caller by a successful increment is the number that was written')
    ck.rule('set', 'set() writes exactly the caller\'s number')
    for n, start in (('get_and_increment', T.ZERO), ('increment', 'param')):
        for fn in ck.find(db.NS + 'RocksDBCounter::' + n):
            s0 = db.pval(fn, 1) if start == 'param' else start
            E, outs = ck.run(fn, **db.opts())
            sg = db.sig(fn)
            for o in outs:
                puts = db.ops(o, 'Put')
                gets = db.ops(o, 'Get')
                ck.ob('step', sg + ' one write', len(puts) <= 1 and len(gets) == 1, 'a path with %d writes and %d reads' % (
                    len(puts), len(gets)), C.loc(fn, o.line), C.trail(o))
                if not gets or not puts:
                    continue
                p, g = puts[0], gets[0]
                v = written(p)
                code = db.code(g)
                if v is not None and v == s0:
                    nf = E.truth(o.st.facts, T.eq0(T.sub(code, T.I(NOTFOUND))))
                    ck.ob('start', sg, nf is True, 'the counter restarts at %s without knowing that the key is absent' % T.show(v),
                          C.evloc(p), C.trail(o))
                else:
                    okv = v is not None and v[0] != 'in' and from_get(T.sub(v, T.ONE), 4)
                    found = E.truth(o.st.facts, db.ok(g))
                    ck.ob('step', sg, okv and found is True, 'writes %s' % (T.show(v) if v else T.show(p.args[-1])),
                          C.evloc(p), C.trail(o))
                if n == 'get_and_increment' and o.kind == 'ret':
                    yes = db.state_with(E, o, True)
                    if yes is not None:
                        ret = E.load(o.st, db.param(fn, 1))
                        ck.ob('persisted', sg, ret == v, 'returns %s, wrote %s' % (T.show(ret), T.show(v) if v else '?'),
                              C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(db.NS + 'RocksDBCounter::set'):
        E, outs = ck.run(fn, **db.opts())
        for o in outs:
            for p in db.ops(o, 'Put'):
                v = written(p)
                ck.ob('set', db.sig(fn), v == db.pval(fn, 1), 'writes %s' % T.show(p.args[-1]), C.evloc(p))
    for r, k in (('step', 4), ('start', 2), ('persisted', 2), ('set', 1)):
        ck.floor(r, k)


def written(p):
    """the 32-bit number a Put stores"""
    u = db.unwrap(p.args[-1])
    if u[0] == 'range' and u[1][0] == 'addr' and u[2] == T.I(4):
        for l, v in p.mem or ():
            if l == u[1][1]:
                return v
    return None
