"""P01: an operation of a persistent store reports success exactly when RocksDB did"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import db


def run(ck):
    ck.load(db.TUS)
    ck.rule('success-is-real', 'a write operation that may report success has issued its Put/Delete on this path, and '
                               'the reported success implies that every Put/Delete on the path returned OK')
    ck.rule('failure-is-real', 'an operation that may report failure reports it only when a database call on the path '
                               'did not return OK')
    ck.rule('found-is-real', 'a read operation reports found exactly when the Get on this path returned OK')
    ck.rule('logged-write', 'every Put/Delete goes through the write-ahead log: its WriteOptions never have disableWAL set')
    ck.rule('open-or-throw', 'a store constructor that returns has opened the database of the caller\'s path successfully, '
                             'creating it when missing; otherwise it throws')
    ck.rule('flush', 'flush() asks RocksDB to flush on every path, waiting exactly when the caller asked to block')
    ck.rule('store-throws', 'GenericRocksDBStore::insert/get return normally exactly when RocksDB returned OK, throwing otherwise')
    for n, kind, fn in db.bool_fns(ck):
        E, outs = ck.run(fn, **db.opts())
        for o in outs:
            if o.kind != 'ret':
                ck.ob('failure-is-real', db.sig(fn), False, 'the operation throws instead of reporting', C.loc(fn, o.line),
                      C.trail(o))
                continue
            w = db.ops(o, *db.WRITES)
            g = db.ops(o, 'Get')
            yes, no = db.state_with(E, o, True), db.state_with(E, o, False)
            if kind == 'get':
                ok = len(g) == 1
                if ok and yes is not None:
                    ok = E.truth(yes.facts, db.ok(g[0])) is True
                if ok and no is not None:
                    ok = E.truth(no.facts, db.ok(g[0])) is False
                ck.ob('found-is-real', db.sig(fn), ok, 'reported %s after %r' % (T.show(o.val), g), C.loc(fn, o.line),
                      C.trail(o))
                if w:
                    ck.ob('found-is-real', db.sig(fn) + ' writes', False, 'a read operation writes: %r' % w,
                          C.evloc(w[0]))
                continue
            if yes is not None:
                ok = bool([x for x in w if core.meth_of(x.name) == ('Delete' if kind == 'del' else 'Put')]) and all(
                    E.truth(yes.facts, db.ok(x)) is True for x in w)
                ck.ob('success-is-real', db.sig(fn), ok, 'reports success although %s' % (
                    'a write may have failed' if w else 'nothing was written'), C.loc(fn, o.line), C.trail(o))
            if no is not None:
                ok = any(E.truth(no.facts, db.ok(x)) is False for x in w + g)
                ck.ob('failure-is-real', db.sig(fn), ok, 'may report failure although every database call succeeded',
                      C.loc(fn, o.line), C.trail(o))
            for x in w:
                ck.ob('logged-write', db.sig(fn), db.wal_ok(o, x), 'write options %s %s' % (
                    T.show(x.args[0]), [(T.show(a), T.show(b)) for a, b in x.mem or ()]), C.evloc(x))
    # GenericRocksDBStore
    for n, m in (('insert', 'Put'), ('get', 'Get')):
        for fn in ck.find('sse::pluto::GenericRocksDBStore::' + n):
            E, outs = ck.run(fn, **db.opts())
            for o in outs:
                w = db.ops(o, m)
                t = E.truth(o.st.facts, db.ok(w[0])) if len(w) == 1 else None
                ck.ob('store-throws', db.sig(fn), t is (o.kind == 'ret'), 'ends with %s after %r' % (o.kind, w),
                      C.loc(fn, o.line), C.trail(o))
                for x in w:
                    if m == 'Put':
                        ck.ob('logged-write', db.sig(fn), db.wal_ok(o, x), 'write options %s' % T.show(x.args[0]), C.evloc(x))
    # constructors
    for n in (db.NS + 'RockDBWrapper::(ctor)', db.NS + 'RocksDBCounter::(ctor)', db.NS + 'RockDBListStore::(ctor)',
              'sse::pluto::GenericRocksDBStore::(ctor)'):
        for fn in ck.find(n, pred=lambda f: len(f.params) == 1 and '&&' not in f.params[0]['t'] and not f.j.get('implicit')):
            E, outs = ck.run(fn, **db.opts(record_write=lambda ev: 'create_if_missing' in T.show(ev.obj)))
            kinds = set()
            for o in outs:
                op = [e for e in o.trace if e.kind == 'call' and e.name and core.meth_of(e.name).startswith('Open')
                      and 'rocksdb' in e.name]
                t = E.truth(o.st.facts, db.ok(op[0])) if len(op) == 1 else None
                kinds.add(o.kind)
                ok = t is (o.kind == 'ret')
                ck.ob('open-or-throw', db.sig(fn), ok, 'constructor ends with %s, open status %s' % (o.kind, t),
                      C.loc(fn, o.line), C.trail(o))
                if not op:
                    continue
                if 'Generic' in n:
                    want = ('in', ('fld', db.param(fn, 0), 'path'))
                    ck.ob('open-or-throw', db.sig(fn) + ' path', any(a == want for a in op[0].args),
                          'opens %s' % [T.show(a) for a in op[0].args], C.evloc(op[0]))
                else:
                    ck.ob('open-or-throw', db.sig(fn) + ' path', any(a == db.pval(fn, 0) for a in op[0].args),
                          'opens %s' % [T.show(a) for a in op[0].args], C.evloc(op[0]))
                    cm = [e for e in o.trace if e.kind == 'write' and 'create_if_missing' in T.show(e.obj)]
                    ck.ob('open-or-throw', db.sig(fn) + ' create', bool(cm) and cm[-1].args[0] == T.ONE,
                          'create_if_missing is not set', C.evloc(op[0]))
    for n in ('make_rocksdb_cuckoo_options', 'make_rocksdb_regular_table_options'):
        for fn in ck.find('sse::pluto::GenericRocksDBStoreParams::' + n):
            E, outs = ck.run(fn, **db.opts(record_write=lambda ev: 'create_if_missing' in T.show(ev.obj)))
            for o in outs:
                cm = [e for e in o.trace if e.kind == 'write' and 'create_if_missing' in T.show(e.obj)]
                ck.ob('open-or-throw', db.sig(fn) + ' create', bool(cm) and cm[-1].args[0] == T.ONE,
                      'create_if_missing is not set', C.loc(fn))
    # flush
    for n, want in ((db.NS + 'RockDBWrapper::flush', None), (db.NS + 'RocksDBCounter::flush', None),
                    (db.NS + 'RockDBListStore::flush', None), ('sse::pluto::GenericRocksDBStore::commit', 1)):
        for fn in ck.find(n):
            E, outs = ck.run(fn, **db.opts(record_write=lambda ev: T.show(ev.obj).endswith('.wait')))
            for o in outs:
                fl = db.ops(o, 'Flush')
                w = [e for e in o.trace if e.kind == 'write' and T.show(e.obj).endswith('.wait')]
                arg = db.pval(fn, 0) if want is None else T.ONE
                v = w[-1].args[0] if w else T.ONE          # RocksDB waits by default
                ok = o.kind == 'ret' and len(fl) == 1 and (v == arg or v == C.boolterm(arg) or (
                    E.truth(o.st.facts, T.eq(v, arg)) is True))
                if fl and w and o.trace.index(w[-1]) > o.trace.index(fl[0]):
                    ok = False
                ck.ob('flush', db.sig(fn), ok, 'flush calls %r, wait = %s' % (fl, T.show(v)), C.loc(fn, o.line), C.trail(o))
    for r, k in (('success-is-real', 10), ('failure-is-real', 10), ('found-is-real', 14), ('logged-write', 10),
                 ('open-or-throw', 12), ('flush', 8), ('store-throws', 4)):
        ck.floor(r, k)
