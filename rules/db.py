"""Shared vocabulary for the RocksDB-backed stores."""
import re

from engine import check as C
from engine import core
from engine import terms as T
from engine.core import AnalysisBroken

WRITES = ('Put', 'Delete', 'Merge', 'Write', 'SingleDelete', 'DeleteRange')
NS = 'sse::sophos::'
TUS = ['lib/utils/rocksdb_wrapper.cpp', 'tus/rocksdb_inst.cpp', 'tus/rocksdb_store_inst.cpp']


def is_db(ev):
    return ev.kind == 'call' and ev.name and core.cls_of(ev.name) in ('rocksdb::DB', 'rocksdb::StackableDB')


def ops(o, *names):
    return [e for e in o.trace if is_db(e) and core.meth_of(e.name) in names]


def code(ev):
    return ('pure', 'rocksdb::Status::code', (ev.ret,))


def ok(ev):
    return T.eq0(code(ev))


def param(fn, i):
    p = fn.params[i]
    return ('var', p['d'], p['n'], 0)


def pval(fn, i):
    return ('in', param(fn, i))


def ptype(fn, i):
    return fn.params[i]['t']


def unwrap(t):
    """('whole', string value) | ('range', pointer, length) of a Slice/string argument"""
    if t[0] == 'obj' and t[1].startswith(('rocksdb::Slice', 'std::basic_string', 'std::__cxx11::basic_string')):
        a = tuple(x for x in t[2] if not (x[0] == 'obj' and 'allocator' in x[1]))
        if len(a) == 1:
            return unwrap(a[0]) if a[0][0] == 'obj' else ('whole', a[0])
        if len(a) == 2:
            return ('range', a[0], a[1])
        if not a:
            return ('whole', t)
    return ('whole', t)


def array_len(ty):
    m = re.search(r'std::array<[^,]*, (\d+)', ty)
    return int(m.group(1)) if m else None


def covers_key(fn, t, i=0):
    """does the argument denote exactly the bytes of the caller's key?"""
    k = pval(fn, i)
    ty = ptype(fn, i)
    u = unwrap(t)
    if 'basic_string' in ty or 'std::string' in ty:
        if u == ('whole', k):
            return True
        return u[0] == 'range' and u[1] == ('addr', ('elem', param(fn, i), T.ZERO)) \
            and u[2] == ('pure', 'size', (k,))
    n = array_len(ty)
    if n is not None:
        return u[0] == 'range' and u[1] in (('addr', ('elem', param(fn, i), T.ZERO)), ('addr', param(fn, i))) \
            and u[2] in (T.I(n), ('pure', 'size', (k,)))
    if '*' in ty:
        return u[0] == 'range' and u[1] == k and u[2] == pval(fn, i + 1)
    return False


def wal_ok(o, ev):
    """the write goes through the write-ahead log: nothing on the path turns it off"""
    return all(e.args[0] == T.ZERO for e in o.trace if e.kind == 'write' and 'disableWAL' in T.show(e.obj)) \
        and (ev.args[0][0] != 'obj' or not ev.args[0][2])


def bool_fns(ck):
    """(function, kind) for every public operation of the stores"""
    out = []
    for n, kind in (('RockDBWrapper::get', 'get'), ('RockDBWrapper::put', 'put'), ('RockDBWrapper::remove', 'del'),
                    ('RocksDBCounter::get', 'get'), ('RocksDBCounter::set', 'put'),
                    ('RocksDBCounter::get_and_increment', 'put'), ('RocksDBCounter::increment', 'put'),
                    ('RocksDBCounter::remove_key', 'del'), ('RockDBListStore::get', 'get'),
                    ('RockDBListStore::put', 'put')):
        for fn in ck.find(NS + n):
            out.append((n, kind, fn))
    return out


def sig(fn):
    return fn.name.replace('sse::', '') + '(' + ','.join(re.sub(r'\b(const|unsigned)\b|[&\s]', '', p['t'])
                                                         for p in fn.params) + ')'


def karg(ev):
    m = core.meth_of(ev.name)
    return ev.args[-1] if m in ('Delete', 'SingleDelete') else ev.args[-2]


def state_with(E, o, val):
    """the path's final state under the assumption that the function returned `val`; None if impossible"""
    st = o.st.copy()
    if not E.assume(st, C.boolterm(o.val), val):
        return None
    return st


def quiet(ev):
    """events that matter for these rules"""
    m = core.meth_of(ev.name or '')
    return m not in ('logger', 'operator+', 'hex_string', 'to_string', 'ToString', 'debug', 'error', 'critical',
                     'info', 'warn', '(dtor)') and not (ev.name or '').startswith('std::basic_string<char>::(ctor')


def opts(**k):
    k.setdefault('interest', quiet)
    rw = k.get('record_write')
    k['record_write'] = lambda ev: 'disableWAL' in T.show(ev.obj) or bool(rw and rw(ev))
    return k
