"""Shared vocabulary for the write-once vector (awonvm_vector)."""
import re

from engine import check as C
from engine import core
from engine import terms as T

NS = 'sse::abstractio::awonvm_vector::'
TU = ['tus/awonvm_inst.cpp']
THIS = ('deref', ('thisptr',))
WRITES = ('pwrite', 'pwrite64', 'write', 'ftruncate', 'ftruncate64', 'fallocate', 'posix_fallocate', 'writev', 'pwritev',
          'submit_pwrite')
READS = ('pread', 'pread64', 'read', 'readv', 'preadv', 'submit_pread', 'submit_preads')
SUBMITS = ('submit_pwrite', 'submit_pread', 'submit_preads')
ALLOC = ('posix_memalign', 'aligned_alloc', 'malloc', 'memalign', 'calloc')
RMW = ('fetch_add', 'operator++', 'exchange', 'compare_exchange_strong', 'compare_exchange_weak', 'operator+=')
METHODS = ('push_back', 'async_push_back', 'reserve', 'commit', 'get', 'async_get', 'async_gets', 'set_use_direct_access',
           '(dtor)', 'size', 'is_committed', 'use_direct_access')


def fld(n):
    return ('fld', THIS, n)


def this(n):
    return ('in', fld(n))


COMMITTED = this('m_is_committed')


def elem_size(fn):
    """sizeof of the instantiated element"""
    return 4096 if 'vp_inst::Page' in fn.key else 24


def inst(fn):
    return ('Page' if 'vp_inst::Page' in fn.key else 'Small') + ' ' + core.meth_of(fn.name)


def opts(**k):
    skip = ('logger', 'operator+', 'to_string', 'warn', 'error', 'debug', 'info', 'operator<<', 'strerror',
            '__errno_location', 'is_aligned', 'max', 'min')

    def interest(ev):
        n = ev.name or ''
        return core.meth_of(n) not in skip and not n.startswith(('std::basic_string', 'std::runtime_error',
                                                                   'std::invalid_argument', 'fmt::', 'spdlog::'))
    k.setdefault('interest', interest)
    k.setdefault('opaque_if', lambda n, f: core.meth_of(n) in SUBMITS + ('wait_completions', 'duplicate', 'open_fd',
                                                                         'file_size', 'async_io_page_size',
                                                                         'make_default_aio_scheduler'))
    return k


def io(ev, names):
    return ev.kind == 'call' and ev.name and core.meth_of(ev.name) in names and \
        (not ev.name.startswith('std::'))


def each(ck, name):
    for fn in ck.find(NS + name):
        yield fn


def facts(ev):
    return dict(ev.facts or ())


def flagwrites(o):
    return [e for e in o.trace if e.kind == 'call' and e.obj == fld('m_is_committed')
            and core.meth_of(e.name) in ('operator=', 'store', 'exchange', 'compare_exchange_strong')]


def nonnull_sched(E, facts):
    return E.truth(facts, T.eq0(this('m_io_scheduler')))


def handlers(ck, fn):
    """the closures, or functions, with the parameters of a completion handler that an operation, or a helper it calls, makes"""
    seen, todo, r = set(), [fn], []
    while todo:
        f = todo.pop()
        if f.key in seen or not f.blocks:
            continue
        seen.add(f.key)
        r += [x for x in ck.prog.lambdas_of(f) if len(x.params) == 2 and x not in r]
        for x in core.fn_exprs(f):
            g = ck.prog.fns.get(x.get('fk'))
            if g is not None and g.name.startswith('sse::') and 'awonvm_vector' in g.name:
                todo.append(g)
            if x.get('k') == 'ref' and x.get('dk') in ('fn', 'func', 'function'):
                h = ck.prog.fns.get(x.get('fk') or x.get('key'))
                if h is not None and h.blocks and len(h.params) == 2 and '*' in h.params[0]['t'] and h not in r:
                    r.append(h)
    return r
