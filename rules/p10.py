"""P10: every task given to the thread pool runs exactly once, and stopping the pool drains it and joins its threads"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p08 import mfield, named

SKIP = ('operator<<', 'register_thread', 'max', 'endl')


def opts(**k):
    k.setdefault('interest', lambda ev: core.meth_of(ev.name or '') not in SKIP)
    return k


def on(o, member, *meths):
    return [e for e in o.trace if e.kind == 'call' and e.obj and mfield(e.obj, member) and core.meth_of(e.name) in meths]


def truth_of(E, facts, member, what):
    """known truth of `member` (what='flag') or of `member is empty` (what='empty')"""
    for t in facts:
        for s in T.subterms(t):
            if what == 'flag' and s[0] in ('in', 'waited', 'phi') and mfield(s, member) and s[-1] == ('fld', ('deref', ('thisptr',)), member):
                v = E.truth(facts, T.eq0(s))
                if v is not None:
                    return not v
            if what == 'empty' and s[0] == 'pure' and core.meth_of(s[1]) in ('size', 'empty') and mfield(s, member):
                v = E.truth(facts, T.eq0(s))
                if v is not None:
                    return v if core.meth_of(s[1]) == 'size' else not v
    return None


def run(ck):
    ck.load(['tus/thread_pool_inst.cpp'])
    ck.rule('take', 'a worker removes one task at a time, the one it read, from a queue it knows is not empty, under the lock')
    ck.rule('run-once', 'every task removed is run exactly once by the worker that removed it, without the lock')
    ck.rule('drain', 'a worker ends only when the pool was stopped and the queue is empty')
    ck.rule('wake', 'a waiting worker wakes when there is a task or the pool is stopped')
    ck.rule('accept', 'a task is queued once, under the lock, on a pool that is not stopped, and then a worker is notified; on a '
                      'stopped pool nothing is queued and the caller gets an exception')
    ck.rule('future', 'the future returned belongs to the task that was queued, which runs the caller\'s function with the caller\'s '
                      'arguments')
    ck.rule('stop', 'stopping sets the flag under the lock, then wakes all workers, then joins every one of them')
    ck.rule('start', 'threads are started only after the members they use are initialized, as many as asked for')
    for fn in ck.find('ThreadPool::(ctor)', pred=lambda f: len(f.params) == 1 and not f.j.get('implicit') and 'int' in f.params[0]['t']):
        for lf in start(ck, fn) + ck.prog.lambdas_of(fn):
            worker(ck, lf)
    for fn in ck.find('ThreadPool::enqueue'):
        accept(ck, fn)
    for n in ('join', '(dtor)'):
        for fn in ck.find('ThreadPool::' + n):
            stop(ck, fn, n)
    for r, k in (('take', 2), ('run-once', 2), ('drain', 1), ('accept', 6), ('future', 3), ('stop', 4), ('start', 1)):
        ck.floor(r, k)


def start(ck, fn):
    E, outs = ck.run(fn, cut='all', **opts())
    L = C.Loops(E, outs)
    run = set()
    n = ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0))
    init = ('fld', ('deref', ('thisptr',)), 'stop')
    for o in outs:
        th = on(o, 'workers', 'emplace_back', 'push_back')
        for e in th:
            v = E.load(o.st, init)
            if e.args and e.args[0][0] == 'fn':
                # a member function, called on this pool
                run.add(e.args[0][2])
                ck.ob('start', 'on this pool', len(e.args) > 1 and e.args[1] == ('thisptr',), repr(e), C.evloc(e), C.trail(o))
            ck.ob('start', 'initialized', v == T.ZERO, 'a thread starts while the stop flag is %s' % T.show(v), C.evloc(e), C.trail(o))
            ck.ob('start', 'one per turn', len(th) == 1 and o.frm is not None, repr(th), C.evloc(e), C.trail(o))
    for h in L.heads:
        if any(on(o, 'workers', 'emplace_back', 'push_back') for o in L.iters(h)):
            ph = {s for o in L.exits(h) for t in o.st.facts for s in T.subterms(t) if s[0] == 'phi'}
            ok = any(L.counts(h, x) and L.until(h, x, n) for x in ph)
            down = any(L.starts(h, x) == {n} and L.steps(h, x) == {T.I(-1)} and L.until(h, T.ZERO, x) is False for x in ph)
            ck.ob('start', 'count', ok or down, 'the number of threads is not the one asked for', C.loc(fn))
    return [ck.prog.fns[k] for k in sorted(run) if k in ck.prog.fns and ck.prog.fns[k].blocks]


def worker(ck, lf):
    E, outs = ck.run(lf, cut='deep', **opts())
    if not any(on(o, 'tasks', 'pop') or named(o, 'wait') for o in outs):
        predicate(ck, lf, E, outs)
        return
    L = C.Loops(E, outs)
    for o in outs:
        if o.kind == 'enter':
            continue
        pop, front = on(o, 'tasks', 'pop'), None
        runs = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'operator()' and 'function' in e.name]
        for e in pop:
            f = dict(e.facts or ())
            ck.ob('take', 'pop', bool(e.locks) and truth_of(E, f, 'tasks', 'empty') is False, 'a task is removed %s' % (
                'without the lock' if not e.locks else 'from a queue that may be empty'), C.evloc(e), C.trail(o))
        if pop or runs:
            ok = len(pop) == 1 and len(runs) == 1 and o.trace.index(pop[0]) < o.trace.index(runs[0]) and not runs[0].locks
            ck.ob('run-once', 'worker', ok, 'removes %r, runs %r' % (pop, runs), C.loc(lf, o.line), C.trail(o))
            if ok:
                v = runs[0].objv
                first = v is not None and T.has_tag(v, 'ev') and any(
                    s[0] == 'ev' and s[2] == T.ZERO and mfield(s[1], 'tasks') for s in T.subterms(v))
                taken = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) in ('operator=', '(ctor)') and e.args and
                         any(s[0] == 'ev' and s[2] == T.ZERO and mfield(s[1], 'tasks') for s in T.subterms(e.args[0]))
                         and o.trace.index(e) < o.trace.index(pop[0])]
                ck.ob('take', 'front', first or any(e.obj == runs[0].obj for e in taken),
                      'runs %s' % (T.show(v) if v else '?'), C.evloc(runs[0]), C.trail(o))
        if o.kind in ('ret', 'throw'):
            ok = o.kind == 'ret' and drained(E, L, o)
            ck.ob('drain', 'worker', ok, 'a worker ends although the pool is not stopped or tasks are left', C.loc(lf, o.line), C.trail(o))
        for e in o.trace:
            if e.kind == 'call' and core.meth_of(e.name).startswith('wait') and len(e.args) < 2 and pop:
                ck.ob('wake', 'recheck', truth_of(E, dict(pop[0].facts or ()), 'tasks', 'empty') is False, 'no check after the wait',
                      C.evloc(e))
            if e.kind == 'call' and core.meth_of(e.name).startswith('wait') and len(e.args) < 2:
                f = dict(e.facts or ())
                ck.ob('wake', 'idle', bool(e.locks) and truth_of(E, f, 'stop', 'flag') is False and truth_of(E, f, 'tasks', 'empty') is True,
                      'a worker waits although there may be a task or the pool may be stopped', C.evloc(e), C.trail(o))


def drained(E, L, o):
    """the pool is known to be stopped and empty, from this piece of path or from all that can precede it"""
    if truth_of(E, o.st.facts, 'stop', 'flag') is True and truth_of(E, o.st.facts, 'tasks', 'empty') is True:
        return True
    ps = L.before(o)
    return bool(ps) and not on(o, 'tasks', 'pop') and all(
        truth_of(E, p.st.facts, 'stop', 'flag') is True and truth_of(E, p.st.facts, 'tasks', 'empty') is True for p in ps)


def predicate(ck, lf, E, outs):
    for o in outs:
        st, em = (truth_of(E, o.st.facts, 'stop', 'flag'), truth_of(E, o.st.facts, 'tasks', 'empty'))
        v = C.boolterm(o.val)
        t = E.truth(o.st.facts, v)
        sizes = [s for s in T.subterms(v) if s[0] == 'pure' and mfield(s, 'tasks')]
        if st is True or em is False:
            ok = t is True
        elif st is False and em is True:
            ok = t is False
        elif st is False and sizes:
            ok = v == T.lnot(T.eq0(sizes[0])) or v == T.eq0(sizes[0]) and core.meth_of(sizes[0][1]) == 'empty'
        elif em is True:
            ok = mfield(v, 'stop')
        else:
            ok = mfield(v, 'stop') and bool(sizes) and v[0] == 'or'
        ck.ob('wake', 'predicate', ok, 'wakes when %s' % T.show(v), C.loc(lf, o.line), C.trail(o))


def accept(ck, fn):
    E, outs = ck.run(fn, **opts())
    sg = 'enqueue/%d' % len(fn.params)
    lams = set()
    for o in outs:
        put = on(o, 'tasks', 'emplace', 'push')
        nt = on(o, 'condition', 'notify_one', 'notify_all')
        st = truth_of(E, o.st.facts, 'stop', 'flag')
        ok = (st is False and len(put) == 1 and bool(put[0].locks) and bool(nt) and o.trace.index(nt[-1]) > o.trace.index(put[0])) \
            if o.kind == 'ret' else (st is True and not put)
        ck.ob('accept', sg, ok, 'ends with %s after %r, %r' % (o.kind, put, nt), C.loc(fn, o.line), C.trail(o))
        if o.kind != 'ret':
            continue
        fut = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'get_future']
        ok = len(fut) == 1 and o.val == fut[0].ret
        lam = [s for e in put for a in e.args for s in T.subterms(a) if s[0] == 'lam']
        tgt = [s for e in fut for s in [e.obj]]
        cap = ok and bool(lam) and any(T.mentions(lam[0], x) for x in (tgt[0], tgt[0][1] if tgt[0][0] == 'deref' else tgt[0]))
        want = [E.load(o.st, ('var', p['d'], p['n'], 0)) for p in fn.params]
        bind = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'bind']
        src = T.show(tgt[0]) if tgt else ''
        args = all(('in', ('var', p['d'], p['n'], 0)) in (bind[0].args if bind else ()) for p in fn.params)
        ck.ob('future', sg, ok and cap and args, 'returns %s; queues %s; runs %r' % (
            T.show(o.val), [T.show(x) for x in lam], bind), C.loc(fn, o.line), C.trail(o))
        lams |= {x[1] for x in lam}
    for lf in ck.prog.lambdas_of(fn):
        E, outs = ck.run(lf, **opts())
        for o in outs:
            r = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'operator()']
            ck.ob('future', sg + ' runs', o.kind == 'ret' and len(r) == 1, 'the queued closure does %r' % r, C.loc(lf, o.line), C.trail(o))


def stop(ck, fn, n):
    E, outs = ck.run(fn, cut='deep', **opts(record_write=lambda ev: mfield(ev.obj, 'stop')))
    L = C.Loops(E, outs)
    set_, woke = False, False
    for o in outs:
        if o.frm is None:
            w = [e for e in o.trace if e.kind == 'write']
            nt = on(o, 'condition', 'notify_all')
            ok = len(w) == 1 and w[0].args[0] == T.ONE and bool(w[0].locks) and bool(nt) and o.trace.index(nt[-1]) > o.trace.index(w[0])
            ck.ob('stop', n + ' signal', ok, 'sets the flag by %r, wakes by %r' % (w, nt), C.loc(fn, o.line), C.trail(o))
            ck.ob('stop', n + ' joins', o.kind == 'enter', 'ends without joining', C.loc(fn, o.line), C.trail(o))
    for h in L.heads:
        for o in L.iters(h):
            j, able = named(o, 'join'), named(o, 'joinable')
            ok = (len(j) == 1 and not j[0].locks) or (not j and any(E.truth(o.st.facts, T.eq0(e.ret)) is True for e in able))
            x = [s[2] for e in (j or able) for s in T.subterms(e.obj) if s[0] == 'elem' and mfield(s[1], 'workers')]
            ck.ob('stop', n + ' each', ok and bool(x) and L.counts(h, x[0]), 'joins %r' % j, C.loc(fn, o.line), C.trail(o))
            if x:
                szs = {s for p in L.exits(h) for t in p.st.facts for s in T.subterms(t) if s[0] == 'pure' and
                       core.meth_of(s[1]) == 'size' and mfield(s, 'workers')}
                ck.ob('stop', n + ' all', any(L.until(h, x[0], s) for s in szs), 'workers are left unjoined', C.loc(fn, o.line))
