"""P05: the vector is writable until it is committed, readable afterwards, and committed data is synced"""
from engine import check as C
from engine import core
from engine import terms as T
from rules import av


def sched_null(E, facts):
    return E.truth(facts, T.eq0(av.this('m_io_scheduler')))


def run(ck):
    ck.load(av.TU)
    ck.rule('write-before-commit', 'every operation that writes to or resizes the file runs only on paths where the vector was found '
                                   'uncommitted; an append to a committed vector throws')
    ck.rule('read-after-commit', 'every read of the file runs only on paths where the vector was found committed; a read of an '
                                 'uncommitted vector throws')
    ck.rule('commit-syncs', 'on every path that turns the vector committed, pending asynchronous writes are waited for, then the file '
                            'is synced, and only then the flag is set')
    ck.rule('commit-sets', 'commit() ends with the vector committed')
    ck.rule('flag-monotone', 'no operation turns a committed vector uncommitted')
    ck.rule('reopen', 'a vector opened on a non-empty file starts committed with size = file size / element size; on an empty file it '
                      'starts uncommitted and empty; the file opened is the caller\'s, in the caller\'s mode')
    ck.rule('destroy', 'destruction commits an uncommitted vector and waits for pending requests, before closing the file')
    ck.rule('switch-mode', 'changing the access mode waits for pending requests, closes the old file, reopens the same file in '
                           'the requested mode and records that mode')
    for m in av.METHODS:
        for fn in av.each(ck, m):
            E, outs = ck.run(fn, **av.opts())
            sg = av.inst(fn)
            writer = reader = False
            for o in outs:
                for e in o.trace:
                    f = av.facts(e)
                    if av.io(e, av.WRITES):
                        writer = True
                        ck.ob('write-before-commit', sg, E.truth(f, T.eq0(av.COMMITTED)) is True,
                              'the file is written without knowing that the vector is uncommitted', C.evloc(e), C.trail(o))
                    if av.io(e, av.READS):
                        reader = True
                        ck.ob('read-after-commit', sg, E.truth(f, T.eq0(av.COMMITTED)) is False,
                              'the file is read without knowing that the vector is committed', C.evloc(e), C.trail(o))
                fin = E.load(o.st, av.fld('m_is_committed'))
                ck.ob('flag-monotone', sg, fin in (av.COMMITTED, T.ONE) or C.implies(
                    E, o.st.facts, C.boolterm(av.COMMITTED), C.boolterm(fin)), 'the flag ends as %s' % T.show(fin),
                    C.loc(fn, o.line), C.trail(o))
                commits(ck, E, o, fn, sg)
            if m in ('push_back', 'async_push_back', 'get', 'async_get', 'async_gets'):
                r = 'write-before-commit' if 'push' in m else 'read-after-commit'
                want = 'push' in m
                if not (writer if want else reader) and outs and all(o.kind == 'throw' for o in outs):
                    ck.ob(r, sg, False, 'the file is never accessed', C.loc(fn))
                elif not (writer if want else reader):
                    raise core.AnalysisBroken('%s: no file access found' % sg)
                for o in outs:
                    bad = E.truth(o.st.facts, T.eq0(av.COMMITTED)) is (not want)
                    if bad:
                        ck.ob(r, sg + ' throws', o.kind == 'throw', 'returns normally', C.loc(fn, o.line), C.trail(o))
                    elif o.kind == 'ret':
                        # a normal return requires having looked at the flag
                        ck.ob(r, sg + ' throws', E.truth(o.st.facts, T.eq0(av.COMMITTED)) is want,
                              'returns normally without checking the state', C.loc(fn, o.line), C.trail(o))
            if m == 'commit':
                for o in outs:
                    fin = E.load(o.st, av.fld('m_is_committed'))
                    ck.ob('commit-sets', sg, o.kind == 'ret' and (fin == T.ONE or E.truth(o.st.facts, C.boolterm(fin)) is True),
                          'the flag ends as %s' % T.show(fin), C.loc(fn, o.line), C.trail(o))
            if m == '(dtor)':
                for o in outs:
                    destroyed(ck, E, o, fn, sg)
            if m == 'set_use_direct_access':
                for o in outs:
                    switched(ck, E, o, fn, sg)
            if m == 'reserve':
                for o in outs:
                    for e in o.trace:
                        if av.io(e, av.WRITES):
                            n = ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0))
                            ok = len(e.args) >= 2 and e.args[0] == av.this('m_fd') and \
                                e.args[1] == T.mul(T.I(av.elem_size(fn)), n) and \
                                E.truth(av.facts(e), T.lt(n, av.this('m_size'))) is False
                            ck.ob('write-before-commit', sg + ' size', ok, 'resizes the file to %s: it may cut stored elements' %
                                  T.show(e.args[-1]), C.evloc(e), C.trail(o))
    for fn in av.each(ck, '(ctor)'):
        if len(fn.params) == 1 or not fn.params or fn.j.get('implicit'):
            continue
        E, outs = ck.run(fn, **av.opts())
        opened(ck, E, outs, fn)
    for r, k in (('write-before-commit', 4), ('read-after-commit', 6), ('commit-syncs', 4), ('commit-sets', 4), ('reopen', 8),
                 ('destroy', 4), ('switch-mode', 4)):
        ck.floor(r, k)


def commits(ck, E, o, fn, sg):
    fw = [e for e in av.flagwrites(o) if e.args and e.args[0] != T.ZERO]
    if not fw or E.truth(o.st.facts, T.eq0(av.COMMITTED)) is False:
        return
    i = o.trace.index(fw[0])
    pre = o.trace[:i]
    fs = [e for e in pre if e.kind == 'call' and core.meth_of(e.name) in ('fsync', 'fdatasync')
          and e.args[0] == av.this('m_fd')]
    ck.ob('commit-syncs', sg, bool(fs), 'the flag is set although the file was not synced', C.evloc(fw[0]), C.trail(o))
    if not fs or sched_null(E, o.st.facts) is True:
        return
    k = pre.index(fs[-1])
    w = [e for e in pre[:k] if e.kind == 'call' and core.meth_of(e.name) == 'wait_completions']
    ck.ob('commit-syncs', sg + ' waits', bool(w), 'the file is synced before pending writes have completed', C.evloc(fs[-1]),
          C.trail(o))


def destroyed(ck, E, o, fn, sg):
    cl = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'close']
    fd = av.this('m_fd')
    un = E.truth(o.st.facts, T.eq0(av.COMMITTED))
    for e in cl:
        pre = o.trace[:o.trace.index(e)]
        names = [core.meth_of(x.name) for x in pre if x.kind == 'call']
        ck.ob('destroy', sg, un is False or 'fsync' in names or 'fdatasync' in names,
              'an uncommitted vector is closed without being synced', C.evloc(e), C.trail(o))
        ck.ob('destroy', sg + ' waits', sched_null(E, o.st.facts) is True or 'wait_completions' in names,
              'the file is closed while requests may be pending', C.evloc(e), C.trail(o))
        late = [x for x in o.trace[o.trace.index(e) + 1:] if av.io(x, av.WRITES + av.READS + ('fsync',))]
        ck.ob('destroy', sg + ' last', not late, 'the file is used after it was closed: %r' % late, C.evloc(e), C.trail(o))
    if not cl:
        ck.ob('destroy', sg + ' leaves open', E.truth(o.st.facts, T.lt0(fd)) is True, 'the file is not closed', C.loc(fn, o.line),
              C.trail(o))


def switched(ck, E, o, fn, sg):
    p = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
    flag = ('in', p)
    old = av.this('m_use_direct_io')
    fin = E.load(o.st, av.fld('m_use_direct_io'))
    same = E.truth(o.st.facts, T.eq(flag, old))
    ck.ob('switch-mode', sg + ' recorded', o.kind != 'ret' or fin == flag or (fin == old and same is True),
          'the mode recorded is %s' % T.show(fin), C.loc(fn, o.line), C.trail(o))
    calls = [e for e in o.trace if e.kind == 'call']
    op = [e for e in calls if core.meth_of(e.name) == 'open_fd']
    cl = [e for e in calls if core.meth_of(e.name) == 'close']
    nfd = E.load(o.st, av.fld('m_fd'))
    if o.kind == 'ret' and same is not True:
        ok = len(op) == 1 and len(cl) == 1 and calls.index(cl[0]) < calls.index(op[0]) and \
            cl[0].args[0] == av.this('m_fd') and op[0].args[0] == av.this('m_filename') and nfd == op[0].ret
        ok = ok and C.boolterm(op[0].args[1]) == C.boolterm(flag)
        ck.ob('switch-mode', sg, ok, 'file reopened as %r after %r' % (op, cl), C.loc(fn, o.line), C.trail(o))
    if cl and sched_null(E, o.st.facts) is not True:
        w = [e for e in calls[:calls.index(cl[0])] if core.meth_of(e.name) == 'wait_completions']
        ck.ob('switch-mode', sg + ' waits', bool(w), 'the file is closed while requests may be pending', C.evloc(cl[0]), C.trail(o))


def opened(ck, E, outs, fn):
    sg = av.inst(fn) + '/%d' % len(fn.params)
    path = ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0))
    dp = fn.params[-1]
    direct = ('in', ('var', dp['d'], dp['n'], 0))
    for o in outs:
        if o.kind != 'ret':
            continue
        op = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'open_fd']
        sz = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'file_size']
        fd = E.load(o.st, av.fld('m_fd'))
        ok = len(op) == 1 and op[0].ret == fd and op[0].args[0] == path and C.boolterm(op[0].args[1]) == C.boolterm(direct) and \
            E.load(o.st, av.fld('m_filename')) == path and E.load(o.st, av.fld('m_use_direct_io')) == direct
        ck.ob('reopen', sg + ' file', ok, 'opens %r' % op, C.loc(fn, o.line), C.trail(o))
        com = E.load(o.st, av.fld('m_is_committed'))
        size = E.load(o.st, av.fld('m_size'))
        good = len(sz) == 1 and sz[0].args[0] == fd
        if good:
            pos = E.truth(o.st.facts, T.lt(T.ZERO, sz[0].ret))
            n = T.I(av.elem_size(fn))
            if pos is True:
                good = com == T.ONE and size == T.binop('/', sz[0].ret, n)
            elif pos is False:
                good = com == T.ZERO and size == T.ZERO
            else:
                # written without a branch
                good = C.boolterm(com) in (T.lt(T.ZERO, sz[0].ret), T.lnot(T.eq0(sz[0].ret))) and size == T.binop('/', sz[0].ret, n)
        ck.ob('reopen', sg, good, 'committed = %s, size = %s' % (T.show(com), T.show(size)), C.loc(fn, o.line), C.trail(o))
