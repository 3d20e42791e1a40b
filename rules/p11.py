"""P11: file system helpers do what they say, on the caller's path, and report every failure"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p08 import named

NS = 'sse::utility::'
O_ACCMODE, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND, O_DIRECT = 3, 2, 0o100, 0o200, 0o1000, 0o2000, 0o40000
S_IFMT, S_IFREG, S_IFDIR = 0o170000, 0o100000, 0o040000
FTS_COMFOLLOW, FTS_LOGICAL, FTS_NOCHDIR, FTS_PHYSICAL, FTS_XDEV = 1, 2, 4, 0x10, 0x40
# fts_info
D, DC, DEFAULT, DNR, DOT, DP, ERR, F, INIT, NS_, NSOK, SL, SLNONE, W = range(1, 15)
GONE, FAILED, LATER = (DP, F, SL, SLNONE, DEFAULT), (DNR, ERR, NS_), (D,)
SKIP = ('operator+', 'to_string', '(dtor)', 'strerror', '__errno_location')


def opts(**k):
    k.setdefault('interest', lambda ev: core.meth_of(ev.name or '') not in SKIP and
                 not (ev.name or '').startswith('std::basic_string'))
    return k


def pv(fn, i):
    p = fn.params[i]
    return ('in', ('var', p['d'], p['n'], 0))


def is_path(fn, i, t):
    """the C string of the caller's path"""
    l = ('var', fn.params[i]['d'], fn.params[i]['n'], 0)
    return t in (('addr', ('elem', l, T.ZERO)), ('pure', 'data', (('in', l),)), ('pure', 'c_str', (('in', l),)))


def same(E, o, want):
    """the boolean result of the path is exactly `want`"""
    v = C.boolterm(o.val)
    for w in (True, False):
        st = core.State()
        st.facts = dict(o.st.facts)
        if not E.assume(st, want, w):
            continue
        if E.truth(st.facts, v) is not w:
            return False
    return True


def reports(E, o, r):
    """the boolean result says whether the call returned 0, knowing that it returns 0 or -1"""
    v = C.boolterm(o.val)
    for n in (0, -1):
        st = core.State()
        st.facts = dict(o.st.facts)
        if not E.assume(st, T.eq(r, T.I(n)), True) or E.truth(st.facts, T.eq0(r)) is (n != 0) or \
                E.truth(st.facts, T.lt0(r)) is (n == 0):
            continue
        E.assume(st, T.eq0(r), n == 0)
        E.assume(st, T.lt0(r), n != 0)
        if E.truth(st.facts, v) is not (n == 0):
            return False
    return True


def calls(o, *names):
    return [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name or '') in names]


def run(ck):
    ck.load(['lib/utils/utils.cpp'])
    ck.rule('probe', 'is_file / is_directory / exists are true exactly when the caller\'s path can be examined (following links) and '
                     'has that type')
    ck.rule('single', 'creating a directory and removing a file act once, on the caller\'s path (and mode), and report exactly whether '
                      'the system call succeeded')
    ck.rule('open', 'a file is opened for reading and writing, created when missing, never truncated, on the caller\'s path, '
                    'unbuffered exactly when asked; the descriptor returned is the one opened; failure throws')
    ck.rule('size', 'the size reported is the file\'s, and a failure throws')
    ck.rule('page', 'page sizes come from the system and the caller\'s device; an unknown one is 0')
    ck.rule('tree-open', 'removing a directory walks the caller\'s path physically, never following links or leaving the device')
    ck.rule('tree-remove', 'every file, link and emptied directory met is removed once, at its own path; nothing else is removed')
    ck.rule('tree-fail', 'an entry that cannot be read or removed, and a walk that fails, end in an exception')
    ck.rule('tree-done', 'success is reported only when nothing was there or when the walk came to its end')
    ck.rule('tree-close', 'the walk is closed exactly once whenever it was opened')
    for n, typ in (('is_file', S_IFREG), ('is_directory', S_IFDIR), ('exists', None)):
        for fn in ck.find(NS + n):
            probe(ck, fn, n, typ)
    for n, sys, args in (('create_directory', ('mkdir',), 2), ('remove_file', ('unlink', 'remove'), 1)):
        for fn in ck.find(NS + n):
            E, outs = ck.run(fn, **opts())
            for o in outs:
                c = calls(o, *sys)
                ok = len(c) == 1 and o.kind == 'ret' and is_path(fn, 0, c[0].args[0]) and \
                    (args == 1 or c[0].args[1] == pv(fn, 1)) and reports(E, o, c[0].ret)
                ck.ob('single', n, ok, 'returns %s after %r' % (o.val and T.show(o.val), c), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'open_fd'):
        open_fd(ck, fn)
    for fn in ck.find(NS + 'file_size'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            c = calls(o, 'fstat')
            if len(c) != 1 or c[0].args[0] != pv(fn, 0):
                ck.ob('size', 'fstat', False, repr(c), C.loc(fn, o.line), C.trail(o))
                continue
            f = E.truth(o.st.facts, T.eq0(c[0].ret))
            good = f is True or E.truth(o.st.facts, T.eq(c[0].ret, T.I(-1))) is False
            bad = f is False
            if o.kind == 'ret':
                ok = good and o.val[0] == 'fv' and o.val[2] == 'st_size' and T.mentions(o.val, ('out', 'fstat', c[0].site, 1)) or \
                    good and T.show(o.val) == 'out:fstat.st_size'
            else:
                ok = bad
            ck.ob('size', o.kind, ok, '%s %s' % (o.kind, T.show(o.val)), C.loc(fn, o.line), C.trail(o))
    for fn in ck.find(NS + 'os_page_size'):
        E, outs = ck.run(fn, **opts())
        for o in outs:
            c = calls(o, 'sysconf', 'getpagesize')
            ck.ob('page', 'os', len(c) == 1 and (not c[0].args or c[0].args[0] == T.I(30)) and unc(o.val) == c[0].ret, T.show(o.val),
                  C.loc(fn, o.line))
    for fn in ck.find(NS + 'device_page_size'):
        device(ck, fn)
    for fn in ck.find(NS + 'remove_directory'):
        tree(ck, fn)
    for r, k in (('probe', 3), ('single', 2), ('open', 3), ('size', 2), ('page', 3), ('tree-open', 1), ('tree-remove', 4), ('tree-fail', 2),
                 ('tree-done', 1), ('tree-close', 2)):
        ck.floor(r, k)


def unc(t):
    """through integer conversions"""
    while t[0] in ('trunc', 'cast'):
        t = t[2]
    return t


def probe(ck, fn, n, typ):
    E, outs = ck.run(fn, **opts())
    for o in outs:
        c = calls(o, 'stat')
        if o.kind != 'ret' or len(c) != 1 or not is_path(fn, 0, c[0].args[0]) or c[0].args[1][0] != 'addr':
            ck.ob('probe', n, False, 'ends with %s after %r' % (o.kind, c), C.loc(fn, o.line), C.trail(o))
            continue
        done = T.eq0(c[0].ret)
        mode = E.load(o.st, ('fld', c[0].args[1][1], 'st_mode'))
        seen = {s for t in [o.val] + list(o.st.facts) for s in T.subterms(t) if s and s[0] == 'fv' and s[2] == 'st_mode' and s[1][0] == 'out'}
        if len(seen) == 1:
            mode = seen.pop()   # looked at in a helper, whose frame is gone
        want = done
        if typ is not None:
            want = T.eq(T.binop('&', mode, T.I(S_IFMT)), T.I(typ))
            k = E.truth(o.st.facts, done)
            if k is None:
                # decided in one expression
                v = C.boolterm(o.val)
                ok = v[0] == 'and' and set(v[1:]) == {done, want}
                ck.ob('probe', n, ok, 'returns %s' % T.show(v), C.loc(fn, o.line), C.trail(o))
                continue
            if k is False:
                want = T.ZERO
        ok = o.val == T.ZERO or E.truth(o.st.facts, C.boolterm(o.val)) is False if want == T.ZERO else same(E, o, want)
        ck.ob('probe', n, ok, 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))


def open_fd(ck, fn):
    E, outs = ck.run(fn, **opts())
    for o in outs:
        c = calls(o, 'open', 'open64')
        d = E.truth(o.st.facts, T.eq0(pv(fn, 1)))
        if len(c) != 1 or len(c[0].args) < 3 or not is_path(fn, 0, c[0].args[0]):
            ck.ob('open', 'call', False, repr(c), C.loc(fn, o.line), C.trail(o))
            continue
        fl, mode, r = c[0].args[1], c[0].args[2], c[0].ret
        if fl[0] == 'int':
            f = fl[1]
            ok = f & O_ACCMODE == O_RDWR and f & O_CREAT and not f & (O_TRUNC | O_EXCL | O_APPEND) and \
                d is not None and bool(f & O_DIRECT) is (d is False)
        elif fl[0] == 'ite' and fl[1] in (T.lnot(T.eq0(pv(fn, 1))), pv(fn, 1)):
            ok = all(x[0] == 'int' and x[1] & O_ACCMODE == O_RDWR and x[1] & O_CREAT and
                     not x[1] & (O_TRUNC | O_EXCL | O_APPEND) for x in fl[2:]) and \
                bool(fl[2][1] & O_DIRECT) and not fl[3][1] & O_DIRECT
        else:
            ok = False
        ck.ob('open', 'flags', ok, 'flags %s' % T.show(fl), C.evloc(c[0]), C.trail(o))
        ck.ob('open', 'mode', mode[0] == 'int' and mode[1] & 0o600 == 0o600, 'mode %s' % T.show(mode), C.evloc(c[0]))
        st = core.State()
        st.facts = dict(o.st.facts)
        fails = E.assume(st, T.eq(r, T.I(-1)), True)
        st.facts = dict(o.st.facts)
        works = E.assume(st, T.lt(T.I(-1), r), True)
        if o.kind == 'ret':
            ck.ob('open', 'result', o.val == r and not fails and not calls(o, 'close'), 'returns %s' % T.show(o.val), C.loc(fn, o.line), C.trail(o))
        else:
            ck.ob('open', 'throw', not works, 'throws although the file was opened', C.loc(fn, o.line), C.trail(o))


def device(ck, fn):
    E, outs = ck.run(fn, **opts())
    byfd = 'int' in fn.params[0]['t']
    n = 'device fd' if byfd else 'device path'
    for o in outs:
        c = calls(o, 'fstatvfs' if byfd else 'statvfs')
        if o.kind != 'ret' or len(c) > 1:
            ck.ob('page', n, False, 'ends with %s' % o.kind, C.loc(fn, o.line), C.trail(o))
            continue
        if c:
            mine = c[0].args[0] == pv(fn, 0) if byfd else is_path(fn, 0, c[0].args[0])
            f = E.truth(o.st.facts, T.eq0(c[0].ret))
            if f is False:
                ok = mine and o.val == T.ZERO
            else:
                blk = E.load(o.st, ('fld', c[0].args[1][1], 'f_bsize'))
                ok = mine and f is True and unc(o.val) == blk
        else:
            # given up without asking: only when the path was seen not to be there
            c = [e for e in calls(o, 'stat', 'lstat', 'access') if not byfd and is_path(fn, 0, e.args[0]) and
                 E.truth(o.st.facts, T.eq0(e.ret)) is False]
            c += [e for e in calls(o, 'exists') if not byfd and e.ret is not None and e.args[0] in (pv(fn, 0), ('in', pv(fn, 0))) and
                  E.truth(o.st.facts, T.eq0(e.ret)) is True]
            ok = o.val == T.ZERO and bool(c)
        ck.ob('page', n, ok, 'returns %s after %r' % (T.show(o.val), c), C.loc(fn, o.line), C.trail(o))


def tree(ck, fn):
    E, outs = ck.run(fn, cut='all', **opts())
    walk = None
    for o in outs:
        for e in calls(o, 'fts_open'):
            fl = e.args[1]
            walk = e.ret
            path = any(is_path(fn, 0, s) for s in T.subterms(E.load(o.st, e.args[0][1][1]) if e.args[0][0] == 'addr' and
                                                              e.args[0][1][0] == 'elem' else e.args[0]))
            ok = fl[0] == 'int' and fl[1] & FTS_PHYSICAL and fl[1] & FTS_XDEV and fl[1] & FTS_NOCHDIR and \
                not fl[1] & (FTS_LOGICAL | FTS_COMFOLLOW)
            ck.ob('tree-open', 'flags', bool(ok), 'opens the walk with flags %s' % T.show(fl), C.evloc(e))
            ck.ob('tree-open', 'path', path, 'walks %s' % T.show(e.args[0]), C.evloc(e))
    if walk is None:
        raise core.AnalysisBroken('remove_directory: no fts_open')
    for o in outs:
        t = [e.ret for e in calls(o, 'fts_open')] or ([walk] if o.frm is not None else [])
        opened = bool(t) and E.truth(o.st.facts, T.eq0(t[0])) is not True
        cl = calls(o, 'fts_close')
        if o.kind in ('ret', 'throw'):
            ck.ob('tree-close', o.kind, len(cl) == (1 if opened else 0) and all(e.args[0] == t[0] for e in cl), 'closes %r' % cl,
                  C.loc(fn, o.line), C.trail(o))
        elif cl:
            ck.ob('tree-close', o.kind, False, 'closes and goes on', C.loc(fn, o.line), C.trail(o))
        rd, rm = calls(o, 'fts_read'), calls(o, 'remove', 'unlink', 'rmdir')
        last = rd[-1].ret if rd else None
        more = last is not None and E.truth(o.st.facts, T.eq0(last)) is False
        if rd and len(rd) > 1:
            ck.ob('tree-remove', 'each', False, 'entries are skipped', C.loc(fn, o.line), C.trail(o))
        if more:
            entry(ck, fn, E, o, last, rm)
        else:
            ck.ob('tree-remove', 'none', not rm, 'removes %r' % rm, C.loc(fn, o.line), C.trail(o))
        if o.kind == 'ret':
            v = E.truth(o.st.facts, C.boolterm(o.val))
            gone = [e for e in calls(o, 'stat', 'lstat', 'access') if E.truth(o.st.facts, T.eq0(e.ret)) is False and is_path(fn, 0, e.args[0])]
            ended = last is not None and E.truth(o.st.facts, T.eq0(last)) is True
            clean = any(E.truth(o.st.facts, T.eq0(x)) is True for x in errno_after(o))
            ck.ob('tree-done', 'ret', v is False or bool(gone) or ended and clean, 'reports success early, or although the walk failed',
                  C.loc(fn, o.line), C.trail(o))
        if o.kind == 'throw':
            ck.ob('tree-done', 'throw', opened or bool(t), 'throws without having tried', C.loc(fn, o.line), C.trail(o))


def errno_after(o):
    """the values errno had right after fts_read"""
    return {s for t in o.st.facts for s in T.subterms(t) if s[0] == 'out' and s[1] == 'errno' and s[2] in
            {e.site for e in calls(o, 'fts_read')}}


def entry(ck, fn, E, o, cur, rm):
    info = [s for t in o.st.facts for s in T.subterms(t) if T.show(s).endswith('fts_info') and T.mentions(s, cur)]
    if not info:
        ck.ob('tree-remove', 'kind', False, 'an entry is handled without looking at its kind', C.loc(fn, o.line), C.trail(o))
        return
    info = unc(info[0])
    can = [k for k in range(1, 15) if C.possible(E, o.st.facts, T.eq(info, T.I(k)))]
    for e in calls(o, 'fts_set'):
        ck.ob('tree-remove', 'skip', False, 'changes the walk', C.evloc(e), C.trail(o))
    own = [e for e in rm if 'fts_accpath' in T.show(e.args[0]) and T.mentions(e.args[0], cur) or
           'fts_path' in T.show(e.args[0]) and T.mentions(e.args[0], cur)]
    for k in can:
        nm = 'kind %d' % k
        if k in GONE:
            fits = all(core.meth_of(e.name) in ('remove', 'rmdir' if k == DP else 'unlink') for e in rm)
            ck.ob('tree-remove', nm, len(rm) == 1 and own == rm and fits, 'removes %r' % rm, C.loc(fn, o.line), C.trail(o))
        else:
            ck.ob('tree-remove', nm, not rm, 'removes %r' % rm, C.loc(fn, o.line), C.trail(o))
        if k in FAILED:
            ck.ob('tree-fail', nm, o.kind == 'throw', 'an entry that cannot be read is passed over', C.loc(fn, o.line), C.trail(o))
    for e in rm:
        st = core.State()
        st.facts = dict(o.st.facts)
        fails = E.assume(st, T.eq(e.ret, T.I(-1)), True)
        st.facts = dict(o.st.facts)
        works = E.assume(st, T.eq0(e.ret), True)
        ck.ob('tree-fail', 'remove', (o.kind == 'throw') == fails and (o.kind != 'throw') == works, 'a failed removal is passed over',
              C.evloc(e), C.trail(o))
    if o.kind in ('ret', 'throw') and not rm and not set(can) & set(FAILED):
        ck.ob('tree-done', 'entry', False, 'stops at an entry', C.loc(fn, o.line), C.trail(o))
