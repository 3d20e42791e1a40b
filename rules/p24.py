"""P24: logging works at any time, and a benchmark reports what it measured"""
import re

from engine import check as C
from engine import core
from engine import terms as T
from rules.p12 import opts, this

TU = 'lib/utils/logger.cpp'
L, B = 'sse::logger::', 'sse::Benchmark::'
REGISTERS = re.compile(r'^spdlog::(\w+_(mt|st)|create|create_async(_nb)?|register_logger|initialize_logger)$')


def lopts(**k):
    return opts(opaque_if=lambda n, f=None: 'spdlog' in n, **k)


def run(ck):
    ck.load([TU])
    ck.rule('usable', 'the shared logger is never null and getting it does not fail')
    ck.rule('exclusive', 'every use of the shared logger variable is made under the same lock')
    ck.rule('replace', 'the logger set is the one used, and a logger that writes nothing is when none is set')
    ck.rule('register', 'a name is registered only when it is known not to be')
    ck.rule('level', 'the level set is that of the shared logger')
    ck.rule('measure', 'a benchmark starts when built and ends when first stopped, and later stops change nothing')
    ck.rule('report', 'a benchmark reports its count, the time from start to end, and that time divided by the count')
    var = shared(ck)
    roots(ck, var)
    benchmark(ck)
    for r, k in (('usable', 2), ('exclusive', 3), ('replace', 2), ('register', 2), ('level', 1), ('measure', 6), ('report', 4)):
        ck.floor(r, k)


def shared(ck):
    """the variable that holds the shared logger"""
    var = None
    for fn in ck.find(L + 'set_logger'):
        E, outs = ck.run(fn, **lopts())
        given = ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0))
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            if not ck.ob('replace', 'fails', o.kind != 'throw', 'setting a logger fails', *w):
                continue
            null = E.truth(o.st.facts, T.eq0(given))
            g = [(l, v) for l, v in o.st.store.items() if l[0] == 'glob']
            if null is False:
                ok = [l for l, v in g if v == given]
                if ck.ob('replace', 'set', len(ok) == 1, 'the logger given is not kept', *w):
                    var = ok[0]
            elif ck.ob('replace', 'examined', null is True, 'a null logger is not recognised', *w):
                ck.ob('replace', 'null', any(nothing(o, v) for l, v in g), 'no logger that writes nothing is set when none is given', *w)
    return var


def nothing(o, v):
    """a logger made with a sink that writes nothing"""
    if 'null' in str(v).split('(', 2)[1] and v[0] == 'call':
        return True
    if v[:1] == ('new',):
        made = [e for e in o.trace if e.kind == 'call' and e.name == v[1] + '::(ctor)']
        if made:
            return all('null_sink' in str(e.args) for e in made)
    return any(e.ret == v and any('null_sink' in str(a) for a in (e.args or ())) for e in o.trace if e.kind == 'call') or 'null_sink' in str(v)


def roots(ck, var):
    names = ('logger', 'set_logger', 'set_logging_level')
    for fn in sorted((f for f in ck.prog.fns.values() if f.file.endswith(TU) and f.blocks), key=lambda f: f.key):
        own = fn.name.startswith(L) and core.meth_of(fn.name) in names
        if not own and any(f.key != fn.key for f in callers(ck.prog, fn)):
            continue      # decided where it is called
        E, outs = ck.run(fn, watch=lambda l: l == var, **lopts(repeat=3))
        held = set()
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            for e in o.trace:
                if e.kind == 'use':
                    m = frozenset(e.locks or ())
                    held.add(m)
                    ck.ob('exclusive', core.meth_of(fn.name), bool(m), 'the shared logger variable is used without a lock', C.evloc(e), C.trail(o))
                if e.kind == 'call' and REGISTERS.match(e.name or ''):
                    register(ck, E, o, e)
            if fn.name == L + 'logger':
                if ck.ob('usable', 'fails', o.kind != 'throw', 'getting the logger fails', *w) and o.kind == 'ret':
                    v = o.val
                    made = v[0] == 'new' or v[0] == 'call' and v[1] != 'spdlog::get' and v[1].startswith('spdlog::')
                    ck.ob('usable', 'null', made or E.truth(o.st.facts, T.eq0(v)) is False, 'the logger may be null', *w)
            if fn.name == L + 'set_logging_level' and o.kind == 'ret':
                s = [e for e in C.calls(o, 'set_level')]
                g = [e for e in s if e.args[:1] == (('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0)),)]
                of = [e for e in g if (e.obj or ())[:1] == ('deref',) and (e.obj[1] == o.st.store.get(var, ('in', var)) or e.obj[1][:2] == ('call', L + 'logger')
                                                                          or any(x.kind == 'use' for x in o.trace))]
                ck.ob('level', 'set', len(of) == 1 and len(s) == 1, 'the level of the shared logger is not the one given', *w)
        ck.mutexes = getattr(ck, 'mutexes', []) + [h for h in held if h]
    common = frozenset.intersection(*ck.mutexes) if getattr(ck, 'mutexes', None) else frozenset()
    ck.ob('exclusive', 'same', bool(common), 'the uses of the shared logger variable have no lock in common')


def callers(prog, fn):
    return C.users(prog, '', fn.name)


def register(ck, E, o, e):
    """the name is not registered yet"""
    name = e.args[0] if e.args else None
    before = o.trace[:o.trace.index(e)]
    free = any(x.kind == 'call' and x.name == 'spdlog::drop' and x.args[:1] == (name,) for x in before)
    for x in before:
        if x.kind == 'call' and x.name == 'spdlog::get' and x.args[:1] == (name,) and x.ret is not None:
            free = free or E.truth(dict(e.facts or ()), T.eq0(x.ret)) is True
    ck.ob('register', 'free', free, '%s registers the name %s, which fails when it is registered already' % (core.meth_of(e.name), T.show(name)[:60] if name else '?'), C.evloc(e), C.trail(o))


def now(v):
    return v[0] in ('pure', 'call') and core.meth_of(v[1]) == 'now'


def own(o):
    return {l[2]: v for l, v in o.st.store.items() if l[0] == 'fld' and l[1] == ('deref', ('thisptr',)) and v != ('in', l)}


def benchmark(ck):
    begin = end = stopped = count = None
    for fn in ck.find(B + '(ctor)', pred=lambda f: not f.j.get('implicit') and len(f.params) == 1 and 'Benchmark' not in f.params[0]['t']):
        E, outs = ck.run(fn, **lopts())
        for o in outs:
            if o.kind == 'ret':
                begin = [n for n, v in own(o).items() if now(v)]
                ck.ob('measure', 'begin', len(begin) >= 1, 'the start is not taken when the benchmark is built', C.loc(fn, o.line), C.trail(o))
                init = own(o)
    for fn in ck.find(B + 'stop'):
        E, outs = ck.run(fn, **lopts())
        again = 0
        for o in outs:
            if o.kind != 'ret':
                continue
            w = (C.loc(fn, o.line), C.trail(o))
            s = own(o)
            if not s:
                again += 1
                continue
            e = [n for n, v in s.items() if now(v)]
            f = [n for n, v in s.items() if v == T.ONE]
            c = [n for n, v in s.items() if v[0] == 'in']
            if ck.ob('measure', 'end', len(e) == 1 and e[0] not in (begin or ())[1:], 'the end is not taken when the benchmark is stopped', *w):
                end = e[0]
            if ck.ob('measure', 'flag', len(f) == 1, 'that the benchmark is stopped is not kept', *w):
                stopped = f[0]
                ck.ob('measure', 'first', E.truth(o.st.facts, T.eq0(('in', this(stopped)))) is True, 'a later stop changes the end', *w)
                ck.ob('measure', 'running', init.get(stopped) == T.ZERO, 'a benchmark is stopped when built', *w)
            if fn.params:
                if ck.ob('measure', 'count', len(c) == 1 and s[c[0]] == ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0)), 'the count given is not kept', *w):
                    count = c[0]
            else:
                ck.ob('measure', 'count', not c, 'the count changes', *w)
        ck.ob('measure', 'again', again >= 1, 'a later stop changes the benchmark', C.loc(fn))
    for fn in ck.find(B + 'set_count'):
        E, outs = ck.run(fn, **lopts())
        for o in outs:
            if o.kind == 'ret':
                s = own(o)
                ck.ob('measure', 'count', list(s.items()) == [(count, ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0)))], 'the count given is not kept', C.loc(fn, o.line), C.trail(o))
    begin = [b for b in begin or () if b != end]
    begin = begin[0] if len(begin) == 1 else None
    if not ck.ob('measure', 'parts', None not in (begin, end, stopped, count), 'a benchmark does not keep its start, its end, its count and whether it is stopped'):
        return
    for fn in ck.find('sse::SearchBenchmark::(ctor)', pred=lambda f: not f.j.get('implicit') and len(f.params) == 1 and 'Benchmark' not in f.params[0]['t']):
        E, outs = ck.run(fn, opaque=(B + '(ctor)',), **lopts())
        for o in outs:
            if o.kind == 'ret':
                msg = ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0))
                made = [e for e in o.trace if e.kind == 'call' and e.name == B + '(ctor)' and e.obj == ('deref', ('thisptr',))]
                for e in made:
                    bad = misread(ck, e.args[0], msg)
                    ck.ob('report', 'format', not bad, 'a search is reported with %s' % bad, C.evloc(e), C.trail(o))
                ck.ob('report', 'message', len(made) == 1 and any(T.mentions(a, msg) for a in made[0].args), 'the message of a search is not reported', C.loc(fn, o.line), C.trail(o))
    ck.ob('measure', 'none', init.get(count) == T.ZERO, 'a benchmark that was given no count has one')
    file = None
    for fn in ck.find(B + 'set_benchmark_file'):
        E, outs = ck.run(fn, **lopts())
        for o in outs:
            w = (C.loc(fn, o.line), C.trail(o))
            if o.kind != 'ret':
                ck.ob('report', 'file', o.kind != 'throw', 'choosing the benchmark file fails', *w)
                continue
            g = [(l, v) for l, v in o.st.store.items() if l[0] == 'glob' and T.mentions(v, ('in', ('var', fn.params[0]['d'], fn.params[0]['n'], 0)))]
            if ck.ob('report', 'file', len(g) == 1, 'the benchmark file is not the one given', *w):
                file, v = g[0]
                lv = [e.args for e in C.calls(o, 'set_level') if e.obj == ('deref', v)]
                ck.ob('report', 'level', lv[-1:] == [(T.ZERO,)], 'what benchmarks report is not written', *w)
    for fn in ck.find(B + '(dtor)'):
        E, outs = ck.run(fn, **lopts(repeat=4))
        for o in outs:
            if o.kind == 'ret':
                report(ck, fn, E, o, begin, end, stopped, count, file)


def pieces(ck, t):
    """the texts and terms a string is put together from"""
    if t[0] == 'call' and core.meth_of(t[1]) == 'operator+' and len(t[2]) == 2:
        return pieces(ck, t[2][0]) + pieces(ck, t[2][1])
    if t[0] == 'str':
        return [t[1]]
    if t[0] == 'in' and t[1][0] == 'glob':
        i = ck.prog.globals.get(t[1][1], {}).get('init') or {}
        if i.get('k') == 'str':
            return [i['v']]
    return [t]


def misread(ck, t, msg):
    """what is wrong with the format, as far as it is known"""
    p = pieces(ck, t)
    if any(not isinstance(x, str) and x != msg for x in p):
        return None
    text = ''.join(x if isinstance(x, str) else 'M' for x in p)
    bare = text.replace('{{', '').replace('}}', '')
    if '{' in re.sub(r'\{[0-2]?\}', '', bare) or '}' in re.sub(r'\{[0-2]?\}', '', bare):
        return 'a format that cannot be read'
    holes = re.findall(r'\{([0-2]?)\}', bare)
    for n, (label, h) in enumerate(re.findall(r'"([^"]*)"\s*:\s*\{([0-2]?)\}', bare)):
        want = {'items': 0, 'time': 1, 'time/item': 2}.get(label)
        if want is not None and (int(h) if h else n) != want:
            return 'the wrong "%s"' % label
    if len(holes) < 3:
        return 'only %d of its count, its time and its time per item' % len(holes)
    return None


def report(ck, fn, E, o, begin, end, stopped, count, file):
    w = (C.loc(fn, o.line), C.trail(o))
    was = E.truth(o.st.facts, T.eq0(('in', this(stopped))))
    to = E.load(o.st, this(end))
    if not ck.ob('report', 'stopped', was is not None and (now(to) if was else to == ('in', this(end))), 'the end is not that of the benchmark', *w):
        return
    none = E.truth(o.st.facts, T.eq0(('in', file))) if file else None
    said = [e for e in o.trace if e.kind == 'call' and e.obj == ('deref', ('in', file)) and core.meth_of(e.name) in ('trace', 'log')]
    if none is not False:
        ck.ob('report', 'none', none is True and not said, 'the benchmark is written to a file that was not chosen', *w)
        return
    if not ck.ob('report', 'once', len(said) == 1 and len(said[0].args) >= 4, 'the benchmark is reported %d times' % len(said), *w):
        return
    fmt, n, t, each = said[0].args[-4:]
    span = lambda v: any(s[0] in ('pure', 'call') and core.meth_of(s[1]) == 'operator-' and s[2] == (to, ('in', this(begin))) for s in T.subterms(v))
    num = ('in', this(count))
    ck.ob('report', 'count', n == num, 'the count reported is %s' % T.show(n)[:60], *w)
    ck.ob('report', 'time', span(t) and not T.mentions(t, num), 'the time reported is %s' % T.show(t)[:80], *w)
    if E.truth(o.st.facts, T.lt(T.ONE, num)) is False:
        ck.ob('report', 'each', each in (t, T.binop('/', t, T.ONE)), 'the time per item of at most one item is not its time', *w)
        return
    if each == T.binop('/', t, num):
        return
    div = [e for e in C.calls(o, 'operator/=', 'operator/') if num in e.args]
    other = [e for e in C.calls(o, 'operator+=', 'operator-=', 'operator*=', 'operator*', 'operator%=')]
    ck.ob('report', 'each', len(div) == 1 and not other and T.mentions(each, num), 'the time per item is not the time divided by the count', *w)
