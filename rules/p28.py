"""P28: positions, offsets, lengths and counts keep their value on their way through the library"""
import glob
import os

from engine import check as C
from engine import core, extract
from rules.p12 import opts

TUS = ['tus/awonvm_inst.cpp', 'tus/concat_inst.cpp', 'tus/rocksdb_inst.cpp', 'tus/rocksdb_store_inst.cpp', 'tus/tethys_inst.cpp',
       'tus/tethys_client_inst.cpp', 'tus/thread_pool_inst.cpp', 'tus/diana_inst.cpp', 'tus/oceanus_inst.cpp', 'tus/pluto_inst.cpp',
       'lib/abstractio/linux_aio_scheduler.cpp', 'lib/abstractio/thread_pool_aio_scheduler.cpp', 'lib/abstractio/scheduler.cpp',
       'lib/tethys/tethys_graph.cpp', 'lib/tethys/tethys_allocator.cpp', 'lib/utils/logger.cpp', 'lib/utils/rocksdb_wrapper.cpp',
       'lib/utils/utils.cpp', 'lib/sophos/sophos_client.cpp', 'lib/sophos/sophos_server.cpp', 'lib/sophos/sophos_common.cpp',
       'lib/diana/diana_common.cpp', 'lib/janus/janus_client.cpp', 'lib/janus/janus_server.cpp', 'lib/oceanus/cuckoo.cpp',
       'lib/pluto/rocksdb_store.cpp']
RUNNERS = ['lib/diana/client_runner.cpp', 'lib/diana/server_runner.cpp', 'lib/sophos/sophos_client_runner.cpp', 'lib/sophos/sophos_server_runner.cpp']
BITS = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
        'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}
# what these calls return is at most the argument given
AT_MOST = {'pread': 2, 'pwrite': 2, 'read': 2, 'write': 2, 'submit_iocbs': None}
# quantities of which 2^32 do not exist, one for each line of reason
FEW = {
    # one block of a list in memory takes a page: 2^32 of them take 16 TB
    ('insert_list', 'unsigned int'), ('insert_list', 'const unsigned int'),
}
MAKERS = ('emplace_back', 'emplace', 'emplace_front', 'make_unique', 'make_shared', 'try_emplace')


def bare(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').rstrip('& ').strip()
    if t.startswith('std::atomic<') and t.endswith('>'):
        t = bare(t[12:-1])
    return t


def bits(t):
    return BITS.get(bare(t))


def bounds(t):
    b = bits(t)
    if not b:
        return None
    n, s = b
    return (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)


def kids(e):
    for k, v in e.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(e):
    yield e
    for x in kids(e):
        yield from walk(x)


class Body:
    """the expressions of a function and what its local variables are set to"""

    def __init__(self, fn):
        self.fn = fn
        self.init, self.set = {}, set()
        self.nodes, self.loops, seen = [], [], set()
        for b in fn.blocks.values():
            t = b.get('t') or {}
            if t.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt') and isinstance(t.get('c'), dict):
                self.loops += [e for e in walk(t['c']) if e.get('k') == 'bin']
            for top in list(b['e']) + ([t['c']] if isinstance(t.get('c'), dict) else []):
                for e in walk(top):
                    k = (e.get('k'), e.get('id'), e.get('l'), e.get('t')) if 'id' in e else id(e)
                    if k in seen:
                        continue
                    seen.add(k)
                    self.nodes.append(e)
        for e in self.nodes:
            if e.get('k') == 'decl':
                for v in e.get('vars', [e]):
                    if v.get('init'):
                        self.init.setdefault(v.get('d'), []).append(v['init'])
            if e.get('k') == 'asg':
                self.set.add((e.get('x') or {}).get('d'))
            if e.get('k') == 'un' and e.get('op') in ('++', '--', '&'):
                self.set.add((e.get('e') or {}).get('d'))

    def range(self, e, depth=0):
        """bounds of the value of an integer expression"""
        if 'cv' in e:
            return int(e['cv']), int(e['cv'])
        top = bounds(e.get('t'))
        k = e.get('k')
        r = None
        if depth < 12:
            r = self.inner(e, k, depth)
        if r and top and (r[0] < top[0] or r[1] > top[1]):
            r = None
        return r or top

    def inner(self, e, k, depth):
        def sub(x):
            return self.range(x, depth + 1) if isinstance(x, dict) else None
        if k == 'cast':
            return sub(e.get('e'))
        if k == 'cond':
            a, b = sub(e.get('x')), sub(e.get('y'))
            return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
        if k == 'bin':
            a, b, op = sub(e.get('x')), sub(e.get('y')), e.get('op')
            if op == ',':
                return b
            if not a or not b:
                return None
            if op == '&' and (a[0] >= 0 or b[0] >= 0):
                return 0, min(x[1] for x in (a, b) if x[0] >= 0)
            if op in ('|', '^') and a[0] >= 0 and b[0] >= 0:
                return 0, (1 << max(a[1], b[1]).bit_length()) - 1
            if op == '%' and a[0] >= 0 and b[0] > 0:
                return 0, min(a[1], b[1] - 1)
            if op == '/' and a[0] >= 0 and b[0] > 0:
                return a[0] // b[1], a[1] // b[0]
            if op == '>>' and a[0] >= 0 and b[0] == b[1] and 0 <= b[0] < 64:
                return a[0] >> b[0], a[1] >> b[0]
            if op == '+':
                return a[0] + b[0], a[1] + b[1]
            if op == '-':
                return a[0] - b[1], a[1] - b[0]
            if op == '*':
                c = [x * y for x in a for y in b]
                return min(c), max(c)
            if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
                return 0, 1
        if k == 'call':
            n, a = core.meth_of(e.get('fn') or ''), e.get('a', [])
            rs = [sub(x) for x in a]
            if n in ('min', 'max') and len(rs) >= 2 and all(rs[:2]):
                f = min if n == 'min' else max
                return f(rs[0][0], rs[1][0]), f(rs[0][1], rs[1][1])
            if n == 'clamp' and len(rs) >= 3 and all(rs[:3]):
                return rs[1][0], rs[2][1]
            if n in AT_MOST:
                i = AT_MOST[n]
                if i is None:
                    return 0, (1 << 31) - 1
                return (-1, rs[i][1]) if len(rs) > i and rs[i] else None
        if k == 'ref' and e.get('dk') == 'var' and e.get('d') not in self.set and len(self.init.get(e.get('d'), ())) == 1:
            return sub(self.init[e['d']][0])
        return None

    def own(self, e, n):
        """e is arithmetic on values of at most n bits"""
        if 'cv' in e:
            return True
        k = e.get('k')
        if k == 'bin' and e.get('op') in ('+', '-', '*', '&', '|', '^', '<<', '>>'):
            return self.own(e['x'], n) and (e['op'] in ('<<', '>>') or self.own(e['y'], n))
        if k == 'un' and e.get('op') in ('~', '-', '+'):
            return self.own(e['e'], n)
        b = bits(e.get('t'))
        return b is not None and b[0] <= n


def params(key):
    """parameter types in the key of a function"""
    i = key.rfind('(')
    d, cur, r = 0, '', []
    for c in key[i + 1:key.rfind(')')]:
        if c in '<([':
            d += 1
        if c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            r.append(cur)
            cur = ''
        else:
            cur += c
    return [x.strip() for x in r + ([cur] if cur.strip() else [])]


def run(ck):
    more = []
    for t in RUNNERS:
        try:
            if not any(extract.program([t]).errors.values()):
                more.append(t)
        except Exception:
            pass
    ck.load(TUS + more)
    ck.rule('kept', 'no conversion to a smaller integer changes a value: it is bounded by how it is made, or by the branches taken')
    ck.rule('added', 'no value is added to a variable smaller than it')
    ck.rule('counter', 'no 8 or 16 bit variable counts something that is not bounded by a value of its own type')
    ck.rule('whole', 'a counter kept in less than 64 bits is not used as a position, an offset or a length of 64 bits')
    ck.rule('handed', 'what is handed to a callback or to the object being built is not cut there')
    ck.rule('product', 'no 32 bit product or shift is used as a 64 bit value')
    done = set()
    n = 0
    for key, fn in sorted(ck.prog.fns.items()):
        if not fn.blocks:
            continue
        n += 1
        b = Body(fn)
        ck.fns.add(key)
        conversions(ck, b, done)
        additions(ck, b)
        counters(ck, b)
        handed(ck, b)
        products(ck, b)
    ck.ob('kept', 'functions', n > 100, 'only %d functions are seen' % n)
    for r in ('kept', 'counter', 'handed'):
        ck.floor(r, 1)


def where(fn, e):
    return C.loc(fn, e.get('l'))


def label(fn):
    return core.meth_of(fn.name) if '(lambda' not in fn.name else 'lambda'


def conversions(ck, b, done):
    fn = b.fn
    for e in b.nodes:
        if e.get('k') != 'cast' or 'cv' in e or e.get('ck') not in ('IntegralCast', 'FloatingToIntegral'):
            continue
        to, x = bits(e.get('t')), e['e']
        if not to or to[0] >= 64:
            continue
        fr = bits(x.get('t'))
        if e['ck'] == 'IntegralCast' and (not fr or to[0] >= fr[0]):
            continue
        at = (fn.file, e.get('l'), bare(x.get('t')), bare(e.get('t')))
        r, lim = b.range(x) if fr else None, bounds(e.get('t'))
        ok = bool(r and lim[0] <= r[0] and r[1] <= lim[1]) or bool(fr and b.own(x, to[0])) or (label(fn), bare(e.get('t'))) in FEW or \
            to == (8, 0) and not e.get('imp') and peeled(x).get('k') == 'bin' and peeled(x).get('op') == '>>'    # one byte of the value
        if not ok and fr:
            try:
                E, outs = ck.run(fn, **opts(cut='deep'))
                ok = (fn.key, e.get('id')) not in E.cuts
            except core.AnalysisBroken:
                ok = False
        done.add(at)
        ck.ob('kept', '%s to %s in %s' % (bare(x.get('t')), bare(e.get('t')), label(fn)), ok, 'a value of type %s%s is cut to %s' % (
            bare(x.get('t')), ' between %d and %d' % r if r and r != bounds(x.get('t')) else '', bare(e.get('t'))), where(fn, e))


def peeled(e):
    while e.get('k') == 'cast':
        e = e['e']
    return e


def additions(ck, b):
    for e in b.nodes:
        if e.get('k') != 'asg' or e.get('op') not in ('+=', '-=', '*='):
            continue
        x, y = bits((e.get('x') or {}).get('t')), e.get('y') or {}
        if not x or x[0] >= 64 or 'cv' in y or not bits(y.get('t')):
            continue
        r, lim = b.range(y), bounds(e['x']['t'])
        ok = bits(y['t'])[0] <= x[0] or r[1] <= lim[1] and r[0] >= lim[0]
        ck.ob('added', '%s in %s' % (e['op'], label(b.fn)), ok, 'a value of type %s is added to one of type %s' % (bare(y['t']), bare(e['x']['t'])), where(b.fn, e))


def target(e):
    """what an expression counts with: (declaration or field, type)"""
    while e.get('k') == 'cast':
        e = e['e']
    return (e.get('d') if e.get('k') == 'ref' else e.get('f')), e.get('t')


def counted(b):
    for e in b.nodes:
        if e.get('k') == 'un' and e.get('op') in ('++', '--'):
            yield (e,) + target(e['e'])
        elif e.get('k') == 'asg' and e.get('op') in ('+=', '-='):
            yield (e,) + target(e['x'])
        elif e.get('k') == 'call' and core.meth_of(e.get('fn') or '') in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=') and e.get('obj'):
            yield (e,) + target(e['obj'])


COMPARE = ('<', '>', '<=', '>=', '==', '!=')


def counters(ck, b):
    for e, d, t in counted(b):
        w = bits(t)
        if not w or d is None or w[0] >= 64:
            continue
        if w[0] <= 16:
            lim = bounds(t)
            tests = []
            for c in b.loops:
                if c.get('k') == 'bin' and c.get('op') in COMPARE:
                    for x, y in ((c['x'], c['y']), (c['y'], c['x'])):
                        if target(x)[0] == d or any(target(z)[0] == d for z in walk(x) if z.get('k') in ('ref', 'mem')):
                            tests.append(b.range(y))
            if not tests:
                tests = [b.range(y) for c in b.nodes if c.get('k') == 'bin' and c.get('op') in COMPARE for x, y in ((c['x'], c['y']), (c['y'], c['x']))
                         if any(target(z)[0] == d for z in walk(x) if z.get('k') in ('ref', 'mem'))]
            # what a function makes of the value it gets is compared in it
            if e.get('k') == 'call' and not tests:
                for v, i in b.init.items():
                    if any(z.get('id') == e.get('id') for z in walk(i[0])):
                        for c in b.nodes:
                            if c.get('k') == 'bin' and c.get('op') in COMPARE:
                                for x, y in ((c['x'], c['y']), (c['y'], c['x'])):
                                    if target(x)[0] == v:
                                        tests.append(b.range(y))
            ok = any(r and r[1] <= lim[1] for r in tests)
            ck.ob('counter', '%s in %s' % (bare(t), label(b.fn)), ok, '%s counts what may be more than it holds' % bare(t), where(b.fn, e))
        if e.get('k') == 'call' or w[0] < 32:
            # the value counted to is used as a wider one
            for p in b.nodes:
                for x, u in uses(p):
                    while x.get('k') == 'cast' and x.get('imp'):
                        x = x['e']
                    if x.get('id') == e.get('id') and x.get('k') == e.get('k') and (bits(u) or (0,))[0] > w[0] and (bits(u) or (0,))[0] == 64:
                        ck.ob('whole', '%s in %s' % (bare(t), label(b.fn)), False, 'a counter of type %s is used as a %s' % (bare(t), bare(u)), where(b.fn, e))
    ck.ob('whole', 'function', True, '')


def uses(p):
    """(expression, type it is used at)"""
    k = p.get('k')
    if k == 'decl':
        for v in p.get('vars', [p]):
            if v.get('init'):
                yield v['init'], v.get('t')
    elif k == 'asg':
        yield p.get('y') or {}, (p.get('x') or {}).get('t')
    elif k == 'bin' and p.get('op') not in ('<<', '>>', ',', '&&', '||'):
        x, y = p.get('x') or {}, p.get('y') or {}
        yield x, y.get('t')
        yield y, x.get('t')
    elif k in ('call', 'ctor'):
        for a, t in zip(p.get('a', []), p.get('pm', [])):
            yield a, t
    elif k == 'init':
        yield p.get('e') or {}, p.get('t')


def products(ck, b):
    for p in b.nodes:
        for x, u in uses(p):
            if x.get('k') == 'bin' and x.get('op') in ('*', '<<') and 'cv' not in x and (bits(u) or (0,))[0] == 64 and (bits(x.get('t')) or (64,))[0] < 64:
                a, c = b.range(x['x']), b.range(x['y'])
                lim = bounds(x['t'])
                ok = bool(a and c) and (a[1] * c[1] <= lim[1] if x['op'] == '*' else c[1] < 64 and a[1] << c[1] <= lim[1])
                ck.ob('product', '%s in %s' % (x['op'], label(b.fn)), ok, 'a product of type %s is used as a %s' % (bare(x['t']), bare(u)), where(b.fn, x))
    ck.ob('product', 'function', True, '')


def signature(t):
    """parameter types of std::function<R (A, B)>"""
    t = (t or '').replace('const ', '').rstrip('& ')
    if not t.startswith('std::function<') or '(' not in t:
        return None
    return params(t[:t.rfind(')') + 1].replace('std::function<', '', 1))


def handed(ck, b):
    lams = {}
    for d, i in b.init.items():
        for x in walk(i[0]):
            if x.get('k') == 'lam':
                lams[d] = x
                break
    for e in b.nodes:
        if e.get('k') == 'ctor' and signature(e.get('cls') or e.get('t')):
            sig = signature(e.get('cls') or e.get('t'))
            for a in e.get('a', []):
                while a.get('k') in ('cast', 'ctor') and (a.get('e') or a.get('a')):
                    a = a.get('e') or a['a'][0]
                l = a if a.get('k') == 'lam' else lams.get(a.get('d')) if a.get('k') == 'ref' else None
                if l and l.get('fn') in b.fn_table(ck):
                    f = b.fn_table(ck)[l['fn']]
                    for p, t in zip(f.params, sig):
                        narrow(ck, b, e, t, p['t'], 'callback')
        if e.get('k') == 'call' and core.meth_of(e.get('fn') or '') in MAKERS and e.get('ta') is not None or \
                e.get('k') == 'call' and core.meth_of(e.get('fn') or '') in MAKERS:
            made = element(e)
            if not made:
                continue
            a = e.get('a', [])
            for f in ck.prog.fns.values():
                if f.j.get('ctor') and core.meth_of(f.name) == '(ctor)' and owner(f) == made and len(f.params) == len(a) and not f.j.get('implicit'):
                    for p, x in zip(f.params, a):
                        r, lim = b.range(x), bounds(p['t'])
                        if not (r and lim and lim[0] <= r[0] and r[1] <= lim[1]):
                            narrow(ck, b, e, x.get('t'), p['t'], 'built object')


def owner(f):
    """type of the object a constructor builds, with its template arguments"""
    k = f.key[:f.key.rfind('(')]
    d = 0
    for i in range(len(k) - 1, -1, -1):
        d += (k[i] == '>') - (k[i] == '<')
        if d == 0 and k[i - 1:i + 1] == '::':
            return k[:i - 1]
    return k


def element(e):
    t = (e.get('obj') or {}).get('t') or ''
    if e.get('obj'):
        t = t.replace('const ', '').rstrip('& ')
        if '<' not in t:
            return None
        return params('(' + t[t.index('<') + 1:t.rindex('>')] + ')')[0]
    ta = e.get('ta') or []
    return bare(ta[0]) if ta else None


def narrow(ck, b, e, given, taken, what):
    x, y = bits(given), bits(taken)
    if x and y:
        ck.ob('handed', '%s in %s' % (what, label(b.fn)), y[0] >= x[0], 'a value of type %s is taken by the %s as %s' % (bare(given), what, bare(taken)), where(b.fn, e))


def fn_table(self, ck):
    return ck.prog.fns


Body.fn_table = fn_table
