"""Path-sensitive dataflow over clang CFGs (ESP-style property simulation).

A state is (value store, branch facts, lock set, rule state); states are
propagated over the CFG of each function, repository callees are expanded in
place, loops are closed by widening, identical states are merged.  Nothing is
executed and no path is handed to a solver: branch facts are intervals and
disequalities on value-numbered terms.
"""
import re
import json
import sys
from . import terms as T
from . import desugar
from .terms import I, ZERO, ONE

sys.setrecursionlimit(20000)


class AnalysisBroken(Exception):
    pass


# ---------------------------------------------------------------- program
class Fn:
    __slots__ = ('key', 'name', 'file', 'line', 'params', 'cls', 'j', 'blocks', 'entry', 'exit',
                 'heads', 'outer', 'targets', 'tu', 'crossids', 'loopblocks', 'preds', 'catches', 'ret')

    def __init__(self, j, tu):
        self.j = j
        self.tu = tu
        self.key = j['key']
        self.name = j['name']
        self.file = j['file']
        self.line = j['line']
        self.params = j['params']
        self.cls = j.get('cls')
        self.ret = j.get('ret')
        self.blocks = {}
        c = j.get('cfg')
        if not c:
            return
        self.entry, self.exit = c['entry'], c['exit']
        for b in c['blocks']:
            self.blocks[b['id']] = b
            # where the value of an assignment is used the same expression comes once more
            done, es = set(), []
            for e in b['e']:
                if e.get('k') == 'asg' or e.get('k') == 'un' and e.get('op') in ('++', '--'):
                    if e['id'] in done:
                        continue
                    done.add(e['id'])
                es.append(e)
            b['e'] = es
        self._prep()

    def _prep(self):
        # back edges
        color, heads, back = {}, set(), set()
        st = [(self.entry, iter([s for s in self.blocks[self.entry]['s'] if s is not None]))]
        color[self.entry] = 1
        post = []
        while st:
            u, it = st[-1]
            for v in it:
                if color.get(v, 0) == 0:
                    color[v] = 1
                    st.append((v, iter([s for s in self.blocks[v]['s'] if s is not None])))
                    break
                elif color[v] == 1:
                    heads.add(v)
                    back.add((u, v))
            else:
                color[u] = 2
                post.append(u)
                st.pop()
        # an expression listed again (wrapped in a temporary binding) was already evaluated
        where = {}
        for u in reversed(post):
            b = self.blocks[u]
            keep = []
            for e in b['e']:
                i = e.get('id') if e else None
                if i is not None and where.setdefault(i, u) != u:
                    continue
                keep.append(e)
            b['e'] = keep
        self.heads = heads
        self.preds = {}
        for b in self.blocks.values():
            for s in b['s']:
                if s is not None:
                    self.preds.setdefault(s, set()).add(b['id'])
        # natural loop bodies
        self.loopblocks = {h: {h} for h in heads}
        for (u, h) in sorted(back):
            body = self.loopblocks[h]
            w = [u]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(self.preds.get(x, ()))
        self.outer = {h for h in heads if not any(h in b for g, b in self.loopblocks.items() if g != h)}
        # construction targets
        self.targets = {}
        eids = {}
        for b in self.blocks.values():
            for e in b['e']:
                if e is None:
                    continue
                if 'id' in e:
                    eids[e['id']] = b['id']
                if e.get('k') == 'decl':
                    for v in e['vars']:
                        i = v.get('init')
                        if i and not v.get('ref'):
                            self._tgt(i, ('var', v['d'], v['n']))
                elif e.get('k') == 'init' and 'f' in e:
                    i = e.get('e')
                    if i and not e.get('ref'):
                        self._tgt(i, ('field', e['f']))
        # ids evaluated in one block and used in another
        self.crossids = set()

        def walk(x, bid):
            if isinstance(x, dict):
                i = x.get('id')
                if i is not None and i in eids and eids[i] != bid:
                    self.crossids.add(i)
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        walk(v, bid)
            elif isinstance(x, list):
                for v in x:
                    walk(v, bid)
        for b in self.blocks.values():
            for e in b['e']:
                walk(e, b['id'])
            if b.get('t'):
                walk(b['t'], b['id'])

    def _tgt(self, i, tgt):
        if i.get('k') == 'ctor':
            self.targets[i['id']] = tgt
        elif i.get('k') == 'cast' and i.get('e'):
            self._tgt(i['e'], tgt)
        elif i.get('k') == 'other' and len(i.get('a') or []) == 1 and i['a'][0]:
            self._tgt(i['a'][0], tgt)

    def __repr__(self):
        return '<Fn %s>' % self.key


class Program:
    def __init__(self):
        self.fns = {}       # key -> Fn
        self.byname = {}    # name -> [Fn]
        self.records = {}   # name -> [record json]
        self.globals = {}
        self.errors = {}
        self.unsigned = set()

    def load(self, path, tu):
        with open(path) as f:
            j = json.load(f)
        self.errors[tu] = j.get('errors', 0)
        pre = len(self.errors) * 10000000

        def ren(x):
            if isinstance(x, dict):
                for k in ('id', 'd', 'hv'):
                    v = x.get(k)
                    if isinstance(v, int):
                        x[k] = v + pre
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        ren(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        ren(v)
        known = {}
        for fj in j['functions']:
            known.setdefault(fj['name'], fj)
        for fj in j['functions']:
            if fj['key'] in self.fns and self.fns[fj['key']].blocks:
                continue
            # block ids live under cfg.blocks[].id: rename only statements
            c = fj.get('cfg')
            ren(fj['params'])
            if c:
                for b in c['blocks']:
                    ren(b['e'])
                    for k in ('t', 'case', 'catch'):
                        if b.get(k):
                            ren(b[k])
            if c:
                desugar.run(fj, known)
            fn = Fn(fj, tu)
            self.fns[fn.key] = fn
            self.byname.setdefault(fn.name, [])
            self.byname[fn.name] = [f for f in self.byname[fn.name] if f.key != fn.key] + [fn]
        for r in j['records']:
            l = self.records.setdefault(r['name'], [])
            if not any(x['type'] == r['type'] for x in l):
                l.append(r)
        for g in j['globals']:
            self.globals[g['n']] = g

    def find(self, name, required=True):
        """all instances of the function with this template-stripped name"""
        r = self.byname.get(name, [])
        r = [f for f in r if f.blocks]
        if not r and required:
            raise AnalysisBroken('anchor function not found: ' + name)
        return r

    def lambdas_of(self, fn):
        return [f for k, f in self.fns.items() if k.startswith(fn.key + '::lambda@')]

    def touched(self, key, seen=None):
        """declarations outside a closure that calling it may change"""
        if seen is None:
            if not hasattr(self, '_touched'):
                self._touched = {}
            if key not in self._touched:
                self._touched[key] = self.touched(key, set())
            return self._touched[key]
        fn = self.fns.get(key)
        if fn is None or not fn.blocks or key in seen:
            return set()
        seen.add(key)
        r = set()

        def root(x):
            while isinstance(x, dict):
                k = x.get('k')
                if k == 'ref':
                    if x.get('dk') in ('var', 'param', None):
                        r.add(x['d'])
                    return
                if k == 'mem' and not x.get('arrow'):
                    x = x.get('b')
                elif k in ('cast', 'paren'):
                    x = x.get('e')
                elif k == 'idx':
                    x = x.get('b') or x.get('x')
                elif k == 'call' and x.get('obj') is not None and meth_of(x.get('fn') or '') in LOOK:
                    x = x['obj']
                elif k == 'call' and x.get('fn') in ('std::move', 'std::forward', 'std::begin', 'std::end') and x.get('a'):
                    x = x['a'][0]
                else:
                    return
        for x in fn_exprs(fn):
            k = x.get('k')
            if k == 'asg':
                root(x.get('x'))
            elif k == 'un' and x.get('op') in ('++', '--', 'p++', 'p--', '++p', '--p'):
                root(x.get('e'))
            elif k in ('call', 'ctor'):
                if x.get('obj') is not None and not x.get('cm') and meth_of(x.get('fn') or '') not in LOOK and not (x.get('fn') or '').startswith(('std::function::', 'std::mutex::')):
                    root(x['obj'])
                for a, m in zip(x.get('a') or (), x.get('pm') or ()):
                    if m == 'r':
                        root(a)
                    elif m == 'p' and isinstance(a, dict) and a.get('k') == 'un' and a.get('op') == '&':
                        root(a.get('e'))
            elif k == 'lam':
                r |= self.touched(x['fn'], seen)
        return r

    def methods_of(self, cls):
        return [f for f in self.fns.values() if f.cls == cls and f.blocks]


def walk_exprs(x):
    """all expression dicts below a json node"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            st.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            st.extend(v for v in y if isinstance(v, (dict, list)))


def fn_exprs(fn):
    seen = set()
    for b in fn.blocks.values():
        for e in b['e']:
            for x in walk_exprs(e):
                i = x.get('id')
                if i is None:
                    yield x
                elif i not in seen:
                    seen.add(i)
                    yield x
        if b.get('t'):
            for x in walk_exprs(b['t']):
                i = x.get('id')
                if i not in seen:
                    seen.add(i)
                    yield x


# methods that change nothing themselves, but give access to what is in their object
LOOK = ('operator[]', 'at', 'begin', 'end', 'cbegin', 'cend', 'front', 'back', 'data', 'get', 'find', 'count', 'size', 'empty', 'operator*', 'operator->', 'c_str', 'length', 'lock', 'unlock', 'value')


# ---------------------------------------------------------------- facts
INF = None


def f_get(facts, b):
    return facts.get(b)


class State:
    __slots__ = ('store', 'facts', 'memo', 'locks', 'mon', 'trail', 'loops', 'exc', '_sig')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.memo = {}
        self.locks = ()
        self.mon = ()
        self.trail = ()
        self.loops = {}
        self.exc = None

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.memo = dict(self.memo)
        s.locks = self.locks
        s.mon = self.mon
        s.trail = self.trail
        s.loops = dict(self.loops)
        s.exc = self.exc
        return s

    def sig(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()),
                frozenset(self.memo.items()), self.locks, self.mon, self.exc,
                frozenset((h, p[0], p[3] if len(p) > 3 else ()) for h, p in self.loops.items()))


class Outcome:
    """one abstract path end"""

    def __init__(self, kind, val, st, line):
        self.kind = kind    # ret | throw | noreturn
        self.val = val
        self.st = st
        self.line = line
        self.head = None    # iter, enter: the loop head reached
        self.frm = st.loops.get((-1, 'from'), (None,))[0]    # cut mode: the loop head this piece of the path starts at
        self.bind = st.loops.get((-1, 'from'), (None, ()))[1]  # what the reference parameters of its function were bound to there
        self.bound = ()     # iter, enter: what they are bound to at the loop head reached

    @property
    def trace(self):
        return self.st.mon


class Event:
    __slots__ = ('kind', 'name', 'fk', 'args', 'alv', 'obj', 'objv', 'ret', 'line', 'file', 'fn',
                 'facts', 'locks', 'site', 'depth', 'op', 'ta', 'mem', 'handled')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def ident(self):
        return (self.kind, self.name, self.args, self.alv, self.obj, self.objv, self.ret, self.line,
                self.locks, self.facts, self.mem)

    def __eq__(self, o):
        return isinstance(o, Event) and self.ident() == o.ident()

    def __hash__(self):
        return hash((self.kind, self.name, self.args, self.obj, self.line))

    def __repr__(self):
        a = ', '.join(T.show(x) for x in self.args or ())
        o = (T.show(self.obj) + '.') if self.obj else ''
        return '%s%s(%s)@%s' % (o, T.short(self.name or self.kind), a, self.line)


PURE_FREE = ('std::to_string', 'strerror', 'std::min', 'std::max', 'std::abs', 'std::ceil', 'std::floor',
             'std::log2', 'log2', 'ceil', 'floor', 'std::pow', 'pow', 'std::sqrt', '__errno_location', 'std::distance')
ERRNO = ('deref', ('pure', '__errno_location', ()))
def bare(t):
    t = t or ''
    while t.startswith(('const ', 'volatile ')):
        t = t.split(' ', 1)[1]
    return t


IDENT_FREE = ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::move_if_noexcept')
SMART = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access',
         'std::__uniq_ptr_impl')
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
SEQ = ('std::vector', 'std::array', 'std::deque', 'std::basic_string', 'std::__cxx11::basic_string', 'std::map',
       'std::unordered_map', 'std::list', 'std::__cxx11::list', 'std::set', 'std::unordered_set', 'std::queue',
       'std::basic_string_view')
MUTATORS = ()


def cls_of(name):
    """class part of Class::method, for names that may contain (conv:...)"""
    i = name.find('::(')
    if i >= 0:
        return name[:i]
    i = name.rfind('::')
    return name[:i] if i >= 0 else ''


def meth_of(name):
    i = name.find('::(')
    if i >= 0:
        return name[i + 2:]
    return name[name.rfind('::') + 2:] if '::' in name else name


class Engine:
    def __init__(self, prog, interest=None, opaque=(), opaque_if=None, max_depth=7, max_states=30000,
                 record_assume=False, record_write=None, record_copies=False, record_catch=False, closures=False, facts_on_events=True, max_visits=600,
                 inline_if=None, repeat=1, cut=False, pure=(), atomic_loads=False, watch=None):
        self.cut = cut                # outermost ('all': all, 'deep': also those of inlined helpers) loops: one outcome per iteration
        self.repeat = repeat          # how often an identical event is kept
        self.p = prog
        self.interest = interest      # f(Event)->bool : recorded in the trace
        self.opaque = set(opaque)     # function names never expanded
        self.atomic_loads = atomic_loads
        self.watch = watch            # f(lval)->bool : every mention of such a global is an event
        self.pure = set(pure)         # methods (by last name) a rule has shown to change nothing
        self.opaque_if = opaque_if
        self.inline_if = inline_if
        self.max_depth = max_depth
        self.max_states = max_states
        self.max_visits = max_visits
        self.record_assume = record_assume
        self.record_write = record_write
        self.record_copies = record_copies
        self.closures = closures
        self.record_catch = record_catch
        self.facts_on_events = facts_on_events
        self.nstates = 0
        self.incomplete = []
        self.covered = set()
        self.unsigned = set()
        self.typed = {}
        self.cuts = set()       # conversions that may change the value on some path
        self.small = {}
        self.boolish = set()
        self.branches = 0
        self.havoc_on_wait = True

    # ---------------------------------------------------------------- facts
    def interval(self, facts, b):
        f = facts.get(b)
        if f:
            lo, hi, ne = f
        else:
            lo, hi, ne = None, None, frozenset()
        if b in self.unsigned or b in self.boolish:
            lo = 0 if lo is None else max(lo, 0)
        if b in self.boolish:
            hi = 1 if hi is None else min(hi, 1)
        # interval arithmetic for linear bases of known parts
        if b[0] == 'lin':
            slo = shi = 0
            for fct, c in b[1]:
                if len(fct) != 1:
                    slo = shi = None
                    # product of unsigned is non-negative
                    if all(x in self.unsigned for x in fct) and c > 0 and len(b[1]) == 1:
                        lo = 0 if lo is None else max(lo, 0)
                    break
                l2, h2, _ = self.interval(facts, fct[0])
                if c < 0:
                    l2, h2 = h2, l2
                slo = None if (slo is None or l2 is None) else slo + c * l2
                shi = None if (shi is None or h2 is None) else shi + c * h2
            if slo is not None:
                lo = slo if lo is None else max(lo, slo)
            if shi is not None:
                hi = shi if hi is None else min(hi, shi)
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        return lo, hi, ne

    def truth(self, facts, t):
        """True/False/None for a boolean-valued term"""
        k = t[0]
        if k == 'int':
            return t[1] != 0
        if k == 'not':
            r = self.truth(facts, t[1])
            return None if r is None else not r
        if k == 'and':
            rs = [self.truth(facts, x) for x in t[1:]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if k == 'or':
            rs = [self.truth(facts, x) for x in t[1:]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        if k == 'eq0':
            b, s, c = T.base_of(t[1])
            if b is None:
                return c == 0
            v = -c * s   # base value that makes it zero
            if b[0] in ('new', 'addr', 'lam', 'fn', 'str') and v == 0:
                return False
            lo, hi, ne = self.interval(facts, b)
            if v in ne or (lo is not None and v < lo) or (hi is not None and v > hi):
                return False
            if lo is not None and lo == hi == v:
                return True
            return None
        if k == 'lt0':
            b, s, c = T.base_of(t[1])
            if b is None:
                return c < 0
            lo, hi, ne = self.interval(facts, b)
            if s > 0:      # base < -c  <=> base <= -c-1
                if hi is not None and hi <= -c - 1:
                    return True
                if lo is not None and lo >= -c:
                    return False
            else:          # -base + c < 0 <=> base > c <=> base >= c+1
                if lo is not None and lo >= c + 1:
                    return True
                if hi is not None and hi <= c:
                    return False
            return None
        if k == 'str':
            return True
        if k in ('new', 'addr', 'lam', 'fn'):
            return True
        return (lambda r: None if r is None else not r)(self.truth(facts, ('eq0', t)))

    def assume(self, st, t, val):
        """refine; returns False if contradictory"""
        r = self.truth(st.facts, t)
        if r is not None:
            return r == val
        k = t[0]
        if k == 'not':
            return self.assume(st, t[1], not val)
        if k == 'and':
            if val:
                return all(self.assume(st, x, True) for x in t[1:])
            und = [x for x in t[1:] if self.truth(st.facts, x) is not True]
            if len(und) == 1:
                return self.assume(st, und[0], False)
            return True
        if k == 'or':
            if not val:
                return all(self.assume(st, x, False) for x in t[1:])
            und = [x for x in t[1:] if self.truth(st.facts, x) is not False]
            if len(und) == 1:
                return self.assume(st, und[0], True)
            return True
        if k == 'eq0':
            b, s, c = T.base_of(t[1])
            v = -c * s
            lo, hi, ne = self.interval(st.facts, b)
            if val:
                st.facts[b] = (v, v, frozenset())
            else:
                ne = ne | {v}
                if len(ne) > 12:
                    return True
                st.facts[b] = (lo, hi, ne)
            lo, hi, ne = self.interval(st.facts, b)
            st.facts[b] = (lo, hi, frozenset(x for x in ne if (lo is None or x > lo) and (hi is None or x < hi)))
            return not (lo is not None and hi is not None and lo > hi)
        if k == 'lt0':
            b, s, c = T.base_of(t[1])
            lo, hi, ne = self.interval(st.facts, b)
            if s > 0:
                if val:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
                else:
                    lo = -c if lo is None else max(lo, -c)
            else:
                if val:
                    lo = c + 1 if lo is None else max(lo, c + 1)
                else:
                    hi = c if hi is None else min(hi, c)
            st.facts[b] = (lo, hi, ne)
            lo, hi, ne = self.interval(st.facts, b)
            return not (lo is not None and hi is not None and lo > hi)
        return self.assume(st, ('eq0', t), not val)

    # ---------------------------------------------------------------- store
    def load(self, st, lval, _d=0):
        v = st.store.get(lval)
        if v is not None:
            if v[0] == 'rec' and any(('fld', lval, n) in st.store for n, _ in v[1]):
                # members written since the object was made as a whole
                v = ('rec', tuple((n, self.load(st, ('fld', lval, n), _d + 1)) for n, _ in v[1]))
            return v
        k = lval[0]
        if _d > 20:
            return ('in', lval)
        if k == 'char':
            return ('pure', 'std::basic_string::at', (self.load(st, lval[1], _d + 1), lval[2]))
        if k == 'fld':
            b = lval[1]
            bv = self._base_val(st, b, _d)
            if bv is not None:
                return self.field_of(st, bv, lval[2], _d)
        elif k == 'elem':
            b = lval[1]
            bv = self._base_val(st, b, _d)
            if bv is not None:
                if bv[0] == 'in' and isinstance(bv[1], tuple):
                    return self.load(st, ('elem', bv[1], lval[2]), _d + 1)
                if bv[0] == 'ilist' and lval[2][0] == 'int' and 0 <= lval[2][1] < len(bv[1]):
                    return bv[1][lval[2][1]]
                return ('ev', bv, lval[2])
        return ('in', lval)

    def _base_val(self, st, b, d):
        v = st.store.get(b)
        if v is not None:
            return v
        if b[0] in ('fld', 'elem'):
            v = self.load(st, b, d + 1)
            if v[0] == 'in' and v[1] == b:
                return None
            return v
        return None

    def field_of(self, st, v, f, _d=0):
        if v[0] == 'in':
            return self.load(st, ('fld', v[1], f), _d + 1)
        if v[0] == 'rec':
            for n, x in v[1]:
                if n == f:
                    return x
        if v[0] == 'obj' and f in ('first', 'second') and len(v[2]) == 2 and 'pair' in v[1]:
            return v[2][0 if f == 'first' else 1]
        if v[0] in ('pure', 'call') and v[1] == 'std::make_pair' and f in ('first', 'second') and len(v[2]) == 2:
            return v[2][0 if f == 'first' else 1]
        return ('fv', v, f)

    @staticmethod
    def is_prefix(p, l):
        while True:
            if l == p:
                return True
            if l[0] in ('fld', 'elem'):
                l = l[1]
            elif l[0] == 'R':
                l = l[1]
            else:
                return False

    def assign(self, st, lval, val, fr=None, line=0, how='='):
        if lval[0] == 'char':
            # a character of a string: the string is another one
            old = self.load(st, lval[1])
            if lval[2] == ('last',) and old[0] == 'pure' and old[1] == 'std::operator+' and old[2][1][0] == 'int':
                val = ('pure', 'std::operator+', (old[2][0], val))
            else:
                val = ('pure', 'std::basic_string::set', (old, lval[2], val))
            lval = lval[1]
        for k in [k for k in st.store if k != lval and (k[0] in ('fld', 'elem', 'R')) and self.is_prefix(lval, k)]:
            del st.store[k]
        if lval[0] == 'elem':
            for k in [k for k in st.store if k[0] == 'elem' and k[1] == lval[1] and k[2] != lval[2]
                      and not (k[2][0] == 'int' and lval[2][0] == 'int')]:
                # another element of the same container may be the same one,
                # unless the indices provably differ
                d = T.sub(k[2], lval[2])
                if d[0] == 'int':
                    continue
                del st.store[k]
        st.store[lval] = val
        if self.record_write and fr is not None:
            ev = Event(kind='write', name=how, args=(val,), alv=(), obj=lval, line=line, file=fr.fn.file,
                       fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth)
            if self.record_write(ev):
                self.record(st, ev)

    def copy_sub(self, st, src, dst):
        """copy the known parts of an object"""
        if self.record_copies:
            self.record(st, Event(kind='copy', name='copy', args=(), alv=(), obj=src, objv=('addr', dst), line=0, file='', fn='', locks=(), depth=0))
        for k in list(st.store):
            if k[0] in ('fld', 'elem', 'R') and k != src and self.is_prefix(src, k):
                nk = self.rebase(k, src, dst)
                st.store[nk] = st.store[k]

    def rebase(self, k, src, dst):
        if k == src:
            return dst
        return (k[0], self.rebase(k[1], src, dst)) + k[2:]

    def record(self, st, ev):
        # what the addresses handed over point to, at this point
        mem = []
        for a in tuple(ev.args or ()) + ((ev.ret,) if ev.ret else ()):
            for x in T.subterms(a):
                if x and x[0] == 'addr' and len(x) == 2:
                    mem.append((x[1], self.load(st, x[1])))
        held = [a[1] for a, l in zip(ev.args or (), ev.alv or ()) if l is None and a[0] == 'in' and a[1][0] in ('var', 'tmp')]
        for l in tuple(ev.alv or ()) + tuple(held):
            if l and l[0] in ('var', 'tmp'):
                # the known parts of an object handed over
                mem += [(k, v) for k, v in st.store.items() if k[0] in ('fld', 'elem') and k != l and self.is_prefix(l, k)]
        if mem:
            ev.mem = tuple(dict(mem).items())
        if self.facts_on_events:
            ev.facts = frozenset(st.facts.items())
        else:
            ev.facts = frozenset()
        n = 0
        for e in st.mon:
            if e == ev:
                n += 1
        if n >= self.repeat:
            return
        if len(st.mon) < 400:
            st.mon = st.mon + (ev,)

    # ---------------------------------------------------------------- run
    def analyze(self, fn, init=None, args=None, thisv=None):
        """all path ends of fn as a root"""
        st = init or State()
        fr = Frame(fn, 0, thisv if thisv is not None else ('thisptr',), ())
        if args is not None:
            self.bind_params(fr, st, args, [None] * len(args))
        if not self.cut:
            return self.run(fr, st)
        # one outcome per loop iteration: repeat with everything an iteration changes already unknown at its start
        self.cutl, self.cutinv, self.cutdir = {}, {}, {}

        def state():
            return ({h: set(v) for h, v in self.cutl.items()}, repr(self.cutinv), {k: frozenset(v) for k, v in self.cutdir.items()})
        for _ in range(12):
            known = state()
            self.inner = []
            out = self.run(fr, st.copy()) + self.inner
            if state() == known:
                return out
        self.incomplete.append(fn.name)
        return out

    def bind_params(self, fr, st, args, alv):
        for i, p in enumerate(fr.fn.params):
            l = ('var', p['d'], p['n'], fr.depth)
            self.drop(st, l)
            if i >= len(args):
                continue
            if p.get('ref'):
                if alv[i] is not None:
                    st.store[('R', l)] = alv[i]
                else:
                    tmp = ('tmp', p['d'], fr.depth)
                    self.drop(st, tmp)
                    st.store[tmp] = args[i]
                    st.store[('R', l)] = tmp
            else:
                st.store[l] = args[i]
                if alv[i] is not None:
                    self.copy_sub(st, alv[i], l)

    def drop(self, st, l):
        for k in [k for k in st.store if self.is_prefix(l, k)]:
            del st.store[k]

    def run(self, fr, st0):
        fn = fr.fn
        self.covered.add(fn.key)
        outs = []
        seen = {}
        visits = {}
        wl = [(fn.entry, st0)]
        while wl:
            bid, st = wl.pop()
            if bid in fn.heads:
                listed = self.listed(fr, bid, st)
                if not listed and self.is_cut(fr, bid):
                    hk = self.head_key(fr, bid)
                    ends = outs if fr.depth == 0 else self.inner
                    st = st.copy()
                    if st.loops.get((fr.depth, bid), (-1,))[0] != -1:
                        o = Outcome('iter', None, st.copy(), fr.lastline)
                        o.head = hk
                        o.bound = self.bindings(fr, st)
                        if not any(x.head == hk and x.st.sig() == st.sig() for x in ends):
                            ends.append(o)
                        # what this iteration changes is unknown at the head in the next round
                        self.widen(fr, bid, st)
                        continue
                    else:
                        o = Outcome('enter', None, st.copy(), fr.lastline)
                        o.head = hk
                        o.bound = self.bindings(fr, st)
                        if fr.depth == 0 or not any(x.kind == 'enter' and x.head == hk and x.st.sig() == st.sig() for x in ends):
                            ends.append(o)
                    st.loops[(-1, 'from')] = (hk, self.bindings(fr, st))
                    st.mon = st.trail = ()
                    for k in [k for k in st.loops if k[0] > fr.depth or k[0] == fr.depth and k[1] != bid and k[1] in fn.loopblocks[bid]]:
                        del st.loops[k]
                if not listed:
                    st = self.widen(fr, bid, st)
                else:
                    # loops of the body start afresh for each of the values
                    st = st.copy()
                    for k in [k for k in st.loops if k[0] == fr.depth and k[1] != bid and k[1] in fn.loopblocks[bid] or k[0] > fr.depth]:
                        del st.loops[k]
            # forget memoised values that no other block uses
            for k in [k for k in st.memo if k[0] == fr.depth and k[1] not in fn.crossids
                      and k[1] not in ('ret', 'retline')]:
                del st.memo[k]
            s = st.sig()
            ss = seen.setdefault(bid, set())
            if s in ss:
                continue
            ss.add(s)
            visits[bid] = visits.get(bid, 0) + 1
            self.nstates += 1
            if visits[bid] > self.max_visits or self.nstates > self.max_states:
                self.incomplete.append(fn.name)
                continue
            if bid == fn.exit:
                if st.exc is not None:
                    outs.append(Outcome('throw', st.exc, st, fr.lastline))
                else:
                    rv = st.memo.pop((fr.depth, 'ret'), None)
                    rl = st.memo.pop((fr.depth, 'retline'), fn.line)
                    outs.append(Outcome('ret', rv, st, rl))
                continue
            wl.extend(self.block(fr, bid, st, outs))
        # merge identical outcomes
        return outs

    def listed(self, fr, head, st):
        """the loop goes over the values written in a braced list, which are taken one by one"""
        c = (fr.fn.blocks[head].get('t') or {}).get('c') or {}
        if (fr.fn.blocks[head].get('t') or {}).get('k') != 'CXXForRangeStmt' or c.get('k') != 'bin':
            return False
        x, y = c.get('x') or {}, c.get('y') or {}
        if x.get('k') != 'ref' or y.get('k') != 'ref':
            return False
        a, b = (st.store.get(self.varl(fr, st, z)) for z in (x, y))
        if not (a and b and a[0] == b[0] == 'iter' and a[1] == b[1] and a[2][0] == b[2][0] == 'int'):
            return False
        return (st.store.get(a[1]) or ('',))[0] == 'ilist'

    @staticmethod
    def bindings(fr, st):
        if not fr.depth:
            return ()
        r = ((p['n'], st.store.get(('R', ('var', p['d'], p['n'], fr.depth)))) for p in fr.fn.params)
        return tuple((n, l) for n, l in r if l is not None)

    def is_cut(self, fr, head):
        if fr.depth:
            return self.cut == 'deep'
        return self.cut and (head in fr.fn.outer or self.cut in ('all', 'deep'))

    @staticmethod
    def head_key(fr, head):
        return head if fr.depth == 0 else (fr.fn.key, head) + fr.path

    def widen(self, fr, head, st):
        k = (fr.depth, head)
        prev = st.loops.get(k)
        cut = self.is_cut(fr, head)
        bid, head = head, self.head_key(fr, head) if cut else head
        if prev is None or prev[0] == -1:
            st = st.copy()
            if cut:
                starts = {}
                for l, v in self.cutl.get(head, {}).items():
                    c = st.store.get(l, ('in', l))
                    starts[v[2] if v[0] == 'iter' else v] = c[2] if c[0] == 'iter' else c
                    root = l
                    while root[0] in ('fld', 'elem', 'R'):
                        root = root[1]
                    if l in st.store or root[0] not in ('var', 'tmp', 'cap') or any(
                            self.is_prefix(root, x) for x in st.store):
                        c = st.store.get(l)
                        if v[0] == 'iter' and c is not None and c[0] == 'iter':
                            v = ('iter', c[1], v[2])    # moves over the container it was started on
                        st.store[l] = v
                pset = {x for v in self.cutl.get(head, {}).values() for x in T.subterms(v) if x and x[0] == 'phi' and x[1] == head}
                for b in list(st.facts):
                    if T.mentions_any(b, pset):
                        del st.facts[b]
                for ph, a, d in self.cutinv.get(head, ()):
                    # from this start only, and if every iteration moves it that way
                    if starts.get(ph) != a or not self.cutdir.get((head, ph), set()) <= {0, 1 if d > 0 else -1}:
                        continue
                    self.assume(st, T.lt(ph, a) if d > 0 else T.lt(a, ph), False)
            st.loops[k] = (0, dict(st.store), dict(st.facts), ())
            return st
        n, pstore, pfacts, pinv = prev
        inv = []          # counters that only grow (or only shrink): (counter, start, step)
        st = st.copy()
        changed = []
        phis = []
        for l in set(pstore) | set(st.store):
            a, b = pstore.get(l), st.store.get(l)
            if a == b:
                continue
            if l not in pstore:
                # born in the loop body: locals and temporaries are dropped
                root = l
                while root[0] in ('fld', 'elem', 'R'):
                    root = root[1]
                if root[0] in ('var', 'tmp', 'cap') and not any(
                        self.is_prefix(root, x) for x in pstore) and l[0] != 'elem':
                    st.store.pop(l, None)
                    continue
                a = ('in', l)
                if b == a:
                    continue
            if b is None:
                b = ('in', l)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'iter' and b[0] == 'iter' and a[1] == b[1]:
                ph = ('phi', head, l)
                nv = ('iter', a[1], ph)
                phis.append(ph)
                self._trend(inv, pinv, ph, a[2], b[2])
                self._dir(cut, head, ph, a[2], b[2])
            elif isinstance(a, tuple) and a == ('phi', head, l):
                nv = a
                phis.append(a)
                self._trend(inv, pinv, a, a, b)
                self._dir(cut, head, a, a, b)
            elif a[0] == 'iter' and a[2] == ('phi', head, l):
                nv = a
                self.cutdir.setdefault((head, a[2]), set()).add('?') if cut else None
                phis.append(a[2])
            else:
                nv = ('phi', head, l)
                phis.append(nv)
                self._trend(inv, pinv, nv, a, b)
                self._dir(cut, head, nv, a, b)
                # keep knowledge of sign for loop counters
                if b in self.unsigned or a in self.unsigned:
                    self.unsigned.add(nv)
                elif self._unsigned_l(l):
                    self.unsigned.add(nv)
                if self._monotone(a, b) and a[0] == 'int' and a[1] >= 0:
                    self.unsigned.add(nv)
            if l[0] == 'R':
                if a != b:
                    st.store[l] = ('deref', ('phi', head, l))
                continue
            st.store[l] = nv
            changed.append(l)
        # facts: keep those already known before the iteration, not about phis
        if phis:
            pset = set(phis)
            for b in list(st.facts):
                if T.mentions_any(b, pset):
                    del st.facts[b]
            for l in list(st.store):
                if l in changed:
                    continue
                if l not in pstore and T.mentions_any(l, pset) and l[0] == 'elem':
                    # element written in the iteration, at a widened index
                    del st.store[l]
        for b in list(st.facts):
            if b not in pfacts:
                del st.facts[b]
            elif st.facts[b] != pfacts[b]:
                st.facts[b] = self._join(st.facts[b], pfacts[b])
        changed_l = list(changed)
        changed = {x[0] for x in inv} | set(phis)
        inv += [x for x in pinv if x[0] not in changed]
        for ph, a, d in inv:
            if d > 0:
                self.assume(st, T.lt(ph, T.add(a, I(d))), False)
            elif d < 0:
                self.assume(st, T.lt(T.add(a, I(d)), ph), False)
        st.memo = {k2: v for k2, v in st.memo.items() if k2[0] != fr.depth or k2[1] in ('ret',)}
        if cut:
            for l in changed_l:
                if l in st.store:
                    self.cutl.setdefault(head, {})[l] = st.store[l]
            for x in inv:
                if x not in self.cutinv.setdefault(head, []):
                    self.cutinv[head].append(x)
        st.loops[k] = (1, dict(st.store), dict(st.facts), tuple(sorted(inv, key=repr)))
        return st

    @staticmethod
    def _trend(inv, pinv, ph, a, b):
        """keep 'the counter has moved at least this far from its start' while every iteration moves it the same way"""
        d = T.sub(b, a)
        if d[0] != 'int':
            return
        if a == ph:
            for x in pinv:
                if x[0] == ph and (d[1] >= 0) == (x[2] > 0):
                    inv.append(x)
        elif d[1] and not any(x[0] == 'phi' and x[1] == ph[1] for x in T.subterms(a)):
            inv.append((ph, a, d[1]))

    def _dir(self, cut, head, ph, a, b):
        if cut:
            d = T.sub(b, a)
            self.cutdir.setdefault((head, ph), set()).add((d[1] > 0) - (d[1] < 0) if d[0] == 'int' else '?')

    def _unsigned_l(self, l):
        return l in self.unsigned

    @staticmethod
    def _monotone(a, b):
        d = T.sub(b, a)
        return d[0] == 'int' and d[1] > 0

    @staticmethod
    def _join(x, y):
        lo = None if x[0] is None or y[0] is None else min(x[0], y[0])
        hi = None if x[1] is None or y[1] is None else max(x[1], y[1])
        return (lo, hi, x[2] & y[2])

    def block(self, fr, bid, st, outs):
        """-> list of (successor, state)"""
        fn = fr.fn
        b = fn.blocks[bid]
        succs = b['s']
        states = [st.copy()]
        if b.get('catch'):
            for s in states:
                s.exc = None
                if 'd' in b['catch']:
                    self.drop(s, ('var', b['catch']['d'], 'exc', fr.depth))
                if self.record_catch:
                    self.record(s, Event(kind='catch', name=b['catch'].get('t') or '...', args=(), line=0, file=fn.file, fn=fn.name,
                                         depth=fr.depth, alv=(), locks=()))
        res = []
        for e in b['e']:
            if e is None:
                continue
            nxt = []
            for s in states:
                if self.nstates > self.max_states:
                    break
                for kind, s2 in self.element(fr, bid, e, s):
                    if kind == 'ok':
                        nxt.append(s2)
                    elif kind == 'throw':
                        tgt = self.handler(fr, bid, b, e.get('l', 0))
                        if tgt is None:
                            # automatic objects of this frame are destroyed
                            s2.locks = tuple(x for x in s2.locks if not (x[0][0] == 'var' and len(x[0]) > 3
                                                                         and x[0][3] == fr.depth))
                            fr.lastline = e.get('l', 0)
                            for l in [k[1] for k in s2.store if k[0] == 'deleter' and k[1][0] == 'var' and k[1][3:] == (fr.depth,)]:
                                self.release(fr, s2, l, e, inline=False)
                            outs.append(Outcome('throw', s2.exc, s2, e.get('l', 0)))
                        else:
                            res.append((tgt, s2))
                    elif kind == 'noreturn':
                        outs.append(Outcome('noreturn', None, s2, e.get('l', 0)))
            states = nxt
            if not states:
                return res
        t = b.get('t')
        if not t:
            # normal successor is the first; a second one is the exception edge
            for s in states:
                if b.get('noret'):
                    outs.append(Outcome('noreturn', None, s, 0))
                    continue
                if len(succs) >= 2 and succs[1] is not None and succs[1] != fn.exit \
                        and self.is_dispatch(fn, succs[1]):
                    s2 = s.copy()
                    s2.exc = ('opaque-exception',)
                    res.append((succs[1], s2))
                if succs and succs[0] is not None:
                    res.append((succs[0], s))
            return res
        k = t['k']
        if k == 'CXXTryStmt':
            for s in states:
                caught = False
                for x in succs:
                    if x is None or caught:
                        continue
                    c = fn.blocks[x].get('catch')
                    caught = bool(c) and self.must_catch(c.get('t'), s.exc)
                    if c is None and x == fn.exit:
                        if s.exc is not None and any(fn.blocks[y].get('catch', {}).get('t') == '...'
                                                     for y in succs if y is not None):
                            continue
                        res.append((x, s.copy()))
                    else:
                        if c and self.may_catch(c.get('t'), s.exc):
                            res.append((x, s.copy()))
            return res
        if k == 'SwitchStmt':
            for s in states:
                v = self.ev(fr, s, t['c'])
                rest = s.copy()
                for x in succs:
                    if x is None:
                        continue
                    cb = fn.blocks[x]
                    if 'case' in cb and x != succs[-1]:
                        cv = cb['case'].get('cv')
                        c = T.eq(v, I(int(cv))) if cv is not None else None
                        if c is None:
                            res.append((x, s.copy()))
                            continue
                        s2 = rest.copy()
                        if self.assume(s2, c, True):
                            res.append((x, s2))
                        if not self.assume(rest, c, False):
                            rest = None
                            break
                    elif x == succs[-1]:
                        if 'case' in cb and cb['case'].get('cv') is not None and not cb.get('default'):
                            c = T.eq(v, I(int(cb['case']['cv'])))
                            s2 = rest.copy()
                            if self.assume(s2, c, True):
                                res.append((x, s2))
                        else:
                            res.append((x, rest.copy()))
                    else:
                        res.append((x, s.copy()))
            return res
        if 'c' in t and len(succs) == 2 and not t.get('tmpd'):
            for s in states:
                c = self.as_cond(self.ev(fr, s, t['c']))
                tv = self.truth(s.facts, c)
                self.branches += 1
                for i, val in ((0, True), (1, False)):
                    if succs[i] is None:
                        continue
                    if tv is not None and tv != val:
                        continue
                    s2 = s.copy()
                    if tv is None:
                        if not self.assume(s2, c, val):
                            continue
                        s2.trail = s2.trail + (('%s:%d' % (fn.file, t.get('l', 0)), val),) \
                            if len(s2.trail) < 60 else s2.trail
                        if self.record_assume and (self.record_assume is True or self.record_assume(c)):
                            ev = Event(kind='assume', name='assume', args=(c, I(1 if val else 0)), line=t.get('l', 0),
                                       file=fn.file, fn=fn.name, depth=fr.depth, alv=(), locks=())
                            self.record(s2, ev)
                    res.append((succs[i], s2))
            return res
        for s in states:
            for x in succs:
                if x is not None:
                    res.append((x, s.copy()))
        return res

    def as_cond(self, v):
        if T.is_bool(v) or v[0] == 'int':
            return v
        return T.lnot(T.eq0(v))

    def is_dispatch(self, fn, bid):
        t = fn.blocks[bid].get('t')
        return bool(t and t['k'] == 'CXXTryStmt')

    def may_catch(self, ct, exc):
        if ct is None or ct == '...':
            return True
        if exc is None or exc == ('opaque-exception',):
            return True
        et = exc[1] if len(exc) > 1 and isinstance(exc[1], str) else None
        if et is None:
            return True
        base = ct.replace('const ', '').replace('&', '').strip()
        if base == et or base == 'std::exception':
            return True
        up = {'std::runtime_error': (), 'std::logic_error': ('std::invalid_argument', 'std::out_of_range',
                                                             'std::domain_error', 'std::length_error')}
        return et in up.get(base, ())

    BASES = {'std::runtime_error': ('std::exception',), 'std::logic_error': ('std::exception',), 'std::bad_alloc': ('std::exception',)}
    BASES.update({'std::' + x: ('std::logic_error', 'std::exception') for x in ('invalid_argument', 'out_of_range', 'domain_error', 'length_error')})
    BASES.update({'std::' + x: ('std::runtime_error', 'std::exception') for x in ('range_error', 'overflow_error', 'underflow_error', 'system_error')})

    def must_catch(self, t, exc):
        if t in (None, '...'):
            return True
        t = t.replace('const ', '').replace('&', '').strip()
        return exc is not None and exc[0] == 'exc' and (t == exc[1] or t in self.BASES.get(exc[1], ()))

    def handler(self, fr, bid, b, line):
        fn = fr.fn
        for s in b['s']:
            if s is not None and self.is_dispatch(fn, s):
                return s
        # constructors carry no exception edge: use the source range of the try
        best = None
        for x in fn.blocks.values():
            t = x.get('t')
            if t and t['k'] == 'CXXTryStmt' and t.get('l2') and t['l'] <= line <= t['l2']:
                if best is None or t['l'] > fn.blocks[best]['t']['l']:
                    best = x['id']
        return best

    # ---------------------------------------------------------------- elements
    def element(self, fr, bid, e, st):
        """-> [(kind, state)]"""
        k = e.get('k')
        if k == 'decl':
            for v in e['vars']:
                l = ('var', v['d'], v['n'], fr.depth)
                init = v.get('init')
                if v.get('static'):
                    continue
                if v.get('ref'):
                    if init:
                        tl = self.lv(fr, st, init)
                        st.store[('R', l)] = tl
                    continue
                if init and init.get('k') == 'ctor' and (fr.depth, init['id']) in st.memo:
                    m = st.memo[(fr.depth, init['id'])]
                    if m[0] == 'built' and m[1] == l:
                        continue
                if init is None:
                    self.drop(st, l)
                    st.store[l] = ('uninit', v['d'], v['n'])
                    self.note_type(v.get('t'), l)
                else:
                    il = self.maybe_lv(fr, st, init)
                    val = self.ev(fr, st, init)
                    self.drop(st, l)
                    st.store[l] = val
                    if il is not None:
                        self.copy_sub(st, il, l)
                    self.note_type(v.get('t'), l)
                    if self.record_write:
                        self.assign(st, l, val, fr, e.get('l', 0), 'init')
                for bnd in v.get('bind', ()):
                    bl = ('var', bnd['d'], bnd['n'], fr.depth)
                    if bnd.get('e'):
                        st.store[('R', bl)] = self.lv(fr, st, bnd['e'])
            return [('ok', st)]
        if k == 'ret':
            if e.get('e'):
                if fr.fn.j.get('retref'):
                    l = self.lv(fr, st, e['e'])
                    st.memo[(fr.depth, 'ret')] = ('lval', l)
                else:
                    il = self.maybe_lv(fr, st, e['e'])
                    v = self.ev(fr, st, e['e'])
                    if il is not None and (v[0] == 'in' or fr.depth and v[:2] == ('obj', 'std::array')):
                        # keep parts of a returned object
                        rl = ('retobj', fr.depth)
                        self.drop(st, rl)
                        self.copy_sub(st, il, rl)
                        if any(self.is_prefix(rl, x) for x in st.store):
                            st.store.setdefault(rl, v)
                            v = ('in', rl)
                            del st.store[rl]
                    st.memo[(fr.depth, 'ret')] = v
            else:
                st.memo.pop((fr.depth, 'ret'), None)
            st.memo[(fr.depth, 'retline')] = e.get('l', 0)
            fr.lastline = e.get('l', 0)
            return [('ok', st)]
        if k == 'init':
            if 'f' in e:
                base = self.deref(fr.thisv)
                l = ('fld', base, e['f'])
                ie = e.get('e')
                if ie is None:
                    return [('ok', st)]
                if e.get('ref'):
                    st.store[('R', l)] = self.lv(fr, st, ie)
                    return [('ok', st)]
                if ie.get('k') == 'ctor' and (fr.depth, ie['id']) in st.memo \
                        and st.memo[(fr.depth, ie['id'])] == ('built', l):
                    return [('ok', st)]
                il = self.maybe_lv(fr, st, ie)
                v = self.ev(fr, st, ie)
                self.assign(st, l, v, fr, e.get('l', 0), 'init')
                self.note_type(e.get('t'), l)
                if il is not None:
                    self.copy_sub(st, il, l)
                return [('ok', st)]
            ie = e.get('e')
            if ie and ie.get('k') == 'ctor':
                return self.do_call(fr, st, ie, tgt=self.deref(fr.thisv))
            return [('ok', st)]
        if k == 'dtor':
            if e.get('dk') != 'auto':
                return [('ok', st)]
            l = ('var', e['d'], e['n'], fr.depth)
            if any(g == l for g, _ in st.locks):
                st.locks = tuple(x for x in st.locks if x[0] != l)
                return [('ok', st)]
            fn = self.p.fns.get(e.get('fk'))
            if (e.get('fn') or '').startswith('std::unique_ptr::'):
                held = self.load(st, l)
                if ('deleter', l) in st.store:
                    r = self.release(fr, st, l, e)
                    if r is not None:
                        return r
                elif held != ZERO and self.truth(st.facts, T.eq0(held)) is not True:
                    ev = Event(kind='call', name='delete', args=(held,), alv=(None,), line=e.get('l', 0), file=fr.fn.file,
                               fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth)
                    if self.interest and self.interest(ev):
                        self.record(st, ev)
            ev = Event(kind='call', name=(e.get('fn') or 'X::(dtor)'), args=(), alv=(), obj=l, line=e.get('l', 0),
                       file=fr.fn.file, fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth,
                       fk=e.get('fk'))
            if self.interest and self.interest(ev):
                self.record(st, ev)
            if fn and fn.blocks and self.can_inline(fr, fn, ev.name, e):
                return self.inline(fr, st, fn, [], [], ('addr', l), e, None)
            return [('ok', st)]
        if k in ('call', 'ctor'):
            return self.do_call(fr, st, e)
        if k == 'new':
            return self.do_new(fr, st, e)
        if k == 'throw':
            v = self.ev(fr, st, e['e']) if e.get('e') else None
            st.exc = ('exc', (e.get('tt') or '?').replace('const ', ''), v) if e.get('e') else \
                (st.exc or ('opaque-exception',))
            if st.exc[0] == 'exc':
                st.exc = ('exc', st.exc[1], e.get('l', 0))
            ev = Event(kind='throw', name='throw', args=(v,) if v else (), alv=(), line=e.get('l', 0), file=fr.fn.file,
                       fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth)
            if self.interest and self.interest(ev):
                self.record(st, ev)
            return [('throw', st)]
        if k == 'del':
            v = self.ev(fr, st, e['e'])
            ev = Event(kind='call', name='delete[]' if e.get('arr') else 'delete', args=(v,), alv=(None,),
                       line=e.get('l', 0), file=fr.fn.file, fn=fr.fn.name, locks=tuple(m for _, m in st.locks),
                       depth=fr.depth)
            if self.interest and self.interest(ev):
                self.record(st, ev)
            return [('ok', st)]
        if k == 'stmt':
            return [('ok', st)]
        # expression with possible side effects
        v = self.ev(fr, st, e, element=True)
        return [('ok', st)]

    def note_type(self, t, l):
        t = bare(t)
        if t in ('unsigned char', 'char', 'signed char', 'unsigned short'):
            self.small[('in', l)] = t
        if t and (t.startswith('unsigned') or t in ('std::size_t',)):
            self.unsigned.add(('in', l))
            self.unsigned.add(l)

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'iter':
            return ('elem', v[1], v[2])
        return ('deref', v)

    # ---------------------------------------------------------------- lvalues
    def varl(self, fr, st, e):
        if e.get('dk') == 'global' or e.get('dk') == 'static':
            l = ('glob', e.get('qn') or e['n'])
            self.seen(fr, st, l, e)
            return l
        l = ('var', e['d'], e['n'], fr.depth)
        seen = 0
        while ('R', l) in st.store and seen < 20:
            l = st.store[('R', l)]
            seen += 1
        if seen and l[0] == 'glob':
            self.seen(fr, st, l, e)
        return l

    def seen(self, fr, st, l, e):
        if self.watch and self.watch(l):
            self.record(st, Event(kind='use', name=l[1], args=(), alv=(), obj=l, line=e.get('l', fr.fn.line), file=fr.fn.file,
                                  fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth))

    def maybe_lv(self, fr, st, e):
        """the lvalue an expression designates (also below a copy/move), or None"""
        k = e.get('k')
        if k == 'ctor' and (e.get('copy') or e.get('move')) and e.get('a'):
            return self.maybe_lv(fr, st, e['a'][0])
        if e.get('lv') or (k == 'call' and e.get('fn') in IDENT_FREE):
            if k in ('str',):
                return None
            return self.lv(fr, st, e)
        m = st.memo.get((fr.depth, e.get('id')))
        if m and m[0] == 'built':
            return m[1]
        if k == 'call' and m and m[0] == 'v' and m[1][0] == 'in':
            return m[1][1]
        if k == 'cast' and e.get('e'):
            if e.get('ck') == 'IntegralCast' and self.SIZES.get(bare(e.get('t')), 64) < self.SIZES.get(bare(e['e'].get('t')), 0):
                return None
            return self.maybe_lv(fr, st, e['e'])
        return None

    def lv(self, fr, st, e):
        k = e.get('k')
        m = st.memo.get((fr.depth, e.get('id')))
        if m:
            if m[0] == 'l':
                return m[1]
            if m[0] == 'built':
                return m[1]
        if k == 'ref':
            if e.get('dk') == 'func':
                return ('fnl', e.get('qn'))
            if e.get('dk') == 'binding' and e.get('hv'):
                l = ('var', e['d'], e['n'], fr.depth)
                return st.store.get(('R', l), l)
            return self.varl(fr, st, e)
        if k == 'mem':
            b = e['b']
            if e.get('arrow'):
                base = self.deref(self.ev(fr, st, b))
            else:
                base = self.lv(fr, st, b) if b.get('lv') else self.tmp(fr, st, b)
            l = ('fld', base, e['f'])
            if e.get('refT'):
                r = st.store.get(('R', l))
                if r is None:
                    r = ('deref', ('in', ('R', l)))
                return r
            if 'atomic<unsigned' in (e.get('t') or ''):
                self.unsigned.add(('in', l))
                self.unsigned.add(l)
            else:
                self.note_type(e.get('t'), l)
            return l
        if k == 'this':
            return ('thisl',)
        if k == 'idx':
            b = e['b']
            i = self.ev(fr, st, e['i'])
            if '[' in (b.get('t') or '') and b.get('lv'):
                return ('elem', self.lv(fr, st, b), i)
            p = self.ev(fr, st, b)
            return ('elem', self.deref(p), i)
        if k == 'un':
            if e['op'] == '*':
                return self.deref(self.ev(fr, st, e['e']))
            if e['op'] in ('++', '--'):
                self.ev(fr, st, e)
                return self.lv(fr, st, e['e'])
            return self.lv(fr, st, e['e'])
        if k == 'asg':
            self.ev(fr, st, e)
            return self.lv(fr, st, e['x'])
        if k == 'bin' and e['op'] == ',':
            self.ev(fr, st, e['x'])
            return self.lv(fr, st, e['y'])
        if k == 'bin' and e['op'] in ('.*', '->*'):
            m = self.ev(fr, st, e['y'])
            x = e['x']
            b = self.deref(self.ev(fr, st, x)) if e['op'] == '->*' else self.lv(fr, st, x) if x.get('lv') else self.tmp(fr, st, x)
            return ('fld', b, m[1]) if m[0] == 'memptr' else ('deref', ('op', '.*', ('addr', b), m))
        if k == 'cond':
            c = self.as_cond(self.ev(fr, st, e['c']))
            tv = self.truth(st.facts, c)
            if tv is True:
                return self.lv(fr, st, e['x'])
            if tv is False:
                return self.lv(fr, st, e['y'])
            return ('deref', ('ite', c, e['id']))
        if k == 'cast':
            ie = e['e']
            if ie.get('lv'):
                return self.lv(fr, st, ie)
            return self.tmp(fr, st, e)
        if k == 'call':
            r = self.call_value(fr, st, e, want='l')
            if r[0] == 'l':
                return r[1]
            v = r[1]
            if v[0] == 'in':
                return v[1]
            if e.get('lv'):
                return ('deref', ('refof', v))
            tl = ('tmp', e['id'], fr.depth)
            st.store[tl] = v
            return tl
        return self.tmp(fr, st, e)

    def tmp(self, fr, st, e):
        m = st.memo.get((fr.depth, e.get('id')))
        if m and m[0] == 'built':
            return m[1]
        v = self.ev(fr, st, e)
        if v[0] == 'in' and e.get('k') in ('ctor', 'call'):
            return v[1]
        tl = ('tmp', e.get('id'), fr.depth)
        st.store[tl] = v
        return tl

    # ---------------------------------------------------------------- values
    def mark(self, e, v):
        t = bare(e.get('t'))
        if v[0] not in ('int', 'lin'):
            # the type that counts is that of the expression that made the value, not of a variable it was put in
            if t in self.SIZES and self.typed.setdefault(v, t).startswith('unsigned') != t.startswith('unsigned') and t != 'bool' and self.typed[v] != 'bool':
                return v
            if t in ('unsigned char', 'unsigned short'):
                self.small.setdefault(v, t)
            if t.startswith('unsigned') or t == 'bool':
                self.unsigned.add(v)
                if t == 'bool':
                    self.boolish.add(v)
        return v

    def ev(self, fr, st, e, element=False):
        if e is None:
            return ('none',)
        if 'cv' in e and e.get('k') not in ('asg', 'call'):
            return I(int(e['cv']))
        if e.get('k') in ('ref', 'mem', 'idx') and e.get('lv') and (e.get('t') or '').endswith(']') and \
                re.search(r'\[\d+\]$', e['t']):
            # arrays decay where a value is needed
            return ('addr', ('elem', self.lv(fr, st, e), ZERO))
        k = e.get('k')
        m = st.memo.get((fr.depth, e.get('id')))
        if m is not None and not element:
            if m[0] == 'v':
                return m[1]
            if m[0] == 'l':
                return self.mark(e, self.load(st, m[1]))
            if m[0] == 'built':
                v = self.load(st, m[1])
                return v
        if k == 'int':
            return I(int(e.get('cv', 0)))
        if k == 'bool':
            return I(1 if e['v'] else 0)
        if k in ('null', 'zero'):
            return ZERO
        if k == 'str':
            return ('str', e['v'])
        if k == 'float':
            return ('flt', e['v'])
        if k == 'ref':
            if e.get('dk') == 'func':
                return ('fn', e.get('qn'), e.get('fk'))
            l = self.lv(fr, st, e)
            return self.mark(e, self.load(st, l))
        if k in ('mem', 'idx'):
            if k == 'mem' and not e['b'].get('lv') and not e.get('arrow'):
                bv = self.ev(fr, st, e['b'])
                if bv[0] != 'in':
                    return self.mark(e, self.field_of(st, bv, e['f']))
            l = self.lv(fr, st, e)
            return self.mark(e, self.load(st, l))
        if k == 'this':
            return fr.thisv
        if k == 'un':
            op = e['op']
            if op in ('++', '--'):
                l = self.lv(fr, st, e['e'])
                old = self.mark(e['e'], self.load(st, l))
                if old[0] == 'iter':
                    new = ('iter', old[1], T.add(old[2], ONE, 1 if op == '++' else -1))
                else:
                    new = self.narrow(e.get('t'), T.add(old, ONE, 1 if op == '++' else -1))
                if (e.get('t') or '').startswith('unsigned') and op == '++':
                    self.unsigned.add(new)
                self.assign(st, l, new, fr, e.get('l', 0), op)
                r = old if e.get('post') else new
                st.memo[(fr.depth, e['id'])] = ('v', r) if e.get('post') else ('l', l)
                return r
            if op == '*':
                return self.mark(e, self.load(st, self.lv(fr, st, e)))
            if op == '&':
                se = e['e']
                if se.get('k') == 'methodref' or (se.get('k') == 'ref' and se.get('dk') == 'func'):
                    return ('fn', se.get('qn') or se.get('n'), se.get('fk'))
                if se.get('k') == 'ref' and se.get('dk') == 'other':
                    return ('memptr', se['n'])
                l = self.lv(fr, st, se)
                if l[0] == 'deref':
                    return l[1]
                if l[0] == 'fnl':
                    return ('fn', l[1], None)
                return ('addr', l)
            if op == '!':
                v = self.ev(fr, st, e['e'])
                return T.lnot(v if T.is_bool(v) or v[0] == 'int' else T.lnot(T.eq0(v)))
            if op == '-':
                return T.sub(ZERO, self.ev(fr, st, e['e']))
            if op == '+':
                return self.ev(fr, st, e['e'])
            v = self.ev(fr, st, e['e'])
            return ('op', op, v)
        if k == 'bin' and e['op'] in ('.*', '->*'):
            return self.load(st, self.lv(fr, st, e))
        if k == 'bin':
            return self.binary(fr, st, e)
        if k == 'asg':
            op = e['op']
            if op == '=':
                v = self.ev(fr, st, e['y'])
                il = self.maybe_lv(fr, st, e['y'])
                l = self.lv(fr, st, e['x'])
                self.assign(st, l, v, fr, e.get('l', 0), '=')
                if il is not None and il != l:
                    self.copy_sub(st, il, l)
            else:
                y = self.ev(fr, st, e['y'])
                l = self.lv(fr, st, e['x'])
                x = self.mark(e['x'], self.load(st, l))
                if x[0] == 'iter' and op in ('+=', '-='):
                    v = ('iter', x[1], T.add(x[2], y, 1 if op == '+=' else -1))
                else:
                    v = T.binop(op[:-1], x, y)
                if op in ('+=', '-=', '*=', '<<='):
                    v = self.narrow(e.get('t'), v)
                self.mark(e['x'], v)
                self.assign(st, l, v, fr, e.get('l', 0), op)
            st.memo[(fr.depth, e['id'])] = ('l', l)
            return v
        if k == 'cond':
            c = self.as_cond(self.ev(fr, st, e['c']))
            tv = self.truth(st.facts, c)
            if tv is True:
                return self.ev(fr, st, e['x'])
            if tv is False:
                return self.ev(fr, st, e['y'])
            return ('ite', c, self.ev(fr, st, e['x']), self.ev(fr, st, e['y']))
        if k == 'cast':
            return self.cast(fr, st, e)
        if k in ('call',):
            r = self.call_value(fr, st, e, want='v')
            if r[0] == 'l':
                return self.mark(e, self.load(st, r[1]))
            return self.mark(e, r[1])
        if k == 'ctor':
            # not yet evaluated as an element
            return self.ctor_value(fr, st, e)
        if k == 'new':
            r = self.do_new(fr, st, e)
            return ('new', e.get('nt'), e['id'])
        if k == 'lam':
            caps = []
            for c in e['caps']:
                if c.get('this'):
                    caps.append(('this', 'v', fr.thisv))
                else:
                    l = ('var', c['d'], c['n'], fr.depth)
                    n = 0
                    while ('R', l) in st.store and n < 20:
                        l = st.store[('R', l)]
                        n += 1
                    if c.get('ref'):
                        caps.append((c['d'], c['n'], 'r', l))
                    else:
                        v = self.ev(fr, st, c['init']) if c.get('init') else self.load(st, l)
                        if v[0] == 'arrcopy':
                            v = self.load(st, l)
                        caps.append((c['d'], c['n'], 'v', v))
            return ('lam', e['fn'], tuple(caps))
        if k == 'ilist':
            vs = tuple(self.ev(fr, st, x) for x in e['a'])
            if e.get('fs') and len(e['fs']) >= len(vs):
                return ('rec', tuple(zip(e['fs'], vs)))
            if len(vs) == 1 and '[' not in (e.get('t') or '') and not e.get('fs'):
                return vs[0]
            return ('ilist', vs)
        if k == 'sizeof':
            return I(int(e['cv'])) if 'cv' in e else ('sizeof', e['of'])
        if k == 'throw':
            return ('none',)
        if k == 'arrcopy':
            return self.ev(fr, st, e['e'])
        if k == 'methodref':
            return ('fn', e.get('n'), None)
        if k == 'other':
            vs = tuple(self.ev(fr, st, x) for x in e.get('a', []) if x)
            if e.get('cls') in ('CXXFunctionalCastExpr',) and len(vs) == 1:
                return vs[0]
            return ('x', e.get('cls'), vs)
        if k == 'del':
            self.element(fr, None, e, st)
            return ('none',)
        return ('x', k, e.get('id'))

    SIZES = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
             'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}

    def narrow(self, t, v):
        """v as it is once stored in a small integer: a counter that wraps does not count"""
        b = self.SIZES.get(bare(t))
        if b in (8, 16) and v[0] != 'int':
            return ('trunc', t, v)
        return v

    def holds(self, st, t, v):
        """the branches taken show that v is not changed by a conversion to t"""
        b = self.SIZES[t]
        if b < 8:
            return False
        lo, hi = (0, 1 << b) if t.startswith('unsigned') else (-(1 << b - 1), 1 << b - 1)
        if v in self.small and t.startswith('unsigned') == self.small[v].startswith('unsigned') and self.SIZES[self.small[v]] <= b:
            return True
        if self.truth(st.facts, T.lt(v, I(lo))) is not False:
            return False
        if self.truth(st.facts, T.lt(v, I(hi))) is True:
            return True
        return any(self.SIZES[u] <= b and self.truth(st.facts, T.lt(x, v)) is False for x, u in self.small.items() if u.startswith('unsigned') and any(T.mentions(k, x) for k in st.facts))

    def cast(self, fr, st, e):
        ck = e.get('ck')
        ie = e['e']
        if ck in ('ConstructorConversion', 'UserDefinedConversion', 'NoOp', 'LValueToRValue', 'DerivedToBase',
                  'UncheckedDerivedToBase'):
            return self.ev(fr, st, ie)
        v = self.ev(fr, st, ie)
        if ck == 'ToVoid':
            return ('none',)
        if ck in ('IntegralCast', 'FloatingToIntegral'):
            t = bare(e.get('t'))
            a, b = self.SIZES.get(bare(ie.get('t'))), self.SIZES.get(t)
            if a and b and b < a and v[0] != 'int':
                if self.holds(st, t, v):
                    return v
                self.cuts.add((fr.fn.key, e.get('id')))
                return self.mark(e, ('trunc', t, v))
            if v[0] == 'int' and b and t.startswith('unsigned'):
                return I(v[1] % (1 << b))
            if ck == 'FloatingToIntegral':
                return ('toint', v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return self.as_cond(v)
        return v

    def binary(self, fr, st, e):
        op = e['op']
        if op == '&&':
            a = self.as_cond(self.ev(fr, st, e['x']))
            tv = self.truth(st.facts, a)
            if tv is False:
                return ZERO
            if tv is True:
                return self.as_cond(self.ev(fr, st, e['y']))
            return ('and', a, self.as_cond(self.ev(fr, st, e['y'])))
        if op == '||':
            a = self.as_cond(self.ev(fr, st, e['x']))
            tv = self.truth(st.facts, a)
            if tv is True:
                return ONE
            if tv is False:
                return self.as_cond(self.ev(fr, st, e['y']))
            return ('or', a, self.as_cond(self.ev(fr, st, e['y'])))
        if op == ',':
            self.ev(fr, st, e['x'])
            return self.ev(fr, st, e['y'])
        a = self.ev(fr, st, e['x'])
        b = self.ev(fr, st, e['y'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return T.cmp(op, a, b)
        if op == '+' and b[0] == 'iter' and a[0] != 'iter':
            a, b = b, a
        if op in '+-' and a[0] == 'iter' and not T.has_tag(b, 'iter'):
            return ('iter', a[1], T.add(a[2], b, 1 if op == '+' else -1))
        r = T.binop(op, a, b)
        if op not in ('-',):
            self.mark(e, r)
            if r[0] == 'lin' and (e.get('t') or '').startswith('unsigned'):
                b2, s, k2 = T.base_of(r)
                if s > 0 and all(c > 0 for _, c in r[1]) and r[2] <= 0 and op == '+' and False:
                    self.unsigned.add(b2)
        return r

    # ---------------------------------------------------------------- calls
    def call_value(self, fr, st, e, want):
        """value/lvalue of a call; evaluates it when it is not memoised"""
        m = st.memo.get((fr.depth, e.get('id')))
        if m is None:
            r = self.do_call(fr, st, e)
            ok = [s for kd, s in r if kd == 'ok']
            if not ok:
                return ('v', ('none',))
            # evaluated out of element order: keep the first continuation
            if ok[0] is not st:
                self.become(st, ok[0])
            m = st.memo.get((fr.depth, e.get('id')))
            if m is None:
                return ('v', ('none',))
        if m[0] == 'l':
            return ('l', m[1])
        if m[0] == 'built':
            return ('l', m[1])
        return ('v', m[1])

    @staticmethod
    def become(st, o):
        for s in ('store', 'facts', 'memo', 'locks', 'mon', 'trail', 'loops', 'exc'):
            setattr(st, s, getattr(o, s))

    def ctor_value(self, fr, st, e):
        if (e.get('copy') or e.get('move')) and e.get('a'):
            return self.ev(fr, st, e['a'][0])
        r = self.do_call(fr, st, e)
        ok = [s for kd, s in r if kd == 'ok']
        if ok and ok[0] is not st:
            self.become(st, ok[0])
        m = st.memo.get((fr.depth, e.get('id')))
        if m is None:
            return ('none',)
        if m[0] == 'built':
            return self.load(st, m[1])
        return m[1]

    def eval_args(self, fr, st, e):
        vals, lvs = [], []
        pm = e.get('pm') or []
        for i, a in enumerate(e.get('a') or []):
            mode = pm[i] if i < len(pm) else 'v'
            l = None
            if a is None:
                vals.append(('none',))
                lvs.append(None)
                continue
            v = self.ev(fr, st, a)
            if mode in ('r', 'cr', 'rr') or (mode == 'v' and a.get('k') == 'ctor'):
                l = self.maybe_lv(fr, st, a)
            vals.append(v)
            lvs.append(l)
        return tuple(vals), tuple(lvs), pm

    def can_inline(self, fr, fn, name, e):
        if name in self.opaque:
            return False
        if self.opaque_if and self.opaque_if(name, fn):
            return False
        if fr.depth + 1 > self.max_depth:
            return False
        if fn.key in fr.stack or fn.key == fr.fn.key:
            return False
        if e.get('virt') and not e.get('qual') and not self.inline_virtual(fn, e):
            return False
        if self.inline_if and not self.inline_if(name, fn):
            return False
        return True

    def inline_virtual(self, fn, e):
        # a virtual call is resolved when no class of the program overrides it
        for f in self.p.fns.values():
            if fn.name in (f.j.get('over') or ()):
                return False
        return True

    def setmemo(self, fr, st, e, kind, v):
        st.memo[(fr.depth, e['id'])] = (kind, v)

    def refresh(self, st, t):
        """an impure call is evaluated again: values of the previous one are stale"""
        old = ('old',) + t
        hit = False
        for l in list(st.store):
            v = st.store[l]
            if isinstance(v, tuple) and T.mentions(v, t):
                st.store[l] = T.subst(v, t, old)
                hit = True
        for b in list(st.facts):
            if T.mentions(b, t):
                del st.facts[b]

    def do_call(self, fr, st, e, tgt=None):
        name = e.get('fn')
        if e['k'] == 'ctor':
            return self.do_ctor(fr, st, e, tgt)
        objl = None
        objv = None
        if e.get('obj'):
            o = e['obj']
            if e.get('arrow'):
                pv = self.ev(fr, st, o)
                objl = self.deref(pv)
            else:
                objl = self.maybe_lv(fr, st, o)
                if objl is None:
                    objl = self.tmp(fr, st, o)
            if objl == ('thisl',):
                objl = self.deref(fr.thisv)
            objv = self.load(st, objl)
        vals, lvs, pm = self.eval_args(fr, st, e)
        if name is None:
            cal = self.ev(fr, st, e['cal']) if e.get('cal') else ('none',)
            name = 'indirect:' + (T.show(cal))
            objv = cal
            if cal[0] == 'fn' and cal[1]:
                name = cal[1]
        if name in ('__builtin_expect', '__builtin_expect_with_probability') and vals:
            self.setmemo(fr, st, e, 'v', vals[0])
            return [('ok', st)]
        if name in IDENT_FREE and vals:
            a = e['a'][0]
            l = lvs[0] if lvs[0] is not None else self.maybe_lv(fr, st, a)
            if l is not None:
                self.setmemo(fr, st, e, 'l', l)
            else:
                self.setmemo(fr, st, e, 'v', vals[0])
            return [('ok', st)]
        ev = Event(kind='call', name=name, fk=e.get('fk'), args=vals, alv=lvs, obj=objl, objv=objv, line=e.get('l', 0),
                   file=fr.fn.file, fn=fr.fn.name, locks=tuple(m for _, m in st.locks), site=e['id'], depth=fr.depth,
                   op=e.get('op'), ta=tuple(e.get('ta') or ()))
        r = self.model(fr, st, e, ev, name, objl, objv, vals, lvs)
        if r is not None:
            return r
        fn = self.p.fns.get(e.get('fk'))
        if fn is not None and not fn.blocks:
            fn = None
        if objv is not None and objv[0] == 'lam' and (meth_of(name).startswith('operator()') or e.get('fk') == objv[1]):
            lf = self.p.fns.get(objv[1])
            if lf and lf.blocks and lf.key not in fr.stack and fr.depth < self.max_depth:
                self.want(st, ev)
                return self.inline_lambda(fr, st, lf, objv, vals, lvs, e)
        inl = fn is not None and self.can_inline(fr, fn, name, e)
        if not inl:
            ev.ret = self.call_term(e, name, objl, objv, vals, pm, st)
        self.want(st, ev)
        if inl:
            tv = ('addr', objl) if objl is not None else ('none',)
            if objl is not None and objl[0] == 'deref':
                tv = objl[1]
            return self.inline(fr, st, fn, vals, lvs, tv, e, None)
        return self.opaque_call(fr, st, e, ev, name, objl, objv, vals, lvs, pm)

    def want(self, st, ev):
        if self.interest and self.interest(ev):
            self.record(st, ev)

    def is_pure(self, e, name, objl, pm):
        if self.pure and meth_of(name) in self.pure:
            return True
        if any(m in ('r', 'p', 'rr') for m in pm):
            # pointers to non-const may be written through
            if any(m in ('r', 'rr') for m in pm) or objl is None or e.get('repo'):
                if name not in PURE_FREE:
                    return False
        if objl is not None and not e.get('static'):
            return bool(e.get('cm'))
        if name in PURE_FREE or name.startswith('operator') or name.startswith('std::operator'):
            return True
        if e.get('op'):
            return True
        return name.startswith('std::') and e.get('t') != 'void'

    def made(self, st, v):
        """a temporary object, by what is known of its parts"""
        if st is None or v[0] != 'in' or v[1][0] != 'tmp':
            return v
        parts = {k[2]: x for k, x in st.store.items() if k[0] == 'fld' and k[1] == v[1]}
        deep = any(k[0] in ('fld', 'elem') and k[1] != v[1] and self.is_prefix(v[1], k) for k in st.store)
        return ('rec', tuple(sorted(parts.items()))) if parts and not deep else v

    def call_term(self, e, name, objl, objv, vals, pm, st=None):
        if self.is_pure(e, name, objl, pm) and e.get('t') != 'void':
            vals = tuple(self.made(st, v) for v in vals)
            return ('pure', name, ((objv,) if objl is not None else ()) + vals)
        return ('call', name, ((('addr', objl) if objl[0] != 'deref' else objl[1],) if objl is not None else ()) +
                vals, e['id'])

    def handed(self, fr, st, e, name, vals, seen=()):
        """closures given to code that is not followed may run: what they change is no longer known"""
        for i, v in enumerate(vals):
            if v[0] != 'lam' or v[1] in seen:
                continue
            w = self.p.touched(v[1])
            for c in v[2]:
                if len(c) != 4:
                    continue
                d, n, how, l = c
                if how == 'r' and d in w:
                    self.assign(st, l, ('out', name, e['id'], (i, n)), fr, e.get('l', 0), 'out')
                x = self.load(st, l) if how == 'r' else l
                if x[0] == 'lam':
                    self.handed(fr, st, e, name, (x,), seen + (v[1],))

    def opaque_call(self, fr, st, e, ev, name, objl, objv, vals, lvs, pm):
        if self.closures and not name.startswith('std::function::'):
            self.handed(fr, st, e, name, vals)
        t = ev.ret
        a = vals
        pure = t[0] == 'pure'
        if not pure:
            if any(T.mentions(v, t) for v in st.store.values()) or any(T.mentions(b, t) for b in st.facts):
                self.refresh(st, t)
            if '::' not in name and not e.get('repo') and objl is None:
                for k in [k for k in st.store if k == ERRNO or k[0] == 'deref' and '__errno_location' in str(k)]:
                    st.store[k] = ('out', 'errno', e['id'], 0)
        # effects
        if name.startswith(('spdlog::', 'fmt::')) or (name.startswith('std::') and name.rsplit('::', 1)[-1] in (
                'emplace_back', 'emplace', 'emplace_front', 'try_emplace', 'emplace_hint', 'make_unique', 'make_shared',
                'make_tuple', 'make_pair', 'tie', 'forward_as_tuple')) or \
                name == 'ThreadPool::enqueue':
            # forwarding references to values that are only read (or copied from)
            pm = ['' if m == 'r' else m for m in pm]
        for i, m in enumerate(pm):
            if m in ('r', 'rr') and i < len(lvs) and lvs[i] is not None and not (pure and m == 'rr'):
                if lvs[i][0] not in ('glob',) or True:
                    self.assign(st, lvs[i], ('out', name, e['id'], i), fr, e.get('l', 0), 'out')
            elif m == 'p' and i < len(vals) and vals[i][0] == 'addr' and not pure:
                self.assign(st, vals[i][1], ('out', name, e['id'], i), fr, e.get('l', 0), 'out')
        for i in range(len(pm), len(vals)):
            if vals[i][0] == 'addr' and not name.startswith(('spdlog::', 'fmt::')):
                self.assign(st, vals[i][1], ('out', name, e['id'], i), fr, e.get('l', 0), 'out')
        if objl is not None and not e.get('cm') and not e.get('static') and not pure and meth_of(name) not in self.pure:
            if e.get('repo'):
                # unexpanded repository method: its object may change
                for k in [k for k in st.store if k != objl and self.is_prefix(objl, k)]:
                    del st.store[k]
                    st.store[k] = ('mut', name, e['id'], k)
                if objl in st.store:
                    st.store[objl] = ('mut', name, e['id'], objl)
            elif len(a) == 1 and name in ('std::basic_string::push_back', 'std::basic_string::append', 'std::basic_string::operator+='):
                self.assign(st, objl, ('pure', 'std::operator+', (self.load(st, objl), a[0])), fr, e.get('l', 0), 'mut')
            elif self.mutates(name):
                self.assign(st, objl, ('mut', name, a, e['id']), fr, e.get('l', 0), 'mut')
        self.mark(e, t)
        if e.get('lv'):
            self.setmemo(fr, st, e, 'l', ('rl', t))
        else:
            self.setmemo(fr, st, e, 'v', t)
        if e.get('noret'):
            return [('noreturn', st)]
        return [('ok', st)]

    NONMUT = ('wait', 'notify_all', 'notify_one', 'lock', 'unlock', 'try_lock', 'join', 'joinable', 'get', 'find',
              'begin', 'end', 'operator->', 'operator*', 'data', 'front', 'back', 'at', 'operator[]', 'rbegin', 'rend',
              'get_future', 'get_id', 'Get', 'Put', 'Delete', 'Flush', 'operator()', 'reserve', 'shrink_to_fit')

    def mutates(self, name):
        return meth_of(name) not in self.NONMUT

    # ---- inlining
    def inline(self, fr, st, fn, vals, lvs, thisv, e, built):
        nf = Frame(fn, fr.depth + 1, thisv, fr.stack + (fr.fn.key,), fr.path + (e.get('id'),))
        s = st.copy()
        saved_loops = {k: v for k, v in s.loops.items() if k[0] > fr.depth}
        for k in saved_loops:
            del s.loops[k]
        self.bind_params(nf, s, vals, lvs)
        outs = self.run(nf, s)
        return self.finish(fr, nf, outs, e, built)

    def inline_lambda(self, fr, st, lf, lam, vals, lvs, e):
        nf = Frame(lf, fr.depth + 1, ('none',), fr.stack + (fr.fn.key,), fr.path + (e.get('id'),))
        s = st.copy()
        for k in [k for k in s.loops if k[0] > fr.depth]:
            del s.loops[k]
        self.bind_lambda(nf, s, lam)
        self.bind_params(nf, s, vals, lvs)
        outs = self.run(nf, s)
        return self.finish(fr, nf, outs, e, None)

    def bind_lambda(self, nf, s, lam):
        for c in lam[2]:
            if c[0] == 'this':
                nf.thisv = c[2]
            else:
                l = ('var', c[0], c[1], nf.depth)
                self.drop(s, l)
                if c[2] == 'r':
                    if c[3] != l:
                        s.store[('R', l)] = c[3]
                else:
                    s.store[l] = c[3]

    def finish(self, fr, nf, outs, e, built):
        res = []
        seen = set()
        d = nf.depth
        for o in outs:
            s = o.st
            # forget the frame
            for k in [k for k in s.store if self.frame_of(k) == d]:
                del s.store[k]
            s.memo = {k: v for k, v in s.memo.items() if k[0] != d}
            for k in [k for k in s.loops if k[0] == d]:
                del s.loops[k]
            if o.kind == 'ret':
                if built is not None:
                    s.memo[(fr.depth, e['id'])] = ('built', built)
                elif 'id' in e:
                    v = o.val
                    if v is None:
                        s.memo[(fr.depth, e['id'])] = ('v', ('none',))
                    elif v[0] == 'lval':
                        s.memo[(fr.depth, e['id'])] = ('l', v[1])
                    else:
                        if v[0] == 'in' and v[1][0] == 'retobj':
                            nl = ('tmp', e['id'], fr.depth)
                            self.drop(s, nl)
                            self.copy_sub(s, v[1], nl)
                            self.drop(s, v[1])
                            v = ('in', nl)
                        s.memo[(fr.depth, e['id'])] = ('v', v)
                kind = 'ok'
            else:
                kind = o.kind
            g = (kind, s.sig())
            if g in seen:
                continue
            seen.add(g)
            res.append((kind, s))
        return res

    @staticmethod
    def frame_of(k):
        while k[0] in ('fld', 'elem', 'R', 'deleter'):
            k = k[1]
        if k[0] == 'var':
            return k[3] if len(k) > 3 else None
        if k[0] == 'tmp':
            return k[2] if len(k) > 2 else None
        return None

    def do_ctor(self, fr, st, e, tgt=None):
        name = e.get('fn')
        t = fr.fn.targets.get(e['id'])
        l = tgt
        if l is None and t:
            l = ('var', t[1], t[2], fr.depth) if t[0] == 'var' else ('fld', self.deref(fr.thisv), t[1])
        vals, lvs, pm = self.eval_args(fr, st, e)
        cls = e.get('cls') or cls_of(name)
        base = cls_of(name)
        if base in LOCKS and vals and not (e.get('copy') or e.get('move')):
            m = lvs[0]
            g = l or ('tmp', e['id'], fr.depth)
            if not any('defer' in T.show(v) for v in vals[1:]):
                st.locks = tuple(x for x in st.locks if x[0] != g) + ((g, m),)
            st.store[('mutexof', g)] = m if m is not None else ('none',)
            self.want(st, Event(kind='call', name='lock', args=(), alv=(m,), obj=m, line=e.get('l', 0),
                                file=fr.fn.file, fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth))
            self.setmemo(fr, st, e, 'built', g)
            return [('ok', st)]
        if (e.get('copy') or e.get('move')) and vals:
            v = vals[0]
            fn = self.p.fns.get(e.get('fk'))
            user = fn and fn.blocks and not fn.j.get('implicit')
            if not user:
                src = lvs[0]
                if l is not None:
                    self.drop(st, l)
                    st.store[l] = v
                    if src is not None:
                        self.copy_sub(st, src, l)
                    self.setmemo(fr, st, e, 'built', l)
                else:
                    if src is not None and any(self.is_prefix(src, x) and x != src for x in st.store):
                        self.setmemo(fr, st, e, 'l', src)
                    else:
                        self.setmemo(fr, st, e, 'v', v)
                if e.get('move') and src is not None and base in SMART:
                    self.assign(st, src, ZERO, fr, e.get('l', 0), 'move')
                return [('ok', st)]
        ev = Event(kind='call', name=name, fk=e.get('fk'), args=vals, alv=lvs, obj=l, line=e.get('l', 0),
                   file=fr.fn.file, fn=fr.fn.name, locks=tuple(m for _, m in st.locks), site=e['id'], depth=fr.depth)
        if base in SMART:
            v = vals[0] if vals else ZERO
            if l is not None:
                self.drop(st, l)
                st.store[l] = v
                if base == 'std::unique_ptr' and len(vals) == 2 and vals[1][0] in ('lam', 'fn', 'addr', 'obj'):
                    st.store[('deleter', l)] = vals[1]
                self.setmemo(fr, st, e, 'built', l)
            else:
                self.setmemo(fr, st, e, 'v', v)
            self.want(st, ev)
            if vals and lvs[0] is not None and pm and pm[0] == 'rr':
                self.assign(st, lvs[0], ZERO, fr, e.get('l', 0), 'move')
            return [('ok', st)]
        if base in ('std::atomic', 'std::__atomic_base'):
            v = vals[0] if vals else ('uninit', e['id'], 'atomic')
            if l is not None:
                self.assign(st, l, v, fr, e.get('l', 0), 'init')
                self.setmemo(fr, st, e, 'built', l)
            else:
                self.setmemo(fr, st, e, 'v', v)
            return [('ok', st)]
        if base == 'std::function' and vals and vals[0][0] in ('lam', 'fn', 'in', 'fv', 'call', 'pure') \
                and len(vals) == 1:
            if l is not None:
                self.drop(st, l)
                st.store[l] = vals[0]
                self.setmemo(fr, st, e, 'built', l)
            else:
                self.setmemo(fr, st, e, 'v', vals[0])
            self.want(st, ev)
            return [('ok', st)]
        self.want(st, ev)
        fn = self.p.fns.get(e.get('fk'))
        if fn is not None and fn.blocks and self.can_inline(fr, fn, name, e):
            nl = l or ('tmp', e['id'], fr.depth)
            if l is None or tgt is None:
                self.drop(st, nl)
            tv = ('addr', nl) if nl[0] != 'deref' else nl[1]
            return self.inline(fr, st, fn, vals, lvs, tv, e, nl)
        v = ('obj', base, vals)
        if self.closures and base in ('std::thread', 'std::packaged_task', 'std::jthread'):
            self.handed(fr, st, e, name, vals)
        for i, m in enumerate(pm):
            if m == 'r' and i < len(lvs) and lvs[i] is not None and False:
                self.assign(st, lvs[i], ('out', name, e['id'], i), fr, e.get('l', 0), 'out')
        if l is not None and l != self.deref(fr.thisv):
            self.drop(st, l)
            st.store[l] = v
            self.setmemo(fr, st, e, 'built', l)
        else:
            self.setmemo(fr, st, e, 'v', v)
        return [('ok', st)]

    def release(self, fr, st, l, e, inline=True):
        """the smart pointer at l hands what it holds to its own deleter"""
        held = self.load(st, l)
        d = st.store.pop(('deleter', l))
        if held == ZERO or self.truth(st.facts, T.eq0(held)) is True:
            return None
        while d[0] == 'addr' and d[1][0] == 'fn' or d[0] == 'obj' and len(d[2]) == 1:
            d = d[1] if d[0] == 'addr' else d[2][0]
        if d[0] == 'lam':
            lf = self.p.fns.get(d[1])
            if lf and lf.blocks and lf.key not in fr.stack and fr.depth < self.max_depth and inline:
                return self.inline_lambda(fr, st, lf, d, [held], [None], dict(e, id=('del', e.get('id', 0))))
        name = d[1] if d[0] == 'fn' else 'delete'
        self.want(st, Event(kind='call', name=name, args=(held,), alv=(None,), line=e.get('l', 0), file=fr.fn.file,
                            fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth, ret=('call', name, (held,), e.get('id', 0))))
        return None

    def do_new(self, fr, st, e):
        v = ('new', e.get('nt'), e['id'])
        # a new object each time
        dl = ('deref', v)
        if any(self.is_prefix(dl, k) for k in st.store) or any(T.mentions(x, v) for x in st.store.values()):
            self.refresh(st, v)
            self.drop(st, dl)
        i = e.get('init')
        args = ()
        if i and i.get('k') == 'ctor':
            m = st.memo.get((fr.depth, i['id']))
            if m is not None:
                # the constructor ran as its own element, in a temporary
                if m[0] == 'built':
                    self.copy_sub(st, m[1], dl)
                    vv = st.store.get(m[1])
                    if vv is not None:
                        st.store[dl] = vv
                else:
                    st.store[dl] = m[1]
        elif i:
            iv = self.ev(fr, st, i)
            st.store[dl] = iv
        n = self.ev(fr, st, e['n']) if e.get('n') else None
        ev = Event(kind='call', name='new[]' if e.get('arr') else 'new', args=(('str', e.get('nt')),) +
                   ((n,) if n else ()), alv=(), ret=v, line=e.get('l', 0), file=fr.fn.file, fn=fr.fn.name,
                   locks=tuple(m for _, m in st.locks), site=e['id'], depth=fr.depth)
        self.want(st, ev)
        self.setmemo(fr, st, e, 'v', v)
        return [('ok', st)]

    STATUS_CODES = {'ok': 0, 'IsNotFound': 1, 'IsCorruption': 2, 'IsNotSupported': 3, 'IsInvalidArgument': 4,
                    'IsIOError': 5, 'IsMergeInProgress': 6, 'IsIncomplete': 7}

    # ---- library models
    def model(self, fr, st, e, ev, name, objl, objv, vals, lvs):
        meth = meth_of(name)
        cls = cls_of(name)

        def val(v):
            self.mark(e, v)
            self.setmemo(fr, st, e, 'v', v)
            return [('ok', st)]

        def lval(l):
            self.setmemo(fr, st, e, 'l', l)
            return [('ok', st)]
        if cls == 'std' or cls.startswith('std::'):
            if cls in SMART:
                if meth in ('get',):
                    return val(objv)
                if meth == 'operator->':
                    return val(objv)
                if meth in ('operator*',):
                    return lval(self.deref(objv))
                if meth == 'operator[]':
                    return lval(('elem', self.deref(objv), vals[0]))
                if meth.startswith('(conv:bool'):
                    return val(T.lnot(T.eq0(objv)) if objv[0] != 'int' else I(1 if objv[1] else 0))
                if meth == 'release':
                    self.want(st, ev)
                    self.assign(st, objl, ZERO, fr, e.get('l', 0), 'release')
                    return val(objv)
                if meth == 'reset' or (meth == 'operator='):
                    self.want(st, ev)
                    nv = vals[0] if vals else ZERO
                    if vals and nv[0] == 'in' and False:
                        pass
                    if meth == 'operator=' and lvs and lvs[0] is not None and (e.get('pm') or [''])[0] == 'rr':
                        self.assign(st, lvs[0], ZERO, fr, e.get('l', 0), 'move')
                    if meth == 'reset' and cls == 'std::unique_ptr' and objl is not None and objl[0] == 'var' and \
                            ('deleter', objl) not in st.store and self.truth(st.facts, T.eq0(objv)) is not True and objv != ZERO:
                        self.want(st, Event(kind='call', name='delete', args=(objv,), alv=(None,), line=e.get('l', 0), file=fr.fn.file,
                                            fn=fr.fn.name, locks=tuple(m for _, m in st.locks), depth=fr.depth))
                    self.assign(st, objl, nv, fr, e.get('l', 0), '=')
                    if e.get('lv'):
                        return lval(objl)
                    return val(('none',))
            if cls in ('std::atomic', 'std::__atomic_base', 'std::atomic_flag') or cls.startswith('std::atomic'):
                if meth == 'load' or meth.startswith('(conv:'):
                    if objl in self.unsigned:
                        self.unsigned.add(objv)
                    if self.atomic_loads:
                        self.want(st, ev)
                    return val(objv)
                if meth in ('store', 'operator='):
                    self.assign(st, objl, vals[0], fr, e.get('l', 0), '=')
                    self.want(st, ev)
                    return val(vals[0])
                if meth in ('fetch_add', 'fetch_sub'):
                    self.want(st, ev)
                    self.assign(st, objl, T.add(objv, vals[0], 1 if meth == 'fetch_add' else -1), fr, e.get('l', 0),
                                meth)
                    return val(objv)
                if meth in ('operator++', 'operator--', 'operator+=', 'operator-='):
                    self.want(st, ev)
                    s = 1 if '+' in meth else -1
                    post = meth in ('operator++', 'operator--') and len(vals) > 0
                    amt = ONE if meth in ('operator++', 'operator--') else vals[0]
                    nv = T.add(objv, amt, s)
                    self.assign(st, objl, nv, fr, e.get('l', 0), meth)
                    return val(objv if post else nv)
                if meth == 'exchange':
                    self.want(st, ev)
                    self.assign(st, objl, vals[0], fr, e.get('l', 0), '=')
                    return val(objv)
            if cls in LOCKS:
                if meth == 'unlock':
                    st.locks = tuple(x for x in st.locks if x[0] != objl)
                    return val(('none',))
                if meth == 'lock':
                    m = st.store.get(('mutexof', objl), ('none',))
                    st.locks = st.locks + ((objl, m),)
                    return val(('none',))
            if cls in ('std::mutex', 'std::recursive_mutex', 'std::shared_mutex'):
                if meth == 'lock':
                    st.locks = st.locks + ((objl, objl),)
                    self.want(st, ev)
                    return val(('none',))
                if meth == 'unlock':
                    st.locks = tuple(x for x in st.locks if x[0] != objl)
                    self.want(st, ev)
                    return val(('none',))
            if cls.startswith('std::condition_variable') and meth in ('wait', 'wait_for', 'wait_until'):
                self.want(st, ev)
                lamv = vals[-1] if vals else None
                base = self.deref(fr.thisv)
                for k in [k for k in st.store if k[0] in ('fld', 'elem') and self.is_prefix(base, k)]:
                    st.store[k] = ('waited', e['id'], k)
                for b in [b for b in st.facts if T.mentions(b, base) or T.has_tag(b, 'waited')]:
                    del st.facts[b]
                # fields not in the store: give them fresh values
                self._havoc_this(fr, st, base, e['id'])
                if lamv and lamv[0] == 'lam' and meth == 'wait':
                    lf = self.p.fns.get(lamv[1])
                    if lf and lf.blocks:
                        res = []
                        for kd, s in self.inline_lambda(fr, st, lf, lamv, (), (), dict(e, k='call')):
                            if kd == 'ok':
                                m = s.memo.get((fr.depth, e['id']))
                                v = self.load(s, m[1]) if m[0] == 'l' else m[1]
                                if self.assume(s, self.as_cond(v), True):
                                    s.memo[(fr.depth, e['id'])] = ('v', ('none',))
                                    res.append((kd, s))
                        return res
                return val(('none',))
            if cls == 'std::basic_string' and objl is not None and not e.get('cm'):
                if meth in ('operator[]', 'at') and len(vals) == 1:
                    self.want(st, ev)
                    return lval(('char', objl, vals[0]))
                if meth in ('front', 'back'):
                    self.want(st, ev)
                    return lval(('char', objl, ZERO if meth == 'front' else ('last',)))
            if cls == 'std::initializer_list' and objl is not None and (st.store.get(objl) or ('',))[0] == 'ilist':
                if meth in ('begin', 'end'):
                    return val(('iter', objl, ZERO if meth == 'begin' else I(len(st.store[objl][1]))))
                if meth == 'size':
                    return val(I(len(st.store[objl][1])))
            if cls in SEQ or cls.startswith('std::__cxx11::basic_string'):
                if meth in ('operator[]', 'at') and len(vals) == 1:
                    self.want(st, ev)
                    return lval(('elem', objl, vals[0]))
                if meth in ('begin', 'cbegin'):
                    return val(('iter', objl, ZERO))
                if meth in ('end', 'cend'):
                    m = re.search(r'^(?:const )?std::array<.*, (\d+)>( \*)?$', (e.get('obj') or {}).get('t') or '')
                    sz = I(int(m.group(1))) if m else self.size_of(st, objl)
                    return val(('iter', objl, sz))
                if meth == 'front':
                    return lval(('elem', objl, ZERO))
                if meth in ('size', 'length'):
                    m = re.search(r'^(?:const )?std::array<.*, (\d+)>( \*)?$', (e.get('obj') or {}).get('t') or '')
                    if m:
                        return val(I(int(m.group(1))))
                    return val(self.size_of(st, objl))
                if meth == 'empty':
                    return val(T.eq0(self.size_of(st, objl)))
                if meth in ('data', 'c_str'):
                    return val(('addr', ('elem', objl, ZERO)))
                if meth == 'operator=':
                    self.want(st, ev)
                    v = vals[0]
                    self.assign(st, objl, v, fr, e.get('l', 0), '=')
                    if lvs and lvs[0] is not None:
                        self.copy_sub(st, lvs[0], objl)
                    return lval(objl)
            if cls == 'std::pair' or cls == 'std::tuple' or cls == 'std::optional':
                if meth == 'operator=':
                    self.assign(st, objl, vals[0], fr, e.get('l', 0), '=')
                    return lval(objl)
            if name == 'std::get' and e.get('ta') and vals:
                l = lvs[0]
                i = e['ta'][0]
                f = {'0': 'first', '1': 'second'}.get(i, i) if 'pair' in (e['a'][0].get('t') or '') else 'get' + i
                if l is not None:
                    return lval(('fld', l, f))
                return val(('fv', vals[0], f))
            if meth in ('operator|', 'operator&', 'operator^') and name.startswith('std::') and len(vals) == 2 and \
                    vals[0][0] == vals[1][0] == 'int' and objl is None:
                return val(T.binop(meth[8:], vals[0], vals[1]))
            if name.endswith('char_traits::eof') and not vals:
                return val(T.I(-1))
            if name in ('std::swap', 'std::exchange') and len(vals) == 2 and lvs[0] is not None and \
                    (lvs[1] is not None or name == 'std::exchange'):
                self.want(st, ev)
                a, b = lvs
                old = ('tmp', e['id'], fr.depth)
                self.drop(st, old)
                self.copy_sub(st, a, old)
                if name == 'std::exchange':
                    self.assign(st, a, vals[1], fr, e.get('l', 0), '=')
                    if b is not None:
                        self.copy_sub(st, b, a)
                    return val(vals[0])
                self.assign(st, a, vals[1], fr, e.get('l', 0), 'swap')
                self.copy_sub(st, b, a)
                self.assign(st, b, vals[0], fr, e.get('l', 0), 'swap')
                self.copy_sub(st, old, b)
                self.drop(st, old)
                return val(('none',))
            if name in ('std::min', 'std::max') and len(vals) == 2:
                d = T.sub(vals[0], vals[1])
                tv = self.truth(st.facts, T.lt0(d))
                if tv is not None or d == ZERO:
                    small, big = (vals[0], vals[1]) if tv or d == ZERO else (vals[1], vals[0])
                    return val(small if name == 'std::min' else big)
                res = []
                for b in (True, False):
                    s2 = st.copy()
                    if self.assume(s2, T.lt0(d), b):
                        v = vals[0] if b == (name == 'std::min') else vals[1]
                        self.mark(e, v)
                        self.setmemo(fr, s2, e, 'v', v)
                        res.append(('ok', s2))
                return res
            if name in ('std::make_unique', 'std::make_shared'):
                nt = (e.get('ta') or ['?'])[0]
                v = ('new', nt, e['id'])
                self.want(st, ev)
                ev2 = Event(kind='call', name='new', args=(('str', nt),) + vals, alv=(None,) + lvs, ret=v,
                            line=e.get('l', 0), file=fr.fn.file, fn=fr.fn.name,
                            locks=tuple(m for _, m in st.locks), site=e['id'], depth=fr.depth)
                self.want(st, ev2)
                # the constructor of a class of this very function
                pre = fr.fn.key.split('(')[0] + '('
                cs = [f for k, f in self.p.fns.items() if f.name.split('::')[-2:] == [nt.split('::')[-1], '(ctor)'] and k.startswith(pre)
                      and len(f.params) == len(vals)]
                if len(cs) == 1 and cs[0].blocks:
                    self.refresh(st, v)
                    self.drop(st, ('deref', v))
                    r = self.inline(fr, st, cs[0], vals, lvs, v, dict(e), None)
                    for kd, s in r:
                        if kd == 'ok':
                            self.setmemo(fr, s, e, 'v', v)
                    return r
                return val(v)
            if meth == 'swap' and objl is not None and len(vals) == 1 and lvs[0] is not None and '::' in cls:
                self.want(st, ev)
                old = ('tmp', e['id'], fr.depth)
                self.drop(st, old)
                self.copy_sub(st, objl, old)
                self.assign(st, objl, vals[0], fr, e.get('l', 0), 'swap')
                self.copy_sub(st, lvs[0], objl)
                self.assign(st, lvs[0], objv, fr, e.get('l', 0), 'swap')
                self.copy_sub(st, old, lvs[0])
                self.drop(st, old)
                return val(('none',))
            if name == 'std::advance' and len(vals) == 2 and vals[0][0] == 'iter' and lvs[0] is not None:
                self.assign(st, lvs[0], ('iter', vals[0][1], T.add(vals[0][2], vals[1])), fr)
                return val(('none',))
            if name in ('std::next', 'std::prev') and vals and len(vals) <= 2 and vals[0][0] == 'iter':
                k = vals[1] if len(vals) == 2 else ONE
                return val(('iter', vals[0][1], (T.add if name == 'std::next' else T.sub)(vals[0][2], k)))
            if name == 'std::distance' and len(vals) == 2 and vals[0][0] == vals[1][0] == 'iter' and vals[0][1] == vals[1][1]:
                return val(T.sub(vals[1][2], vals[0][2]))
            if name in ('std::begin', 'std::end', 'std::cbegin', 'std::cend') and lvs and lvs[0] is not None:
                if 'begin' in name:
                    return val(('iter', lvs[0], ZERO))
                return val(('iter', lvs[0], self.size_of(st, lvs[0])))
            if name == 'std::back_inserter' and lvs and lvs[0] is not None:
                return val(('backins', lvs[0]))
            if name == 'std::addressof' and lvs and lvs[0] is not None:
                return val(('addr', lvs[0]) if lvs[0][0] != 'deref' else lvs[0][1])
        if cls == 'rocksdb::Status' and objv is not None and not vals and meth in self.STATUS_CODES:
            return val(T.eq(('pure', 'rocksdb::Status::code', (objv,)), I(self.STATUS_CODES[meth])))
        if e.get('op'):
            op = e['op']
            operands = ((objv,) if objl is not None else ()) + vals
            ols = ((objl,) if objl is not None else ()) + lvs
            its = [x for x in operands if x[0] == 'iter']
            if op in ('==', '!=', '<', '>', '<=', '>=') and len(operands) == 2 and len(its) == 2 \
                    and its[0][1] == its[1][1]:
                return val(T.cmp(op, its[0][2], its[1][2]))
            if op in ('==', '!=') and len(operands) == 2:
                if any(x == ZERO for x in operands) and ('unique_ptr' in (e['a'][0].get('t') or '') or
                                                         'shared_ptr' in ''.join((a or {}).get('t') or '' for a in
                                                                                 ([e.get('obj')] + e['a']) if a) or
                                                         'function' in ''.join((a or {}).get('t') or '' for a in
                                                                               ([e.get('obj')] + e['a']) if a)):
                    return val(T.cmp(op, operands[0], operands[1]))
                fn = self.p.fns.get(e.get('fk'))
                if not (fn and fn.blocks):
                    return val(T.cmp(op, operands[0], operands[1]))
            if its and operands[0][0] == 'iter' and ols[0] is not None:
                it = operands[0]
                if op == '++':
                    nv = ('iter', it[1], T.add(it[2], ONE))
                    self.assign(st, ols[0], nv, fr)
                    if len(vals) > (0 if objl is not None else 1):
                        return val(it)
                    return lval(ols[0])
                if op == '--':
                    nv = ('iter', it[1], T.add(it[2], ONE, -1))
                    self.assign(st, ols[0], nv, fr)
                    return lval(ols[0])
                if op == '+=':
                    self.assign(st, ols[0], ('iter', it[1], T.add(it[2], vals[-1])), fr)
                    return lval(ols[0])
            if its and operands[0][0] == 'iter':
                it = operands[0]
                if op == '*' and len(operands) == 1:
                    return lval(('elem', it[1], it[2]))
                if op == '->':
                    return val(('addr', ('elem', it[1], it[2])))
                if op == '+' and len(operands) == 2 and operands[1][0] != 'iter':
                    return val(('iter', it[1], T.add(it[2], operands[1])))
                if op == '-' and len(operands) == 2:
                    if operands[1][0] == 'iter':
                        if operands[1][1] == it[1]:
                            return val(T.sub(it[2], operands[1][2]))
                    else:
                        return val(('iter', it[1], T.sub(it[2], operands[1])))
            if op == '=' and objl is not None and len(vals) == 1:
                fn = self.p.fns.get(e.get('fk'))
                if not (fn and fn.blocks and not fn.j.get('implicit')):
                    self.assign(st, objl, vals[0], fr, e.get('l', 0), '=')
                    if lvs[0] is not None and lvs[0] != objl:
                        self.copy_sub(st, lvs[0], objl)
                    self.want(st, ev)
                    return lval(objl)
            if op == '*' and len(operands) == 1 and not (self.p.fns.get(e.get('fk'))):
                return lval(('deref', operands[0]))
            if op == '->' and not self.p.fns.get(e.get('fk')):
                return val(operands[0] if operands[0][0] != 'in' else ('pure', name, operands))
            if op == '<<' and objl is None and len(operands) == 2 and e.get('lv'):
                self.want(st, ev)
                return lval(ols[0] if ols[0] is not None else ('rl', operands[0]))
            if op == '<<' and objl is not None and 'basic_ostream' in name:
                self.want(st, ev)
                return lval(objl)
        if name == 'std::copy' and len(vals) == 3 and vals[2][0] == 'backins':
            # appends the range
            l = vals[2][1]
            a = (('iter', l, self.size_of(st, l)), vals[0], vals[1])
            self.want(st, Event(kind='call', name='std::vector::insert', args=a, alv=(None,) + tuple(lvs[:2]), obj=l, objv=self.load(st, l), ret=vals[2],
                                line=e.get('l', 0), file=fr.fn.file, fn=fr.fn.name, locks=tuple(m for _, m in st.locks), site=e['id'], depth=fr.depth))
            self.assign(st, l, ('mut', 'std::vector::insert', a, e['id']), fr, e.get('l', 0), 'mut')
            return val(vals[2])
        if name == 'std::copy_n' and len(vals) == 3 and vals[0][0] != 'iter':
            # copying n elements from p on is copying from p to p + n
            name = 'std::copy'
            vals = (vals[0], T.add(vals[0], vals[1]), vals[2])
            ev = Event(kind='call', name=name, args=vals, alv=(None, None, None), ret=ev.ret, line=ev.line, file=ev.file, fn=ev.fn,
                       locks=ev.locks, site=ev.site, depth=ev.depth, mem=ev.mem)
        if name in ('memset', 'memcpy', 'memmove', '__builtin_memcpy', 'std::copy', 'std::fill'):
            self.want(st, ev)
            d = 2 if name == 'std::copy' else 0
            if len(vals) > d and vals[d][0] == 'addr' and vals[d][1][0] == 'elem' and vals[d][1][2] == ZERO:
                # the start of an array object stands for the array
                w = st.store.get(vals[d][1][1])
                if w is not None and (w == ZERO or w[0] in ('ilist', 'uninit', 'bytes') or
                                      w[0] == 'obj' and w[1].startswith('std::array')):
                    vals = vals[:d] + (('addr', vals[d][1][1]),) + vals[d + 1:]
            if name in ('memcpy', 'memmove', '__builtin_memcpy') and vals[0][0] == 'addr':
                src = vals[1]
                if src[0] == 'addr':
                    l2 = src[1]
                    v = self.load(st, l2)
                    self.assign(st, vals[0][1], ('bytes', v, vals[2]), fr, e.get('l', 0), 'memcpy')
                else:
                    self.assign(st, vals[0][1], ('bytes', ('in', self.deref(src)), vals[2]), fr, e.get('l', 0),
                                'memcpy')
            elif name == 'std::copy':
                if len(vals) > 2 and vals[2][0] == 'addr':
                    v = ('out', name, e['id'], 2)
                    if vals[0][0] == 'addr':
                        v = ('bytes', self.load(st, vals[0][1]), T.sub(vals[1], vals[0]))
                    elif vals[0][0] != 'iter':
                        v = ('bytes', ('in', self.deref(vals[0])), T.sub(vals[1], vals[0]))
                    self.assign(st, vals[2][1], v, fr, e.get('l', 0), 'out')
                elif len(vals) > 2 and vals[2][0] == 'iter':
                    self.assign(st, vals[2][1], ('mut', name, vals, e['id']), fr, e.get('l', 0), 'out')
                if len(vals) == 3:
                    f, l, d = vals
                    if f[0] == l[0] == 'iter' and f[1] == l[1]:
                        n = T.sub(l[2], f[2])
                    elif f[0] == 'iter' or l[0] == 'iter':
                        return val(('pure', 'std::copy', vals))
                    else:
                        n = T.sub(l, f)
                    return val(('iter', d[1], T.add(d[2], n)) if d[0] == 'iter' else T.add(d, n))
                return val(('pure', 'std::copy', vals))
            elif vals and vals[0][0] == 'addr':
                self.assign(st, vals[0][1], ('out', name, e['id'], 0) if not (
                    name == 'memset' and vals[1] == ZERO) else ZERO, fr, e.get('l', 0), 'out')
            return val(vals[0] if vals else ('none',))
        return None

    def size_of(self, st, l):
        v = self.load(st, l)
        if v[0] == 'obj' and len(v[2]) == 0:
            return ZERO
        # std::array: constant size from its type is folded by clang; else
        t = ('pure', 'size', (v,))
        self.unsigned.add(t)
        return t

    def _havoc_this(self, fr, st, base, sid):
        flds = set()
        for r in self.p.records.get(fr.fn.cls or '', []):
            for f in r['fields']:
                if f.get('const') or 'mutex' in f['t'] or 'condition_variable' in f['t']:
                    continue
                flds.add(f['n'])
        for f in flds:
            l = ('fld', base, f)
            nv = ('waited', sid, l)
            if st.store.get(l) == nv:
                continue
            st.store[l] = nv


class Frame:
    __slots__ = ('fn', 'depth', 'thisv', 'stack', 'lastline', 'path')

    def __init__(self, fn, depth, thisv, stack, path=()):
        self.path = path          # the calls that lead here
        self.fn = fn
        self.depth = depth
        self.thisv = thisv
        self.stack = stack
        self.lastline = fn.line
