"""Obligation bookkeeping, known findings, evidence, verdict."""
import json
import os
import re
import sys
import time

from . import core, extract
from . import terms as T
from .core import AnalysisBroken

VERIF = extract.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    """[(rule, instance, text)] of the findings recorded for this property"""
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) rule=(\S+) instance=(\S+) :: (.*)$', line.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3), m.group(4)))
    except FileNotFoundError:
        pass
    return out


# text rendering and logging: never part of a decided behaviour, never expanded
PRESENTATION = {'sse::utility::hex_string', 'sse::logger::logger', 'sse::utility::operator<<',
                'sse::utility::print_ost_hex'}


class Check:
    def __init__(self, pid, title, tier):
        self.pid, self.title, self.tier = pid, title, tier
        self.t0 = time.time()
        self.obs = {}          # rule -> [total, ok]
        self.texts = {}        # rule -> text
        self.viol = {}         # (rule, instance) -> dict
        self.fns = set()
        self.states = 0
        self.paths = 0
        self.calls = set()
        self.tus = []
        self.floors = []
        self.samples = {}
        self.notes = []
        self._progs = {}
        self.prog = None

    # ---- analysis
    def load(self, tus):
        tus = tuple(tus)
        for t in tus:
            if t not in self.tus:
                self.tus.append(t)
        if tus not in self._progs:
            self._progs[tus] = extract.program(list(tus))
            for t, n in self._progs[tus].errors.items():
                if n:
                    raise AnalysisBroken('%s does not parse (%d errors)' % (t, n))
        self.prog = self._progs[tus]
        return self.prog

    def find(self, name, required=True, pred=None):
        r = self.prog.find(name, required)
        if pred:
            r = [f for f in r if pred(f)]
            if not r and required:
                raise AnalysisBroken('anchor function not found: ' + name)
        return r

    def run(self, fn, init=None, args=None, thisv=None, partial=False, **kw):
        """all path ends of fn; an incomplete analysis is an error, not a pass"""
        kw.setdefault('interest', lambda ev: True)
        kw['opaque'] = set(kw.get('opaque', ())) | PRESENTATION
        if self.tier == 'thorough':
            kw['repeat'] = kw.get('repeat', 2) + 1
        E = core.Engine(self.prog, **kw)
        outs = E.analyze(fn, init=init, args=args, thisv=thisv)
        if E.incomplete and not partial:
            raise AnalysisBroken('state space of %s not exhausted (%s)' % (fn.key, ', '.join(sorted(set(E.incomplete)))))
        if not outs:
            raise AnalysisBroken('no path through ' + fn.key)
        self.fns |= E.covered
        self.states += E.nstates
        self.paths += len(outs)
        return E, outs

    # ---- obligations
    def rule(self, rid, text):
        self.texts[rid] = text

    def ob(self, rid, inst, ok, detail='', loc=None, path=None):
        """one proof obligation: `inst` names what it is about (no line numbers)"""
        if rid not in self.texts:
            raise AnalysisBroken('rule without text: ' + rid)
        o = self.obs.setdefault(rid, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
            self.samples.setdefault(rid, inst)
            return True
        inst = re.sub(r'\s+', '', inst)
        k = (rid, inst)
        if k not in self.viol:
            self.viol[k] = dict(rule=rid, instance=inst, detail=detail, loc=loc, path=path)
        return False

    def floor(self, rid, n):
        """the rule must have matched at least the instances confirmed by hand"""
        got = self.obs.get(rid, [0, 0])[0]
        if got < n:
            raise AnalysisBroken('rule %s matched %d instances, expected at least %d' % (rid, got, n))
        self.floors.append((rid, n, got))

    # ---- verdict
    def finish(self):
        known = known_findings(self.pid)
        listed, new = [], []
        for (rid, inst), v in sorted(self.viol.items()):
            hit = [k for k in known if k[0] == rid and k[1] == inst]
            (listed if hit else new).append((v, hit[0][2] if hit else ''))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        replay = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
        if new:
            with open(replay, 'w') as f:
                for v, _ in new:
                    f.write(self.describe(v) + '\n')
        elif os.path.exists(replay):
            os.unlink(replay)
        for v, txt in listed:
            print('KNOWN-FINDING: property=%s %s [%s %s]' % (self.pid, txt, v['rule'], v['instance']))
        for v, _ in new:
            print(self.describe(v))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        tot = sum(o[0] for o in self.obs.values())
        ok = sum(o[1] for o in self.obs.values())
        ev = dict(
            property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
            coverage=dict(
                explanation='Path-sensitive dataflow over the clang control-flow graphs of the current tree; every '
                            'path end of every listed function is checked against each rule. Obligations are rule '
                            'instances per function, path or call site; each is decided from the source alone.',
                translation_units=self.tus, functions_analysed=len(self.fns),
                functions=sorted(self.short(f) for f in self.fns)[:120],
                abstract_states=self.states, path_ends=self.paths, obligations=tot, discharged=ok,
                rules={r: dict(text=self.texts[r][:400], obligations=self.obs.get(r, [0, 0])[0],
                               discharged=self.obs.get(r, [0, 0])[1], sample=self.samples.get(r, ''))
                       for r in self.texts},
                floors=[dict(rule=a, at_least=b, matched=c) for a, b, c in self.floors],
                known_findings=['%s %s' % (v['rule'], v['instance']) for v, _ in listed], notes=self.notes),
            assumptions=['the flags of /verif/engine/extract.py match the build (NDEBUG analysed: assertions are not guards)',
                         'library calls behave as documented; models in engine/core.py'],
            wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d rules, %d obligations, %d discharged, %d known, %d violations; %d functions, %d path ends, '
              '%d states, %.1fs' % (self.pid, len(self.texts), tot, ok, len(listed), len(new), len(self.fns),
                                    self.paths, self.states, time.time() - self.t0))
        return 1 if new else 0

    @staticmethod
    def short(key):
        return re.sub(r'\s+', ' ', key)[:110]

    def describe(self, v):
        s = 'property %s (%s)\nrule %s: %s\ninstance: %s\n' % (self.pid, self.title, v['rule'], self.texts[v['rule']],
                                                            v['instance'])
        if v['loc']:
            s += 'at: %s\n' % (v['loc'],)
        if v['detail']:
            s += 'what: %s\n' % v['detail']
        if v['path']:
            s += 'path:\n' + '\n'.join('  ' + x for x in v['path'][:60]) + '\n'
        return s


# ---------------------------------------------------------------- helpers for rules
def loc(fn, line=None):
    return '%s:%s' % (fn.file, line or fn.line)


def evloc(ev):
    return '%s:%s in %s' % (ev.file, ev.line, ev.fn)


def trail(o):
    return ['branch %s %s' % (a, 'taken' if b else 'not taken') for a, b in o.st.trail] + \
        ['end (%s) at line %s' % (o.kind, o.line)]


def calls(o, *names):
    """events of a path whose method name / full name is one of names"""
    r = []
    for e in o.trace:
        if e.kind == 'call' and e.name and (e.name in names or core.meth_of(e.name) in names):
            r.append(e)
    return r


def implies(E, facts, pre, post):
    """under facts, pre (a term, assumed true) forces post to be true (post term)"""
    st = core.State()
    st.facts = dict(facts)
    if not E.assume(st, pre, True):
        return True       # pre impossible
    return E.truth(st.facts, post) is True


def possible(E, facts, t, val=True):
    st = core.State()
    st.facts = dict(facts)
    return E.assume(st, t, val)


def boolterm(v):
    if T.is_bool(v) or v[0] == 'int':
        return v
    return T.lnot(T.eq0(v))


def users(prog, prefix, callee):
    """functions under a name prefix whose body calls `callee` directly"""
    pat = re.compile(r"['\"](?:[\w:]*::)?%s['\"]" % re.escape(callee))
    return [f for f in prog.fns.values() if f.name.startswith(prefix) and f.blocks and pat.search(str(f.blocks))]


STILL = ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'back', 'front', 'data', 'capacity', 'reserve', 'operator[]', 'at')


def unknowns(t, h):
    """what changes from turn to turn of a loop, among the parts of a term"""
    r = {x for x in T.subterms(t) if x and x[0] == 'phi' and x[1] == h}
    return r | {x for x in T.subterms(t) if x and x[0] == 'pure' and x[1] == 'size' and len(x[2]) == 1 and x[2][0] in r}


class Loops:
    """view of an analysis with cut loops: per loop head, the pieces of path that enter it, repeat it and leave it"""

    def __init__(self, E, outs):
        self.E, self.outs = E, outs
        self.heads = sorted({o.head for o in outs if o.head is not None}, key=repr)

    def enters(self, h):
        return [o for o in self.outs if o.kind == 'enter' and o.head == h]

    def iters(self, h):
        return [o for o in self.outs if o.kind == 'iter' and o.head == h]

    def body(self, h):
        """pieces that start at the head"""
        return [o for o in self.outs if o.frm == h]

    def exits(self, h):
        return [o for o in self.body(h) if not (o.kind == 'iter' and o.head == h)]

    def nest(self, h):
        """the loop of h and the loops inside it"""
        r = {h}
        todo = [o.frm for o in self.iters(h)]
        while todo:
            g = todo.pop()
            if g in r or g is None:
                continue
            r.add(g)
            todo += [o.frm for o in self.outs if o.head == g and o.kind in ('enter', 'iter')]
        return r

    def leaves(self, h):
        """pieces that leave the loop of h, loops inside it included"""
        n = self.nest(h)
        return [o for o in self.outs if o.frm in n and not (o.kind in ('enter', 'iter') and o.head in n)]

    def at(self, o, t, h):
        """the value of t, stated in terms of the loop's unknowns, in the state of o"""
        new = {}
        for i, x in enumerate(sorted({x for x in T.subterms(t) if x and x[0] == 'pure' and x[1] == 'size' and len(x[2]) == 1 and
                                      x[2][0] and x[2][0][0] == 'phi' and x[2][0][1] == h}, key=repr)):
            n = self.grown(o, x)
            if n is not None:
                new[('sz!', i)] = n
                t = T.subst(t, x, ('sz!', i))
        ph = {x for x in T.subterms(t) if x and x[0] == 'phi' and x[1] == h}
        for i, x in enumerate(sorted(ph, key=repr)):
            new[('ph!', i)] = unit(self.E.load(o.st, x[2]))
            t = T.subst(t, x, ('ph!', i))
        for k, v in new.items():
            t = T.subst(t, k, v)
        return t

    def grown(self, o, size):
        """the size of a container at the end of o, if all that happened to it since the head is elements put at its end"""
        l = size[2][0][2]
        v = self.E.load(o.st, l)
        if o.kind != 'iter':
            return T.ZERO if v[0] == 'obj' and v[1] in ('std::vector', 'std::list', 'std::deque') and not v[2] else None
        if v == size[2][0]:
            return size
        es = [e for e in o.trace if e.kind == 'call' and (e.obj == l or ('addr', l) in e.args or any(a == l for a in e.alv if a))]
        es = [e for e in es if (e.name or '').split('::')[-1] not in STILL]
        if v[0] == 'mut' and es and all(e.obj == l and e.name.split('::')[-1] in ('push_back', 'emplace_back') for e in es):
            return T.add(size, T.I(len(es)))
        return None

    def final(self, o, h, t):
        """t, where it follows from what o knows of something else that changes in step with it; t otherwise"""
        xs = unknowns(t, h)
        for x in sorted(xs, key=repr):
            a, d = self.starts(h, x), self.steps(h, x)
            if len(a) != 1 or len(d) != 1:
                continue
            a, d = next(iter(a)), next(iter(d))
            for k, (lo, hi, _) in o.st.facts.items():
                ys = sorted(unknowns(k, h), key=repr)
                if lo is None or lo != hi or len(ys) != 1:
                    continue
                y = ys[0]
                b, c = self.starts(h, y), self.steps(h, y)
                v = T.sub(k, T.I(lo))
                # v is zero, and is linear in y
                one = T.sub(v, y) if not T.mentions(T.sub(v, y), y) else T.add(v, y) if not T.mentions(T.add(v, y), y) else None
                if one is None or len(b) != 1 or len(c) != 1 or c != {d} or d not in (T.ONE, T.I(-1)):
                    continue
                y1 = T.sub(T.ZERO, one) if T.add(T.sub(v, y), y) == v and not T.mentions(T.sub(v, y), y) else one
                t = T.subst(t, x, T.add(a, T.sub(y1, next(iter(b)))))
                break
        return t

    def canon(self, h, t):
        """t, with the unknowns of the loop that keep their sum or difference with another one stated in terms of it"""
        if not hasattr(self, '_canon'):
            self._canon = {}
        if h not in self._canon:
            xs = set()
            for o in self.iters(h):
                for l in list(o.st.store):
                    x = ('phi', h, l)
                    if any(T.mentions(k, x) for k in o.st.facts) or self.E.load(o.st, l) != x:
                        xs.add(x)
            eqs, xs = [], sorted(xs, key=repr)
            for i, x in enumerate(xs):
                for y in xs[:i]:
                    for k in (1, -1):
                        v = T.add(x, y, k)
                        if len(self.starts(h, v)) == 1 and all(z == T.ZERO or self.at(o, v, h) in self.starts(h, v) for o in self.iters(h)
                                                               for z in [T.sub(self.at(o, v, h), v)]) and not any(e[0] == x for e in eqs):
                            eqs.append((x, T.add(next(iter(self.starts(h, v))), y, -k)))
            self._canon[h] = eqs
        for x, v in reversed(self._canon[h]):
            t = T.subst(t, x, v)
        return t

    def before(self, o):
        """the pieces of path that can precede o"""
        h, r = o.frm, []
        for a in [] if h is None else self.enters(h) + self.iters(h):
            st = core.State()
            st.facts = dict(a.st.facts)
            ok = True
            for k, (lo, hi, ne) in o.st.facts.items():
                if ok and unknowns(k, h) and not (T.has_tag(k, 'pure') or T.has_tag(k, 'call')):
                    v = self.at(a, k, h)
                    if T.is_bool(v):
                        ok = lo is None or lo != hi or self.E.assume(st, v, lo == 1)
                        continue
                    ok = (lo is None or self.E.assume(st, T.lt(v, T.I(lo)), False)) and (hi is None or self.E.assume(st, T.lt(T.I(hi), v), False)) \
                        and all(self.E.assume(st, T.eq(v, T.I(n)), False) for n in ne)
            if ok:
                r.append(a)
        return r

    def steps(self, h, t):
        return {T.sub(self.at(o, t, h), t) for o in self.iters(h)}

    def starts(self, h, t):
        return {self.at(o, t, h) for o in self.enters(h)}

    def counts(self, h, t, start=T.ZERO):
        """t is start, start + 1, ... in the iterations of h"""
        return self.starts(h, t) == {start} and self.steps(h, t) == {T.ONE}

    def until(self, h, t, n):
        """the loop is left (other than by an exception) only with t >= n"""
        return all(self.E.truth(o.st.facts, T.lt(t, n)) is False for o in self.exits(h) if o.kind != 'throw')


    def sweeps(self, h, i, ns):
        """i takes each of the values 0 .. n - 1 once in the iterations of h, in either order, for an n of ns(o) at every exit o"""
        ex = [o for o in self.leaves(h) if o.kind not in ('throw', 'noreturn')]
        if not callable(ns):
            c = tuple(ns)
            ns = lambda o: c
        def tr(o, t):
            f = self.E.truth(o.st.facts, t)
            return self.E.truth(o.st.facts, self.canon(h, t)) if f is None else f
        if self.counts(h, i):
            return all(any(tr(o, T.eq(i, n)) is True or tr(o, T.lt(i, n)) is False for n in ns(o)) for o in ex)
        a = [x for x in T.subterms(i) if x and x[0] == 'phi' and x[1] == h]
        if len(set(a)) != 1 or T.sub(i, a[0])[0] != 'int':
            return False
        a, d = a[0], T.sub(i, a[0])
        first = {T.add(x, d) for x in self.starts(h, a)}
        if self.steps(h, a) != {T.I(-1)} or len(first) != 1:
            return False
        n = T.add(first.pop(), T.ONE)
        return all(n in ns(o) and tr(o, T.eq0(T.add(T.add(a, d), T.ONE))) is True for o in ex)


def address(v):
    """where a pointer points, counted in elements from where it was obtained"""
    if v[0] == 'addr' and v[1][0] == 'elem':
        b = v[1][1]
        return T.add(address(b[1]) if b[0] == 'deref' else ('addr', ('elem', b, T.ZERO)), v[1][2]) if b[0] == 'deref' or v[1][2] != T.ZERO else v
    return v


def whereis(l):
    """the address of an lvalue"""
    if l[0] == 'deref':
        return address(l[1])
    return address(('addr', l))


def unit(v):
    return v[2] if v[0] == 'iter' else v
