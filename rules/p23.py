"""P23: going through two containers in a row visits every element of the first, then of the second, once"""
from engine import check as C
from engine import core
from engine import terms as T
from rules.p12 import opts, this

NS = 'sse::utility::'
CLASSES = (NS + 'concat_iterator::', NS + 'concat_const_iterator::')


def run(ck):
    ck.load(['tus/concat_inst.cpp'])
    ck.rule('begin', 'a position built from the two containers is the first of the first one that is not empty')
    ck.rule('given', 'a position built from another one is that one, and the end of the first container is the start of the second')
    ck.rule('step', 'a step moves by one element, from the end of the first container to the start of the second, and never further')
    ck.rule('post', 'the postfix step moves as the prefix one and gives the position before it')
    ck.rule('compare', 'positions are equal when they are the same place of the same container, different otherwise')
    ck.rule('deref', 'the element is the one at the position')
    for cl in CLASSES:
        for fn in ck.find(cl + '(ctor)', pred=lambda f: not f.j.get('implicit') and len(f.params) in (2, 4)):
            r = None
            if len(fn.params) == 2:
                r = begin(ck, fn)
            else:
                given(ck, fn)
            if r is None:
                continue
            cls = fn.key[:fn.key.index('>::') + 3]
            for m, f in (('operator++', step), ('operator==', lambda a, b, c: compare(a, b, c, True)), ('operator!=', lambda a, b, c: compare(a, b, c, False)), ('operator*', deref)):
                for g in ck.find(cl + m, pred=lambda g: g.key.startswith(cls)):
                    f(ck, g, r)
    for r, k in (('begin', 6), ('given', 6), ('step', 8), ('post', 8), ('compare', 6), ('deref', 2)):
        ck.floor(r, k)


def roles(E, o, fn):
    """fields that hold (first container, second one, position, which container)"""
    c1, c2 = (('addr', ('var', p['d'], p['n'], 0)) for p in fn.params[:2])
    r = {}
    for l, v in o.st.store.items():
        if not own(l):
            continue
        if v == c1:
            r['c1'] = l[2]
        elif v == c2:
            r['c2'] = l[2]
        elif v[0] == 'iter' or (v[0] == 'in' and 'iterator' in str(v)):
            r['it'] = l[2]
        elif v[0] != 'addr':
            r['second'] = l[2]
    return r if len(r) == 4 else None


def own(l):
    return l[0] == 'fld' and l[1] == ('deref', ('thisptr',))


def ended(E, o, cur, cont):
    """what the path knows of `cur` being the end of `cont`"""
    for t in o.st.facts:
        for s in T.subterms(t):
            if s[0] == 'iter' and s[1] == cont and s[2] != T.ZERO:
                v = E.truth(o.st.facts, T.eq(cur, s))
                if v is not None:
                    return v
            if s[0] == 'pure' and core.meth_of(s[1]) == 'size' and T.mentions(s, cont) and cur == ('iter', cont, T.ZERO):
                v = E.truth(o.st.facts, T.eq0(s))
                if v is not None:
                    return v
    return None


def flag(E, o, v):
    return E.truth(o.st.facts, C.boolterm(v))


def placed(ck, rule, E, o, fn, r, cur, sec, c1, c2):
    """the position held is `cur` of the second container if `sec`, else of the first unless that is its end"""
    w = (C.loc(fn, o.line), C.trail(o))
    it, second = E.load(o.st, this(r['it'])), flag(E, o, E.load(o.st, this(r['second'])))
    end = None if sec else ended(E, o, cur, c1)
    if not ck.ob(rule, 'known', sec is True or (sec is False and end is not None), 'whether the position %s is in the second container, or at the end of the first, is not examined' % T.show(cur)[:80], *w):
        return
    if sec or not end:
        ck.ob(rule, 'place', it == cur, 'at %s instead of %s' % (T.show(it)[:80], T.show(cur)[:80]), *w)
        ck.ob(rule, 'container', second is sec, 'the position is in the %s container' % ('second' if sec else 'first'), *w)
    else:
        ck.ob(rule, 'over', it == ('iter', c2, T.ZERO), 'at %s past the end of the first container' % T.show(it)[:80], *w)
        ck.ob(rule, 'over', second is True, 'still in the first container past its end', *w)


def begin(ck, fn):
    E, outs = ck.run(fn, **opts())
    r = None
    c1, c2 = (('var', p['d'], p['n'], 0) for p in fn.params[:2])
    for o in outs:
        if o.kind != 'ret':
            continue
        q = roles(E, o, fn)
        if ck.ob('begin', 'holds', q is not None, 'the containers and the position are not kept', C.loc(fn, o.line), C.trail(o)):
            r = r or q
            placed(ck, 'begin', E, o, fn, q, ('iter', c1, T.ZERO), False, c1, c2)
    return r


def given(ck, fn):
    E, outs = ck.run(fn, **opts())
    c1, c2 = (('var', p['d'], p['n'], 0) for p in fn.params[:2])
    cur, sec = (('in', ('var', p['d'], p['n'], 0)) for p in fn.params[2:])
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        held = {v: l[2] for l, v in o.st.store.items() if own(l)}
        ck.ob('given', 'holds', ('addr', c1) in held and ('addr', c2) in held, 'the containers are not kept', *w)
        # the two that are left
        rest = [l for l, v in o.st.store.items() if own(l) and v[0] != 'addr']
        it = [l for l in rest if o.st.store[l] == cur or o.st.store[l][0] == 'iter']
        fl = [l for l in rest if l not in it]
        if ck.ob('given', 'holds', len(it) == 1 and len(fl) == 1, 'the position is not kept', *w):
            placed(ck, 'given', E, o, fn, dict(it=it[0][2], second=fl[0][2]), cur, flag(E, o, sec), c1, c2)


def step(ck, fn, r):
    post = bool(fn.params)
    rule = 'post' if post else 'step'
    E, outs = ck.run(fn, **opts())
    it = this(r['it'])
    c1, c2 = (('deref', ('in', this(r[k]))) for k in ('c1', 'c2'))
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        inc = [e for e in o.trace if e.kind == 'call' and core.meth_of(e.name) == 'operator++' and e.obj == it]
        other = [e for e in o.trace if e.kind == 'call' and e.obj == it and core.meth_of(e.name) not in ('operator++', 'operator=')]
        nxt = [e for e in o.trace if e.kind == 'call' and e.name == 'std::next' and e.args in ((('in', it),), (('in', it), T.ONE))]
        if not inc and len(nxt) == 1 and nxt[0].ret is not None:
            other, inc = [e for e in other if e.name != 'std::next'], nxt
        if not ck.ob(rule, 'once', len(inc) == 1 and not other, 'the position moves %d times' % len(inc), *w):
            continue
        ck.ob(rule, 'containers', all(E.load(o.st, this(r[k])) == ('in', this(r[k])) for k in ('c1', 'c2')), 'a step changes the containers', *w)
        cur = ('mut', inc[0].name, inc[0].args, inc[0].site)
        s = [v for v in set(x for k, v in o.st.store.items() for x in T.subterms(v)) | set(x for t in o.st.facts for x in T.subterms(t)) if v[0] == 'mut' and core.meth_of(v[1]) == 'operator++']
        if inc is nxt:
            cur = nxt[0].ret
        elif ck.ob(rule, 'kept', len(set(s)) == 1, 'the step is lost', *w):
            cur = s[0]
        placed(ck, rule, E, o, fn, r, cur, flag(E, o, ('in', this(r['second']))), c1, c2)
        v = o.val
        if post:
            before = v == ('in', ('deref', ('thisptr',))) or remade(E, o, v, r, c1)
            ck.ob('post', 'value', before, 'the value is not the position before the step but %s' % T.show(v)[:80], *w)
        else:
            ck.ob('step', 'value', v == ('lval', ('deref', ('thisptr',))), 'the value is not the position itself', *w)


def remade(E, o, v, r, c1):
    """the value has the parts of the position before the step"""
    v = v[1] if v and v[0] == 'in' else v
    if not v or v[0] != 'retobj':
        return False
    if not any(l[:2] == ('fld', v) for l in o.st.store):
        return False
    if ended(E, o, ('in', this(r['it'])), c1) and flag(E, o, ('in', this(r['second']))) is False:
        return True       # no position is at the end of the first container
    at = lambda k: E.load(o.st, ('fld', v, r[k]))
    same = all(at(k) == ('in', this(r[k])) or at(k) == ('addr', ('deref', ('in', this(r[k])))) for k in ('c1', 'c2', 'it'))
    return same and flag(E, o, at('second')) is not None and flag(E, o, at('second')) is flag(E, o, ('in', this(r['second']))) or \
        same and at('second') == ('in', this(r['second']))


def compare(ck, fn, r, equal):
    E, outs = ck.run(fn, **opts())
    oth = ('var', fn.params[0]['d'], fn.params[0]['n'], 0)
    its = T.eq(('in', this(r['it'])), ('in', ('fld', oth, r['it'])))
    sec = T.eq(('in', this(r['second'])), ('in', ('fld', oth, r['second'])))
    for o in outs:
        if o.kind != 'ret':
            continue
        w = (C.loc(fn, o.line), C.trail(o))
        v = C.boolterm(o.val)
        yes, no = (v, T.lnot(v)) if equal else (T.lnot(v), v)
        ck.ob('compare', 'equal', C.implies(E, o.st.facts, yes, its) and C.implies(E, o.st.facts, yes, sec), 'equal without being the same place of the same container', *w)
        st = core.State()
        st.facts = dict(o.st.facts)
        if E.assume(st, its, True) and E.assume(st, sec, True):
            ck.ob('compare', 'different', E.truth(st.facts, yes) is True, 'different though it may be the same place', *w)


def deref(ck, fn, r):
    E, outs = ck.run(fn, **opts())
    for o in outs:
        if o.kind == 'ret':
            ck.ob('deref', 'element', o.val == ('lval', ('deref', ('in', this(r['it'])))), 'the element is %s' % T.show(o.val)[:80], C.loc(fn, o.line), C.trail(o))
