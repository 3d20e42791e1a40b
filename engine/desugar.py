"""calls of algorithms of the standard library that apply a function to every element are replaced by the loops they are, in the control flow graph"""
import copy
import re
import itertools

FRESH = itertools.count(8 * 10**9)
UNARY = {'std::for_each': None, 'std::any_of': (0, True), 'std::all_of': (1, False), 'std::none_of': (1, True), 'std::find_if': 'it', 'std::count_if': 'n',
         'std::transform': 'out'}


def nid():
    return next(FRESH)


def bare(t):
    return re.sub(r'<.*>', '', (t or '').replace('const ', '')).strip()


def plain(t):
    t = (t or '').strip()
    return t[6:] if t.startswith('const ') and not t.endswith('*') else t


def ref(v, n, t, l):
    return {'d': v, 'dk': 'var', 'id': nid(), 'k': 'ref', 'l': l, 'lv': 1, 'n': n, 't': t}


def decl(v, n, t, init, l):
    return {'id': nid(), 'k': 'decl', 'l': l, 'vars': [{'d': v, 'n': n, 't': t, 'init': init}]}


def op(o, x, y, t, l):
    """comparison of two iterators"""
    if t.endswith('*'):
        return {'id': nid(), 'k': 'bin', 'op': o, 'x': x, 'y': y, 't': 'bool', 'l': l}
    fn = '::'.join(bare(t).split('::')[:-1] + ['operator' + o])
    return {'a': [x, y], 'fk': fn, 'fn': fn, 'id': nid(), 'k': 'call', 'l': l, 'op': o, 'pm': ['cr', 'cr'], 't': 'bool'}


def deref(x, t, et, l):
    if t.endswith('*'):
        return {'id': nid(), 'k': 'un', 'op': '*', 'e': x, 'lv': 1, 't': et, 'l': l}
    fn = bare(t) + '::operator*'
    return {'a': [], 'cm': 1, 'fk': fn, 'fn': fn, 'id': nid(), 'k': 'call', 'l': l, 'lv': 1, 'obj': x, 'op': '*', 'pm': [], 't': et}


def step(x, t, l):
    if t.endswith('*'):
        return {'id': nid(), 'k': 'un', 'op': '++', 'e': x, 'lv': 1, 't': t, 'l': l}
    fn = bare(t) + '::operator++'
    return {'a': [], 'fk': fn, 'fn': fn, 'id': nid(), 'k': 'call', 'l': l, 'lv': 1, 'obj': x, 'op': '++', 'pm': [], 't': t}


def mode(p):
    t = p.get('t') or ''
    return 'v' if not t.endswith('&') else 'rr' if t.endswith('&&') else 'cr' if t.startswith('const ') else 'r'


def callee(a, fj, fns):
    """(function called by applying the argument, whether it is a lambda)"""
    if a.get('k') == 'lam':
        return a['fn'], True
    if a.get('k') == 'cast' and a.get('e'):
        return callee(a['e'], fj, fns)
    if a.get('k') == 'ctor' and len(a.get('a') or ()) == 1:
        return callee(a['a'][0], fj, fns)
    if a.get('k') == 'ref' and a.get('dk') == 'func':
        return a.get('qn'), False
    if a.get('k') == 'ref' and a.get('t') == '(lambda)':
        for b in fj['cfg']['blocks']:
            for e in b['e']:
                if e and e.get('k') == 'decl':
                    for v in e['vars']:
                        if v['d'] == a['d'] and v.get('init'):
                            return callee(v['init'], fj, fns)
    return None, False


def apply(f, lam, fj, x, l):
    if lam:
        return lambda fv: {'a': [x], 'cm': 1, 'fk': fj['key'], 'fn': fj['name'], 'id': nid(), 'k': 'call', 'l': l, 'obj': fv, 'op': '()',
                           'pm': [mode(p) for p in fj['params'][:1]], 'repo': 1, 't': fj.get('ret')}
    return lambda fv: {'a': [x], 'fk': fj['key'], 'fn': fj['name'], 'id': nid(), 'k': 'call', 'l': l, 'pm': [mode(p) for p in fj['params'][:1]],
                       'repo': 1, 't': fj.get('ret')}


def replace(x, i, new):
    """x with the expressions of identity i replaced"""
    if isinstance(x, dict):
        if x.get('id') == i and x.get('k') == 'call':
            return new()
        return {k: replace(v, i, new) if isinstance(v, (dict, list)) else v for k, v in x.items()}
    if isinstance(x, list):
        return [replace(v, i, new) for v in x]
    return x


def uses(x, i):
    if isinstance(x, dict):
        return x.get('id') == i and x.get('k') == 'call' or any(uses(v, i) for v in x.values() if isinstance(v, (dict, list)))
    return any(uses(v, i) for v in x) if isinstance(x, list) else False


def run(fj, fns):
    """fns: the functions of the translation unit, by key and by name"""
    c = fj.get('cfg')
    if not c:
        return
    todo = True
    rounds = 0
    while todo and rounds < 40:
        todo = False
        rounds += 1
        for b in c['blocks']:
            for k, e in enumerate(b['e']):
                if e and e.get('k') == 'call' and e.get('fn') in UNARY and one(fj, c, b, k, e, fns):
                    todo = True
                    break
            if todo:
                break


def one(fj, c, b, k, e, fns):
    what = UNARY[e['fn']]
    l, a = e.get('l', 0), e['a']
    if len(a) != (4 if what == 'out' else 3):
        return False
    name, lam = callee(a[-1], fj, fns)
    tgt = fns.get(name)
    if tgt is None or len(tgt['params']) != 1:
        return False
    t, t2 = plain(a[0].get('t')), plain(a[1].get('t'))
    if not t or t != t2:
        return False
    et = re.sub(r'\s*&+$', '', tgt['params'][0].get('t') or '')
    ids = [x['id'] for x in c['blocks']]
    H, B, S, A = (max(ids) + 1 + i for i in range(4))
    it, en, fv, rv = nid(), nid(), nid(), nid()
    pre = b['e'][:k]
    rest = b['e'][k + 1:]
    dup = {e['id']}
    rest = [x for x in rest if not (x and x.get('id') in dup)]
    head = [decl(it, '__it', t, a[0], l), decl(en, '__end', t, a[1], l)]
    if lam:
        head.append(decl(fv, '__f', '(lambda)', a[-1], l))
    elt = deref(ref(it, '__it', t, l), t, et, l)
    call = apply(tgt, lam, tgt, elt, l)(ref(fv, '__f', '(lambda)', l))
    body, bt, bs = [elt, call], None, [S]
    res = None
    if isinstance(what, tuple):
        res = ref(rv, '__r', 'bool', l)
        head.append(decl(rv, '__r', 'bool', {'id': nid(), 'k': 'bool', 'v': bool(what[0]), 't': 'bool', 'l': l}, l))
        F = A + 1
        found = [{'id': nid(), 'k': 'asg', 'op': '=', 'x': ref(rv, '__r', 'bool', l), 'lv': 1, 't': 'bool', 'l': l,
                  'y': {'id': nid(), 'k': 'bool', 'v': not what[0], 't': 'bool', 'l': l}}]
        bt = {'c': call, 'id': nid(), 'k': 'IfStmt', 'l': l}
        bs = [F, S] if what[1] else [S, F]
        c['blocks'].append({'id': F, 's': [A], 'e': found})
    elif what == 'it':
        res = ref(it, '__it', t, l)
        bt = {'c': call, 'id': nid(), 'k': 'IfStmt', 'l': l}
        bs = [A, S]
    elif what == 'n':
        res = ref(rv, '__r', 'long', l)
        head.append(decl(rv, '__r', 'long', {'id': nid(), 'k': 'int', 'cv': '0', 't': 'long', 'l': l}, l))
        F = A + 1
        bt = {'c': call, 'id': nid(), 'k': 'IfStmt', 'l': l}
        bs = [F, S]
        c['blocks'].append({'id': F, 's': [S], 'e': [{'id': nid(), 'k': 'un', 'op': '++', 'e': ref(rv, '__r', 'long', l), 'lv': 1, 't': 'long', 'l': l}]})
    elif what == 'out':
        o = a[2]
        while o.get('k') == 'cast' and o.get('e'):
            o = o['e']
        if o.get('k') == 'call' and o.get('fn') == 'std::back_inserter' and o['a'][0].get('lv'):
            ct = bare(o['a'][0].get('t'))
            fn = ct + '::push_back'
            body.append({'a': [call], 'fk': fn, 'fn': fn, 'id': nid(), 'k': 'call', 'l': l, 'obj': o['a'][0], 'pm': ['cr'], 't': 'void'})
            if any(uses(x, e['id']) for x in rest):
                return False
        else:
            ot = a[2].get('t') or ''
            if not ot.endswith('*') and not bare(ot).split('::')[-1].endswith('iterator'):
                return False
            res = ref(rv, '__out', ot, l)
            head.append(decl(rv, '__out', ot, a[2], l))
            body += [{'id': nid(), 'k': 'asg', 'op': '=', 'x': deref(ref(rv, '__out', ot, l), ot, tgt.get('ret'), l), 'y': call, 'lv': 1,
                      't': tgt.get('ret'), 'l': l}, step(ref(rv, '__out', ot, l), ot, l)]
    cond = op('!=', ref(it, '__it', t, l), ref(en, '__end', t, l), t, l)
    if res is None and (any(uses(x, e['id']) for x in rest) or uses(b.get('t') or {}, e['id']) or
                        any(uses(y['e'], e['id']) or uses(y.get('t') or {}, e['id']) for y in c['blocks'] if y is not b)):
        return False
    after = dict(b)
    after.update(id=A, e=rest)
    c['blocks'] += [{'id': H, 's': [B, A], 'e': [cond], 't': {'c': cond, 'id': nid(), 'k': 'ForStmt', 'l': l}},
                    dict({'id': B, 's': bs, 'e': body}, **({'t': bt} if bt else {})),
                    {'id': S, 's': [H], 'e': [step(ref(it, '__it', t, l), t, l)], 'loop': 1},
                    after]
    for key in ('case', 'catch', 'loop'):
        after.pop(key, None)
    b['e'] = pre + head
    b['s'] = [H]
    b.pop('t', None)
    if 'loop' in b:
        after['loop'] = b.pop('loop')
    if res is not None:
        for y in c['blocks']:
            y['e'] = replace(y['e'], e['id'], lambda: dict(copy.deepcopy(res), id=nid()))
            if y.get('t'):
                y['t'] = replace(y['t'], e['id'], lambda: dict(copy.deepcopy(res), id=nid()))
    return True
