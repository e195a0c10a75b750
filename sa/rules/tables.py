"""Deciding small total functions case by case: a case fixes the variants, numbers and orderings a result depends on; every
abstract path compatible with the case has to give the result stated for it."""
from .common import *
from .order import order_of, implies, size
from .values import lens

NUMBER = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1}
IDENT = __import__('re').compile(r'^[A-Za-z_][A-Za-z0-9_]*$')
LAST = lambda n: n.split('::')[-1]


def item_of(c, k): return T('at', c, k)


def strip_seq(c):
    """views of a collection with the same items"""
    while c.op == 'call' and len(c.a[1]) == 1 and LAST(c.a[0]) in ('iter', 'into_iter', 'as_slice', 'as_ref', 'deref', 'as_inner', 'to_vec', 'clone', 'cloned', 'copied', 'by_ref') or c.op == 'iter':
        c = c.a[1][0] if c.op == 'call' else c.a[0]
    return c


def access(x):
    """(collection, position, projection) if x is an optional access by position"""
    if x.op != 'call': return None
    n, a = LAST(x.a[0]), x.a[1]
    if n in ('first_key_value', 'first', 'last_key_value', 'last') and len(a) == 1:
        c = strip_seq(a[0])
        return c, (I(0) if n.startswith('first') else T('last', c)), None
    if n in ('get', 'nth') and len(a) == 2:
        c = strip_seq(a[0])
        pr = None
        if c.op == 'call' and LAST(c.a[0]) in ('keys', 'values') and len(c.a[1]) == 1:
            pr = '0' if LAST(c.a[0]) == 'keys' else '1'
            c = strip_seq(c.a[1][0])
        elif c.op in ('keys', 'values'):
            pr = '0' if c.op == 'keys' else '1'
            c = strip_seq(c.a[0])
        return c, a[1], pr
    return None


def canon(t, memo=None):
    """Normal form of accesses by position and of constants made of literals."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'fld' and x.a[1] in ('Some', 'Ok'):
            b = go(x.a[0])
            o = access(b) if x.a[1] == 'Some' else None
            if o:
                r = found_at(o[0], o[1])
                if o[2] is not None: r = T('fld', r, '', o[2])
            elif x.a[1] == 'Ok' and b.op == 'call' and LAST(b.a[0]) in ('try_from', 'from', 'from_str', 'try_into') and len(b.a[1]) == 1 and literal(b.a[1][0]):
                r = literal(b.a[1][0])
            else: r = T('fld', b, *x.a[1:])
        elif x.op == 'discr':
            b = go(x.a[0])
            o = access(b)
            if o: r = T('has', o[0], o[1]) if o[1].op != 'pos' or strip_seq(o[1].a[0]) is not o[0] else T('str', 'Some')
            elif b.op == 'call' and LAST(b.a[0]) in ('try_from', 'from_str', 'try_into') and len(b.a[1]) == 1 and literal(b.a[1][0]):
                lit = literal(b.a[1][0])
                r = T('str', 'Ok') if IDENT.match(lit.a[0]) else T('discr', b, '')
            else: r = T('discr', b, '')
        elif x.op == 'fld' and x.a[1] == '' and x.a[2] == '0' and x.a[0].op == 'fld' and x.a[0].a[2] == 'name': r = go(x.a[0])
        elif x.op == 'call' and len(x.a[1]) == 1 and LAST(x.a[0]) in ('as_str', 'to_ident', 'into_ident', 'as_ref', 'to_string', 'borrow', 'clone') : r = go(x.a[1][0])
        elif x.op == 'call' and LAST(x.a[0]) == 'len' and len(x.a[1]) == 1:
            c, n = untail(go(x.a[1][0]))
            r = T('call', 'len', (c,), '')
            if n: r = T('bin', 'Sub', r, I(n))
        elif x.op == 'cast' and x.a[1].op == 'call' and LAST(x.a[1].a[0]) == 'len': r = go(x.a[1])
        elif x.op == 'idx': r = found_at(strip_seq(go(x.a[0])), go(x.a[1]))
        elif x.op == 'first':
            c, n = untail(go(x.a[0]))
            r = T('at', c, I(n))
        elif x.op == 'elem': r = T('elem', go(x.a[0]), x.a[1])
        else: r = T(x.op, *(go(y) for y in x.a))
        memo[x] = r
        return r
    return go(t)


def found_at(c, k):
    """item at a position; a position found by a loop over the same collection is that of the loop's item"""
    if k.op == 'pos' and strip_seq(k.a[0]) is c: return T('elem', c, k.a[1])
    return T('at', c, k)


def by_position(o):
    return any(x.op in ('pos', 'posn') for e in [o.st.facts] + [b['facts'] for e in deep_events(o.st.events()) if e.k == 'loop' for b in e.x['bodies']] for k in e for x in walk(k))


def untail(c):
    """(collection, number of items taken from the front)"""
    n = 0
    c = strip_seq(c)
    while c.op == 'tail':
        c = strip_seq(c.a[0])
        n += 1
    return c, n


def literal(t):
    """string literal behind a conversion of text"""
    while t.op == 'call' and len(t.a[1]) == 1 and LAST(t.a[0]) in ('as_bytes', 'to_owned', 'to_string', 'into', 'as_ref', 'into_bytes', 'as_str', 'to_vec'): t = t.a[1][0]
    return t if t.op == 'str' else None


class Model:
    """A case: what is known about the inputs."""
    def __init__(s, facts=(), neq=()):
        s.facts, s.neq = {}, {}
        for k, v in dict(facts).items(): s.facts[canon(k)] = v
        for k, v in dict(neq).items(): s.neq[canon(k)] = frozenset(v)
        s.num = {k: v for k, v in s.facts.items() if isinstance(v, int)}
        ls = {x for k in s.facts for x in walk(k) if x.op == 'call' and x.a[0] == 'len'}
        s.last = {T('last', l.a[1][0]): l for l in ls}

    def term(s, t):
        """value of a term in the case"""
        m = {}
        for x in walk(t):
            if x.op == 'last' and x in s.last:
                l = s.last[x]
                n = s.facts.get(l)
                if isinstance(n, int): m[x] = I(n - 1)
            if x.op == 'bin' and x.a[0] == 'Sub' and x.a[2].op == 'int' and isinstance(s.facts.get(x.a[1]), int): m[x] = I(s.facts[x.a[1]] - x.a[2].a[0])
        if m: t = canon(subst(t, m))
        if t in s.num: return I(s.num[t])
        return t

    def le(s, a, b, strict=False):
        for x, y, st in ((a, b, True), (b, a, False)):
            # a position is below the length exactly if there is an item at it
            if y.op == 'call' and y.a[0] == 'len' and strict == st:
                h = s.facts.get(T('has', y.a[1][0], x))
                if h in ('Some', 'None'): return (h == 'Some') == st
        a, b = s.term(a), s.term(b)
        if a.op == 'int' and b.op == 'int': return a.a[0] < b.a[0] if strict else a.a[0] <= b.a[0]
        try:
            f = {k: v for k, v in s.facts.items() if k.op in ('bin', 'call')}
            if implies(f, s.neq, *((T('bin', 'Add', a, I(1)), b) if strict else (a, b))): return True
            if implies(f, s.neq, *((b, a) if strict else (T('bin', 'Add', b, I(1)), a))): return False
        except (RecursionError, KeyError, IndexError, TypeError): pass
        return None

    def same(s, a, b):
        """equality of two terms"""
        a, b = s.term(a), s.term(b)
        if a is b: return True
        if a.op in ('int', 'str') and b.op in ('int', 'str'): return False
        for x, y in ((a, b), (b, a)):
            if x.op == 'discr' and y.op == 'int':
                v = s.discr(x.a[0])
                if v in NUMBER: return NUMBER[v] == y.a[0]
        for x, y in ((a, b), (b, a)):
            v = s.facts.get(x)
            if v is not None and y.op in ('int', 'str'): return v == y.a[0]
            if x in s.neq and y.op in ('int', 'str') and y.a[0] in s.neq[x]: return False
            if x.op == 'adt':
                if x.a[1]:
                    d = s.discr(y)
                    if d is None: continue
                    if d != x.a[1]: return False
                r = True
                names = s.names(x, y)
                for i, f in enumerate(x.a[2]):
                    n = names[i] if names else str(i)
                    e = s.same(f, y.a[2][i] if y.op == 'adt' and i < len(y.a[2]) else canon(T('fld', y, x.a[1] if y.op != 'adt' else '', n)))
                    if e is False: return False
                    if e is None: r = None
                return r
        e = T('bin', 'Eq', a, b)
        e2 = T('bin', 'Eq', b, a)
        for k in (e, e2):
            if k in s.facts: return bool(s.facts[k])
        if a.op == 'adt' and b.op == 'adt' and (a.a[1] != b.a[1]): return False
        return None

    def names(s, x, y): return None

    def discr(s, t):
        if t.op == 'adt': return t.a[1]
        for k, v in s.facts.items():
            if k.op == 'discr' and k.a[0] is t: return v
        o = access(t)
        if o:
            r = s.has(T('has', o[0], o[1]))
            return None if r is None else 'Some' if r else 'None'
        return None

    def has(s, k):
        for v in ('Some', 'None'):
            if s.facts.get(k) == v: return v == 'Some'
        if k.a[1].op == 'last': return s.le(I(1), T('call', 'len', (k.a[0],), ''))
        return s.le(k.a[1], T('call', 'len', (k.a[0],), ''), True)

    def holds(s, k, v):
        """True / False / None: the condition k = v in this case"""
        k = canon(k)
        if k.op == 'str': return k.a[0] == v
        t = s.term(k)
        if t.op == 'int': return t.a[0] == v
        if k in s.facts: return s.facts[k] == v
        if k in s.neq and v in s.neq[k]: return False
        if k.op == 'discr':
            d = s.discr(k.a[0])
            return None if d is None else d == v
        if k.op == 'has':
            r = s.has(k)
            return None if r is None else r == (v == 'Some')
        if k.op == 'bin' and v in (0, 1):
            op, a, b = k.a
            r = s.same(a, b) if op in ('Eq', 'Ne') else s.le(a, b, True) if op == 'Lt' else s.le(a, b) if op == 'Le' else s.le(b, a, True) if op == 'Gt' else s.le(b, a) if op == 'Ge' else None
            if r is None and op in ('Eq', 'Ne'):
                for x, y in ((a, b), (b, a)):
                    if s.le(x, y, True): r = False
            if r is None: return None
            return (r != (op == 'Ne')) == bool(v)
        if k.op == 'pred' and k.a[0] == 'is_empty' or k.op == 'call' and LAST(k.a[0]) == 'is_empty':
            c = strip_seq(k.a[1] if k.op == 'pred' else k.a[1][0])
            r = s.le(T('call', 'len', (c,), ''), I(0))
            return None if r is None else r == bool(v)
        if isinstance(v, int):
            r = s.same(k, I(v))
            if r is None:
                if s.le(k, I(v), True) or s.le(I(v), k, True): r = False
            return r
        return None

    def value(s, t):
        """the result in this case"""
        t = s.term(canon(t))
        if t.op == 'empty' and t.a[0] in ('', 'String'): return T('str', '')
        if t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = s.holds(t, 1)
            if r is not None: return I(int(r))
        o = access(t)
        if o:
            r = s.has(T('has', o[0], o[1]))
            if r is True:
                x = s.term(T('at', o[0], o[1]))
                return T('adt', 'core::option::Option', 'Some', (x if o[2] is None else T('fld', x, '', o[2]),))
            if r is False: return T('adt', 'core::option::Option', 'None', ())
        if t.op == 'not':
            r = s.value(t.a[0])
            if r.op == 'int': return I(1 - r.a[0])
        if t.op == 'adt': return T('adt', t.a[0], t.a[1], tuple(s.value(x) for x in t.a[2]))
        return t

    def path(s, o):
        """True: the path is the one taken; None: may be; False: is not"""
        r = True
        for k, v in o.st.facts.items():
            h = s.holds(k, v)
            if h is False: return False
            if h is None: r = None
        for k, vs in o.st.neq.items():
            for v in vs:
                h = s.holds(k, v)
                if h is True: return False
                if h is None: r = None
        return r


def contradictory(o):
    """the conditions of the path exclude each other"""
    m = Model(o.st.facts, o.st.neq)
    for k, v in m.facts.items():
        if k.op in ('has', 'bin', 'call'):
            r = dict(m.facts)
            r.pop(k)
            try:
                if Model(r, m.neq).holds(k, v) is False: return True
            except RecursionError: pass
    return False


def known_conditions(o):
    return not any(fuzzy(k) or any(x.op.startswith('opq') for x in walk(k)) for k in list(o.st.facts) + list(o.st.neq))


def judge(rep, key, outs, cases, where='', extra=(), panics=False):
    """cases: (name, Model, expected result: term, 'panic' or a function (path) -> True/False/None)"""
    if outs is None: return
    for name, m, exp in cases:
        verdict, text, n = True, '', 0
        for o in outs:
            p = m.path(o)
            if p is False: continue
            n += 1
            if o.k == 'panic':
                good = True if exp == 'panic' else (False if p and not panics else None)
                why = f'panics ({o.x.get("kind")} in {o.x.get("fn")}:{o.x.get("line")})'
            elif o.k != 'ret': good, why = None, o.k
            elif callable(exp): good, why = exp(o, m), f'gives {pp(m.value(o.v))[:300]}'
            elif isinstance(exp, str): good, why = (False if resolved(canon(o.v), extra) else None), f'gives {pp(o.v)[:200]} instead of a panic'
            else:
                got = m.value(o.v)
                good = same_value(got, m.value(exp), tuple(extra) + ('at', 'has'))
                if good is False and any(x.op == 'elem' for x in walk(got)) and not any(x.op == 'elem' for x in walk(exp)): good = None
                why = f'gives {pp(norm(got))[:300]}, expected {pp(norm(m.value(exp)))[:200]}'
            if good is False and p is None and not known_conditions(o): good = None
            if good is False and p is None and any(x.op in ('elem', 'done') for k in o.st.facts for x in walk(k)) and (by_position(o) or not callable(exp)): good = None
            if good is False and p is None: why += ' when ' + '; '.join(f'{pp(k)[:120]}={v}' for k, v in o.st.facts.items() if m.holds(k, v) is None)
            if good is False: verdict, text = False, why
            elif good is None and verdict is True: verdict, text = None, why
        if n == 0: verdict, text = None, 'no path is compatible with the case'
        rep.tri(f'{key}:{name}', verdict, text, where)


def lookup(rep, key, outs, coll, field, k, part, absent, where=''):
    """Search of a collection: the result is the stated part of an entry whose `field` equals k, or the absence if there is none.
    field/part: functions of the entry; absent: 'None' or 0"""
    if outs is None: return
    k = canon(k)
    base = canon(coll)

    def is_base(c):
        c = strip_seq(canon(c))
        pr = ()
        while c.op == 'call' and LAST(c.a[0]) in ('keys', 'values') or c.op in ('keys', 'values'):
            pr = ('0' if 'keys' in (c.op, LAST(str(c.a[0]))) else '1',)
            c = strip_seq(c.a[1][0] if c.op == 'call' else c.a[0])
        return c is base

    def eqs(facts, v):
        for x, y in facts.items():
            x = canon(x)
            if x.op == 'bin' and x.a[0] in ('Eq', 'Ne') and (y == 1) == ((x.a[0] == 'Eq') == bool(v)): yield x.a[1], x.a[2]
            if x.op not in ('bin', 'discr') and isinstance(y, int) and v and k.op == 'int' and y == k.a[0]: yield x, k

    def matches(facts, e, v=1):
        w = canon(field(e))
        return any((a is w and b is k) or (a is k and b is w) for a, b in eqs(facts, v))
    hits = 0
    for o in outs:
        if any(c.op == 'str' and c.a[0] != y for c, y in ((canon(x), y) for x, y in o.st.facts.items())): continue
        if o.k != 'ret' and (absent != 'panic' or o.k != 'panic'):
            rep.tri(key + ':total', None if o.k != 'panic' else False, f'{o.k} {o.x}', where)
            continue
        vk, val = res_parts(o)
        if absent == 'panic': vk, val = ('Some', o.v) if o.k == 'ret' else ('None', None)
        if vk is None and o.v.op == 'int': present, val = bool(o.v.a[0]), None
        elif vk is None:
            v = canon(o.v)
            a = access(v)
            if a and a[0] is base and (a[1] is k or a[1].op == 'int') and a[1].op != 'elem':
                rep.bad(key + ':match', f'gives the entry at a position: {pp(v)[:200]}', where)
                continue
            rep.tri(key + ':result', None, f'cannot resolve {pp(v)[:200]}', where)
            continue
        else: present = vk in ('Some', 'Ok')
        facts = o.st.facts
        elems = {x for t in list(facts) + [o.v] * (o.v is not None) for x in walk(canon(t)) if x.op in ('elem', 'at') and is_base(x.a[0])}
        opaque = not known_conditions(o) or o.v is not None and fuzzy(o.v)
        if present:
            hits += 1
            good = [e for e in elems if matches(facts, e)]
            if not good:
                rep.tri(key + ':match', None if opaque or not resolved(canon(o.v), ('at',)) else False,
                        f'gives {pp(o.v)[:200]} without the entry being known to match: {[pp(x)[:120] + "=" + str(y) for x, y in facts.items()][:6]}', where)
                continue
            rep.ok(key + ':match', '', where)
            if val is not None:
                v = canon(val)
                exp = [canon(part(e)) for e in good]
                ok = any(v is x for x in exp)
                rep.tri(key + ':part', True if ok else None if fuzzy(v) or not resolved(v) else False, f'gives {pp(v)[:200]}, expected {pp(exp[0])[:100]}', where)
        else:
            done = [x for x, y in facts.items() if x.op == 'done' and y == 1 and is_base(x.a[0])]
            if not done:
                rep.tri(key + ':absent', None if opaque or not facts or any(x.op in ('call', 'discr', 'pred', 'has') and not any(z in elems for z in walk(x)) for x in map(canon, facts)) else False,
                        f'absence is reported before all entries were seen: {[pp(x)[:120] + "=" + str(y) for x, y in facts.items()][:6]}', where)
                continue
            verdict, why = True, ''
            for e in deep_events(o.st.events()):
                if e.k != 'loop' or not any(x.a[1] == e.x['uid'] for x in done): continue
                for b in e.x['bodies']:
                    es = {x for t in b['facts'] for x in walk(canon(t)) if x.op == 'elem' and is_base(x.a[0])}
                    if not any(matches(b['facts'], x, 0) for x in es):
                        verdict = None if any(fuzzy(t) for t in b['facts']) else False
                        why = f'an entry is passed over though it may match: {[pp(x)[:120] + "=" + str(y) for x, y in b["facts"].items()][:6]}'
            rep.tri(key + ':absent', verdict, why, where)
    rep.tri(key + ':found', True if hits else None, 'no path reports an entry', where)


def closure_paths(rep, c, *args, **opts):
    """paths of a closure value"""
    fs = [x for x in rep.p.fns if x.id == c.a[0] and x.ok]
    if not fs: return None, None
    cf = fs[0]
    args = list(args) + [sym(f'arg{i}') for i in range(cf.argc - 1 - len(args))]
    return cf, rep.paths_of(cf, args=[c] + args, **opts)


def clos_in(outs):
    for o in outs or ():
        for e in deep_events(o.st.events()):
            if e.k == 'call':
                for a in e.args:
                    if isinstance(a, T) and a.op == 'clo': yield a


def const_pairs(rep, ty, name='ALL_VARIANTS'):
    """[(number, text)] of a constant table of a type"""
    for k, v in rep.p.consts.items():
        if k.endswith('::' + name) and (f'::{ty} as ' in k or f'::{ty}<' in k or f'<{ty} as ' in k or f'<{ty}<' in k):
            d = v.get('deref') or v
            r = []
            for x in d.get('fields', ()):
                fs = x.get('fields', ())
                if len(fs) == 2 and 'int' in fs[0] and 'str' in fs[1]: r.append((fs[0]['int'], fs[1]['str']))
                else: return None
            return r or None
    return None


def texts(facts, val=1):
    """texts which something is known (not) to be equal to"""
    for k, v in facts.items():
        if k.op == 'bin' and k.a[0] == 'Eq' and v == val:
            for x in k.a[1:]:
                x = canon(x)
                if x.op == 'str': yield x.a[0]
                elif x.op == 'cparam':
                    s = str(x.a[0])
                    if s.startswith('"') and s.endswith('"'): yield s[1:-1]
