"""V14: conversion from external value notations."""
from .common import *
from .tables import *

X = sym('x')
D = lambda t: T('discr', t, '')
KINDS = {'serde_json': dict(Null='unit', Bool='bool', Number='number', String='text', Array='list', Object='map'),
         'serde_yaml': dict(Null='unit', Bool='bool', Number='number', String='text', Sequence='list', Mapping='map', Tagged='tagged'),
         'toml': dict(Integer='int', Float='float', Boolean='bool', String='text', Array='list', Table='map', Datetime='date')}


def V14(rep):
    """The conversion of each notation is evaluated on its abstract paths, one case for each kind of external value and for each
    class of numbers (both signed and unsigned, only unsigned, negative, floating): the result has to be the value of that kind
    built of all of the content in order, and no case may end in a panic."""
    n = 0
    for f in rep.p.find('StrictVal', 'from'):
        t = rep.p.ty(f.j['locals'][1][0])
        if t['k'] != 'adt' or LAST(t['path']) != 'Value': continue
        lang = t['path'].split('::')[0]
        if lang not in KINDS: continue
        outs = rep.paths_of(f, names=['x'])
        if outs is None: continue
        n += 1
        calls = {}
        for o in outs:
            for k in list(o.st.facts) + list(o.st.neq) + ([o.v] if o.v is not None else []):
                for c in walk(canon(k)):
                    if c.op == 'call' and LAST(c.a[0]) in ('is_u64', 'is_i64', 'is_f64', 'as_u64', 'as_i64', 'as_f64'): calls.setdefault(LAST(c.a[0]), set()).add(c)

        def conv(t, src):
            while t is not src and (t.op == 'call' and len(t.a[1]) == 1 and LAST(t.a[0]) in ('from', 'into', 'to_string', 'to_owned', 'into_string', 'clone') or t.op == 'adt' and len(t.a[2]) == 1 and t.a[1] == 'String'):
                t = t.a[1][0] if t.op == 'call' else t.a[2][0]
            if t.op == 'call' and t.a[1] == (src,) and LAST(t.a[0]) in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase'): return False
            return True if t is src else None if fuzzy(t) or t.op == 'call' else False

        def val(o, var, check):
            v = canon(o.v)
            if v.op == 'call' and conv(v, X) is True: return None
            if v.op == 'call' and var in ('List', 'Map') and LAST(v.a[0]) in ('from', 'into'):
                a = v.a[1][0]
                if a.op in ('at', 'elem') or a.op == 'call' and LAST(a.a[0]) in ('remove', 'pop', 'swap_remove'): return False
            if v.op != 'adt' or LAST(v.a[0]) != 'StrictVal': return None if fuzzy(v) or v.op == 'call' else False
            if v.a[1] != var: return False
            return check(v.a[2][0]) if v.a[2] else True

        def num(var, src):
            def go(t):
                if t.op != 'adt' or LAST(t.a[0]) != 'StrictNum': return None if fuzzy(t) or t.op == 'call' else False
                x = t.a[2][0]
                if t.a[1] != var: return False
                if callable(src): return src(x)
                return True if x is src else None if fuzzy(x) or x.op == 'call' else False
            return lambda o, m: val(o, 'Number', go)

        def got(name):
            def go(x):
                if x.op == 'fld' and x.a[1] == 'Some' and x.a[0].op == 'call': return LAST(x.a[0].a[0]) == name if LAST(x.a[0].a[0]) in ('as_u64', 'as_i64', 'as_f64') else None
                return False if x.op == 'cast' else None
            return go

        def items(part, src):
            def go(t):
                if t.op == 'partial': return False
                if t.op == 'coll':
                    if t.a[1].op in ('rev', 'but-n', 'first-n', 'stepby'): return False
                    if strip_seq(t.a[1]) is src and any(x.op == 'skip' for x in t.a[2]): return False
                    if strip_seq(t.a[1]) is src and len(t.a[2]) == 1:
                        es = [x for x in walk(t.a[2][0]) if x.op == 'elem' and strip_seq(x.a[0]) is src]
                        return part(t.a[2][0], es[0]) if es else None
                return None if fuzzy(t) or t.op in ('call', 'coll') else False
            return go
        pair = lambda t, e: None if t.op != 'tup' else (lambda a, b: False if False in (a, b) else None if None in (a, b) else True)(conv(t.a[0][0], fldp(e, '0')), conv(t.a[0][1], fldp(e, '1')))
        for var, kind in KINDS[lang].items():
            c = fldp(X, f'{var}:0')
            base = {D(X): var}
            cases = []
            if kind == 'unit': cases = [('', {}, lambda o, m: val(o, 'Unit', None))]
            elif kind == 'bool':
                def tag(t, c=c):
                    if t.op != 'adt' or t.a[1] != 'Ord': return None if fuzzy(t) or t.op == 'call' else False
                    x = strip_cast(t.a[2][0])
                    if x.op == 'call' and LAST(x.a[0]) in ('from', 'into'): x = x.a[1][0]
                    return True if x is c else None if fuzzy(x) or x.op in ('int', 'call') else False
                cases = [('', {}, lambda o, m, tag=tag: val(o, 'Enum', tag))]
            elif kind == 'text': cases = [('', {}, lambda o, m, c=c: val(o, 'String', lambda t: conv(t, c)))]
            elif kind == 'list': cases = [('', {}, lambda o, m, c=c: val(o, 'List', items(conv, c)))]
            elif kind == 'map': cases = [('', {}, lambda o, m, c=c: val(o, 'Map', items(pair, c)))]
            elif kind == 'tagged':
                def inner(o, m, c=c):
                    v = canon(o.v)
                    return True if conv(v, fldp(c, 'value')) is True else None if v.op == 'call' or fuzzy(v) else False
                cases = [('', {}, inner)]
            elif kind == 'int': cases = [('', {}, num('Int', c))]
            elif kind in ('float', 'date'): cases = [('', {}, lambda o, m: True)]
            else:
                def cl(u, i, fl, d):
                    r = {}
                    for x, v in (('u64', u), ('i64', i), ('f64', fl)):
                        for k in calls.get('is_' + x, ()): r[k] = v
                        for k in calls.get('as_' + x, ()): r[D(k)] = 'Some' if v else 'None'
                    return r
                cases = [(':small', cl(1, 1, 0, 0), num('Uint', got('as_u64'))), (':large', cl(1, 0, 0, 0), num('Uint', got('as_u64'))),
                         (':negative', cl(0, 1, 0, 0), num('Int', got('as_i64'))), (':float', cl(0, 0, 1, 0), lambda o, m: True)]
            judge(rep, lang, outs, [(var + nm, Model({**base, **extra}), exp) for nm, extra, exp in cases], f.where())
    rep.check('notations', n == 3, f'{n} conversions from external notations are analysed, three are expected')
