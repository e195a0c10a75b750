"""A: definitions of types."""
import re
from .common import *
from .tables import *

S, K = sym('self'), sym('k')
CLASSES = ('Primitive', 'UnicodeChar', 'Enum', 'Union', 'Tuple', 'Struct', 'Array', 'List', 'Set', 'Map')
ln = lambda c: T('call', 'len', (c,), '')
D = lambda t: T('discr', t, '')
OPT = 'core::option::Option'
some = lambda v: T('adt', OPT, 'Some', (v,))
NONE = T('adt', OPT, 'None', ())
of = lambda c, i='0': fldp(S, f'{c}:{i}')

CLS = {'Primitive': 0, 'Unicode': 1, 'AsciiStr': 2, 'Enum': 3, 'Union': 4, 'Struct': 5, 'Tuple': 6, 'Array': 7, 'List': 8, 'Set': 9, 'Map': 10}
CLASS_OF = {c: c for c in CLASSES} | {'UnicodeChar': 'Unicode'}
# serialized tag and name of each variant, as published
WIRE = {
    'Ty': {'Primitive': (0, 'primitive'), 'UnicodeChar': (1, 'unicode'), 'Enum': (3, 'enum'), 'Union': (4, 'union'), 'Tuple': (5, 'tuple'), 'Struct': (6, 'struct'),
           'Array': (7, 'array'), 'List': (8, 'list'), 'Set': (9, 'set'), 'Map': (10, 'map')},
    'InlineRef': {'Inline': (0, 'inline'), 'Named': (1, 'named'), 'Extern': (2, 'extern')},
    'InlineRef1': {'Inline': (0, 'inline'), 'Named': (1, 'named'), 'Extern': (2, 'extern')},
    'InlineRef2': {'Named': (0, 'named'), 'Extern': (1, 'extern')},
    'LibRef': {'Inline': (0, 'inline'), 'Named': (1, 'named'), 'Extern': (2, 'extern')},
    'TranspileRef': {'Embedded': (0, 'embedded'), 'Named': (1, 'named'), 'Extern': (2, 'extern')},
    'ItemCase': {'UnnamedField': (0, 'unnamedField'), 'NamedField': (1, 'namedField'), 'UnionVariant': (2, 'unionVariant'), 'ArrayItem': (16, 'arrayItem'), 'ListItem': (17, 'listItem'),
                 'SetItem': (18, 'setItem'), 'MapKey': (19, 'mapKey'), 'MapValue': (20, 'mapValue')},
}


def wire(rep, ty, table):
    """the serialized form of a sum type: tag table, names written and names read"""
    got = const_pairs(rep, ty)
    if got is None: rep.bad(f'{ty}:tags', 'the table of serialized variants is gone')
    else:
        rep.check(f'{ty}:tags', sorted(got) == sorted(table.values()), f'serialized variants are {sorted(got)}, published are {sorted(table.values())}')
    f, outs = rep.run(ty, 'strict_encode', trait='StrictEncode', opts=dict(names=['self', 'w']))
    f = f or None
    for c in dict.fromkeys(clos_in(outs)):
        cf, po = closure_paths(rep, c, sym('u'))
        if po is None: continue
        written = {}
        for o in po:
            if o.k != 'ret': continue
            v = next((x for k, x in o.st.facts.items() if k.op == 'discr' and k.a[0] is S), None)
            w = [e for e in o.st.events() if e.k == 'call' and LAST(e.name).startswith('write_') and len(e.args) >= 2]
            if not v or not w: continue
            nm = next((x.a[0] for a in w[0].args[1:2] for x in walk(canon(a)) if x.op == 'str'), None)
            if nm: written.setdefault(v, set()).add(nm)
        for v, (tag, nm) in table.items():
            w = written.get(v)
            rep.tri(f'{ty}:write:{v}', None if not w else w == {nm}, f'{v} is written as {w}, published as {nm}', cf.where())
    f, outs = rep.run(ty, 'strict_decode', trait='StrictDecode', opts=dict(names=['r']))
    for c in dict.fromkeys(clos_in(outs)):
        cf, po = closure_paths(rep, c)
        if po is None: continue
        read = {}
        for o in po:
            if o.k != 'ret': continue
            ts = list(texts(o.st.facts))
            if len(ts) != 1: continue
            mk = {x.a[1] for x in walk(o.v) if x.op == 'adt' and LAST(x.a[0]) == ty}
            for c2 in [x for x in walk(o.v) if x.op == 'clo'] + list(clos_in([o])):
                _, p2 = closure_paths(rep, c2)
                for o2 in p2 or ():
                    if o2.k == 'ret': mk |= {x.a[1] for x in walk(o2.v) if x.op == 'adt' and LAST(x.a[0]) == ty}
            for x in list(walk(o.v)):
                if x.op == 'fnval' and any(LAST(str(a)) in table for a in x.a): mk |= {LAST(str(a)) for a in x.a if LAST(str(a)) in table}
            if mk: read.setdefault(ts[0], set()).update(mk)
        for v, (tag, nm) in table.items():
            m = read.get(nm)
            rep.tri(f'{ty}:read:{v}', None if not m else m == {v}, f'{nm} is read as {m}, published as {v}', cf.where())


def A02(rep):
    """The class reported for a definition is computed for each variant of a definition; the numbers committed to for the
    classes (discriminants of the class enumeration) are compared with those published, as are the tables of serialized tags
    and names of definitions, references and item roles; for each variant, the name written by the serializer and the variant
    constructed by the reader for that name are followed through the generated code."""
    f, outs = rep.run('Ty', 'cls', opts=dict(names=['self']))
    judge(rep, 'cls', outs, [(c, Model({D(S): c}), fulladt(rep, 'Cls', CLASS_OF[c])) for c in CLASSES], f and f.where())
    a = rep.p.adts.get(ety(rep, 'Cls'))
    if a is None: rep.bad('anchor:Cls', 'the enumeration of classes is gone')
    else:
        ds = {v['name']: v['discr'] for v in a['variants']}
        for n, d in CLS.items(): rep.check(f'number:{n}', ds.get(n) == d, f'class {n} has number {ds.get(n)}, published is {d}')
        rep.check('number:distinct', len(set(ds.values())) == len(ds), 'two classes have the same number')
    for ty, table in WIRE.items(): wire(rep, ty, table)
    rep.floor('variants', len(rep.obl), 60, 'obligations')


def A03(rep):
    """ty_at and case_at are decided for each class of definition and the positions which matter (first, second, other;
    within and outside of the fields); the iterators return what is found at their position and advance it by one without
    overflow; the reported number of references is the number of positions which have one."""
    pos = sym('pos')
    f, outs = rep.run('Ty', 'ty_at', opts=dict(names=['self', 'pos']))
    at = lambda c, i='0': item_of(of(c, i), pos)
    inside = lambda c: {D(S): c, T('bin', 'Lt', pos, ln(of(c))): 1}
    outside = lambda c: {D(S): c, T('bin', 'Lt', pos, ln(of(c))): 0}
    cases = []
    for c in ('Primitive', 'UnicodeChar', 'Enum'): cases.append((c, Model({D(S): c}), NONE))
    for c, v in (('Union', fldp(at('Union'), '1')), ('Struct', fldp(at('Struct'), 'ty')), ('Tuple', at('Tuple'))):
        cases += [(c + ':inside', Model(inside(c)), some(v)), (c + ':outside', Model(outside(c)), NONE)]
    for c in ('Array', 'List', 'Set', 'Map'):
        cases.append((c + ':0', Model({D(S): c, pos: 0}), some(of(c))))
        cases.append((c + ':1', Model({D(S): c, pos: 1}), some(of(c, '1')) if c == 'Map' else NONE))
        cases.append((c + ':other', Model({D(S): c, T('bin', 'Lt', I(1), pos): 1}), NONE))
    judge(rep, 'ty_at', outs, cases, f and f.where())
    f, outs = rep.run('Ty', 'case_at', opts=dict(names=['self', 'pos']))
    ic = lambda v, *fs: some(fulladt(rep, 'ItemCase', v, *fs))
    cases = []
    for c in ('Primitive', 'UnicodeChar', 'Enum'): cases.append((c, Model({D(S): c}), NONE))
    var = fldp(at('Union'), '0')
    for c, v in (('Union', ic('UnionVariant', fldp(var, 'tag'), fldp(var, 'name'))), ('Struct', ic('NamedField', pos, fldp(at('Struct'), 'name'))), ('Tuple', ic('UnnamedField', pos))):
        cases += [(c + ':inside', Model(inside(c)), v), (c + ':outside', Model(outside(c)), NONE)]
    for c, n in (('Array', 'ArrayItem'), ('List', 'ListItem'), ('Set', 'SetItem'), ('Map', 'MapKey')):
        cases.append((c + ':0', Model({D(S): c, pos: 0}), ic(n)))
        cases.append((c + ':1', Model({D(S): c, pos: 1}), ic('MapValue') if c == 'Map' else NONE))
        cases.append((c + ':other', Model({D(S): c, T('bin', 'Lt', I(1), pos): 1}), NONE))
    judge(rep, 'case_at', outs, cases, f and f.where())
    f, outs = rep.run('Ty', 'count_type_refs', opts=dict(names=['self']))
    cases = [(c, Model({D(S): c}), I(n)) for c, n in (('Primitive', 0), ('UnicodeChar', 0), ('Enum', 0), ('Array', 1), ('List', 1), ('Set', 1), ('Map', 2))]
    cases += [(c, Model({D(S): c}), ln(of(c))) for c in ('Union', 'Struct', 'Tuple')]
    judge(rep, 'count', outs, cases, f and f.where())
    for it in ('iter', 'type_refs'):
        f, outs = rep.run('Ty', it, opts=dict(names=['self']))
        for o in outs or ():
            v = o.v if o.k == 'ret' else None
            if v is None or v.op != 'adt' or len(v.a[2]) != 2: rep.unknown(f'{it}:start', 'cannot resolve the iterator', f.where())
            else:
                z = {canon(x) for x in v.a[2]}
                rep.tri(f'{it}:start', z == {S, I(0)} if all(resolved(x) for x in v.a[2]) else None, f'iterates from {pp(v)[:100]}', f.where())
    for it in ('Iter', 'IntoIter'):
        ty, p = fldp(S, 'ty'), fldp(S, 'pos')
        f = rep.fn(it, 'next', trait='Iterator')
        if f is None: continue
        outs = rep.paths_of(f, names=['self'], opaque={'ty_at', 'case_at'})
        n = 0
        for o in outs or ():
            if o.k == 'panic':
                # a position which has an item is below 255 (collections of fields are confined to 255 entries)
                some_ = any(canon(k).op == 'discr' and v == 'Some' and any(x.op == 'call' and LAST(x.a[0]) in ('ty_at', 'case_at') for x in walk(k)) for k, v in o.st.facts.items())
                rep.tri(f'{it}:total', None if some_ else False, f'panics: {o.x.get("kind")} in {o.x.get("fn")}:{o.x.get("line")}', f.where())
                continue
            if o.k != 'ret': continue
            n += 1
            look = [e for e in o.st.events() if e.k == 'call' and LAST(e.name) == 'ty_at' and len(e.args) == 2]
            if not look:
                rep.tri(f'{it}:item', None if not resolved(o.v, ('ty_at', 'case_at')) else False, f'gives {pp(o.v)[:200]} without a look at the position', f.where())
                continue
            e = look[0]
            rep.tri(f'{it}:position', True if canon(e.args[1]) is canon(p) and canon(e.args[0]) is canon(ty) else None if any(fuzzy(a) for a in e.args) else False,
                    f'looks at {pp(e.args[1])[:100]} of {pp(e.args[0])[:60]}', f.where())
            k, v = res_parts(o)
            d = discr_of(o, e.res)
            if k is None: rep.tri(f'{it}:item', True if o.v is e.res else None, f'gives {pp(o.v)[:200]}', f.where())
            elif d == 'None': rep.tri(f'{it}:end', k == 'None', f'gives {k} where there is no item', f.where())
            elif d == 'Some':
                ref = T('fld', e.res, 'Some', '0')
                good = k == 'Some' and (v is ref or v.op == 'tup' and v.a[0][0] is ref)
                rep.tri(f'{it}:item', True if good else (None if v is not None and fuzzy(v) else False), f'gives {k} {pp(v)[:200] if v is not None else ""} for the item {pp(ref)[:100]}', f.where())
                if v is not None and v.op == 'tup' and len(v.a[0]) == 2:
                    cs = [x for x in o.st.events() if x.k == 'call' and LAST(x.name) == 'case_at']
                    good = any(x.res is v.a[0][1] and canon(x.args[1]) is canon(p) and canon(x.args[0]) is canon(ty) for x in cs)
                    rep.tri(f'{it}:role', True if good else None if fuzzy(v) else False, f'role {pp(v.a[0][1])[:200]}', f.where())
            new = next((t for t in final_fields(o, 'pos')), None)
            adv = None
            if new is not None:
                new = canon(new)
                if new is canon(p): adv = False if d != 'None' else True
                elif new.op in ('bin', 'ovfl') and new.a[0] in ('Add', 'SatAdd') and {canon(x) for x in new.a[1:3]} == {canon(p), I(1)}: adv = True
                elif new.op == 'call' and LAST(new.a[0]) == 'wrapping_add' and {canon(x) for x in new.a[1]} == {canon(p), I(1)}: adv = True if d == 'Some' else False
                elif resolved(new) and d == 'Some': adv = False
            rep.tri(f'{it}:advance', adv, f'the position becomes {pp(new)[:200] if new is not None else "?"}', f.where())
        rep.floor(f'{it}', n, 1, 'paths of the iterator')


def discr_of(o, t):
    for k, v in o.st.facts.items():
        if k.op == 'discr' and k.a[0] is t: return v
    if t is not None and t.op == 'adt': return t.a[1]


def final_fields(o, name):
    """final values of a field of *self"""
    for k, v in o.st.store.items():
        if isinstance(v, T):
            x = v
            while x.op == 'upd':
                if x.a[1][-1] == name: yield x.a[2]
                x = x.a[0]


NAMED = {
    # (type, function): (field of the entry compared, part returned)
    ('NamedFields', 'ty_by_name'): ('name', 'ty'),
    ('UnionVariants', 'by_tag'): ('0.tag', ''), ('UnionVariants', 'by_name'): ('0.name', ''),
    ('UnionVariants', 'ty_by_name'): ('0.name', '1'), ('UnionVariants', 'ty_by_tag'): ('0.tag', '1'),
    ('UnionVariants', 'tag_by_name'): ('0.name', '0.tag'), ('UnionVariants', 'name_by_tag'): ('0.tag', '0.name'),
    ('UnionVariants', 'has_tag'): ('0.tag', None),
    ('EnumVariants', 'tag_by_name'): ('name', 'tag'), ('EnumVariants', 'name_by_tag'): ('tag', 'name'),
    ('EnumVariants', 'has_tag'): ('tag', None), ('EnumVariants', 'has_name'): ('name', None),
    ('EnumVariants', 'by_tag'): ('tag', ''), ('EnumVariants', 'by_name'): ('name', ''),
}


def A04(rep):
    """Each lookup by name or tag is summarised with its search loop generalised over a generic entry: an entry is reported
    only where its own name (tag) is known to equal the one asked for, the part returned belongs to that entry, and absence is
    reported only after all entries were passed with the comparison failing.  Lookups by position are decided inside and
    outside of the collection.  First and last variants are the first and last entry."""
    n = 0
    for (ty, it), (fd, part) in NAMED.items():
        f, outs = rep.run(ty, it, opts=dict(names=['self', 'k']))
        if f is None: continue
        n += 1
        path = lambda e, s: fldp(e, *s.split('.')) if s else e
        lookup(rep, f'{ty}.{it}', outs, S, lambda e: path(e, fd), K, lambda e: path(e, part) if part is not None else e, 0 if part is None else 'None', f.where())
    for ty, it, part in (('NamedFields', 'ty_by_pos', 'ty'), ('UnnamedFields', 'ty_by_pos', ''), ('UnionVariants', 'ty_by_pos', '1'), ('UnionVariants', 'name_by_pos', '0.name')):
        f, outs = rep.run(ty, it, opts=dict(names=['self', 'k']))
        if f is None: continue
        n += 1
        at = item_of(S, K)
        v = fldp(at, *part.split('.')) if part else at
        # the result may be the lookup itself
        def present(o, m, v=v):
            got = m.value(o.v)
            if got.op == 'adt': return same_value(got, canon(some(v)), ('at', 'has'))
            return True if canon(T('fld', o.v, 'Some', '0')) is canon(v) else None if fuzzy(got) else False
        def absent(o, m, v=v):
            got = m.value(o.v)
            if got.op == 'adt': return same_value(got, NONE, ('at', 'has'))
            return True if canon(T('fld', o.v, 'Some', '0')) is canon(v) else None if fuzzy(got) else False
        judge(rep, f'{ty}.{it}', outs, [('inside', Model({T('bin', 'Lt', K, ln(S)): 1}), present), ('outside', Model({T('bin', 'Lt', K, ln(S)): 0}), absent)], f.where())
    for it, k in (('unwrap_first', I(0)), ('unwrap_last', T('last', S))):
        f, outs = rep.run('UnionVariants', it, opts=dict(names=['self']))
        if f is None: continue
        n += 1
        judge(rep, f'UnionVariants.{it}', outs, [('nonempty', Model({T('bin', 'Lt', I(0), ln(S)): 1}), fldp(item_of(S, k), '0'))], f.where())
    rep.floor('lookups', n, 20, 'lookups')


def A06(rep):
    """Each recogniser is decided case by case: for each class of definition and, where it matters, for each number of fields,
    each single deviation of an option's names and tags, each primitive code and a generic variant of a character set within
    and outside of the allowed range."""
    def flag(item, cases):
        f, outs = rep.run('Ty', item, opts=dict(names=['self']))
        judge(rep, item, outs, [(n, m, v if isinstance(v, T) or callable(v) else I(int(v))) for n, m, v in cases], f and f.where())
    one = lambda yes: [(c, Model({D(S): c}), c in yes) for c in CLASSES]
    flag('is_primitive', one(('Primitive', 'UnicodeChar')))
    flag('is_collection', one(('Array', 'List', 'Set', 'Map')))
    lens_ = lambda c, yes: [(f'{c}:{n}', Model({D(S): c, ln(of(c)): n}), n in yes) for n in (1, 2, 3)]
    many = (2, 3)
    flag('is_newtype', [(c, Model({D(S): c}), 0) for c in CLASSES if c != 'Tuple'] + lens_('Tuple', (1,)))
    flag('is_compound', [(c, Model({D(S): c}), int(c in ('Enum', 'Union'))) for c in CLASSES if c not in ('Tuple', 'Struct')] + lens_('Tuple', many) + lens_('Struct', many))
    code = fldp(S, 'Primitive:0', '0')
    prim = [(f'Primitive:{n}', Model({D(S): 'Primitive', code: n}), n in (1, 64)) for n in (0, 1, 2, 3, 4, 16, 63, 64, 65, 128, 129, 193)]
    flag('is_byte', [(c, Model({D(S): c}), 0) for c in CLASSES if c != 'Primitive'] + prim)
    flag('is_unicode_char', one(('UnicodeChar',)))
    f, outs = rep.run('Ty', 'is_byte_array', opts=dict(names=['self']))
    def byte(o, m):
        v = m.value(o.v)
        q = [x for x in walk(v) if x.op == 'call' and LAST(x.a[0]) == 'is_byte' and x.a[1] and canon(x.a[1][0]) is canon(of('Array'))]
        if v.op == 'call' and v in q: return True
        fs = [y for x, y in list(o.st.facts.items()) + [(x, 1 - z) for x, zs in o.st.neq.items() for z in zs if z in (0, 1)] if (x.op == 'call' and LAST(x.a[0]) == 'is_byte' or x.op == 'pred' and x.a[0] == 'is_byte') and any(canon(z) is canon(of('Array')) for z in walk(x))]
        if v.op == 'int': return (v.a[0] == fs[0]) if fs else (None if not known_conditions(o) else False)
        return None
    judge(rep, 'is_byte_array', outs, [(c, Model({D(S): c}), I(0)) for c in CLASSES if c != 'Array'] + [('Array', Model({D(S): 'Array'}), byte)], f and f.where())
    # options
    u = of('Union')
    v0, v1 = fldp(item_of(u, I(0)), '0'), fldp(item_of(u, T('last', u)), '0')
    base = {D(S): 'Union', ln(u): 2, fldp(v0, 'name'): 'none', fldp(v0, 'tag'): 0, fldp(v1, 'name'): 'some', fldp(v1, 'tag'): 1}
    base2 = dict(base)
    for k in list(base):
        for a, b in ((v0, fldp(item_of(u, I(0)), '0')), (v1, fldp(item_of(u, I(1)), '0'))):
            base2[subst(k, {a: b})] = base[k]
    cases = [(c, Model({D(S): c}), NONE) for c in CLASSES if c != 'Union'] + [('option', Model(base2), some(fldp(item_of(u, I(1)), '1')))]
    for nm, ch in (('three variants', {ln(u): 3}), ('one variant', {ln(u): 1}), ('first name', {fldp(v0, 'name'): 'nothing'}), ('first tag', {fldp(v0, 'tag'): 1}),
                   ('second name', {fldp(v1, 'name'): 'just'}), ('second tag', {fldp(v1, 'tag'): 2})):
        m = dict(base2)
        for k, val in ch.items():
            m[k] = val
            m[subst(k, {v1: fldp(item_of(u, I(1)), '0')})] = val
        if ln(u) in ch:
            for k in list(m):
                if k.op == 'fld' and mentions(k, item_of(u, I(1))) and ch[ln(u)] != 2: m.pop(k)
        cases.append((nm, Model(m), NONE))
    f, outs = rep.run('Ty', 'as_some', opts=dict(names=['self']))
    judge(rep, 'as_some', outs, cases, f and f.where())
    f, outs = rep.run('Ty', 'is_option', opts=dict(names=['self']))
    judge(rep, 'is_option', outs, [(n, m, I(int(v is not NONE))) for n, m, v in cases], f and f.where())
    # wrapped type
    f, outs = rep.run('Ty', 'as_wrapped_ty', opts=dict(names=['self']))
    t = of('Tuple')
    def wrapped(o, m):
        v = m.value(o.v)
        if any(x.op == 'call' and LAST(x.a[0]) == 'as_ty' and x.a[1] and canon(x.a[1][0]) is item_of(t, I(0)) for x in walk(canon(v))): return True
        d = [y for x, y in o.st.facts.items() if x.op == 'discr' and x.a[0].op == 'call' and LAST(x.a[0].a[0]) == 'as_ty']
        if v is NONE: return True if 'None' in d else (None if not known_conditions(o) else False)
        return None
    def nothing(o, m):
        v = canon(m.value(o.v))
        if v.op == 'call' and LAST(v.a[0]) == 'as_ty' and v.a[1] and v.a[1][0].op == 'at' and v.a[1][0].a[0] is t: return False
        return same_value(v, NONE, ('at', 'has'))
    judge(rep, 'as_wrapped_ty', outs, [(c, Model({D(S): c}), NONE) for c in CLASSES if c != 'Tuple'] + [
        (f'Tuple:{n}', Model({D(S): 'Tuple', ln(t): n}), wrapped if n == 1 else nothing) for n in (1, 2, 3)], f and f.where())
    # character sets
    f, outs = rep.run('Ty', 'is_char_enum', opts=dict(names=['self']))
    e = of('Enum')
    judge(rep, 'is_char_enum', outs, [(c, Model({D(S): c}), I(0)) for c in CLASSES if c not in ('Tuple', 'Enum')] +
          [(f'Tuple:{n}', Model({D(S): 'Tuple', ln(t): n}), I(0)) for n in (2, 3)], f and f.where())
    for o in outs or ():
        if Model({D(S): 'Enum'}).path(o) is False or o.k != 'ret' or o.v.op != 'int': continue
        if o.v.a[0]:
            done = [x for x, y in o.st.facts.items() if x.op == 'done' and y == 1 and strip_seq(canon(x.a[0])) is canon(e)]
            if not done:
                rep.tri('charset:yes', None if not known_conditions(o) else False, 'accepted before all variants were seen', f.where())
                continue
            for lp in deep_events(o.st.events()):
                if lp.k != 'loop' or not any(x.a[1] == lp.x['uid'] for x in done): continue
                for b in lp.x['bodies']:
                    es = {x for k in b['facts'] for x in walk(canon(k)) if x.op == 'elem' and strip_seq(x.a[0]) is canon(e)}
                    ok = [x for x in es if order_bounds({canon(k): v for k, v in b['facts'].items()}, b['neq'], fldp(x, 'tag')) == (32, 127)]
                    rep.tri('charset:yes', True if ok else None if any(fuzzy(k) for k in b['facts']) else False,
                            f'a variant is accepted with {[pp(k)[:80] + "=" + str(v) for k, v in b["facts"].items()]}', f.where())
        else:
            es = {x for k in o.st.facts for x in walk(canon(k)) if x.op == 'elem' and strip_seq(x.a[0]) is canon(e)}
            fs = {canon(k): v for k, v in o.st.facts.items()}
            ok = [x for x in es if implies(fs, {}, fldp(x, 'tag'), I(31)) or implies(fs, {}, I(128), fldp(x, 'tag'))]
            rep.tri('charset:no', True if ok else None if any(fuzzy(k) for k in fs) else False, f'refused with {[pp(k)[:80] + "=" + str(v) for k, v in fs.items()]}', f.where())
    # a newtype of a character set
    def inner(o, m):
        v = canon(o.v)
        if v.op == 'call' and LAST(v.a[0]) == 'is_char_enum': return any(x.op == 'call' and LAST(x.a[0]) == 'as_ty' and canon(x.a[1][0]) is item_of(t, I(0)) for x in walk(v))
        if v is I(0):
            d = [y for x, y in o.st.facts.items() if canon(x).op == 'discr' and any(z.op == 'call' and LAST(z.a[0]) == 'as_ty' for z in walk(x))]
            return True if 'None' in d else None
        return None
    judge(rep, 'charset:newtype', outs, [('Tuple:1', Model({D(S): 'Tuple', ln(t): 1}), inner)], f and f.where())
    rstring(rep)


def rstring(rep):
    """a restricted string: a pair of a character set and a list of a character set"""
    fs = rep.p.find('TypeSystem', 'is_rstring')
    if len(fs) != 1: return
    f, ids = fs[0], sym('ids')
    outs = rep.paths_of(f, names=['self', 'ids'])
    if outs is None: return
    types = fldp(S, '0')
    for o in outs:
        k, v = res_parts(o)
        if o.k != 'ret' or k != 'Ok' or v is None or v.op != 'int': continue
        fs = {canon(x): y for x, y in o.st.facts.items()}
        nq = {canon(x): y for x, y in o.st.neq.items()}

        def found(idt):
            for x, y in fs.items():
                if x.op == 'bin' and x.a[0] == 'Eq' and y == 1:
                    for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                        if b is idt and a.op == 'fld' and a.a[2] == '0' and a.a[0].op == 'elem' and strip_seq(a.a[0].a[0]) is types: return fldp(a.a[0], '1')
            return next((y for x in list(fs) + list(nq) for y in walk(x) if y.op == 'at' and strip_seq(y.a[0]) is types and y.a[1] is idt), None)

        def cls(t): return fs.get(D(t)) or next((y for x, y in fs.items() if x.op == 'discr' and x.a[0] is t), None)
        def notcls(t, c):
            d = cls(t)
            return d is not None and d != c or any(x.op == 'discr' and x.a[0] is t and c in y for x, y in nq.items())

        def charset(t):
            """True/False/None: the type is known (not) to be a character set"""
            if t is None: return None
            vs = fldp(t, 'Enum:0')
            if cls(t) == 'Enum' and any(x.op == 'done' and y == 1 and strip_seq(x.a[0]) is vs for x, y in fs.items()): return True
            if notcls(t, 'Enum'): return False
            es = {x for z in fs for x in walk(z) if x.op == 'elem' and strip_seq(x.a[0]) is vs}
            if any(implies(fs, {}, fldp(e, 'tag'), I(31)) or implies(fs, {}, I(128), fldp(e, 'tag')) for e in es): return False
            return None
        two = fs.get(ln(ids)) == 2
        l = found(item_of(ids, I(1)))
        lst = None if l is None else True if cls(l) == 'List' else False if notcls(l, 'List') else None
        first = charset(found(item_of(ids, I(0))))
        rest = charset(found(fldp(l, 'List:0'))) if lst else None
        all_ = [two, lst, first, rest]
        text = f'{"accepted" if v.a[0] else "refused"} where ' + ', '.join(f'{n} {y}' for n, y in zip(('two fields', 'list second', 'first characters', 'other characters'), all_))
        if v.a[0]: good = all_ == [True] * 4
        else: good = (ln(ids) in nq and 2 in nq[ln(ids)] or fs.get(ln(ids), 2) != 2 or Model({ln(ids): 2}).path(o) is False) or False in (lst, first, rest)
        fz = any(fuzzy(x) for x in list(fs) + list(nq)) or bool(two) and (l is None or bool(lst) and (first is None and found(item_of(ids, I(0))) is None or rest is None and found(fldp(l, 'List:0')) is None))
        rep.tri('rstring:' + ('yes' if v.a[0] else 'no'), True if good else None if fz else False, text, f.where())


def order_bounds(facts, neq, t):
    """(least, greatest) number known"""
    lo = next((n for n in (33, 32, 1) if implies(facts, neq, I(n), t)), 0)
    hi = next((n for n in (126, 127, 128, 254) if implies(facts, neq, t, I(n))), 255)
    return (lo, hi)


def leaves(t):
    if t.op in ('tup', 'adt'):
        return [y for x in (t.a[0] if t.op == 'tup' else t.a[2]) for y in leaves(x)]
    return [t]


def A01(rep):
    """The writer's paths are followed symbolically: the map handed to the encoder has one entry per variant of the definition, made of the
    tag, the name and the type of that variant, and nothing is filtered.  The reader inserts each decoded entry in the same roles, an insertion
    over an existing entry leads to a refusal on each path, no error of a nested read is dropped, and nothing else is refused."""
    p = rep.p
    f, outs = rep.run('UnionVariants', 'strict_encode', trait='StrictEncode', opts=dict(names=['self', 'writer']))
    n = 0
    for o in outs or ():
        w = f.where()
        if o.k == 'panic':
            fits = [k for k, v in o.st.facts.items() if k.op == 'pred' and k.a[0] == 'fits' and v == 0]
            high = [int(m) for k in fits for m in re.findall(r', #(\d+)>', str(k.a[2]))]
            rep.tri('write:panic', False if high and min(high) < 255 else True if high else None if fits or not known_conditions(o) else False, f'panics in {o.x.get("fn")}', w)
        if o.k != 'ret': continue
        k, _ = res_parts(o)
        if k == 'Err' and not is_call(o.v, 'write_newtype'):
            rep.tri('write:refused', None if fuzzy(o.v) or not known_conditions(o) or any(x.op == 'discr' for x in o.st.facts) else False, f'refuses with {pp(o.v)[:200]}', w)
            continue
        calls = [e for e in o.st.events() if e.k == 'call' and LAST(e.name).startswith('write_') or e.k == 'call' and LAST(e.name) == 'strict_encode']
        c = next((canon(a) for e in calls for a in e.args if canon(a).op == 'coll'), None)
        if c is None:
            rep.unknown('write', f'writes {[str(e)[:150] for e in calls]}', w)
            continue
        n += 1
        base, src, items = canon(c.a[0]), canon(c.a[1]), [canon(x) for x in c.a[2]]
        if src.op in ('but', 'first', 'but-n', 'first-n'): rep.bad('write:all', f'writes only {pp(src)[:100]}', w)
        elif src is not S and not (src.op == 'fld' and src.a[0] is S): rep.unknown('write:source', f'writes entries of {pp(src)[:100]}', w)
        elif base.op != 'empty': rep.unknown('write:base', f'adds to {pp(base)[:100]}', w)
        for it in items:
            if it.op == 'skip':
                rep.bad('write:all', 'a variant of the definition is left out', w)
                continue
            e = [x for x in walk(it) if x.op == 'elem' and canon(x.a[0]) is src]
            if not e:
                rep.tri('write:entry', None if fuzzy(it) else False, f'writes {pp(it)[:150]} for a variant', w)
                continue
            e = e[0]
            exp = [fldp(e, '0', 'tag'), fldp(e, '0', 'name'), fldp(e, '1')]
            rep.tri('write:entry', True if [canon(x) for x in leaves(it)] == [canon(x) for x in exp] else None if fuzzy(it) else False, f'writes {pp(it)[:150]} for a variant', w)
        for x in o.st.events():
            if x.k == 'loop' and len(x.x['bodies']) > 1: rep.unknown('write:loop', 'entries are made conditionally', w)
        rep.ok('write:result', '', w)
    rep.floor('written', n, 1, 'writing paths')
    f, outs = rep.run('UnionVariants', 'strict_decode', trait='StrictDecode', opts=dict(names=['reader']))
    n = 0
    for o in outs or ():
        w = f.where()
        if o.k == 'panic':
            rep.tri('read:panic', None if not known_conditions(o) else False, f'panics in {o.x.get("fn")}', w)
            continue
        if o.k != 'ret': continue
        fs = {canon(k): v for k, v in o.st.facts.items()}
        k, v = res_parts(o)
        if k == 'Err':
            why = any(x.op == 'has' and y == 'Some' or x.op == 'discr' and y == 'Err' or x.op == 'pred' and x.a[0] == 'fits' and y == 0 or x.op == 'discr' and is_call(x.a[0], 'get') and y == 'Some'
                      or x.op == 'pred' and x.a[0] in ('contains', 'contains_key') and y == 1 for x, y in fs.items())
            sized = any(y.op == 'call' and LAST(y.a[0]) == 'len' and y.a[1][0].op == 'coll' for x in fs for y in walk(x))
            rep.tri('read:refused', True if why else None if sized or not known_conditions(o) else False, f'refuses under {[pp(x)[:100] + "=" + str(y) for x, y in fs.items()]}', w)
            continue
        v = canon(v) if v is not None else v
        while v is not None and v.op == 'adt' and len(v.a[2]) == 1: v = canon(v.a[2][0])
        n += 1
        if k == 'Ok' and v.op == 'partial': rep.bad('read:all', f'entries after some are left out when {[pp(x)[:100] + "=" + str(y) for x, y in fs.items()][-1:]}', w)
        elif k != 'Ok' or v.op != 'coll': rep.tri('read', None if fuzzy(o.v) or k != 'Ok' or v.op != 'empty' else False, f'gives {pp(o.v)[:200]}', w)
        if v is None or v.op != 'coll': continue
        if any(x.op == 'discr' and y == 'Err' for x, y in fs.items()): rep.bad('read:error', f'an error is dropped: {[pp(x)[:100] for x, y in fs.items() if y == "Err"]}', w)
        src, items = canon(v.a[1]), [canon(x) for x in v.a[2]]
        if src.op in ('but-n', 'first-n', 'but', 'first'): rep.bad('read:all', f'takes only {pp(src)[:100]}', w)
        for it in items:
            if it.op == 'skip':
                rep.bad('read:all', 'a decoded variant is left out', w)
                continue
            e = next((x for x in walk(it) if x.op == 'elem' and canon(x.a[0]) is src), None)
            lv = [canon(x) for x in leaves(it)]
            if e is None or len(lv) != 3:
                rep.tri('read:entry', None if fuzzy(it) or e is not None else False, f'reads {pp(it)[:150]} for a variant', w)
                continue
            t0, t1 = canon(fldp(e, '0')), canon(fldp(e, '1'))
            good = lv[1] is t0 and lv[0].op == 'fld' and canon(lv[0].a[0]) is t1 and lv[2].op == 'fld' and canon(lv[2].a[0]) is t1
            foreign = not any(x is e for x in walk(lv[1])) or not any(x is e for x in walk(lv[0])) and not fuzzy(lv[0])
            rep.tri('read:entry', True if good else False if foreign else None if fuzzy(it) else False, f'reads {pp(it)[:150]} for a variant', w)
        ls = [e for e in o.st.events() if e.k == 'loop']
        guarded = [any(canon(x).op == 'has' and y == 'None' or x.op == 'pred' and x.a[0] in ('contains', 'contains_key') and y == 0 for x, y in b['facts'].items()) for e in ls for b in e.x['bodies']]
        sized = any(y.op == 'call' and LAST(y.a[0]) == 'len' for x in fs for y in walk(x)) or any(x.op == 'pred' for e in ls for b in e.x['bodies'] for x in b['facts'])
        rep.tri('read:repeated', True if guarded and all(guarded) else None if sized or not ls and fuzzy(v) else False, 'an entry which replaces another one is accepted', w)
    rep.floor('read', n, 1, 'reading paths')
