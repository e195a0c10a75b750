"""L01, L02: layouts of types."""
from .common import *
from .tables import *
from .printed import printed, A, template, part

S = sym('self')
D = lambda t: T('discr', t, '')
STEP = ('to_ident', 'into_ident', 'clone', 'into', 'from', 'as_str', 'to_string', 'as_bytes', 'as_ref', 'deref', 'to_owned', 'borrow', 'cloned', 'into_inner')


def word(t):
    """a name without its wrappers: a literal text, ('fmt', tokens) or a term"""
    t = canon(t)
    while True:
        if t.op == 'str': return t.a[0]
        if t.op == 'call' and len(t.a[1]) == 1 and LAST(t.a[0]) in STEP: t = canon(t.a[1][0])
        elif t.op == 'fld' and t.a[1] in ('Ok', 'Some') and t.a[0].op == 'call' and LAST(t.a[0].a[0]) in ('try_from', 'from_str', 'try_into') and len(t.a[0].a[1]) == 1: t = canon(t.a[0].a[1][0])
        elif t.op == 'adt' and len(t.a[2]) == 1 and t.a[1] in ('', t.a[0].split('::')[-1]): t = canon(t.a[2][0])
        elif t.op == 'as_bytes': t = canon(t.a[0])
        elif t.op == 'fld' and t.a[1] == '' and str(t.a[2]) == '0' and t.a[0].op == 'fld' and str(t.a[0].a[2]) == 'name': t = t.a[0]
        elif is_call(t, 'format') and len(t.a[1]) == 1:
            a = canon(t.a[1][0])
            if is_call(a, 'new') and len(a.a[1]) == 2 and a.a[1][0].op == a.a[1][1].op == 'arr':
                ts = template(a.a[1][0], [canon(y) for y in a.a[1][1].a[0]])
                if ts is None: return t
                if len(ts) == 1 and not isinstance(ts[0], str) and ts[0][2] == '':
                    t = canon(ts[0][1])
                    continue
                return ('fmt', ''.join(x if isinstance(x, str) else '{' + pp(x[1]) + '}' for x in ts))
            return t
        else: return t


def text(w): return w if isinstance(w, (str, tuple)) else pp(w)


def same_word(a, b):
    """True / False / None"""
    if isinstance(a, tuple) or isinstance(b, tuple): return a == b
    if isinstance(a, str) and isinstance(b, str): return a == b
    if isinstance(a, str) or isinstance(b, str): return False if resolved(b if isinstance(a, str) else a) else None
    if canon(norm(a)) is canon(norm(b)): return True
    return False if resolved(a) and resolved(b) else None


def tables_of(rep):
    cls, pred = ety(rep, 'Cls'), ety(rep, 'Pred')
    f, outs = rep.run('Pred', 'from', trait='From', opts=dict(names=['cls']))
    pairs = dict(Primitive='Is', Unicode='Str', AsciiStr='Ascii', Enum='Enum', Union='Union', Struct='Rec', Tuple='Tuple', Array='Array', List='List', Set='Set', Map='Map')
    if outs is not None: judge(rep, 'predicate', outs, [(c, Model({D(sym('cls')): c}), T('adt', pred, p, ())) for c, p in pairs.items()], f.where(), panics=True)
    f, outs = rep.run('LenRange', 'from', trait='From', opts=dict(names=['sizing']))
    if outs is not None:
        z = sym('sizing')

        def bounds(o, m):
            v = canon(m.value(o.v))
            if v.op == 'adt' and len(v.a[2]) == 1: v = canon(v.a[2][0])
            if v.op == 'adt' and len(v.a[2]) == 2:
                good = [canon(norm(x)) is canon(norm(fldp(z, n))) for x, n in zip(v.a[2], ('min', 'max'))]
                return True if all(good) else False if resolved(v) else None
            return None
        judge(rep, 'bounds', outs, [('', Model({}), bounds)], f.where(), panics=True)
    lo, hi = fldp(S, '0', 'start'), fldp(S, '0', 'end')
    caps = {255: 'MAX8', 65535: 'MAX16', 16777215: 'MAX24', (1 << 32) - 1: 'MAX32', (1 << 64) - 1: 'MAX64'}
    inner = fldp(S, '0', 'end', '0')
    cases = [(n, Model({hi: v, inner: v}), [A(lo), '..' + n]) for v, n in caps.items()]
    cases += [('other', Model({}, {hi: set(caps), inner: set(caps)}), [A(lo), '..', A(hi)])]
    cases += [(str(v), Model({hi: v, inner: v}), [A(lo), '..', A(hi)]) for v in (0, 254, 256, 65534, 65536, 16777214, 16777216, (1 << 32) - 2, 1 << 32, (1 << 64) - 2)]
    printed(rep, 'LenRange', cases, key='length')


def attributes_of(rep):
    fld = lambda v, n='0': T('fld', S, v, n)
    f, outs = rep.run('Attr', 'name')
    names = dict(TypeName=None, Option=None, Tag='tag', Len='len', LenRange='len', AsciiEnum='charset', AsciiFirst='first', AsciiRest='rest')

    def named(exp):
        def go(o, m):
            v = canon(m.value(o.v))
            if v.op != 'adt' or v.a[1] not in ('None', 'Some'): return None
            if exp is None or v.a[1] == 'None': return (exp is None) == (v.a[1] == 'None')
            return same_word(word(v.a[2][0]), exp)
        return go
    if outs is not None:
        outs = [o for o in outs if not contradictory(o) and o.k != 'panic']
        judge(rep, 'attribute-name', outs, [(v, Model({D(S): v}), named(n)) for v, n in names.items()] + [
            ('Wrapped:named', Model({D(S): 'Wrapped', D(fld('Wrapped')): 'Some'}), named('aka')), ('Wrapped:unnamed', Model({D(S): 'Wrapped', D(fld('Wrapped')): 'None'}), named(None)),
            ('EnumVariant', Model({D(S): 'EnumVariant'}), named(fld('EnumVariant', '1')))], f.where(), panics=True)
    f, outs = rep.run('Attr', 'value')

    def ident(exp):
        def go(o, m):
            v = canon(m.value(o.v))
            if v.op != 'adt' or v.a[1] not in ('Ident', 'Expr'): return None
            return v.a[1] == 'Ident' and same_word(word(v.a[2][0]), exp)
        return go

    def expr(kinds, exp):
        def go(o, m):
            v = canon(m.value(o.v))
            if v.op != 'adt' or v.a[1] not in ('Ident', 'Expr'): return None
            e = canon(v.a[2][0])
            if v.a[1] != 'Expr' or e.op != 'adt': return False if v.a[1] == 'Ident' else None
            if e.a[1] not in kinds: return False
            return same_value(e.a[2][0], exp, ('at', 'has'))
        return go
    if outs is not None:
        outs = [o for o in outs if not contradictory(o) and o.k != 'panic']
        tag = ('Tag', 'EnumVariant')
        judge(rep, 'attribute-value', outs, [(v, Model({D(S): v}), ident(fld(v))) for v in ('TypeName', 'AsciiEnum', 'AsciiFirst', 'AsciiRest')] + [
            ('Option', Model({D(S): 'Option'}), ident('option')), ('Tag', Model({D(S): 'Tag'}), expr(tag, fld('Tag'))), ('Len', Model({D(S): 'Len'}), expr(('Len',), fld('Len'))),
            ('LenRange', Model({D(S): 'LenRange'}), expr(('LenRange',), fld('LenRange'))), ('EnumVariant', Model({D(S): 'EnumVariant'}), expr(tag, fld('EnumVariant'))),
            ('Wrapped:named', Model({D(S): 'Wrapped', D(fld('Wrapped')): 'Some'}), ident(T('fld', fld('Wrapped'), 'Some', '0'))),
            ('Wrapped:unnamed', Model({D(S): 'Wrapped', D(fld('Wrapped')): 'None'}), ident('wrapped'))], f.where(), panics=True)


def attr(t):
    """(kind, words) of an attribute"""
    t = canon(t)
    if t.op != 'adt' or not t.a[0].endswith('Attr'): return None
    r = []
    for x in t.a[2]:
        x = canon(x)
        if x.op == 'adt' and x.a[1] in ('Some', 'None'):
            r.append('none' if x.a[1] == 'None' else word(x.a[2][0]))
        elif x.op == 'adt' and x.a[0].endswith('LenRange'):
            y = canon(x.a[2][0])
            r += [word(z) for z in y.a[2]] if y.op == 'adt' and len(y.a[2]) == 2 else [y]
        else: r.append(word(x))
    return (t.a[1], r)


def layers(t):
    """attributes pushed one after another: [('push', attr) | ('each', source)]; None if unknown"""
    t = canon(t)
    if t.op == 'adt' and len(t.a[2]) == 1: return layers(t.a[2][0])
    if t.op == 'call' and LAST(t.a[0]) in ('from_checked', 'try_from', 'into', 'from', 'unwrap') and len(t.a[1]) == 1: return layers(t.a[1][0])
    if t.op == 'push':
        b, a = layers(t.a[0]), attr(t.a[1])
        return None if b is None or a is None else b + [('push', a)]
    if t.op == 'coll':
        b = layers(t.a[0])
        return None if b is None else b + [('each', strip_seq(canon(t.a[1])), t)]
    if t.op == 'empty' or t.op == 'arr' and not t.a[0]: return []
    if t.op == 'arr':
        r = [attr(x) for x in t.a[0]]
        return None if None in r else [('push', x) for x in r]
    return None


def same_attr(a, exp):
    if a[0] != exp[0] or len(a[1]) != len(exp[1]): return False
    r = [same_word(x, y) for x, y in zip(a[1], exp[1])]
    return False if False in r else None if None in r else True


def compare(got, exp):
    """same attributes, in any order; (verdict, text)"""
    rest, v = list(got), True
    for e in exp:
        hits = [(same_attr(g, e), g) for g in rest]
        good = [g for s, g in hits if s is True]
        if not good:
            soft = [g for s, g in hits if s is None]
            if not soft: return False, f'attribute {show_attr(e)} is missing'
            v, good = None, soft
        rest.remove(good[0])
    if rest: return False, f'attribute {show_attr(rest[0])} does not belong here'
    return v, 'attribute of unknown value'


def show_attr(a): return f'{a[0]}({", ".join(text(x)[:60] for x in a[1])})'


def L02(rep):
    """Tables of predicates, attribute names, values and lengths are decided entry by entry; the expression of a type is compared for
    each class of type, each role of the type in its parent and each kind of nesting with the parts it has to show."""
    tables_of(rep)
    attributes_of(rep)
    f = rep.fn('TypeInfo', 'to_vesper')
    outs = rep.paths_of(f) if f else None
    if outs is None: return
    ty, fqn, item, nested = (fldp(S, n) for n in ('ty', 'fqn', 'item', 'nested'))
    some = T('fld', item, 'Some', '0')
    V = {}

    def say(k, v, why=''):
        o = V.get(k, (True, ''))
        if o[0] is False: return
        if v is False or v is None and o[0]: V[k] = (v, why)
        else: V.setdefault(k, o)
    name = fldp(T('fld', fqn, 'Some', '0'), 'name')
    P = dict(Primitive='Is', UnicodeChar='Str', Enum='Enum', Union='Union', Tuple='Tuple', Struct='Rec', Array='Array', List='List', Set='Set', Map='Map')
    tyf = lambda v, n: T('fld', ty, v, n)
    for o in outs:
        if o.k != 'ret': continue
        fs = {canon(k): v for k, v in o.st.facts.items()}
        get = lambda t: fs.get(canon(D(t)))
        blank = None
        skip = False
        for k, v in fs.items():
            if k.op == 'bin' and k.a[0] == 'Eq':
                ws = [word(x) for x in k.a[1:3]]
                if '_' in ws:
                    other = ws[0] if ws[1] == '_' else ws[1]
                    if other == '_': skip = skip or v == 0
                    else: blank = v
        if skip or blank == 1: continue
        c, q = get(ty), get(fqn)
        i = 'None' if get(item) == 'None' else get(some)
        v = canon(o.v)
        if v.op != 'adt' or not v.a[0].endswith('TExpr') or len(v.a[2]) < 3:
            say('expression', None, f'gives {pp(v)[:100]}')
            continue
        subject, predicate, attributes = v.a[2][:3]
        # ---- subject
        nm = name if q == 'Some' else '_' if q == 'None' else None
        w = word(subject)
        exp = {'NamedField': T('fld', some, 'NamedField', '1'), 'UnionVariant': T('fld', some, 'UnionVariant', '1'), 'MapKey': 'key', 'MapValue': 'value'}.get(i, nm)
        if i in ('ListItem', 'SetItem') and q == 'None': exp = 'element'
        if i == 'UnnamedField' and q == 'None': exp = ('fmt', '_{' + pp(T('fld', some, 'UnnamedField', '0')) + '}')
        if exp is None or i is None: g = True if exp is not None and same_word(w, exp) else None
        else: g = same_word(w, exp)
        if g is False and not known_conditions(o): g = None
        say(f'subject:{i}', g, f'the subject is {text(w)[:80]} in place of {text(exp)[:80] if exp is not None else "?"}')
        # ---- predicate
        loops = [e for e in o.st.events() if e.k == 'loop' and any(strip_seq(canon(s)) is canon(nested) for s in e.x['src'])]
        p0 = canon(predicate)
        if p0.op == 'fold':
            init = canon(p0.a[0])
        elif p0.op == 'adt': init = p0
        else: init = None
        special = {k: val for k, val in fs.items() if k.op in ('bin', 'call', 'has', 'discr', 'done', 'pred') and not any(canon(x) is canon(fqn) or canon(x) is canon(item) for x in walk(k)) and k is not canon(D(ty))
                   and not any(x.op in ('str',) for x in walk(k)) and any(canon(x) is canon(ty) for x in walk(k))}
        want = P.get(c)
        if init is None or init.op != 'adt': say(f'predicate:{c}', None, f'the predicate is {pp(predicate)[:100]}')
        elif c is None: say('predicate', None, 'the class of the type is not looked at')
        else:
            got = init.a[1]
            alts = {'Enum': ('Enum', 'Char'), 'Array': ('Array', 'Bytes')}.get(c, (want,))
            g = got in alts
            if g and len(alts) == 2: g = kind_of(c, got, alts, fs, ty)
            say(f'predicate:{c}', g, f'the predicate of a type of class {c} is {got}')
        # ---- attributes
        ls = layers(attributes)
        if ls is None:
            say(f'attributes:{c}', None, f'attributes are {pp(attributes)[:120]}')
            continue
        exp = []
        role = i
        if q == 'Some' and i in ('NamedField', 'UnionVariant', 'MapKey', 'MapValue'): exp.append(('TypeName', [name]))
        if c == 'Primitive':
            prim = tyf('Primitive', '0')
            unit = fs.get(canon(fldp(prim, '0'))) == 0 or any(k.op == 'bin' and k.a[0] == 'Eq' and v == 1 and any(canon(x) is canon(prim) or canon(x) is canon(fldp(prim, '0')) for x in k.a[1:3]) for k, v in fs.items())
            exp.append(('TypeName', ['Unit' if unit else prim]))
        if c == 'Array': exp.append(('Len', [tyf('Array', '1')]))
        if c in ('List', 'Set', 'Map'):
            z = tyf(c, '2' if c == 'Map' else '1')
            exp.append(('LenRange', [fldp(z, 'min'), fldp(z, 'max')]))
        if i == 'UnionVariant': exp.append(('Tag', [T('fld', some, 'UnionVariant', '0')]))
        g, why = compare([x[1] for x in ls if x[0] == 'push'], exp)
        if g is False and (not known_conditions(o) or c is None or i is None or q is None and i in ('NamedField', 'UnionVariant', 'MapKey', 'MapValue')): g = None
        say(f'attributes:{c}:{role}' if c in ('Primitive', 'Tuple', 'UnicodeChar') else f'attributes:{c}', g, why)
        each = [x for x in ls if x[0] == 'each']
        srcs = [x[1] for x in each]
        if not any(s is canon(nested) for s in srcs) and p0.op != 'fold':
            n0 = any(is_call(k, 'len') and canon(k.a[1][0]) is canon(nested) and v == 0 for k, v in fs.items())
            say('nested', True if n0 else False if known_conditions(o) and all(resolved(s) for s in srcs) else None, 'nested types are not shown')
        cut = [s for s in srcs if s is not canon(nested) and any(canon(x) is canon(nested) for x in walk(s)) and any(x.op in ('but-n', 'first-n', 'rest', 'front', 'filter') for x in walk(s))]
        if cut: say('nested', False, f'only {pp(cut[0])} of the nested types are shown')
        for e in loops: nesting(say, e, nested, o)
        if not loops: say('nested', None, 'nested types are not gone through in a loop')
        if c == 'Enum':
            vs = [x for x in each if x[1] is canon(tyf('Enum', '0')) or any(canon(y) is canon(tyf('Enum', '0')) for y in walk(x[1]))]
            whole = [x for x in vs if x[1] is canon(tyf('Enum', '0'))]
            if not vs: say('variants', False if known_conditions(o) else None, 'the variants of an enumeration are not shown')
            elif not whole: say('variants', False if any(y.op in ('but-n', 'first-n', 'rest', 'front') for x in vs for y in walk(x[1])) else None, f'shows the variants {pp(vs[0][1])[:80]}')
            else:
                its = list(whole[0][2].a[2])
                some_left = [x for x in its if x.op == 'skip']
                if some_left and len(its) > 1:
                    bodies = [b for e in o.st.events() if e.k == 'loop' and any(strip_seq(canon(s)) is whole[0][1] for s in e.x['src']) for b in e.x['bodies']]
                    say('variants', None if any(fuzzy_body(b) for b in bodies) else False, 'some of the variants are left out')
                    continue
                a = attr(its[0]) if len(its) == 1 else None
                good = None
                if a and a[0] == 'EnumVariant' and len(a[1]) == 2:
                    good = all(not isinstance(x, (str, tuple)) and x.op == 'fld' and x.a[0].op in ('elem', 'each') and str(x.a[2]) == n for x, n in zip(a[1], ('tag', 'name')))
                    if not good and not all(isinstance(x, (str, tuple)) or resolved(x, ()) or x.op == 'fld' for x in a[1]): good = None
                say('variants', good, f'shows variants as {show_attr(a) if a else its}')
        elif any(x[1] is not canon(nested) for x in each): say(f'attributes:{c}', None, 'further attributes')
    for k, (v, why) in V.items(): rep.tri('expression:' + k, v, why, f.where())
    for c in P:
        if not any(k.startswith(f'predicate:{c}') for k in V): rep.unknown(f'expression:predicate:{c}', 'no path for this class', f.where())


def kind_of(c, got, alts, fs, ty):
    """is the special predicate given in the right cases?  decided for the conditions named by the paths"""
    if c == 'Array':
        t = canon(T('fld', ty, 'Array', '0'))
        b = byte_like(fs, t)
        if b is None:
            if any(x is t for k in fs for x in walk(k)) or any(k.op != 'discr' and any(canon(x) is canon(ty) for x in walk(k)) and not any(x.op == 'fld' and x.a[1] == 'Array' for x in walk(k)) for k in fs): return None
            return False
        return (got == 'Bytes') == b
    vs = canon(T('fld', ty, 'Enum', '0'))
    rel = {k: v for k, v in fs.items() if any(x is vs for x in walk(k))}
    low = any(v == 1 and k.op == 'bin' and k.a[0] == 'Lt' and k.a[2].op == 'int' and k.a[2].a[0] == 32 for k, v in rel.items())
    high = any(v == 1 and k.op == 'bin' and k.a[0] == 'Lt' and k.a[1].op == 'int' and k.a[1].a[0] == 127 for k, v in rel.items())
    if low or high: return got == 'Enum'
    if any(k.op == 'bin' and k.a[0] in ('Lt', 'Le') for k in rel): return None
    if any(k.op == 'done' for k in rel): return got == 'Char'
    return None


def byte_like(fs, t):
    r = []
    for k, v in fs.items():
        if (is_call(k, 'is_byte') or k.op == 'pred') and any(canon(x) is t for x in walk(k)): r.append(v == 1)
        if k.op == 'bin' and k.a[0] == 'Eq' and any(canon(x) is t for x in k.a[1:3]): r.append(v == 1)
    return any(r) if r else None


def nesting(say, e, nested, o):
    el = None
    for b in e.x['bodies']:
        fs = {canon(k): v for k, v in b['facts'].items()}
        kind = None
        for k, v in fs.items():
            if k.op == 'discr' and k.a[0].op in ('elem', 'each'): kind, el = v, k.a[0]
        if kind is None:
            say('nested', None, 'kind of nesting is not told apart')
            continue
        attrs, pred = None, 'same'
        for loc, t in (b.get('upd') or {}).items():
            t = canon(t)
            if t.op == 'adt' and t.a[0].endswith('Pred'): pred = t.a[1]
            elif t.op == 'push' or t.op == 'coll':
                attrs, x = [], t
                while x.op == 'push':
                    a = attr(x.a[1])
                    if a is None: break
                    attrs.insert(0, a)
                    x = canon(x.a[0])
                if x.op != 'lv': attrs = 'unknown'
            elif t.op != 'lv' and 'Vec' in str(loc): attrs = 'unknown'
        if attrs is None: attrs = []
        if attrs == 'unknown':
            say(f'nested:{kind}', None, 'unknown attributes')
            continue
        sub = lambda n: canon(T('fld', el, kind, n))
        shown = lambda n: fs.get(canon(D(sub(n))))
        nm = lambda n: fldp(T('fld', sub(n), 'Some', '0'), 'name')
        exp, want = [], 'same'
        if kind == 'NewType':
            if shown('0') is None: exp = None
            else: exp = [('Wrapped', [nm('0') if shown('0') == 'Some' else 'none'])]
        elif kind == 'Option': exp = [('Option', [])]
        elif kind == 'ByteStr': want = 'Bytes'
        elif kind == 'UniStr': want = 'Str'
        elif kind == 'AsciiStr':
            want = 'Ascii'
            if shown('0') is None: exp = None
            elif shown('0') == 'Some': exp = [('AsciiEnum', [nm('0')])]
        elif kind == 'RStr':
            want = 'Ascii'
            if shown('0') is None or shown('1') is None: exp = None
            else:
                exp = [(a, [nm(n)]) for a, n in (('AsciiFirst', '0'), ('AsciiRest', '1')) if shown(n) == 'Some']
                exp.append(('LenRange', [fldp(sub('2'), 'min'), fldp(sub('2'), 'max')]))
        say(f'nested:{kind}:predicate', pred == want if pred != 'same' or not fuzzy_body(b) else None, f'predicate becomes {pred} in place of {want}')
        if exp is None:
            must = {'NewType': 'Wrapped', 'RStr': 'LenRange'}.get(kind)
            lack = must and must not in [a for a, _ in attrs] and not fuzzy_body(b)
            say(f'nested:{kind}', False if lack else None, f'attribute {must} is missing' if lack else 'presence of a name is not told apart')
            continue
        g, why = compare(attrs, exp)
        say(f'nested:{kind}', g if g is not False or not fuzzy_body(b) else None, why)


def fuzzy_body(b): return any(fuzzy(k) for k in list(b['facts']) + list(b['neq']))


# ------------------------------------------------------------------ traversal
KINDS = ('is_newtype', 'is_option', 'is_char_enum', 'is_byte', 'is_unicode_char', 'is_byte_array')


def field_of(v, name):
    """value of a field of an updated structure; None if unknown"""
    while v is not None:
        if v.op == 'upd':
            key = v.a[1]
            if not isinstance(key, tuple): return None
            if key[-1] == name: return v.a[2]
            v = v.a[0]
        elif v.op in ('sym', 'lv'): return fldp(v, name)
        elif v.op == 'fold' and all(untouched(u, name) for u in v.a[2]): v = v.a[0]
        elif v.op == 'adt':
            return None
        else: return None
    return None


def untouched(u, name):
    while u.op == 'upd':
        if not isinstance(u.a[1], tuple) or u.a[1][-1] == name: return False
        u = u.a[0]
    return u.op == 'acc'


def tv(fs, neq, key):
    """a condition as known on a path: True / False / None"""
    if key in fs: return fs[key] == 1
    if 1 in neq.get(key, ()): return False
    return None


def discr_is(fs, neq, t, v):
    k = canon(D(t))
    if k in fs: return fs[k] == v
    if v in neq.get(k, ()): return False
    return None


def extension(t, base):
    """items appended to a list; None if unknown"""
    t = canon(t)
    if t is canon(base): return []
    if t.op == 'push':
        r = extension(t.a[0], base)
        return None if r is None else r + [canon(t.a[1])]
    if t.op == 'coll' and t.a[3] == 'push' and len(t.a[2]) == 1 and canon(t.a[2][0]).op in ('elem', 'each'):
        r, s = extension(t.a[0], base), listed(t.a[1])
        return None if r is None or s is None else r + s
    return None


def listed(t):
    t = canon(t)
    if t.op == 'empty': return []
    if t.op == 'after' and str(t.a[0]).startswith('Vec::clear'): return []
    if t.op == 'arr': return [canon(x) for x in t.a[0]]
    if t.op == 'push':
        r = listed(t.a[0])
        return None if r is None else r + [canon(t.a[1])]
    return None


def nexts(t, n=0):
    """(iterator, how many items were taken from it)"""
    t = canon(t)
    if t.op == 'after' or t.op.startswith('after'):
        inner = [x for x in t.a if isinstance(x, T)]
        if len(inner) == 1 and 'next' in str(t.a[0]): return nexts(inner[0], n + 1)
        for x in t.a:
            if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], T) and 'next' in str(t.a[0]): return nexts(x[0], n + 1)
        return None, n
    return t, n


def L01(rep):
    """The step of the traversal of a type is decided case by case: what is reported for a type, what is remembered for the types
    below it, and how the next type is found.  The layout must take in the whole traversal from the root."""
    f = rep.fn('TypeTreeIter', 'next', trait='Iterator')
    outs = rep.paths_of(f, names=['self'], opaque=set(KINDS) | {'next', 'lookup', 'get', 'iter'}) if f else None
    V = {}

    def say(k, v, why=''):
        o = V.get(k, (True, ''))
        if o[0] is False: return
        if v is False or v is None and o[0]: V[k] = (v, why)
        else: V.setdefault(k, o)
    for o in outs or ():
        if o.k == 'ret' and not contradictory(o): step(o, say)
    for k, (v, why) in V.items(): rep.tri('step:' + k, v, why, f.where())
    if outs is not None:
        for k in ('item', 'nested', 'children', 'advance', 'wrapper', 'end'):
            if not any(x.split(':')[0] == k for x in V): rep.unknown(f'step:{k}', 'no path for this case', f.where())
    starts(rep)
    whole(rep)
    built(rep)


def call_of(t, *items):
    t = canon(t)
    return t if t.op == 'call' and LAST(t.a[0]) in items else None


def step(o, say):
    ty = canon(T('fld', fldp(S, 'ty'), 'Some', '0'))
    fs, neq = {canon(k): v for k, v in o.st.facts.items()}, {canon(k): v for k, v in o.st.neq.items()}
    for k, v in fs.items():
        if is_call(k, 'len') and listed(k.a[1][0]) is not None and isinstance(v, int) and v != len(listed(k.a[1][0])): return
        if is_call(k, 'is_empty') and listed(k.a[1][0]) is not None and v != (not listed(k.a[1][0])): return

    def pred(item, t):
        r = [tv(fs, neq, k) for k in list(fs) + list(neq) if is_call(k, item) and len(k.a[1]) == 1 and canon(k.a[1][0]) is canon(t)]
        return r[0] if r else None
    have = discr_is(fs, neq, fldp(S, 'ty'), 'Some')
    none = discr_is(fs, neq, fldp(S, 'ty'), 'None')
    v = canon(o.v)
    end = o.st.store.get(('A', 'self'))
    known = known_conditions(o) or all(not fuzzy(k) or any(x.op == 'after' or x.op == 'fold' for x in walk(k)) for k in list(fs) + list(neq))
    looks = lambda t, what: (c := call_of(t, 'lookup')) is not None and canon(c.a[1][-1]) is canon(what)

    def looked(t, what):
        c = call_of(t, 'lookup')
        if c is None: return None if not resolved(t) else False
        return canon(norm(c.a[1][-1])) is canon(norm(what))
    if v.op == 'adt' and v.a[1] == 'Some' and canon(v.a[2][0]).op == 'adt' and canon(v.a[2][0]).a[0].endswith('TypeInfo'):
        info = canon(v.a[2][0])
        if len(info.a[2]) != 5: return say('item', None, 'unknown parts')
        depth, t, fqn, item, nested = [canon(x) for x in info.a[2]]
        if have is not True: return say('item', None, 'reports an item of unknown origin')
        same = lambda a, b: True if canon(norm(a)) is canon(norm(b)) else False if resolved(a) else None
        say('item:depth', same(depth, fldp(S, 'depth')), f'the depth is {pp(depth)[:80]}')
        say('item:type', same(t, ty), f'the type is {pp(t)[:80]}')
        say('item:name', looked(fqn, fldp(S, 'sem_id')), f'the name is {pp(fqn)[:80]}')
        say('item:role', same(item, fldp(S, 'item')), f'the role is {pp(item)[:80]}')
        for w in ('is_newtype', 'is_option'):
            p = pred(w, ty)
            say('item:wrapper', True if p is False else False if p is True else None, f'a type which {w.replace("_", " ")} is reported apart from what it wraps')
        # kinds of nesting
        n = extension(nested, fldp(S, 'nested'))
        exp = None
        isn = lambda v_: discr_is(fs, neq, ty, v_)
        inner = canon(T('fld', ty, 'List', '0'))
        if n is None: say('nested', None, f'nested kinds are {pp(nested)[:80]}')
        elif isn('List') is True:
            sub = [k.a[1][0] for k in list(fs) + list(neq) if k.op == 'call' and LAST(k.a[0]) in KINDS[2:5] and any(x is inner for x in walk(k))]
            if sub:
                c, b, u = (pred(x, sub[0]) for x in KINDS[2:5])
                exp = 'AsciiStr' if c else 'ByteStr' if c is False and b else 'UniStr' if c is False and b is False and u else '' if (c, b, u) == (False, False, False) else None
                if exp is None and (b or u) and c is not True: exp = 'ByteStr' if b else 'UniStr'
            if exp is None: say('nested:list', None, 'kinds of items are not told apart')
            elif not exp: say('nested:list', not n, f'a list of other items is shown as {n}')
            else:
                good = len(n) == 1 and n[0].op == 'adt' and n[0].a[1] == exp
                if good and exp == 'AsciiStr': good = looked(n[0].a[2][0], inner)
                say(f'nested:{exp}', good if known or good is None else None if not good else True, f'nested kinds are {[pp(x)[:60] for x in n]} in place of {exp}')
        elif n:
            if isn('Tuple') is not True or len(n) != 1 or n[0].a[1] != 'RStr': say('nested', False if known and n[0].op == 'adt' and isn('Tuple') is not None else None, f'nested kinds are {[pp(x)[:60] for x in n]}')
            else:
                chars = [k.a[1][0] for k in list(fs) + list(neq) if is_call(k, 'is_char_enum') and tv(fs, neq, k)]
                fields = canon(T('fld', ty, 'Tuple', '0'))
                ids = [x if x.op == 'at' else call_of(x.a[0] if x.op == 'fld' and x.a[1] == 'Some' else x, 'get') for x in map(canon, chars)]
                r = n[0].a[2]
                if None in ids or len(ids) != 2: say('nested:RStr', False if known and len(chars) < 2 else None, 'a tuple is taken for a string although its characters are not looked at')
                else:
                    keys = [canon(x.a[1] if x.op == 'at' else x.a[1][-1]) for x in ids]
                    first = [k for k in keys if any(x is fields for x in walk(k)) and not any(x.op == 'fld' and x.a[1] == 'List' for x in walk(k))]
                    rest = [k for k in keys if any(x.op == 'fld' and x.a[1] == 'List' for x in walk(k))]
                    if len(first) != 1 or len(rest) != 1: say('nested:RStr', None, 'parts of the string are not known')
                    else:
                        say('nested:RStr:first', looked(r[0], first[0]), f'the first character is {pp(r[0])[:80]}')
                        say('nested:RStr:rest', looked(r[1], rest[0]), f'the other characters are {pp(r[1])[:80]}')
                        bounds(say, canon(r[2]), rest[0])
                        two = any(is_call(k, 'len') and canon(k.a[1][0]) is fields and x == 2 for k, x in fs.items())
                        say('nested:RStr', True if two else None, 'the number of fields is not looked at')
        else: say('nested:plain', True)
        # what is remembered
        if end is None: return say('children', None, 'state is not known')
        after = {x: field_of(end, x) for x in ('path', 'nested', 'ty')}
        say('children:once', True if after['ty'] is not None and canon(after['ty']).op == 'adt' and canon(after['ty']).a[1] == 'None' else False if after['ty'] is not None and resolved(after['ty']) else None, 'the type is reported again by the next step')
        nn = after['nested']
        say('children:nested', True if nn is not None and listed(nn) == [] else False if nn is not None and (canon(nn) is canon(fldp(S, 'nested')) or extension(nn, fldp(S, 'nested'))) else None, 'kinds of nesting are kept for the next item')
        pushed = extension(after['path'], fldp(S, 'path')) if after['path'] is not None else None
        leaf = any(isn(x) is True for x in ('Primitive', 'UnicodeChar', 'Enum'))
        if pushed is None: return say('children', None, 'what is remembered is not known')
        text_ = n is None or bool(n)
        if not pushed:
            array = pred('is_byte_array', ty)
            say('children:kept', True if text_ or array or leaf else False if known and n is not None else None, 'the types below a type are left out')
        elif len(pushed) != 1 or pushed[0].op != 'tup' or len(pushed[0].a[0]) != 2: say('children', None, 'what is remembered is not known')
        else:
            d, it = pushed[0].a[0]
            say('children:depth', True if canon(d) is canon(T('bin', 'Add', I(1), fldp(S, 'depth'))) or canon(d) is canon(T('bin', 'Add', fldp(S, 'depth'), I(1))) else False if resolved(d) else None, f'the depth of the types below is {pp(d)[:60]}')
            src, taken = nexts(it)
            ok = src is not None and call_of(src, 'iter') is not None and canon(src.a[1][0]) is ty
            want = 2 if n and n[0].op == 'adt' and n[0].a[1] == 'RStr' else 0
            if n and want == 0: say('children:string', None if n[0].a[1] not in ('AsciiStr', 'ByteStr', 'UniStr') else taken > 0, 'characters of a string are reported apart from it')
            else: say('children:kept', True if ok and taken == want else False if ok else None, f'{taken} of the types below are left out in place of {want}')
        return
    # ---- wrappers
    loops = [e for e in o.st.events() if e.k == 'loop' and not e.x['src']]
    if loops and have is True:
        en = loops[-1].x.get('entry', {}).get(('A', 'self'))
        w = 'NewType' if pred('is_newtype', ty) else 'Option' if pred('is_option', ty) else None
        if en is not None and w:
            n, p = field_of(en, 'nested'), field_of(en, 'path')
            n = extension(n, fldp(S, 'nested')) if n is not None else None
            p = extension(p, fldp(S, 'path')) if p is not None else None
            if n is None: say('wrapper', None, 'nested kinds are not known')
            else:
                g = len(n) == 1 and n[0].op == 'adt' and n[0].a[1] == w
                if g and w == 'NewType': g = looked(n[0].a[2][0], fldp(S, 'sem_id'))
                say(f'wrapper:{w}', g, f'a wrapped type is noted as {[pp(x)[:60] for x in n]}')
            if p is None or len(p) > 1 or p and (p[0].op != 'tup' or len(p[0].a[0]) != 2): say('wrapper', None, 'what is remembered is not known')
            elif not p: say(f'wrapper:{w}:content', False, 'the wrapped type is left out')
            else:
                d, it = p[0].a[0]
                say(f'wrapper:{w}:depth', True if canon(d) is canon(fldp(S, 'depth')) else False if resolved(d) else None, f'the depth of the wrapped type is {pp(d)[:60]}')
                src, taken = nexts(it)
                ok = src is not None and call_of(src, 'iter') is not None and canon(src.a[1][0]) is ty
                want = {'NewType': 0, 'Option': 1}[w]
                say(f'wrapper:{w}:content', True if ok and taken == want else False if ok else None, f'{taken} of the parts of the wrapper are skipped in place of {want}')
        elif en is not None and w is None: say('wrapper', False if known and pred('is_newtype', ty) is False and pred('is_option', ty) is False else None, 'a type is not reported')
    if not loops: return
    # ---- the loop over what is remembered
    for b in loops[-1].x['bodies']:
        nx = [(k, x) for k, x in b['facts'].items() if k.op == 'discr' and call_of(k.a[0], 'next')]
        if len(nx) != 1:
            say('advance', None, 'loop of unknown meaning')
            continue
        st = b['upd'].get(('A', 'self'))
        if nx[0][1] != 'None' or st is None:
            say('advance', None, 'loop of unknown meaning')
            continue
        p = field_of(st, 'path')
        pops = p is not None and p.op == 'after' and 'pop' in str(p.a[0])
        same = p is not None and not any('pop' in str(x.a[0]) for x in walk(p) if x.op == 'after')
        say('advance:exhausted', True if pops else False if same else None, 'an exhausted level is not left')
        n = field_of(st, 'nested')
        say('advance:nested', True if n is not None and listed(n) == [] else False if n is not None and n.op in ('lv', 'fld') else None, 'kinds of nesting are kept after their content')
    if v.op == 'adt' and v.a[1] == 'None':
        last = [x for k, x in fs.items() if k.op == 'discr' and (c := call_of(k.a[0], 'last_mut', 'last', 'pop')) is not None]
        say('end', True if 'None' in last or any(k.op == 'discr' and is_last(k.a[0]) and x == 'None' for k, x in fs.items()) else False if known and not last and have is not True else None, 'ends before everything is reported')
        return
    c = call_of(v, 'next')
    if c is None: return
    st = c.a[1][0]
    get = {x: field_of(st, x) for x in ('sem_id', 'ty', 'item', 'depth')}
    nx = [canon(k.a[0]) for k, x in o.st.facts.items() if k.op == 'discr' and x == 'Some' and (q := call_of(k.a[0], 'next')) is not None and any(y.op == 'call' and LAST(y.a[0]) in ('last_mut',) for y in walk(q))]
    if len(set(nx)) != 1: return say('advance', None, 'the next type is found in an unknown way')
    pair = T('fld', nx[0], 'Some', '0')
    top = nx[0].a[1][0]
    top = top.a[0] if top.op == 'fld' else None
    part_ = lambda n: canon(fldp(pair, n))

    def agree(x, y): return None if x is None else True if canon(norm(x)) is canon(norm(y)) else False if not any(z.op in ('call',) and LAST(z.a[0]) not in ('next', 'last_mut', 'get') for z in walk(x)) else None
    say('advance:id', agree(get['sem_id'], part_('0')), f'the id of the next type is {pp(get["sem_id"])[:80] if get["sem_id"] is not None else "?"}')
    g = call_of(get['ty'], 'get') if get['ty'] is not None else None
    say('advance:type', None if g is None else True if canon(norm(g.a[1][-1])) is canon(norm(part_('0'))) else False, 'the next type is not the one remembered')
    if top is not None:
        d = agree(get['depth'], fldp(top, '0')) if get['depth'] is not None else None
        if d is None and get['depth'] is not None and (canon(get['depth']).op == 'bin' or call_of(get['depth'], 'max', 'min') is not None): d = False
        stale = get['depth'] is not None and canon(get['depth']) is canon(fldp(S, 'depth'))
        say('advance:depth', False if stale else d if d is not None else None, 'the depth of the next type is not that of its level')
    wraps = set()
    for k, x in o.st.facts.items():
        if k.op == 'discr' and any(is_last(y) for y in walk(k)) and x in ('NewType', 'Option'): wraps.add(x)
    told = any(k.op == 'discr' and any(is_last(y) for y in walk(k)) for k in list(o.st.facts) + list(o.st.neq)) 
    it = get['item']
    if it is None: say('advance:role', None, 'the role is not known')
    elif canon(norm(it)) is canon(norm(part_('1'))):
        out = set()
        for k, x in list(o.st.facts.items()):
            if k.op == 'discr' and (is_last(k.a[0]) or is_last(canon(k).a[0])) and x == 'None': out |= {'NewType', 'Option'}
            if k.op == 'discr' and any(is_last(y) for y in walk(k)) and x not in ('Some', 'None', 'NewType', 'Option'): out |= {'NewType', 'Option'}
        for k, x in list(o.st.neq.items()):
            if k.op == 'discr' and any(is_last(y) for y in walk(k)): out |= set(x)
            if k.op == 'discr' and (is_last(k.a[0]) or is_last(canon(k).a[0])) and 'Some' in x: out |= {'NewType', 'Option'}
        say('advance:role', True if {'NewType', 'Option'} <= out and not wraps else False if wraps or told else None, 'what a wrapper wraps loses the role of the wrapper')
    elif canon(it).op == 'adt' and canon(it).a[1] == 'None': say('advance:role', False if told else None, 'the role is forgotten')
    elif canon(it) is canon(fldp(S, 'item')): say('advance:role', True if wraps else False if told else None, 'the role of the type is not that remembered')
    else: say('advance:role', None, f'the role is {pp(it)[:80]}')


def is_last(t): return t.op == 'last' or t.op == 'call' and LAST(t.a[0]) in ('last', 'last_mut')


def bounds(say, z, rest):
    """bounds of a restricted string: one more than those of the list of its other characters"""
    lst = None
    for x in walk(rest):
        if x.op == 'fld' and x.a[1] == 'List': lst = x
    if lst is None: return say('nested:RStr:bounds', None, 'unknown list')
    size = T('fld', lst.a[0], 'List', '1')
    for n, i in (('min', 0), ('max', 1)):
        x = field_of(z, n) if z.op == 'upd' else canon(z.a[2][i]) if z.op == 'adt' and len(z.a[2]) == 2 else None
        if z is canon(size): return say('nested:RStr:bounds', False, 'the bounds of the string are those of the list of its other characters')
        if x is None and z.op == 'upd':
            y = z
            touched = set()
            while y.op == 'upd':
                touched.add(y.a[1][-1])
                y = y.a[0]
            if n not in touched and canon(y) is canon(size):
                say('nested:RStr:bounds', False, f'the {n} of the string is that of the list of its other characters')
                continue
        if x is None:
            say('nested:RStr:bounds', None, 'unknown bounds')
            continue
        x = canon(x)
        b = canon(fldp(size, n))
        good = x.op == 'bin' and x.a[0] in ('Add', 'SatAdd') and {x.a[1], x.a[2]} == {b, I(1)}
        if not good and any(y.op in ('bin', 'call') and y not in (x,) for y in walk(x)): good = None
        say('nested:RStr:bounds', True if good else None if good is None else False, f'the {n} of the string is {pp(x)[-90:]}')


def starts(rep):
    f, outs = rep.run('TypeTree', 'iter', opts=dict(opaque=('get',)))
    if outs is not None:
        v = True
        why = ''
        for o in outs:
            if o.k != 'ret': continue
            t = canon(o.v)
            if t.op != 'adt' or len(t.a[2]) != 7:
                v = None
                continue
            sem, ty, item, depth, path, sys, nested = [canon(x) for x in t.a[2]]
            for g, w in ((sem is canon(fldp(S, 'sem_id')), 'starts from another id'), (item.op == 'adt' and item.a[1] == 'None', 'starts with a role'), (depth is I(0), 'starts at a depth'), (listed(path) == [], 'starts below something'),
                         (listed(nested) == [], 'starts nested'), (ty.op == 'adt' and ty.a[1] == 'Some' and any(c.op == 'call' and LAST(c.a[0]) == 'get' for c in walk(ty)), 'starts from no type')):
                if not g and v: v, why = (False if resolved(t, ('get',)) else None), w
        rep.tri('start', v, why, f.where())
    f, outs = rep.run('SymbolicSys', 'type_tree', opts=dict(opaque=('get', 'lookup')))


def whole(rep):
    n = 0
    for f in rep.p.find('MemoryLayout', 'from', trait='From'):
        outs = rep.paths_of(f, names=['tree'], opaque=('next',))
        n += 1
        v, why = True, ''
        for o in outs or ():
            if o.k != 'ret': continue
            t = canon(o.v)
            if t.op == 'adt' and len(t.a[2]) == 1: t = canon(t.a[2][0])
            src = strip_seq(canon(t.a[1])) if t.op == 'coll' else None
            if src is not None and any(x.op in ('but-n', 'first-n', 'rest', 'front', 'filter') for x in walk(src)): v, why = False, f'takes only {pp(src)[:80]}'
            elif t.op == 'coll' and any(x.op == 'skip' for x in t.a[2]) and len(t.a[2]) > 1: v, why = False, 'leaves out some items'
            elif t.op != 'coll' or len(t.a[2]) != 1 or canon(t.a[2][0]).op not in ('elem', 'each') or canon(t.a[0]).op != 'empty':
                if v: v, why = None, f'gives {pp(t)[:100]}'
        rep.tri(f'whole:{n}', v, why, f.where())
    rep.floor('conversions', n, 2, 'conversions of a tree of types into a layout')


def built(rep):
    pass
