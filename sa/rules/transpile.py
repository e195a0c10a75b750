"""C08: definitions made by transpiling Rust types."""
from .common import *
from .tables import *

S = sym('self')
LAST = lambda n: str(n).split('@')[0].split('::')[-1]
D = lambda t: T('discr', t, '')
REF = ('strict_encode', 'compile_type', 'report_compiled', 'sem_id_named', 'strict_name', 'strict_dumb', 'call', 'try_from', 'as_bytes')


def known(t): return resolved(t, REF) and not fuzzy(t)


def field(rep, v, name):
    """field of a structure as built or updated; None if unknown"""
    while isinstance(v, T):
        if v.op == 'upd':
            if not isinstance(v.a[1], tuple): return None
            if v.a[1][-1] == name: return v.a[2]
            v = v.a[0]
        elif v.op == 'adt':
            a = rep.p.adts.get(v.a[0])
            if not a: return None
            names = [f['name'] for f in a['variants'][0]['fields']]
            return v.a[2][names.index(name)] if name in names and len(v.a[2]) == len(names) else None
        elif v.op in ('sym', 'call', 'fld'): return fldp(v, name)
        else: return None
    return None


def all_of(vs):
    vs = list(vs)
    return False if False in vs else None if None in vs else True


def pm(t, pat):
    """whether a term has the form of a pattern: True / False / None (cannot tell)"""
    if t is None: return None
    t = canon(t)
    if isinstance(pat, T): return True if t is canon(pat) or norm(t) is norm(pat) else False if known(t) else None
    if callable(pat): return pat(t)
    var, subs = pat[0], pat[1:]
    if t.op == 'adt':
        if t.a[1] != var and not (t.a[1] == '' and t.a[0].split('::')[-1] == var): return False
        if len(t.a[2]) != len(subs): return None
        return all_of(pm(x, s) for x, s in zip(t.a[2], subs))
    return None if fuzzy(t) or t.op in ('call', 'upd', 'lv', 'fold', 'fld') else False


def some(p): return ('Some', p)
def embedded(p): return some(('Embedded', p))


def type_of(arg):
    """the definition recorded by encoding an argument"""
    def f(t):
        x = t
        for p in (('Some', '0'), ('', 'last_compiled'), ('Ok', '0')):
            if x.op == 'adt': return False
            if x.op != 'fld' or (x.a[1], x.a[2]) != p: return None if not known(t) else False
            x = x.a[0]
        if not is_call(x, 'strict_encode'): return None
        return True if canon(x.a[1][0]) is sym(arg) else False if known(canon(x.a[1][0])) else None
    return f


def builders(v):
    """arguments encoded into a builder one after another, and what it started from"""
    r, odd = [], 0
    while isinstance(v, T):
        if v.op == 'upd':
            k = v.a[1][-1] if isinstance(v.a[1], tuple) else None
            if k != 'last_compiled':
                x = canon(v.a[2])
                # a part put back as it had been before a nested encoding
                odd = odd or (2 if k and x.op == 'fld' and x.a[2] == k and x.a[0] is not canon(v.a[0]) and known(x) else 1)
            v = v.a[0]
        elif v.op == 'fld' and (v.a[1], v.a[2]) == ('Ok', '0') and is_call(v.a[0], 'strict_encode'):
            r.append(canon(v.a[0].a[1][0]))
            v = v.a[0].a[1][1]
        else: break
    return r, v, odd


def listed(*pats):
    """a collection of just these items"""
    def f(t):
        if t.op == 'coll' and t.a[1].op == 'arr' and len(t.a[2]) == 1 and t.a[2][0].op == 'elem': t = t.a[1]
        if t.op in ('arr', 'tup'):
            items = list(t.a[0])
        else:
            items, x = [], t
            while x.op == 'push': items, x = [x.a[1]] + items, x.a[0]
            if x.op != 'empty': return None
        if len(items) != len(pats): return False
        return all_of(pm(x, p) for x, p in zip(items, pats))
    return f


def each_of(src, item):
    """a collection of something of each of the items"""
    def f(t):
        if t.op != 'coll': return False if known(t) and t.op in ('empty', 'arr', 'push', 'sym', 'fld') else None
        if canon(t.a[1]) is not canon(src): return False if known(t.a[1]) else None
        if t.a[0].op != 'empty': return None
        if len(t.a[2]) != 1: return False if any(isinstance(x, T) and x.op == 'skip' for x in t.a[2]) else None
        el = next((x for x in walk(t) if x.op == 'elem' and canon(x.a[0]) is canon(src)), None)
        if el is None: return False if known(t.a[2][0]) else None
        return item(canon(t.a[2][0]), canon(el))
    return f


def lessened(src, part):
    """a number lessened by one"""
    x = fldp(sym(src), part)
    def f(t):
        if t.op == 'bin' and t.a[0].startswith('Sub') and canon(t.a[1]) is canon(x) and t.a[2] is I(1): return True
        return False if known(t) else None
    return f


def said(rep, key, f, verdicts):
    v = all_of(x for x, _ in verdicts) if verdicts else None
    rep.tri(key, v, '; '.join(dict.fromkeys(w for x, w in verdicts if x is not True))[:500] if verdicts else 'no successful path', f.where())


def rets(outs): return [o for o in outs if o.k == 'ret']


def ok_values(outs):
    """values of successful paths"""
    r = []
    for o in rets(outs):
        k, v = res_parts(o)
        if k == 'Ok': r.append((o, v))
        elif k != 'Err': r.append((o, o.v))
    return r


def parent_of(rep, v, call):
    """whether the builder coming out of a nested call is kept"""
    return True if any(x.op == 'fld' and x.a[2] == '0' and not x.a[1] and x.a[0] is call for x in walk(v)) else None if fuzzy(v) else False


def registered(rep):
    unit = lambda k: ('Primitive', ('Primitive', I(k)))
    sizing, T_ = sym('sizing'), type_of
    def bounds(t):
        if t.op == 'upd': mn, mx = field(rep, t, 'min'), field(rep, t, 'max')
        elif t.op == 'adt' and len(t.a[2]) == 2: mn, mx = t.a[2]
        else: return False if known(t) else None
        return all_of([pm(mn, lessened('sizing', 'min')), pm(mx, lessened('sizing', 'max'))])
    cases = {'register_primitive': (('prim',), ('Primitive', sym('prim')), ()),
             'register_array': (('ty', 'len'), ('Array', T_('ty'), sym('len')), ('ty',)),
             'register_unicode': (('sizing',), ('List', ('Embedded', ('UnicodeChar',)), sizing), ()),
             'register_list': (('ty', 'sizing'), ('List', T_('ty'), sizing), ('ty',)),
             'register_set': (('ty', 'sizing'), ('Set', T_('ty'), sizing), ('ty',)),
             'register_map': (('key', 'ty', 'sizing'), ('Map', T_('key'), T_('ty'), sizing), ('key', 'ty')),
             'register_rstring': (('c', 'c1', 'sizing'), ('Tuple', listed(T_('c1'), ('Embedded', ('List', T_('c'), bounds)))), ('c', 'c1'))}
    for item, (names, pat, nested) in cases.items():
        f, outs = rep.run('LibBuilder', item, trait='TypedWrite', opts=dict(names=['self', *names]))
        if outs is None: continue
        vs, kept = [], []
        for o in rets(outs):
            got = field(rep, o.v, 'last_compiled')
            vs.append((pm(got, embedded(pat)), f'records {pp(got)[:300] if got is not None else "?"}'))
            chain, root, odd = builders(o.v)
            if odd: kept.append((False if odd == 2 else None, 'other parts of the builder are changed'))
            elif canon(root) is not S: kept.append((False if root.op == 'adt' else None, 'the builder returned is another one'))
            else: kept.append((all(sym(n) in chain for n in nested), 'definitions recorded by a nested encoding are lost'))
        said(rep, item, f, vs)
        said(rep, item + ':kept', f, kept)


def reported(rep):
    """recording of a complete definition"""
    f, outs = rep.run('LibBuilder', 'report_compiled', trait='BuilderParent', opts=dict(names=['self', 'lib', 'name', 'ty'], opaque=('sem_id_named',)))
    if outs is None: return
    name, ty, lib = sym('name'), sym('ty'), sym('lib')
    n0 = fldp(name, 'Some:0')
    same = [T('bin', 'Eq', lib, fldp(S, 'lib_name')), T('bin', 'Eq', fldp(S, 'lib_name'), lib)]
    vs = {'own': [], 'foreign': [], 'unnamed': [], 'own:recorded': [], 'repeated': [], 'foreign:recorded': []}
    for o in rets(outs):
        fs = {canon(k): v for k, v in o.st.facts.items()}
        neq = {canon(k): v for k, v in o.st.neq.items()}
        named = fs.get(canon(D(name)))
        own = next((fs[canon(c)] for c in same if canon(c) in fs), None)
        got = field(rep, o.v, 'last_compiled')
        shown = f'records {pp(got)[:300] if got is not None else "?"}'
        if named == 'None': vs['unnamed'].append((pm(got, embedded(ty)), shown))
        elif named == 'Some' and own == 1:
            vs['own'].append((pm(got, some(('Named', n0))), shown))
            types = field(rep, o.v, 'types')
            old = fldp(S, 'types')
            if types is None: vs['own:recorded'].append((None, 'types are changed in an unknown way'))
            elif canon(types) is canon(old):
                eq = [k for k, v in fs.items() if k.op == 'bin' and k.a[0] == 'Eq' and v == 1 and ty in (canon(k.a[1]), canon(k.a[2]))]
                vs['own:recorded'].append((True if eq else False, 'the definition is not recorded'))
            else:
                t = canon(types)
                good = t.op == 'ins' and canon(t.a[0]) is canon(old) and t.a[1].op == 'tup' and [canon(x) for x in t.a[1].a[0]] == [canon(n0), ty]
                vs['own:recorded'].append((True if good else False if known(t) else None, f'types become {pp(t)[:200]}'))
                present = fs.get(canon(D(T('get', old, n0)))) or next((('Some' if v in (1, 'Some') else 'None') for k, v in fs.items() if k.op in ('has', 'pred') and n0 in [canon(x) for x in k.a if isinstance(x, T)]), None)
                if present == 'Some':
                    eq = any(k.op == 'bin' and k.a[0] == 'Eq' and v == 1 and ty in (canon(k.a[1]), canon(k.a[2])) for k, v in fs.items())
                    vs['repeated'].append((eq, 'a definition replaces another one of the same name'))
                elif present is None:
                    vs['repeated'].append((None if any(fuzzy(k) for k in fs) else False, 'a definition may replace another one of the same name'))
        elif named == 'Some' and own == 0:
            def dep(t):
                x = t.a[0] if t.op == 'fld' and t.a[2] == 'id' else None
                if x is None: return False if known(t) else None
                eq = [(canon(k.a[1]), canon(k.a[2])) for k, v in fs.items() if k.op == 'bin' and k.a[0] == 'Eq' and v == 1]
                if any(lib in p and fldp(x, 'name') in p for p in eq): return True
                return None if fuzzy(t) and not any(y.op == 'elem' for y in walk(t)) else False
            ident = lambda t: True if is_call(t, 'sem_id_named') and [canon(x) for x in t.a[1]] == [ty, canon(n0)] else False if known(t) else None
            vs['foreign'].append((pm(got, some(('Extern', ('SymbolRef', lib, n0, dep, ident)))), shown))
            ins = [e for e in deep_events(o.st.events()) if e.k == 'call' and LAST(e.name) == 'insert' or e.k == 'insert']
            ins = [e for e in deep_events(o.st.events()) if LAST(e.name) in ('insert', 'ins', 'entry')]
            hit = any(any(is_call(x, 'sem_id_named') for x in walk(a)) for e in ins for a in e.args if isinstance(a, T))
            v = field(rep, o.v, 'extern_types')
            vs['foreign:recorded'].append((True if hit else False if v is not None and canon(v) is fldp(S, 'extern_types') else None, 'the type of another library is not noted'))
        else: vs['own'].append((None, 'the case is not told apart'))
    for k in ('own', 'foreign', 'unnamed', 'own:recorded', 'foreign:recorded'): said(rep, 'report:' + k, f, vs[k])
    if vs['repeated']: said(rep, 'report:repeated', f, vs['repeated'])


def compiled(rep):
    """reference to the type of a nested value"""
    f, outs = rep.run('LibBuilder', 'compile_type', trait='BuilderParent', opts=dict(names=['self', 'value'], opaque=('id',)))
    if outs is None: return
    vs = {'known': [], 'encoded': [], 'kept': []}
    enc = type_of('value')
    for o in rets(outs):
        t = canon(o.v)
        if t.op != 'tup' or len(t.a[0]) != 2:
            vs['encoded'].append((None, 'result is unclear'))
            continue
        b, r = t.a[0]
        fs = {canon(k): v for k, v in o.st.facts.items()}
        own = next((v for k, v in fs.items() if k.op == 'bin' and k.a[0] == 'Eq' and any(x is fldp(S, 'lib_name') for x in walk(k))), None)
        chain, root, odd = builders(b)
        if not chain and canon(root) is S:
            # nothing was encoded: the type has to be recorded already
            name = r.a[2][0] if r.op == 'adt' and r.a[1] == 'Named' else None
            present = any(k.op == 'discr' and k.a[0].op == 'get' and canon(k.a[0].a[0]) is fldp(S, 'types') and v == 'Some' or k.op in ('has', 'pred') and v in (1, 'Some') and fldp(S, 'types') in [canon(x) for x in k.a if isinstance(x, T)] for k, v in fs.items())
            good = name is not None and is_call(canon(name).a[0] if canon(name).op == 'fld' else canon(name), 'strict_name') and present and own == 1
            vs['known'].append((True if good else False if known(r) else None, f'refers to {pp(r)[:200]} without encoding'))
            continue
        vs['kept'].append((True if sym('value') in chain and canon(root) is S and not odd else None if odd else False, 'the builder returned is another one'))
        g = pm(r, enc)
        r0 = next((x for x in walk(r) if enc(x) is True), None)
        if g is not True:
            def dep(t):
                x = t.a[0] if t.op == 'fld' and t.a[2] == 'id' else None
                if x is None: return None
                return True if any(k.op == 'bin' and k.a[0] == 'Eq' and v == 1 and any(y is canon(fldp(x, 'name')) for y in walk(k)) for k, v in fs.items()) else None if fuzzy(t) else False
            def ident(t):
                kind = fs.get(canon(D(r0))) if r0 is not None else None
                if is_call(t, 'id') and len(t.a[1]) == 1: return enc(canon(t.a[1][0]))
                if kind == 'Extern': return True if t is canon(fldp(r0, 'Extern:0', 'sem_id')) else False if known(t) else None
                return None
            nm = lambda t: True if any(is_call(x, 'strict_name') for x in walk(t)) else False
            ln = lambda t: True if any(x.op == 'const' for x in walk(t)) else False
            g = pm(r, ('Extern', ('SymbolRef', ln, nm, dep, ident)))
            if own == 1 and g is True: g = False
        vs['encoded'].append((g, f'refers to {pp(r)[:200]}'))
    for k, l in vs.items(): said(rep, 'reference:' + k, f, l)


def fields(rep):
    """fields noted one by one and put together"""
    for trait, item, named in (('WriteStruct', 'write_field', True), ('WriteTuple', 'write_field', False), ('DefineStruct', 'define_field', True), ('DefineTuple', 'define_field', False)):
        write = item == 'write_field'
        names = ['self'] + (['name'] if named else []) + (['value'] if write else [])
        f, outs = rep.run('StructBuilder', item, trait=trait, opts=dict(names=names))
        if outs is None: continue
        vs, kept = [], []
        for o, v in ok_values(outs):
            fl = field(rep, v, 'fields')
            t = canon(fl) if fl is not None else None
            if t is None: vs.append((None, 'fields are unclear'))
            elif t is fldp(S, 'fields'): vs.append((False, 'the field is not noted'))
            elif t.op == 'push' and canon(t.a[0]) is fldp(S, 'fields') and t.a[1].op == 'tup' and len(t.a[1].a[0]) == 2:
                n, r = t.a[1].a[0]
                a = pm(n, some(sym('name')) if named else ('None',))
                c = canon(r).a[0] if canon(r).op == 'fld' and canon(r).a[2] == '1' else None
                if c is None or not is_call(c, 'compile_type'): b = False if known(r) else None
                else:
                    val = canon(c.a[1][1])
                    b = True if (val is sym('value') if write else is_call(val, 'strict_dumb')) else False if known(val) else None
                    w = field(rep, v, 'writer')
                    kept.append((parent_of(rep, w, c) if w is not None else None, 'definitions recorded for the value are lost'))
                vs.append((all_of([a, b]), f'notes {pp(t.a[1])[:200]}'))
            else: vs.append((False if known(t) else None, f'fields become {pp(t)[:200]}'))
        said(rep, f'field:{trait}', f, vs)
        said(rep, f'field:{trait}:kept', f, kept)
    src = fldp(S, 'fields')
    tup = each_of(src, lambda t, e: pm(t, fldp(e, '1')))
    st = each_of(src, lambda t, e: pm(t, ('Field', fldp(e, '0', 'Some:0'), fldp(e, '1'))))
    for trait in ('WriteStruct', 'WriteTuple', 'DefineStruct', 'DefineTuple'):
        f, outs = rep.run('StructBuilder', 'complete', trait=trait, opts=dict(names=['self']))
        if outs is None: continue
        vs = {}
        for o in rets(outs):
            c = canon(o.v)
            if not is_call(c, 'report_compiled'):
                vs.setdefault('', []).append((None if fuzzy(c) or not known(c) else False, 'the definition is not reported'))
                continue
            fs = {canon(k): v for k, v in o.st.facts.items()}
            neq = {canon(k): v for k, v in o.st.neq.items()}
            ln = canon(T('call', 'len', (src,), ''))
            empty = True if fs.get(ln) == 0 else False if ln in fs or 0 in neq.get(ln, ()) else None
            tk = fs.get(canon(D(fldp(S, 'writer', 'tuple_fields'))))
            parent, lib, name, ty = [canon(x) for x in c.a[1]]
            head = all_of([pm(parent, fldp(S, 'writer', 'parent')), pm(lib, fldp(S, 'lib')), pm(name, fldp(S, 'name'))])
            if empty: k, g = 'empty', pm(ty, ('Primitive', ('Primitive', I(0))))
            elif empty is None or tk is None: k, g = '', None
            elif tk == 'Some': k, g = 'tuple', pm(ty, ('Tuple', tup))
            else: k, g = 'struct', pm(ty, ('Struct', st))
            vs.setdefault(k, []).append((all_of([head, g]), f'reports {pp(c)[:300]}'))
        for k, l in vs.items(): said(rep, f'complete:{trait}:{k}', f, l)
        rep.tri(f'complete:{trait}', True if {'empty', 'tuple', 'struct'} <= set(vs) else None, 'a class of structures is not told apart', f.where())


def unions(rep):
    index = fldp(S, 'writer', 'declared_index')
    def tag(t): return True if sym('name') in set(walk(t)) else False if known(t) else None
    old = canon(fldp(S, 'variants'))
    def added(rep, key, f, outs, check):
        vs = []
        for o, v in ok_values(outs):
            t = field(rep, v, 'variants')
            par = field(rep, v, 'parent')
            if t is None or par is None:
                vs.append((None, 'variants are unclear'))
                continue
            t = canon(t)
            if t is old: vs.append((False, 'the variant is not noted'))
            elif t.op == 'ins' and t.a[1].op == 'tup' and len(t.a[1].a[0]) == 2:
                k, ty = t.a[1].a[0]
                base = canon(t.a[0]) is old
                exp = fldp(par, 'last_compiled', 'Some:0')
                vs.append((all_of([True if base else False if known(t.a[0]) else None, tag(k), True if canon(ty) is canon(exp) else False if known(ty) else None, check(par)]), f'notes {pp(t.a[1])[:300]}'))
            else: vs.append((False if known(t) else None, f'variants become {pp(t)[:200]}'))
        said(rep, key, f, vs)
    def prim(code):
        def g(par):
            par = canon(par)
            if not is_call(par, 'report_compiled'): return False if known(par) else None
            a = par.a[1]
            return all_of([pm(a[0], fldp(S, 'parent')), pm(a[2], ('None',)), pm(a[3], ('Primitive', ('Primitive', I(code))))])
        return g
    def nested(tuple_):
        def g(par):
            p = canon(par)
            c = p.a[0] if p.op == 'fld' and p.a[2] == 'parent' else None
            if c is not None and c.op == 'fld' and c.a[1] == 'Ok': c = c.a[0]
            if c is None or not is_call(c, 'call'): return False if known(p) else None
            b = next((x for x in walk(c.a[1]) if x.op == 'adt' and x.a[0].split('::')[-1] == 'StructBuilder'), None)
            if b is None: return None
            tf = field(rep, field(rep, b, 'writer'), 'tuple_fields')
            return all_of([pm(field(rep, b, 'name'), ('None',)), pm(field(rep, b, 'fields'), listed()), pm(tf, ('Some', lambda t: True) if tuple_ else ('None',))])
        return g
    for trait, item, check in (('DefineEnum', 'define_variant', prim(1)), ('DefineUnion', 'define_unit', prim(0)), ('DefineUnion', 'define_tuple', nested(True)), ('DefineUnion', 'define_struct', nested(False))):
        f, outs = rep.run('UnionBuilder', item, trait=trait, opts=dict(names=['self', 'name', 'inner'][:3 if 'tuple' in item or 'struct' in item else 2], opaque=('report_compiled',)))
        if outs is not None: added(rep, f'variant:{item}', f, outs, check)
    for trait, item in (('WriteEnum', 'write_variant'), ('WriteUnion', 'write_unit'), ('WriteUnion', 'write_tuple'), ('WriteUnion', 'write_struct')):
        f, outs = rep.run('UnionBuilder', item, trait=trait, opts=dict(names=['self', 'name', 'inner'][:3 if 'tuple' in item or 'struct' in item else 2], opaque=('report_compiled',)))
        if outs is None: continue
        vs = []
        for o, v in ok_values(outs):
            t = field(rep, v, 'variants')
            vs.append((None if t is None else True if canon(t) is old else False if known(t) else None, 'variants noted before are changed'))
        said(rep, f'variant:{item}', f, vs)
    src = fldp(S, 'writer', 'defined_variant')
    def typed(t, e):
        if t.op != 'tup' or len(t.a[0]) != 2: return False if known(t) else None
        k, ty = [canon(x) for x in t.a[0]]
        g = ty
        if g.op == 'fld' and g.a[1] == 'Some': g = g.a[0]
        if g.op == 'get': b = canon(g.a[0]) is old and canon(g.a[1]) is canon(fldp(e, '0', 'tag'))
        elif g.op == 'at': b = canon(g.a[0]) is old and canon(g.a[1]) is canon(fldp(e, '0', 'tag')) or None
        else: b = False if known(g) else None
        return all_of([pm(k, fldp(e, '0')), b])
    pats = {'Union': ('Union', each_of(src, typed)), 'Enum': ('Enum', each_of(src, lambda t, e: pm(t, fldp(e, '0'))))}
    for trait in ('DefineUnion', 'DefineEnum', 'WriteUnion', 'WriteEnum'):
        f, outs = rep.run('UnionBuilder', 'complete', trait=trait, opts=dict(names=['self'], opaque=('report_compiled',)))
        if outs is None: continue
        vs = []
        for o in rets(outs):
            c = field(rep, o.v, 'parent') if trait.startswith('Define') else o.v
            c = canon(c) if c is not None else None
            if c is None or not is_call(c, 'report_compiled'):
                vs.append((None if c is None or not known(c) else False, 'the definition is not reported'))
                continue
            parent, lib, name, ty = [canon(x) for x in c.a[1]]
            vs.append((all_of([pm(parent, fldp(S, 'parent')), pm(lib, fldp(S, 'lib')), pm(name, fldp(S, 'name')), pm(ty, pats[trait[-5:] if trait.endswith('Union') else 'Enum'])]), f'reports {pp(c)[:300]}'))
        said(rep, f'complete:{trait}', f, vs)


def started(rep):
    """what is handed to the encoder of a type"""
    for item, trait, cls in (('write_struct', 'StructBuilder', False), ('write_tuple', 'StructBuilder', True), ('write_union', 'UnionBuilder', None)):
        f, outs = rep.run('LibBuilder', item, trait='TypedWrite', opts=dict(names=['self', 'inner']))
        if outs is None: continue
        vs = []
        for o in rets(outs):
            c = canon(o.v)
            if c.op == 'adt': c = next((x for x in walk(c) if is_call(x, 'call')), c)
            b = next((x for x in walk(c) if x.op == 'adt' and x.a[0].split('::')[-1] == trait), None) if is_call(c, 'call') else None
            if b is None:
                vs.append((None, 'the result is not that of the encoder'))
                continue
            lib, name = field(rep, b, 'lib'), field(rep, b, 'name')
            g = [True if any(x.op == 'const' and 'STRICT_LIB_NAME' in str(x.a[0]) for x in walk(lib)) else None if fuzzy(lib) else False, True if is_call(canon(name), 'strict_name') else False if known(name) else None]
            if cls is None: g += [pm(field(rep, b, 'parent'), S), True if canon(field(rep, b, 'variants')).op == 'empty' else None]
            else:
                w = field(rep, b, 'writer')
                g += [pm(field(rep, w, 'parent'), S), pm(field(rep, w, 'tuple_fields'), ('Some', lambda t: True) if cls else ('None',)), True if canon(field(rep, b, 'fields')).op == 'empty' else None]
            vs.append((all_of(g), f'starts with {pp(b)[:200]}'))
        said(rep, item, f, vs)
    f, outs = rep.run('LibBuilder', 'write_enum', trait='TypedWrite', opts=dict(names=['self', 'value'], opaque=('define_variant', 'write_variant', 'complete', 'with')))
    if outs is None: return
    vs = []
    for o, v in ok_values(outs):
        if not isinstance(v, T) or not any(is_call(x, 'complete') for x in walk(v)):
            vs.append((None, 'the result is unclear'))
            continue
        allv = [x for x in walk(v) if x.op == 'fold' and any(y.op == 'const' and 'ALL_VARIANTS' in str(y.a[0]) for y in walk(x.a[1]))]
        good = any(all(any(is_call(y, 'define_variant') and any(z.op == 'elem' for z in walk(y)) for y in walk(u)) for u in x.a[2]) for x in allv)
        vs.append((True if good else False if not any(is_call(x, 'define_variant') for x in walk(v)) or allv else None, 'not all of the variants are defined'))
    said(rep, 'write_enum', f, vs)


def forwarded(rep):
    """the builder of a union hands types on to the library"""
    f, outs = rep.run('UnionBuilder', 'compile_type', trait='BuilderParent', opts=dict(names=['self', 'value'], opaque=('compile_type',)))
    if outs is not None:
        vs = []
        for o in rets(outs):
            t = canon(o.v)
            if t.op != 'tup' or len(t.a[0]) != 2:
                vs.append((None, 'result is unclear'))
                continue
            par, r = field(rep, t.a[0][0], 'parent'), t.a[0][1]
            c = r.a[0] if r.op == 'fld' and r.a[2] == '1' else None
            if c is None or not is_call(c, 'compile_type'): vs.append((False if known(r) else None, f'the type is {pp(r)[:200]}'))
            else:
                vs.append((all_of(True if canon(a) is b else False if known(canon(a)) else None for a, b in zip(c.a[1], (fldp(S, 'parent'), sym('value')))), 'another value is compiled'))
                vs.append((parent_of(rep, par, c) if par is not None else None, 'definitions recorded for the value are lost'))
        said(rep, 'forward:compile_type', f, vs)
    f, outs = rep.run('UnionBuilder', 'report_compiled', trait='BuilderParent', opts=dict(names=['self', 'lib', 'name', 'ty'], opaque=('report_compiled',)))
    if outs is not None:
        vs = []
        for o in rets(outs):
            par = field(rep, o.v, 'parent')
            c = canon(par) if par is not None else None
            if c is None or not is_call(c, 'report_compiled'): vs.append((False if c is not None and known(c) else None, 'the definition is not reported'))
            else: vs.append((all_of(True if canon(a) is b else False if known(canon(a)) else None for a, b in zip(c.a[1], (fldp(S, 'parent'), sym('lib'), sym('name'), sym('ty')))), f'reports {pp(c)[:200]}'))
        said(rep, 'forward:report_compiled', f, vs)


def C08(rep):
    """The functions of the type-describing writer are evaluated on their abstract paths: the definition recorded by each of them is compared
    with the announced one -- class, element types in their roles (the type recorded by encoding that very argument), length or sizing,
    fields and variants in order with names and tags (loops generalised over a generic item) --, nested builders have to be handed on, and
    definitions are recorded and referred to by name, by external reference or embedded, as their library and name demand."""
    registered(rep)
    reported(rep)
    compiled(rep)
    fields(rep)
    unions(rep)
    forwarded(rep)
    started(rep)
