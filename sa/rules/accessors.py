"""V16: constructors and accessors of untyped values."""
from .common import *
from .tables import *
from ..term import subst

S = sym('self')
D = lambda t: T('discr', t, '')
VALS = ('Unit', 'Number', 'String', 'Bytes', 'Struct', 'Enum', 'Union', 'List', 'Set', 'Tuple', 'Map')
OPT = lambda v, *a: T('adt', 'core::option::Option', v, a)


def name_of(text, kind):
    """facts: the conversion of a static text to an identifier succeeds"""
    t = T('call', 'TryFrom::try_from', (T('call', 'as_bytes', (text,), ''),), '')
    return t


def wrapper(rep):
    """Single-field tuples are transparent: what `skip_wrapper` returns is the value itself or the only field, followed until
    something else than a single-field tuple is met."""
    f, outs = rep.run('StrictVal', 'skip_wrapper', opts=dict(names=['self']))
    if outs is None: return None

    def tup1(fs, nq, x):
        """is x known to be a tuple of one field"""
        d = fs.get(D(x))
        if d is None: return False if 'Tuple' in nq.get(D(x), ()) else None
        if d != 'Tuple': return False
        n = T('call', 'len', (fldp(x, 'Tuple:0'),), '')
        for k, v in fs.items():
            if k.op == 'call' and k.a[0] == 'len' and k.a[1] == n.a[1]: return v == 1
        for k, v in nq.items():
            if k.op == 'call' and k.a[0] == 'len' and k.a[1] == n.a[1] and 1 in v: return False
        m = Model(fs, nq)
        if m.le(n, I(0)) or m.le(I(2), n): return False
        if m.le(I(1), n) and m.le(n, I(1)): return True
        return None
    for o in outs:
        if contradictory(o): continue
        if o.k == 'panic':
            rep.tri('wrapper:panic', None if not known_conditions(o) else False, f'panics in {o.x.get("fn")}', f.where())
            continue
        if o.k != 'ret': continue
        v = canon(o.v)
        fs, nq = {canon(k): x for k, x in o.st.facts.items()}, {canon(k): x for k, x in o.st.neq.items()}
        if v.op != 'fold' and v is not S:
            rep.tri('wrapper:result', None if fuzzy(v) or v.op == 'call' else False, f'gives {pp(v)[:200]}', f.where())
            continue
        if v.op == 'fold': rep.tri('wrapper:start', True if v.a[0] is S else None, f'starts at {pp(v.a[0])[:100]}', f.where())
        places = {k.a[0] for k in list(fs) + list(nq) if k.op == 'discr' and k.a[0].op in ('lv', 'fold', 'partial', 'sym')}
        r = [tup1(fs, nq, p) for p in places]
        rep.tri('wrapper:end', True if False in r else None if not r or None in r and not known_conditions(o) else False,
                f'ends with {[pp(k)[:100] + "=" + str(x) for k, x in fs.items()]}', f.where())
    for e in {id(e): e for o in outs for e in o.st.events() if e.k == 'loop'}.values():
        for b in e.x['bodies']:
            fs, nq = {canon(k): x for k, x in b['facts'].items()}, {canon(k): x for k, x in b['neq'].items()}
            for var, new in b['upd'].items():
                new = canon(new)
                parts = [x for x in walk(new) if x.op == 'fld' and x.a[0].op in ('lv', 'partial', 'sym')]
                if new.op == 'at' and new.a[0].op == 'fld' and new.a[0].a[1] == 'Tuple':
                    place = new.a[0].a[0]
                    r = tup1(fs, nq, place)
                    if r is None and not any(x.op in ('opq', 'call') and not (x.op == 'call' and LAST(x.a[0]) == 'len') for k in list(fs) + list(nq) for x in walk(k)): r = False
                    if new.a[1].op == 'int' and new.a[1].a[0] != 0: r = False
                    rep.tri('wrapper:step', r, f'passes to {pp(new)[:100]} with {[pp(k)[:100] + "=" + str(x) for k, x in list(fs.items()) + list(nq.items())]}', f.where())
                elif parts and parts[0].a[1] in VALS and parts[0].a[1] != 'Tuple': rep.bad('wrapper:step', f'passes through a {parts[0].a[1]}', f.where())
                elif not fuzzy(new): rep.tri('wrapper:step', None if new.op == 'call' else False, f'passes to {pp(new)[:100]}', f.where())
    return f


def V16(rep):
    """Accessors are evaluated on their abstract paths over the value behind wrappers (`skip_wrapper`, checked separately): one
    case for each of the eleven variants and for presence and absence of the item asked for; the result has to be the exact part
    of the value, and a panic where the value is of another variant or has no such item.  Constructors have to produce the
    variant with all of their arguments in order."""
    wrapper(rep)
    W = T('call', 'StrictVal::skip_wrapper', (S,), '')
    oqs = {'skip_wrapper'}
    first = rep.run('StrictVal', 'unwrap_num', opts=dict(names=['self'], opaque=oqs))[1]
    ws = {x for o in first or () for k in list(o.st.facts) + list(o.st.neq) for x in walk(canon(k)) if x.op == 'call' and LAST(x.a[0]) == 'skip_wrapper'}
    if len(ws) == 1: W = next(iter(ws))
    elif first is not None:
        rep.unknown('wrapper:use', f'{len(ws)} forms of the value behind wrappers')
        W = S

    def run(item, cases, names=('self',), selfty='StrictVal', opaque=oqs, **kw):
        f, outs = rep.run(selfty, item, opts=dict(names=list(names), opaque=opaque), **kw)
        if outs is None: return None
        judge(rep, item, outs, cases, f.where())
        return outs

    def others(*own):
        return [(f'of {v}', Model({D(W): v}), 'panic') for v in VALS if v not in own]
    w = lambda var, i='0': fldp(W, f'{var}:{i}')
    run('unwrap_num', [('number', Model({D(W): 'Number'}), w('Number'))] + others('Number'))
    run('unwrap_bytes', [('bytes', Model({D(W): 'Bytes'}), fldp(w('Bytes'), '0'))] + others('Bytes'))
    run('unwrap_enum_tag', [('tag', Model({D(W): 'Enum'}), w('Enum'))] + others('Enum'))
    run('unwrap_union', [('union', Model({D(W): 'Union'}), T('tup', (w('Union'), w('Union', '1'))))] + others('Union'))

    def entry(coll, k, var):
        c, k = canon(coll), canon(k)
        return [(f'present in {var}', Model({D(W): var, T('has', c, k): 'Some'}), T('at', c, k)),
                (f'absent in {var}', Model({D(W): var, T('has', c, k): 'None'}), 'panic')]
    run('unwrap_tuple', entry(w('Tuple'), sym('no'), 'Tuple') + others('Tuple'), ('self', 'no'))
    run('unwrap_pos', entry(w('List'), sym('no'), 'List') + entry(w('Set'), sym('no'), 'Set') + others('List', 'Set'), ('self', 'no'))
    # the field is asked for by a text which becomes an identifier first
    f, outs = rep.run('StrictVal', 'unwrap_struct', opts=dict(names=['self', 'field'], opaque=oqs))
    if outs is not None:
        idents = {x.a[0] for o in outs for k in o.st.facts if k.op == 'discr' for x in [canon(k)] if x.a[0].op == 'call' and LAST(x.a[0].a[0]) in ('try_from', 'from_str', 'try_into') and sym('field') in set(walk(x.a[0]))}
        keys = {x.a[1] for o in outs for k in o.st.facts for x in [canon(k)] if x.op == 'has'}
        if len(keys) == 1:
            k = next(iter(keys))
            conv = {D(i): 'Ok' for i in idents}
            c = w('Struct')
            rep.tri('unwrap_struct:name', True if sym('field') in set(walk(k)) else None if fuzzy(k) else False, f'looks for {pp(k)[:200]}', f.where())
            judge(rep, 'unwrap_struct', outs, [('present', Model({D(W): 'Struct', T('has', c, k): 'Some', **conv}), T('at', c, k)),
                                               ('absent', Model({D(W): 'Struct', T('has', c, k): 'None', **conv}), 'panic')] + others('Struct'), f.where())
        else: rep.unknown('unwrap_struct:name', f'{len(keys)} keys are looked for', f.where())
    # entries of a map
    f, outs = rep.run('StrictVal', 'unwrap_key', opts=dict(names=['self', 'key'], opaque=oqs))
    if outs is not None:
        judge(rep, 'unwrap_key', outs, others('Map'), f.where())
        convs = {x for o in outs for k in o.st.facts for x in walk(canon(k)) if x.op == 'call' and x.a[1] == (sym('key'),) and LAST(x.a[0]) in ('into', 'from')}
        lookup(rep, 'unwrap_key', [o for o in outs if any(canon(k) is D(W) and v == 'Map' for k, v in o.st.facts.items())], w('Map'),
               lambda e: fldp(e, '0'), next(iter(convs)) if len(convs) == 1 else sym('key'), lambda e: fldp(e, '1'), 'panic', f.where())
    # options
    tag, body = w('Union'), w('Union', '1')
    ordn, text = fldp(tag, 'Ord:0'), None
    f, outs = rep.run('StrictVal', 'unwrap_option', opts=dict(names=['self'], opaque=oqs))
    if outs is not None:
        isunit = lambda b: {D(body): 'Unit'} if b else {D(body): 'Number'}
        base = {D(W): 'Union', D(tag): 'Ord'}
        named = {}
        for o in outs:
            for k in o.st.facts:
                k = canon(k)
                if k.op == 'bin' and k.a[0] == 'Eq':
                    for a, b in (k.a[1:], k.a[:0:-1]):
                        if a.op == 'str' and tag in set(walk(b)): named.setdefault(a.a[0], set()).add(k)
        nm = lambda yes: {k: int(t == yes) for t, ks in named.items() for k in ks}
        cases = others('Union') + [('0', Model({**base, ordn: 0, D(body): 'Unit'}), OPT('None')), ('1', Model({**base, ordn: 1}), OPT('Some', body)),
                                   ('0 with a content', Model({**base, ordn: 0, D(body): 'Number'}), 'panic'), ('2', Model({**base, ordn: 2}), 'panic'), ('255', Model({**base, ordn: 255}), 'panic')]
        if {'none', 'some'} <= set(named):
            base = {D(W): 'Union', D(tag): 'Name'}
            cases += [('none', Model({**base, **nm('none'), D(body): 'Unit'}), OPT('None')), ('some', Model({**base, **nm('some')}), OPT('Some', body)),
                      ('none with a content', Model({**base, **nm('none'), D(body): 'Number'}), 'panic'), ('other', Model({**base, **nm('')}), 'panic')]
            for t in named:
                if t not in ('none', 'some'): cases.append((f'named {t}', Model({**base, **nm(t)}), 'panic'))
        elif all(not fuzzy(canon(k)) for o in outs for k in list(o.st.facts) + list(o.st.neq)):
            rep.check('unwrap_option:names', False, f'options are recognized by {sorted(named)} and not by none and some', f.where())
        judge(rep, 'unwrap_option', outs, cases, f.where())
    # strings
    f, outs = rep.run('StrictVal', 'unwrap_string', opts=dict(names=['self'], opaque=oqs))
    if outs is not None:
        txt = lambda src: (lambda o, m: text_of(o, src))

        def text_of(o, src):
            v = canon(o.v)
            if v.op == 'fld' and v.a[1] in ('Ok', 'Some') and v.a[0].op == 'call' and 'utf8' in v.a[0].a[0]:
                if 'lossy' in v.a[0].a[0] or 'unchecked' in v.a[0].a[0]: return False
                a = v.a[0].a[1][0]
                return True if a is src else None if fuzzy(a) or a.op == 'call' else False
            return None if fuzzy(v) or v.op == 'call' else False

        def tags(o, m):
            v = canon(o.v)
            if any(c.op == 'partial' for c in walk(v)): return False
            for c in walk(v):
                if c.op == 'coll' and c.a[1].op in ('rev', 'but-n', 'first-n', 'stepby') and strip_seq(c.a[1].a[0]) is w('List'): return False
                if c.op == 'coll' and strip_seq(c.a[1]) is w('List'):
                    part = c.a[2][0] if len(c.a[2]) == 1 else None
                    if part is None: return False
                    want = [x for x in walk(part) if x.op == 'elem' and strip_seq(x.a[0]) is w('List')]
                    if part.op == 'fld' and part.a[1] == 'Ord' and want: return True
                    return None if fuzzy(part) or any(x.op == 'call' and LAST(x.a[0]) != 'skip_wrapper' for x in walk(part)) else False
            return None if fuzzy(v) or any(x.op == 'call' and 'utf8' not in x.a[0] for x in walk(v)) else False
        ln = T('call', 'len', (w('List'),), '')
        ok = {x.a[0] for o in outs for k in o.st.facts for x in [canon(k)] if x.op == 'discr' and x.a[0].op == 'call' and 'utf8' in x.a[0].a[0]}
        utf = {D(x): 'Ok' for x in ok}
        judge(rep, 'unwrap_string', [o for o in outs if o.k == 'ret'], [('string', Model({D(W): 'String', **utf}), w('String')), ('bytes', Model({D(W): 'Bytes', **utf}), txt(fldp(w('Bytes'), '0'))),
                                            ('empty list', Model({D(W): 'List', ln: 0}), T('str', '')), ('list', Model({D(W): 'List', ln: 3}), tags)], f.where())
        judge(rep, 'unwrap_string', outs, others('String', 'Bytes', 'List'), f.where())
        judge(rep, 'unwrap_string', outs, [('not text', Model({D(W): 'Bytes', **{D(x): 'Err' for x in ok}}), 'panic')], f.where())
        for o in outs:
            if o.k == 'panic' and Model({D(W): 'List', ln: 0}).path(o): rep.bad('unwrap_string:empty', 'panics for an empty list', f.where())
    # numbers and tags
    for ty, item, var, opts in (('StrictNum', 'unwrap_uint', 'Uint', ('BigUint', 'Int', 'BigInt')), ('EnumTag', 'unwrap_ord', 'Ord', ('Name',))):
        f, outs = rep.run(ty, item, opts=dict(names=['self']))
        if outs is None: continue
        n = fldp(S, f'{var}:0')

        def conv(o, m):
            v = canon(o.v)
            if v is n: return True
            if v.op == 'fld' and v.a[1] == 'Ok' and v.a[0].op == 'call' and LAST(v.a[0].a[0]) in ('try_from', 'try_into'): return True if v.a[0].a[1] == (n,) else None if fuzzy(v) else False
            return None if fuzzy(v) or v.op == 'call' else False
        judge(rep, item, outs, [(f'of {v}', Model({D(S): v}), 'panic') for v in opts], f.where(), extra=('try_from', 'try_into'))
        judge(rep, item, [o for o in outs if o.k == 'ret'], [('number', Model({D(S): var}), conv)], f.where())
        for o in outs:
            fs = {canon(k): v for k, v in o.st.facts.items()}
            if o.k == 'panic' and fs.get(D(S)) == var and known_conditions(o):
                rep.check(item + ':panics', any(k.op == 'discr' and v == 'Err' for k, v in fs.items()), f'panics for a number which fits with {[pp(k)[:80] for k in fs]}', f.where())
    # enumerations of the program
    f, outs = rep.run('StrictVal', 'unwrap_enum', opts=dict(names=['self'], opaque=oqs))
    if outs is not None:
        judge(rep, 'unwrap_enum', outs, others('Enum'), f.where())
        for o in outs:
            v = canon(o.v) if o.k == 'ret' else None
            if v is None: continue
            fs = {canon(k): x for k, x in o.st.facts.items()}
            var = fs.get(D(w('Enum')))
            src = fldp(w('Enum'), f'{var}:0') if var else None
            if v.op == 'fld' and v.a[1] in ('Ok', 'Some') and v.a[0].op == 'call' and var:
                want = {'Ord': ('try_from', 'try_into'), 'Name': ('from_variant_name',)}[var]
                good = LAST(v.a[0].a[0]) in want and v.a[0].a[1] == (src,)
                rep.tri(f'unwrap_enum:{var}', True if good else None if fuzzy(v) or LAST(v.a[0].a[0]) not in want else False, f'gives {pp(v)[:200]}', f.where())
    # constructors
    into = lambda t: T('call', 'Into::into', (t,), '')

    def cons(item, check, names=('self',)):
        f, outs = rep.run('StrictVal', item, opts=dict(names=list(names)))
        for o in outs or ():
            if o.k == 'panic':
                # only conversions of static names may fail
                if known_conditions(o) and not any(k.op == 'discr' and v == 'Err' for k, v in o.st.facts.items()): rep.bad(f'{item}:panics', f'panics in {o.x.get("fn")}', f.where())
            elif o.k == 'ret':
                v, d = canon(o.v), o.st.facts.get(S)
                if d is None and len(o.st.neq.get(S, ())) == 1 and item == 'bool': d = 1 - next(iter(o.st.neq[S]))
                if isinstance(d, int): v = subst(v, {I(d): S})
                r, text = check(v), f'gives {pp(o.v)[:300]}'
                rep.tri(item, r, text, f.where())

    def conv(t, src):
        """t is src or a conversion of it"""
        if t is src: return True
        if t.op == 'call' and LAST(t.a[0]) in ('into', 'from', 'to_string', 'to_owned', 'as_ref', 'to_vec') and len(t.a[1]) == 1: return conv(t.a[1][0], src)
        return None if fuzzy(t) or t.op == 'call' else False

    def both(*rs): return False if False in rs else None if None in rs else True

    def is_val(var, *parts):
        def go(v):
            if v.op == 'call' and len(v.a[1]) == 1 and LAST(v.a[0]) in ('into', 'from') and conv(v, strip_cast(v.a[1][0])) and v.a[1][0] in (S, fldp(S, 'Some:0')): return False   # the value itself
            if v.op != 'adt' or LAST(v.a[0]) != 'StrictVal': return None if fuzzy(v) or v.op == 'call' else False
            return False if v.a[1] != var else both(*(p(x) for p, x in zip(parts, v.a[2])))
        return go
    as_ = lambda n: lambda t: conv(t, sym(n))

    def seq_of(part, how='push'):
        def go(t):
            if t.op == 'coll' and strip_seq(t.a[1]) is S: return False if t.a[3] != how or len(t.a[2]) != 1 else part(t.a[2][0], [x for x in walk(t) if x.op == 'elem' and x.a[0] is t.a[1]])
            if t.op == 'coll' and t.a[1].op in ('but-n', 'first-n', 'rev'): return False
            return None if fuzzy(t) or t.op in ('call', 'coll') else False
        return go

    def item(t, es): return conv(t, es[0]) if es else None

    def pair(t, es):
        if not es or t.op != 'tup': return None
        k, v = t.a[0]
        e = es[0]
        kr = conv(k, fldp(e, '0'))
        if kr is not True: kr = None if fldp(e, '0') in set(walk(k)) else kr
        if k.op == 'adt' and fldp(e, '0') in set(walk(k)): kr = True
        return both(kr, conv(v, fldp(e, '1')))
    cons('num', is_val('Number', as_('self')))
    cons('str', is_val('String', as_('self')))
    cons('bytes', is_val('Bytes', lambda t: (conv(t.a[2][0], S) if t.op == 'adt' and t.a[2] else None)))
    cons('newtype', is_val('Tuple', lambda t: (conv(t.a[0][0], S) if t.op == 'arr' and len(t.a[0]) == 1 else None if fuzzy(t) or t.op in ('call', 'coll') else False)))
    cons('enumer', is_val('Enum', as_('self')))
    cons('bool', is_val('Enum', lambda t: (conv(strip_cast(t.a[2][0]), S) if t.op == 'adt' and t.a[1] == 'Ord' else None if t.op != 'adt' else False)))
    cons('union', is_val('Union', as_('tag'), as_('val')), ('tag', 'val'))

    def opt(name, content):
        def nm(t):
            if t.op == 'adt' and t.a[1] == 'Ord': return False
            ss = {x.a[0] for x in walk(t) if x.op == 'str'}
            return True if name in ss else False if ss else None
        return is_val('Union', nm, content)
    unit = lambda t: (t.a[1] == 'Unit' if t.op == 'adt' else None)
    cons('none', opt('none', unit), ())
    cons('some', opt('some', as_('self')))
    cons('tuple', is_val('Tuple', seq_of(item)))
    cons('list', is_val('List', seq_of(item)))
    cons('set', is_val('Set', seq_of(item)))
    cons('map', is_val('Map', seq_of(pair)))
    cons('struc', is_val('Struct', seq_of(pair, 'ins')))
    # conversions
    INT = {'u8': 'Uint', 'u16': 'Uint', 'u32': 'Uint', 'u64': 'Uint', 'i8': 'Int', 'i16': 'Int', 'i32': 'Int', 'i64': 'Int'}
    for ty in ('StrictNum', 'StrictVal', 'EnumTag'):
        for f in rep.p.find(ty, 'from'):
            t = rep.p.ty(f.j['locals'][1][0])
            outs = rep.paths_of(f, names=['self'])
            src = t.get('name') if t['k'] in ('int', 'uint', 'prim') else t['k']
            for o in outs or ():
                if o.k != 'ret': continue
                v = canon(o.v)
                num = v
                if v.op == 'adt' and LAST(v.a[0]) == 'StrictVal' and v.a[1] == 'Number': num = v.a[2][0]
                if src in INT and ty != 'EnumTag':
                    good = num.op == 'adt' and LAST(num.a[0]) == 'StrictNum'
                    rep.tri(f'from:{ty}:{src}', (num.a[1] == INT[src] and conv(num.a[2][0], S)) if good else None if fuzzy(num) or num.op == 'call' else False, f'gives {pp(v)[:200]}', f.where())
                elif t['k'] == 'adt' and LAST(t['path']) == 'Option':
                    d = {canon(k): x for k, x in o.st.facts.items()}.get(D(S))
                    if d is None: rep.unknown('from:option', 'unresolved', f.where())
                    else:
                        want = opt('none', unit) if d == 'None' else opt('some', lambda t: conv(t, fldp(S, 'Some:0')))
                        rep.tri(f'from:option:{d}', want(v), f'gives {pp(v)[:200]}', f.where())
    rep.floor('accessors', len(rep.obl), 80, 'obligations')
