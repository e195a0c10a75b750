"""V12, V13: paths into values and types."""
from .common import *
from .tables import *
from ..term import subst

S = sym('self')
D = lambda t: T('discr', t, '')


def follow(rep, key, outs, is_path, start, table, where, wrap=lambda v: (v,)):
    """The loop over the steps: what the current place becomes for each pair of its class and the step's kind.
    table: (class, step kind) -> function (place, step, facts) -> True / False / None for (value, facts)"""
    if outs is None: return
    done_ok = seen_fold = False
    loops = {}
    for o in outs:
        for e in o.st.events():
            if e.k == 'loop' and any(is_path(canon(s)) for s in e.x['src']): loops.setdefault(e.x['uid'], e)
    for o in outs:
        for e in o.st.events():
            if e.k != 'loop': continue
            for c in map(canon, e.x['src']):
                if c.op in ('but-n', 'first-n', 'rev', 'stepby', 'skip', 'take') and is_path(c.a[0]):
                    rep.tri(key + ':all', False, f'not all steps are followed in order: {pp(c)[:100]}', where)
                    return
    if len(loops) != 1:
        rep.unknown(key + ':loop', f'{len(loops)} loops over the path', where)
        return
    uid, lp = next(iter(loops.items()))

    def steps_of(facts):
        return {x for k in facts for x in walk(canon(k)) if x.op == 'elem' and x.a[1] == uid and is_path(x.a[0])}

    def places(facts):
        return {canon(k).a[0] for k in facts if k.op == 'discr' and (k.a[0].op in ('lv', 'partial') or k.a[0] is start)}
    okc, unk = set(), False
    for b in lp.x['bodies']:
        fs = {canon(k): v for k, v in b['facts'].items()}
        st = steps_of(b['facts'])
        pl = {p for p in places(b['facts']) if p.op == 'lv'}
        if not pl and len(st) == 1 and any(x.op == 'discr' and x.a[0] is start for x in fs):
            rep.tri(key + ':advance', False, 'a step is applied to the start and not to where the previous one led', where)
            continue
        if len(st) != 1 or len(pl) != 1:
            unk = True
            continue
        step, place = next(iter(st)), next(iter(pl))
        c, k = fs.get(D(place)), fs.get(D(step))
        new = [v for x, v in b['upd'].items() if str(x) == place.a[0]]
        if c is None or k is None or len(new) != 1:
            if not new and c is not None and k is not None and (c, k) not in table:
                rep.bad(f'{key}:skip:{c}.{k}', f'the step {k} at a {c} is passed over', where)
            elif not new and c is not None and k is not None:
                rep.bad(f'{key}:{c}.{k}', 'the step leads nowhere', where)
            else: unk = True
            continue
        here = sym('here')
        v, fs, place = subst(canon(new[0]), {place: here}), {subst(x, {place: here}): y for x, y in fs.items()}, here
        if (c, k) not in table:
            rep.tri(f'{key}:{c}.{k}', None if fuzzy(v) else False, f'the step {k} is accepted at a {c} and leads to {pp(v)[:200]}', where)
            continue
        r = table[c, k](place, step, v, fs)
        rep.tri(f'{key}:{c}.{k}', r, f'the step leads to {pp(v)[:200]} with {[pp(x)[:80] + "=" + str(y) for x, y in fs.items() if x.op == "bin"]}', where)
        if r: okc.add((c, k))
    for c, k in table:
        if (c, k) not in okc: rep.tri(f'{key}:{c}.{k}', None if unk else False, 'the step is not followed', where)
    for o in outs:
        if o.k != 'ret': continue
        k, v = res_parts(o)
        if k == 'Ok' and v is not None:
            v = canon(v)
            d = [x for x, y in o.st.facts.items() if x.op == 'done' and y == 1 and x.a[1] == uid]
            if v.op == 'fold':
                rep.tri(key + ':start', True if v.a[0] is start else None if fuzzy(v.a[0]) else False, f'starts at {pp(v.a[0])[:200]}', where)
                rep.tri(key + ':end', True if d and is_path(v.a[1]) else None if not known_conditions(o) else False, 'ends before all steps were followed', where)
            else:
                part = any(x.op in ('partial', 'elem') for x in walk(v)) or v is start
                empty = any(Model({x: y}).le(z, I(0)) is True for x, y in o.st.facts.items() for z in walk(canon(x)) if z.op == 'call' and z.a[0] == 'len')
                rep.tri(key + ':end', False if part and (not d or v is start and not empty) and known_conditions(o) else None, f'gives {pp(v)[:200]}', where)
        elif k == 'Err':
            fs = {canon(x): y for x, y in o.st.facts.items()}
            st = steps_of(o.st.facts)
            pl = {p for p in places(o.st.facts)}
            if len(st) != 1 or len(pl) != 1: continue
            step, place = next(iter(st)), next(iter(pl))
            c, kk = fs.get(D(place)), fs.get(D(step))
            if (c, kk) in table:
                # refused though the class fits: there must be nothing at the step
                absent = any(x.op == 'has' and y == 'None' or x.op == 'done' and y == 1 and x.a[1] != uid for x, y in fs.items()) or \
                    any(x.op == 'discr' and y == 'None' for x, y in fs.items()) or any(x.op == 'bin' and x.a[0] in ('Lt', 'Le') for x in fs)
                rep.tri(f'{key}:refused:{c}.{kk}', True if absent else None if not known_conditions(o) else False,
                        f'the step is refused: {[pp(x)[:100] + "=" + str(y) for x, y in fs.items()][:6]}', where)


def eq(fs, a, b):
    return any(x.op == 'bin' and x.a[0] == 'Eq' and y == 1 and {x.a[1], x.a[2]} == {a, b} for x, y in fs.items())


def judge_value(v, exp):
    return True if v is exp else None if fuzzy(v) or v.op == 'call' and not resolved(v) else False


PAIRS = {'Number': {'Enum': 'Ord', 'Number': 'Uint'}, 'TinyBlob': {'Bytes': None}, 'TinyString': {'String': None}}


def keymatch(fs, nq, step, key):
    """True: the key is known to be the one asked for; False: known not to be; None: neither"""
    kk, kv = fs.get(D(step)), fs.get(D(key))
    if kk is None: return None
    if kv is None: return False if set(PAIRS.get(kk, ())) <= nq.get(D(key), frozenset()) else None
    if kv not in PAIRS.get(kk, {}): return False
    a, b, inner = fldp(step, f'{kk}:0'), fldp(key, f'{kv}:0'), PAIRS[kk][kv]
    if inner:
        d = fs.get(D(b))
        if d is None: return False if inner in nq.get(D(b), ()) else None
        if d != inner: return False
        b = fldp(b, f'{d}:0')
    same = lambda x: x is b or x.op == 'fld' and x.a[0] is b
    for x, y in fs.items():
        if x.op == 'bin' and x.a[0] == 'Eq' and any(p is a and same(q) for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1]))): return y == 1
    return None


def V12(rep):
    """The loop over the steps of a path is summarised with a generic step and a generic current value: for each pair of the
    value's variant and the step's kind, what the current value becomes is compared with the entry the step names; the loop
    starts at the value itself, success is reported only after the last step, each listed pair has to be followed and an error
    for such a pair is given only where there is no entry."""
    f, outs = rep.run('StrictVal', 'at_path', opts=dict(names=['self', 'path']))
    if f is None: return
    path = sym('path')
    at = lambda c, k: lambda p, s, v, fs: judge_value(v, item_of(fldp(p, f'{c}:0'), fldp(s, f'{k}:0')))

    def bykey(p, s, v, fs):
        items = fldp(p, 'Map:0')
        if not (v.op == 'fld' and v.a[0].op == 'elem' and strip_seq(v.a[0].a[0]) is items): return None if fuzzy(v) else False
        if v.a[2] != '1': return False
        r = keymatch(fs, {}, fldp(s, 'Key:0'), fldp(v.a[0], '0'))
        return True if r else None if r is None and any(fuzzy(x) for x in fs) else False
    table = {('Tuple', 'UnnamedField'): at('Tuple', 'UnnamedField'), ('Struct', 'NamedField'): at('Struct', 'NamedField'),
             ('List', 'Index'): at('List', 'Index'), ('Set', 'Index'): at('Set', 'Index'), ('Map', 'Key'): bykey}
    follow(rep, 'value', outs, lambda c: strip_seq(c) is path, S, table, f.where())
    # entries passed over in the search of a key
    for o in outs or ():
        for e in deep_events(o.st.events()):
            if e.k != 'loop': continue
            for b in e.x['bodies']:
                fs = {canon(k): v for k, v in b['facts'].items()}
                nq = {canon(k): v for k, v in b['neq'].items()}
                es = {x for k in list(fs) + list(nq) for x in walk(k) if x.op == 'elem' and x.a[1] == e.x['uid'] and strip_seq(x.a[0]).op == 'fld' and strip_seq(x.a[0]).a[1] == 'Map'}
                st = {x for k in list(fs) + list(nq) for x in walk(k) if x.op == 'fld' and x.a[1] == 'Key' and x.a[0].op == 'elem'}
                if len(es) > 1 or len(st) != 1 or any(canon(s).op == 'sym' for s in e.x['src']): continue
                el = next(iter(es)) if es else None
                r = keymatch(fs, nq, next(iter(st)), fldp(el, '0')) if el is not None else None
                rep.tri('value:passed-over', True if r is False else None if any(fuzzy(k) for k in fs) else False,
                        f'an entry is passed over though its key may match: {[pp(x)[:100] + "=" + str(y) for x, y in fs.items()][:6]}', f.where())
    f, outs = rep.run('KeyStep', 'has_match', opts=dict(names=['self', 'val']))
    for o, v in [(o, o.v) for o in outs or () if o.k != 'ret' or o.v.op != 'bin'] + [(o, b) for o in outs or () if o.k == 'ret' and o.v.op == 'bin' for b in (I(0), I(1))]:
        if o.k != 'ret' or v.op != 'int':
            v = canon(o.v) if o.k == 'ret' else None
            rep.tri('match:resolved', None, f'cannot resolve {pp(o.v)[:100] if v is not None else o.k}', f.where())
            continue
        fs, nq = {canon(k): v for k, v in o.st.facts.items()}, {canon(k): v for k, v in o.st.neq.items()}
        if o.v.op == 'bin': fs[canon(o.v)] = v.a[0]
        r = keymatch(fs, nq, S, sym('val'))
        rep.tri('match:' + ('yes' if v.a[0] else 'no'), None if any(fuzzy(k) for k in fs) else r is bool(v.a[0]),
                f'{"accepted" if v.a[0] else "refused"} with {[pp(x)[:100] + "=" + str(y) for x, y in fs.items()]}', f.where())


def V13(rep):
    """As for paths into values: the loop over the steps is summarised with a generic step and a generic current type; for each
    pair of the type's class and the step's kind the reference followed has to be that of the field, variant, item, key or value
    which the step names."""
    f, outs = rep.run('Ty', 'at_path', opts=dict(names=['self', 'path']))
    if f is None: return
    path = sym('path')
    is_path = lambda c: strip_seq(c) is path or strip_seq(c) is fldp(path, '0')

    def ref(fn):
        def go(p, s, v, fs):
            if v.op == 'fld' and v.a[1] == 'Some' and v.a[0].op == 'call' and LAST(v.a[0].a[0]) == 'as_ty': return fn(p, s, canon(v.a[0].a[1][0]), fs)
            return None if fuzzy(v) or v.op == 'call' else False
        return go
    of = lambda c, i='0': ref(lambda p, s, v, fs: judge_value(v, fldp(p, f'{c}:{i}')))

    def by(c, k, field, part):
        def go(p, s, v, fs):
            es = {x for z in [v] + list(fs) for x in walk(z) if x.op == 'elem' and strip_seq(x.a[0]) is fldp(p, f'{c}:0')}
            for e in es:
                if v is fldp(e, part):
                    if eq(fs, fldp(e, *field.split('.')), fldp(s, f'{k}:0')): return True
                    return None if any(fuzzy(x) for x in fs) else False
            return None if fuzzy(v) or any(x.op == 'call' for x in walk(v)) else False
        return ref(go)
    posn = lambda c, *part: ref(lambda p, s, v, fs: judge_value(v, fldp(item_of(fldp(p, f'{c}:0'), fldp(s, 'UnnamedField:0')), *part)))
    table = {('Struct', 'NamedField'): by('Struct', 'NamedField', 'name', 'ty'), ('Union', 'Variant'): by('Union', 'Variant', '0.name', '1'),
             ('Struct', 'UnnamedField'): posn('Struct', 'ty'), ('Tuple', 'UnnamedField'): posn('Tuple'), ('Union', 'UnnamedField'): by('Union', 'UnnamedField', '0.tag', '1'),
             ('Array', 'Index'): of('Array'), ('List', 'List'): of('List'), ('Set', 'Set'): of('Set'), ('Map', 'MapKey'): of('Map'), ('Map', 'MapValue'): of('Map', '1')}
    follow(rep, 'type', outs, is_path, S, table, f.where())

