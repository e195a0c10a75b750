"""K01, K03: contracts of comparisons and of fallible operations."""
from .common import *
from .tables import *
from .encaps import originals

S, O = sym('self'), sym('other')
LAST = lambda n: str(n).split('@')[0].split('::')[-1]


# ------------------------------------------------------------------------------------------------ K01
def part_of(t, root):
    """names leading from the root to a part of it; None if the term is something else"""
    t, r = canon(t), []
    while t.op == 'fld':
        if t.a[1]: r.append(t.a[1])
        r.append(t.a[2])
        t = canon(t.a[0])
    return tuple(reversed(r)) if t is root else None


def pair(x, y):
    """(part, in the proper order?) compared between both values"""
    a, b = part_of(x, S), part_of(y, O)
    if a is not None and a == b: return a, True
    a, b = part_of(x, O), part_of(y, S)
    if a is not None and a == b: return a, False
    return None


def equalities(o):
    """parts known to be equal and to differ on a path of eq; None if something else decides"""
    same, diff = set(), set()
    for k, v in list(o.st.facts.items()) + [(k, n) for k, n in o.st.neq.items()]:
        k = canon(k)
        neg = isinstance(v, frozenset)
        val = None
        if k.op == 'bin' and k.a[0] in ('Eq', 'Ne') and pair(k.a[1], k.a[2]):
            val = (1 not in v) if neg and 0 in v else (0 in v) if neg and 1 in v else v == 1
            if neg: val = 0 in v
            if k.a[0] == 'Ne': val = not val
            (same if val else diff).add(pair(k.a[1], k.a[2])[0])
        else: return None
    return same, diff


def whole(rep, path):
    a = rep.p.adts.get(path)
    if not a or len(a['variants']) != 1: return None
    return {(f['name'],) for f in a['variants'][0]['fields']}


def K01(rep):
    """For each type of the crate with a comparison or a hash written by hand the parts which each of the operations looks at are found on
    its paths: equality and ordering take the same parts, the hash takes no other, the partial order is the order.  Derived operations take
    all the parts."""
    p = rep.p
    hand, derived = {}, {}
    for i in p.impls:
        t = (i.get('trait') or '').split('::')[-1]
        path = p.adt_name(i['self'])
        if t in ('PartialEq', 'Ord', 'PartialOrd', 'Hash') and path in p.adts and p.ty(i['self'])['k'] == 'adt' and ('<' + path) in i.get('trait_ref', '').replace('<' + p.crate + '::', '<'):
            if t == 'PartialEq' and '<' in i['trait_ref'][1:].split(' as ')[1] and 'PartialEq<' in i['trait_ref'] and not i['trait_ref'].split('PartialEq<')[1].startswith(path): continue
            (derived if i.get('derived') else hand).setdefault(path, set()).add(t)
    for path in sorted(hand):
        name = path.split('::')[-1]
        full = whole(rep, path)
        looked = {}
        for t in ('PartialEq', 'Ord', 'Hash'):
            if t in derived.get(path, ()): looked[t] = full
        for t in sorted(hand[path]): one(rep, path, name, t, looked)
        eq, cmp, h = (looked.get(x) for x in ('PartialEq', 'Ord', 'Hash'))
        if eq is not None and cmp is not None:
            rep.check(f'{name}:order', eq == cmp, f'equality of {name} looks at {show(eq)} but its order at {show(cmp)}')
        if eq is not None and h is not None:
            more = {x for x in h if not any(x[:len(y)] == y for y in eq)}
            rep.check(f'{name}:hash', not more, f'the hash of {name} takes {show(more)} which its equality does not look at')
    rep.ok('types', f'{len(derived)} types with derived comparisons, {len(hand)} with such written by hand')
    dep = ety(rep, 'Dependency')
    rep.check('dependency', dep in hand or dep in derived, 'dependencies can not be compared')
    if dep in derived and 'PartialEq' in derived[dep] and dep not in hand: return
    if dep in hand: rep.tri('dependency:id', None if 'Dependency' not in rep.__dict__.setdefault('k01', {}) else rep.k01['Dependency'] == {('id',)}, 'dependencies are told apart by something else than the id of the library')


def show(s): return ', '.join(sorted('.'.join(x) for x in s)) or 'nothing'


def one(rep, path, name, t, looked):
    item = {'PartialEq': 'eq', 'Ord': 'cmp', 'PartialOrd': 'partial_cmp', 'Hash': 'hash'}[t]
    f = rep.fn(name, item, trait=t)
    if f is None: return
    outs = [o for o in rep.paths_of(f, names=['self', 'other' if t != 'Hash' else 'state']) or () if o.k == 'ret' and not contradictory(o)]
    key, where = f'{name}:{item}', f.where()
    if not outs: return rep.unknown(key, 'no paths', where)
    if t == 'Hash':
        parts = set()
        for o in outs:
            for e in o.st.events():
                if e.k != 'call' or LAST(e.name) not in ('hash', 'write', 'hash_slice') or len(e.args) < 2: continue
                q = part_of(e.args[0], S)
                if q is None: return rep.unknown(key, f'the hash takes {pp(e.args[0])[:60]}', where)
                parts.add(q)
        if not parts: return rep.unknown(key, 'nothing is known to be hashed', where)
        looked[t] = parts
        return rep.ok(key, f'takes {show(parts)}', where)
    if t == 'PartialOrd':
        full = looked.get('Ord')
        for o in outs:
            v = canon(o.v)
            if v.op == 'adt' and v.a[1] == 'None': return rep.bad(key, 'some values are not ordered', where)
            c = canon(v.a[2][0]) if v.op == 'adt' and v.a[1] == 'Some' else None
            r = ordering(o, c) if c is not None else None
            if r is None: return rep.unknown(key, f'gives {pp(v)[:80]}', where)
            if len(outs) == 1 and full is not None and r[0] != full: return rep.bad(key, f'the partial order of {name} looks at {show(r[0])} but the order at {show(full)}', where)
            if not r[1]: return rep.bad(key, 'the partial order is reversed', where)
        return rep.ok(key, where)
    if t == 'Ord':
        parts = set()
        for o in outs:
            r = ordering(o, canon(o.v))
            if r is None: return rep.unknown(key, f'gives {pp(canon(o.v))[:80]}', where)
            if not r[1]: return rep.bad(key, 'the order is reversed: sorted collections of such values are encoded in another order', where)
            parts |= r[0]
        looked[t] = parts
        return rep.ok(key, f'compares {show(parts)}', where)
    # equality
    parts, diffs = None, set()
    for o in outs:
        e = equalities(o)
        v = canon(o.v)
        if e is None: return rep.unknown(key, 'decided by something else', where)
        same, diff = e
        q = conj(v)
        if v is I(0): 
            if not diff: return rep.bad(key, 'equal values are told apart', where)
            continue
        if v is not I(1) and q is None: return rep.unknown(key, f'gives {pp(v)[:80]}', where)
        if diff: return rep.bad(key, f'values with different {show(diff)} may be equal to each other' , where) if v is I(1) else rep.unknown(key, 'alternatives', where)
        s = same | (q or set())
        if parts is not None and parts != s: return rep.unknown(key, f'alternatives', where)
        parts = s
    if parts is None: return rep.unknown(key, 'never equal', where)
    if not parts: return rep.bad(key, 'all values are equal', where)
    looked[t] = parts
    rep.__dict__.setdefault('k01', {})[name] = parts
    rep.ok(key, f'compares {show(parts)}', where)


def conj(v):
    if v.op == 'bin' and v.a[0] == 'Eq':
        q = pair(v.a[1], v.a[2])
        return {q[0]} if q else None
    if v.op == 'bin' and v.a[0] in ('BitAnd', 'And'):
        a, b = conj(canon(v.a[1])), conj(canon(v.a[2]))
        return a | b if a is not None and b is not None else None
    return None


def compared(t):
    t = canon(t)
    if t.op == 'cmp': return pair(t.a[0], t.a[1])
    if t.op == 'call' and LAST(t.a[0]) in ('cmp', 'partial_cmp') and len(t.a[1]) == 2: return pair(t.a[1][0], t.a[1][1])
    return None


def ordering(o, v):
    """parts compared on a path of cmp and whether the first operand comes first"""
    parts, proper = set(), True
    q = compared(v)
    if q: parts, proper = {q[0]}, q[1]
    elif v.op == 'call' and LAST(v.a[0]) in ('then', 'then_with'):
        for x in v.a[1]:
            r = ordering(o, canon(x))
            if r is None: return None
            parts |= r[0]
            proper &= r[1]
    elif v.op == 'call' and LAST(v.a[0]) == 'reverse':
        r = ordering(o, canon(v.a[1][0]))
        return (r[0], not r[1]) if r else None
    elif not (v.op == 'adt' and LAST(v.a[0]) == 'Ordering'): return None
    for k in list(o.st.facts) + list(o.st.neq):
        k = canon(k)
        q = compared(k.a[0]) if k.op == 'discr' else None
        if q is None: return None
        parts.add(q[0])
    return parts, proper


# ------------------------------------------------------------------------------------------------ K03
# errors which do not come from an operation that failed: refused values, over-full collections, conversions
REFUSALS = ('confinement::Error', 'InvalidRString', 'UnknownType', 'VariantError', 'FromUtf8Error', 'Utf8Error', 'FromAsciiError', 'AsAsciiStrError', 'TryFromIntError', 'ParseIntError', 'Infallible')
KEEP = ('map', 'map_err', 'and_then', 'cloned', 'copied', 'or_else', 'inspect', 'inspect_err', 'into', 'from', 'as_ref', 'as_mut')
PANIC = ('expect', 'unwrap')
DROP = ('ok', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'is_ok', 'is_err', 'is_ok_and', 'is_err_and', 'map_or', 'map_or_else', 'iter', 'drop', 'forget', 'err', 'or', 'flatten', 'filter_map', 'flat_map')


def places(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list): yield x
        else:
            for y in x: yield from places(y)
    elif isinstance(x, dict):
        for y in x.values(): yield from places(y)


def callee(t):
    c = t[1]
    return (c.get('path') or c.get('decl') or '?') if isinstance(c, dict) else '?'


def uses(f, l):
    for bi, b in enumerate(f.blocks):
        for s in b['s']:
            if s[0] == '=':
                for q in places(s[2]):
                    if q[0] == l: yield 'st', s, bi, q
        t = b['t']
        if t[0] == 'call':
            for a in t[2]:
                for q in places(a):
                    if q[0] == l: yield 'arg', t, bi, q
        elif t[0] == 'switch':
            for q in places(t[1]):
                if q[0] == l: yield 'sw', t, bi, q


def fate(f, l, depth=0):
    """what becomes of the result held by a local"""
    if l == 0: return {('ret', None)}
    r = set()
    for k, s, bi, q in uses(f, l):
        if k == 'arg': r.add(('arg', LAST(callee(s).replace('>', ''))) if q[1] == [] else ('field', None))
        elif k == 'st':
            v = s[2]
            if v[0] == 'use':
                if q[1] == []: r |= fate(f, s[1][0], depth + 1) if s[1][1] == [] and depth < 8 else {('store', None)}
                else: r.add(('field', None))
            elif v[0] == 'ref':
                if q[1]: r.add(('field', None))
                elif depth < 8 and s[1][1] == []: r |= fate(f, s[1][0], depth + 1)
                else: r.add(('store', None))
            elif v[0] == 'discr': r.add(('match', s[1][0]))
            else: r.add(('store', None))
        elif k == 'sw': r.add(('match', None))
    return r


def first_reached(f, ds):
    seen, st = {0}, [0]
    while st:
        b = st.pop(0)
        for s in f.blocks[b]['s']:
            if s[0] == '=' and s[1][0] in ds and s[2][0] == 'discr': return [s[1][0]]
        for x in f.succ(b):
            if x not in seen:
                seen.add(x)
                st.append(x)
    return ds


def returns_error(p, f):
    t = p.ty(f.j['locals'][0][0])
    return t['k'] == 'adt' and t['path'] in ('core::result::Result',)


def swallowed(p, f, d):
    """a match on the result: can the function end without an error of its own once there was one?"""
    sw = [b['t'] for b in f.blocks if b['t'][0] == 'switch' and any(q[0] == d and q[1] == [] for q in places(b['t'][1]))]
    if len(sw) != 1: return None
    arms = {str(a[0]): a[1] for a in sw[0][3]}
    err = arms.get('1', sw[0][4])
    if err is None: return None
    if f.blocks[err]['t'][0] == 'unreach': return None
    good = arms.get('0', sw[0][4])
    # blocks which the good case reaches as well are past the handling of the error
    def ends(b):
        """whether the block settles the result: True (an error), False (something else), None"""
        for s in f.blocks[b]['s']:
            if s[0] == '=' and s[1][0] == 0:
                v = s[2]
                if v[0] == 'agg' and v[1][0] == 'adt' and v[1][1] == 'core::result::Result': return v[1][2] in (1, 'Err', '1')
                return True if v[0] == 'use' else None
        t = f.blocks[b]['t']
        if t[0] == 'call' and t[3][0] == 0: return True
        return False
    seen, st, bad = set(), [err], False
    while st:
        b = st.pop()
        if b in seen: continue
        seen.add(b)
        e = ends(b)
        if e is True: continue
        if e is None: return None
        t = f.blocks[b]['t']
        if t[0] == 'return' or t[0] == 'ret': bad = True
        elif t[0] == 'switch' and b != err: st += [x[1] for x in t[3]] + [t[4]]
        else: st += f.succ(b)
        if t[0] == 'ret': bad = True
    joins = good is not None and good in seen
    return bad or joins or any(f.blocks[b]['t'][0] in ('ret', 'return') for b in seen)


def K03(rep):
    """Each call of the crate which gives a result is found in the type-checked program, and what becomes of the result is followed: it is
    returned, passed on by the question mark or mapped into another result.  A result whose error can be that of a writer, a reader or a
    nested step is not dropped, not turned into a default or an option, not unwrapped, and when it is matched upon the failing case ends in
    an error."""
    p = rep.p
    n = 0
    for f in originals(p):
        if f.j.get('derived') or not f.ok: continue
        owner = f.item or f.name
        for b in f.blocks:
            t = b['t']
            if t[0] != 'call' or t[3][1] != [] or b.get('cleanup'): continue
            ty = p.ty(f.j['locals'][t[3][0]][0])
            if ty['k'] != 'adt' or ty['path'] != 'core::result::Result': continue
            e = p.ty(ty['args'][1])
            en = e.get('path') or e.get('s') or str(e)
            c = LAST(callee(t).replace('>', ''))
            if c == 'from_residual' or e['k'] == 'never' or en == '!' or any(en.endswith(x) for x in REFUSALS) or 'TryFrom' in en or 'TryInto' in en: continue
            if f.j.get('file', '').startswith('/') : continue
            n += 1
            rep.sites += 1
            rep.fns.add(f.name)
            verdict(rep, f, t, c, en, owner)
    rep.floor('results', n, 100, 'results of fallible operations')


def verdict(rep, f, t, c, en, owner):
    p = rep.p
    uses_ = fate(f, t[3][0])
    kinds = {k for k, _ in uses_}
    args = {x for k, x in uses_ if k == 'arg'}
    en = en.split('::')[-1] if not en.startswith('<') else en
    line = t[-1] if isinstance(t[-1], int) else f.j.get('line', 0)
    where = f'{f.j.get("file", "?")}:{f.j.get("line", 0)}'
    key = f'{rep.p.self_name(f) or ""}:{owner if f.kind == "fn" else "closure"}:{c}'
    me = f'the {en} of {c}() in {f.name.split("::")[-1] if f.kind == "fn" else f.name[-60:]}'
    if 'ret' in kinds or 'branch' in args: return rep.ok(key, where=where)
    if not uses_: return rep.bad(key, f'{me} is dropped', where)
    if args & set(KEEP): return rep.ok(key, where=where)
    if args & set(PANIC): return panics(rep, f, t, key, me, where)
    if 'match' in kinds:
        ds = [x for k, x in uses_ if k == 'match' and x is not None]
        if not returns_error(p, f): return rep.unknown(key, f'{me} is looked at by a function which gives no error', where)
        # what is looked at again after the first time serves to drop the parts
        v = [swallowed(p, f, d) for d in first_reached(f, ds)]
        if len(v) == 1 and v[0] is False: return rep.ok(key, where=where)
        if len(v) == 1 and v[0]: return partial(rep, f, t, key, me, where)
        return rep.unknown(key, f'{me} is looked at several times', where)
    if args & set(DROP) and not args - set(DROP): return rep.bad(key, f'{me} is replaced by {sorted(args)[0]}()', where)
    rep.unknown(key, f'{me} goes to {sorted(args) or sorted(kinds)}', where)


def partial(rep, f, t, key, me, where):
    """a failure followed by going on: proper only for a failure which asks to retry"""
    en = rep.p.ty(rep.p.ty(f.j['locals'][t[3][0]][0])['args'][1])
    a = rep.p.adts.get(en.get('path'))
    if a and any(v['name'] == 'Continue' for v in a['variants']): return rep.ok(key, 'retried', where)
    rep.bad(key, f'{me} is passed over: the function goes on or ends without an error', where)


def panics(rep, f, t, key, me, where):
    p = rep.p
    names = [p.ty(x).get('path') or p.ty(x).get('s', '') for x in t[1].get('args', []) if isinstance(x, int)] if isinstance(t[1], dict) else []
    recv = [p.ty(x).get('s', '') + (p.adt_name(x) or '') for x in [f.j['locals'][q[0]][0] for a in t[2] for q in places(a)]]
    if any('Builder' in x or 'Transpiler' in x for x in names + recv): return rep.ok(key, 'the writer is a description of types, which never fails', where)
    if (f.j.get('trait') or '').split('::')[-1] in ('Display', 'Debug', 'LowerHex', 'UpperHex'): return rep.ok(key, 'printing has no error to give', where)
    if f.argc == 0: return rep.ok(key, 'built-in data and not an input', where)
    rep.bad(key, f'{me} is turned into a panic', where)
