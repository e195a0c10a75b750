"""I: identifiers."""
from .common import *

S = sym('self')


def byte(t): return ('byte', t)
def ib(n): return ('byte', I(n))


def name_pieces(t):
    return [byte(T('call', 'len', (t,), '')), ('bytes', t)]


def each(src, *alts): return ('each', src, tuple(tuple(a) for a in alts))


def el(src): return T('elem', src, 0)


CLS = dict(Primitive=0, Unicode=1, AsciiStr=2, Enum=3, Union=4, Struct=5, Tuple=6, Array=7, List=8, Set=9, Map=10)


def ty_spec():
    v = lambda var, n: fldp(S, f'{var}:{n}')
    def sz(t): return [('le', fldp(t, 'min'), 'u64'), ('le', fldp(t, 'max'), 'u64')]
    en, un, tu, stt = v('Enum', '0'), v('Union', '0'), v('Tuple', '0'), v('Struct', '0')
    return {
        'Primitive': [ib(0), byte(T('fld', v('Primitive', '0'), '', '0'))],
        'UnicodeChar': [ib(1)],
        'Enum': [ib(3), each(en, name_pieces(fldp(el(en), 'name')) + [byte(fldp(el(en), 'tag'))])],
        'Union': [ib(4), each(un, name_pieces(fldp(el(un), '0', 'name')) + [byte(fldp(el(un), '0', 'tag')), ('sub', fldp(el(un), '1'))])],
        'Struct': [ib(5), each(stt, name_pieces(fldp(el(stt), 'name')) + [('sub', fldp(el(stt), 'ty'))])],
        'Tuple': [ib(6), each(tu, [('sub', el(tu))])],
        'Array': [ib(7), ('sub', v('Array', '0')), ('le', v('Array', '1'), 'u16')],
        'List': [ib(8), ('sub', v('List', '0'))] + sz(v('List', '1')),
        'Set': [ib(9), ('sub', v('Set', '0'))] + sz(v('Set', '1')),
        'Map': [ib(10), ('sub', v('Map', '0')), ('sub', v('Map', '1'))] + sz(v('Map', '2')),
    }


def fed(o, arg='hasher'):
    """pieces fed to the &mut hasher parameter on a path"""
    h = o.st.store.get(('A', arg))
    return hash_chain(h) if h is not None else [('?', 'no hasher')]


def rets(rep, outs, key, fn):
    """the returning paths; panicking paths are violations"""
    r = []
    for o in outs:
        if o.k == 'panic': rep.unknown(f'{key}:panic', f'may panic: {o.x}', fn.where())
        else: r.append(o)
    return r


def hashed(o):
    """the pieces fed into the hasher whose digest the result is made of"""
    v = o.v
    for x in walk(v):
        if is_call(x, 'finalize') or is_call(x, 'finish'): return hash_chain(x.a[1][0])
    return None


def I01(rep):
    """For every class of Ty (all ten variants are enumerated from the enum definition) the sequence of byte pieces that the
    semantic commitment feeds to the hasher is extracted from the resolved MIR (helpers inlined, loops generalised) and
    must equal the sequence which lists each component once, in order."""
    f, outs = rep.run('Ty', 'sem_commit', 'SemCommit', opts=dict(names=['self', 'hasher']))
    if outs is not None:
        spec = ty_spec()
        vs = {}
        for o in rets(rep, outs, 'Ty', f):
            v = variant_of(o, S)
            vs.setdefault(v, []).append(o)
        decl = [v['name'] for n, a in rep.p.adts.items() if n.endswith('ast::ty::Ty') for v in a['variants']]
        rep.floor('variants', len(decl), 10, 'type classes')
        for v in decl:
            if v not in vs:
                rep.bad(f'Ty::{v}', 'no path of the commitment handles this class', f.where())
                continue
            exp = spec.get(v)
            for o in vs[v]:
                got = fed(o)
                if exp is None:
                    rep.unknown(f'Ty::{v}', 'class not in the specification: ' + show(got))
                    continue
                # a loop that runs zero times is subsumed by the generic one
                ver, text = compare_pieces(got, exp)
                rep.tri(f'Ty::{v}', ver, text, f.where())
    # the entry: name, then the type itself
    f, outs = rep.run('Ty', 'sem_id_inner', opts=dict(names=['self', 'name'], opaque=('sem_commit',))) if rep.p.find('Ty', 'sem_id_inner') else (None, None)
    n = 0
    for item in ('sem_id_named', 'sem_id_unnamed'):
        for f in rep.p.find('Ty', item):
            if not f.j.get('identity', True) and False: continue
            outs = rep.paths_of(f, names=['self', 'name'], opaque=('SemCommit::sem_commit',))
            if outs is None: continue
            n += 1
            for o in outs:
                if o.k != 'ret':
                    rep.unknown(f'{item}:panic', f'computing a semantic id may panic: {o.x}', f.where())
                    continue
                got = hashed(o)
                if got is None:
                    rep.tri(f'{item}', True if is_call(o.v, 'sem_id_unnamed') else None, 'no hash: ' + pp(o.v), f.where())
                    continue
                tail = [p for p in got if p[0] != 'digest']
                exp = ([('sub', sym('name'))] if item == 'sem_id_named' else []) + [('sub', S)]
                ver, text = compare_pieces(tail, exp)
                rep.tri(f'{item}', ver, text, f.where())
    rep.floor('ids', n, 4, 'id computing functions')


REFS = {
    # reference type -> variant -> the pieces it must contribute ('sub' = full definition of an embedded type)
    'LibRef': {'Inline': [('sub', fldp(S, 'Inline:0'))], 'Named': [('bytes', fldp(S, 'Named:0'))], 'Extern': [('bytes', fldp(S, 'Extern:0', 'sem_id'))]},
    'InlineRef': {'Inline': [('sub', fldp(S, 'Inline:0'))], 'Named': [('bytes', fldp(S, 'Named:0'))], 'Extern': [('bytes', fldp(S, 'Extern:0', 'sem_id'))]},
    'InlineRef1': {'Inline': [('sub', fldp(S, 'Inline:0'))], 'Named': [('bytes', fldp(S, 'Named:0'))], 'Extern': [('bytes', fldp(S, 'Extern:0', 'sem_id'))]},
    'InlineRef2': {'Named': [('bytes', fldp(S, 'Named:0'))], 'Extern': [('bytes', fldp(S, 'Extern:0', 'sem_id'))]},
    'TranspileRef': {'Embedded': [('sub', fldp(S, 'Embedded:0'))], 'Named': name_pieces(fldp(S, 'Named:0')), 'Extern': [('bytes', fldp(S, 'Extern:0', 'sem_id'))]},
    'SemId': {None: [('bytes', S)]},
    'ExternRef': {None: [('bytes', fldp(S, 'sem_id'))]},
    'SymbolRef': {None: [('bytes', fldp(S, 'sem_id'))]},
}


def ty_commit(owner, item, self_ty, fn):
    """the commitment of an embedded type is a unit"""
    return item == 'sem_commit' and (self_ty.startswith('Ty<') or (fn is not None and 'ast::ty::Ty<' in fn.name))


def I02(rep):
    """Every variable-length item fed into an identifier hash (loops over collections, name bytes) must be preceded by its
    length; the fed sequences are those extracted from all SemCommit implementations of the crate.  A loop without its
    count is reported per type class."""
    n = 0
    for f in rep.p.find(item='sem_commit', trait='SemCommit', identity=True):
        outs = rep.paths_of(f, names=['self', 'hasher'], opaque=(ty_commit,))
        if outs is None: continue
        who = rep.p.self_name(f)
        if who in ('EnumVariants', 'UnionVariants', 'NamedFields', 'UnnamedFields'): continue    # judged as a part of Ty
        for o in outs:
            if o.k != 'ret': continue
            got = fed(o)
            v = variant_of(o, S)
            key = f'{who}::{v}' if v and who == 'Ty' else who
            n += 1
            frame(rep, key, got, f)
    # the optional name of a type is not marked
    for f in rep.p.find('Ty', 'sem_id_inner'):
        if not f.j.get('identity'): continue
        outs = rep.paths_of(f, names=['self', 'name'], opaque=(ty_commit,))
        tails = set()
        for o in outs or ():
            if o.k == 'ret' and hashed(o) is not None:
                tails.add(tuple(p for p in hashed(o) if p[0] != 'digest'))
        if len(tails) > 1:
            lens = {len(t) for t in tails}
            first = {t[0][0] if t else None for t in tails}
            rep.check('Ty:optional-name', not (len(lens) > 1 and len(first) > 1) or all(t and t[0][0] == 'byte' and t[0][1].op == 'int' for t in tails),
                      'a named and an unnamed type are fed into the same tagged hash without a marker which tells whether a name follows', f.where())
    rep.floor('commitments', n, 20, 'commitment paths')


def frame(rep, key, pieces, f):
    prev = []
    for p in pieces:
        if p[0] == 'each':
            ln = T('call', 'len', (p[1],), '')
            good = any(mentions_len(q, p[1]) for q in prev)
            if not good: rep.bad(key, f'the number of items of {pp(p[1])} is not fed before the items: {show(pieces)}', f.where())
            else: rep.ok(key)
            for alt in p[2]: frame(rep, key + '.item', alt, f)
        elif p[0] == 'bytes':
            t = p[1]
            fixed = is_fixed(rep, t, f)
            good = any(mentions_len(q, t) for q in prev)
            rep.tri(key + ':bytes', True if good or fixed else False if fixed is False else None, f'variable-length bytes {pp(t)} without their length: {show(pieces)}', f.where())
        elif p[0] == 'digest':
            frame(rep, key + '.digest', p[1], f)
        prev.append(p)


def mentions_len(piece, t):
    if piece[0] not in ('byte', 'le', 'be'): return False
    want = len_base(renum(t))
    return any(is_call(x, 'len') and len_base(x.a[1][0]) is want for x in walk(renum(piece[1])))


def len_base(t):
    while t.op in ('fld',) and t.a[2] in ('0',) and t.a[1] == '': t = t.a[0]
    return t


def is_fixed(rep, t, f):
    """whether a byte-string term has a fixed size: ids are 32 byte arrays; names are not"""
    names = [x for x in walk(t) if x.op == 'fld' and x.a[2] in ('sem_id', 'id', 'lib_id')]
    if names: return True
    who = rep.p.self_name(f)
    if t is S: return who in ('SemId', 'TypeLibId', 'TypeSysId')
    if t.op == 'fld' and t.a[1] in ('Named',): return who != 'TranspileRef'
    if t.op == 'fld' and t.a[0].op == 'elem' and t.a[2] == '0' and who == 'TypeSystem': return True
    if is_call(t, 'finalize'): return True
    if any(x.op == 'fld' and x.a[2] == 'name' for x in walk(t)): return False
    return None


def I03(rep):
    """The id functions of types, libraries and type systems: the first two pieces fed to the hash are the SHA-256 digest of
    a constant tag, before any content; the tags are read from the resolved program and must be pairwise distinct and equal
    to the published ones."""
    tags = {}
    n = 0
    for self_name, item, tag in (('Ty', 'sem_id_named', b'urn:ubideco:strict-types:typ:v01'), ('Ty', 'sem_id_unnamed', b'urn:ubideco:strict-types:typ:v01'),
                                 ('TranspileRef', 'id', b'urn:ubideco:strict-types:typ:v01'),
                                 ('TypeLib', 'id', b'urn:ubideco:strict-types:lib:v01'), ('TypeSystem', 'id', b'urn:ubideco:strict-types:sys:v01')):
        fs = [f for f in rep.p.find(self_name, item, inherent=True)]
        if not fs:
            rep.bad(f'{self_name}::{item}', 'anchored function is missing')
            continue
        for f in fs:
            outs = rep.paths_of(f, names=['self', 'name'], opaque=('SemCommit::sem_commit',))
            for o in outs or ():
                if o.k != 'ret': continue
                got = hashed(o)
                if got is None: continue
                n += 1
                exp = ('digest', tuple(('byte', I(x)) for x in tag))
                ok = len(got) >= 3 and got[0] == exp and got[1] == exp and not any(p[0] == 'digest' for p in got[2:])
                if not ok and has_unknown(got[:2]): rep.unknown(f'{self_name}::{item}', show(got), f.where())
                else: rep.check(f'{self_name}::{item}', ok, f'the hash starts with {show(got)[:300]}, expected the digest of {tag!r} twice and then the content', f.where())
    rep.floor('ids', n, 8, 'hash computations')


def I04(rep):
    """For each reference type and each of its variants the pieces fed by its commitment are extracted: an external or named
    reference feeds exactly the 32 bytes of the id it holds, an embedded one exactly the commitment of the embedded type;
    a named type feeds its name and then its definition."""
    n = 0
    for who, spec in REFS.items():
        fs = rep.p.find(who, 'sem_commit', 'SemCommit', identity=True)
        if not fs:
            rep.bad(f'{who}', 'the reference has no commitment any more')
            continue
        f = fs[0]
        outs = rep.paths_of(f, names=['self', 'hasher'], opaque=(ty_commit,))
        if outs is None: continue
        seen = set()
        for o in outs:
            if o.k != 'ret':
                rep.unknown(f'{who}:panic', str(o.x), f.where())
                continue
            v = variant_of(o, S)
            key = v if v in spec else None
            if key not in spec:
                rep.unknown(f'{who}::{v}', 'variant is not in the specification')
                continue
            seen.add(key)
            ver, text = compare_pieces(fed(o), spec[key])
            rep.tri(f'{who}::{v or ""}', ver, text, f.where())
            n += 1
        for k in spec:
            if k not in seen: rep.bad(f'{who}::{k}', 'no path of the commitment handles this variant', f.where())
    for item in ('sem_id_named', 'sem_id_unnamed'):
        for f in rep.p.find('Ty', item):
            outs = rep.paths_of(f, names=['self', 'name'], opaque=(ty_commit,))
            for o in outs or ():
                if o.k != 'ret': continue
                got = hashed(o)
                if got is None:
                    rep.tri(f'{item}', True if is_call(o.v, 'sem_id_unnamed') else None, 'no hash: ' + pp(o.v), f.where())
                    continue
                tail = [p for p in got if p[0] != 'digest']
                exp = (name_pieces(sym('name')) if item == 'sem_id_named' else []) + [('sub', S)]
                ver, text = compare_pieces(tail, exp)
                rep.tri(f'{item}', ver, text, f.where())
                n += 1
    rep.floor('references', n, 20, 'reference commitments')


def I05(rep):
    """The pieces fed by the library and type system ids after the tag: library name, number of dependencies, each
    dependency id, number of types, each type's named semantic id; number of types and each type id for a system."""
    f, outs = rep.run('TypeLib', 'id', inherent=True, opts=dict(names=['self'], opaque=(ty_commit,)))
    tagd = lambda t: ('digest', tuple(('byte', I(x)) for x in t))
    deps, types = fldp(S, 'dependencies'), fldp(S, 'types')
    tt = tagd(b'urn:ubideco:strict-types:typ:v01')
    e = el(types)
    exp = name_pieces(fldp(S, 'name')) + [byte(T('call', 'len', (deps,), '')), each(deps, [('bytes', fldp(el(deps), 'id'))]),
                                          ('le', T('call', 'len', (types,), ''), 'u16'),
                                          each(types, [('digest', tuple([tt, tt] + name_pieces(fldp(e, '0')) + [('sub', fldp(e, '1'))]))])]
    n = 0
    for o in outs or ():
        if o.k != 'ret':
            rep.unknown('TypeLib:panic', str(o.x), f.where())
            continue
        got = hashed(o)
        ver, text = (None, 'no hash ' + pp(o.v)) if got is None else compare_pieces(got[2:], exp)
        rep.tri('TypeLib::id', ver, text, f.where())
        n += 1
    f, outs = rep.run('TypeSystem', 'id', inherent=True, opts=dict(names=['self']))
    m = fldp(S, '0')
    exp = [('le', T('call', 'len', (m,), ''), 'u24'), each(m, [('bytes', fldp(el(m), '0'))])]
    for o in outs or ():
        if o.k != 'ret':
            rep.unknown('TypeSystem:panic', str(o.x), f.where())
            continue
        got = hashed(o)
        ver, text = (None, 'no hash ' + pp(o.v)) if got is None else compare_pieces(got[2:], exp)
        rep.tri('TypeSystem::id', ver, text, f.where())
        n += 1
    rep.floor('ids', n, 2, 'id computations')


ITER_SRC = {'iter', 'keys', 'values', 'into_iter', 'into_keys', 'into_values', 'drain', 'iter_mut', 'values_mut', 'intersection', 'union', 'difference'}
INSENSITIVE = {'all', 'any', 'count', 'len', 'is_empty', 'size_hint', 'drop', 'drop_in_place', 'clone'}
ADAPT = {'map', 'filter', 'cloned', 'copied', 'filter_map', 'inspect', 'flat_map', 'into_iter', 'by_ref', 'chain', 'flatten'}
ORDER_SINKS = {'push', 'push_str', 'write_all', 'write_fmt', 'write_str', 'update', 'commit_consume', 'append', 'sem_commit', 'push_back', 'write', 'extend_from_slice'}
SENSITIVE = {'find', 'position', 'nth', 'last', 'enumerate', 'zip', 'take', 'skip', 'find_map', 'reduce', 'fold', 'next_back', 'rposition', 'step_by',
             'max_by', 'min_by', 'max_by_key', 'min_by_key', 'join', 'peekable', 'take_while', 'skip_while', 'map_while'}
FORBIDDEN = ('std::time::', 'std::env::', 'std::thread::', 'rand', 'getrandom', 'std::process::', 'core::time', 'std::fs::', 'std::net::', 'chrono',
             'std::hash::random', 'std::random', 'core::hash::BuildHasher::hash_one')
IO_ENTRY = {'serialize', 'parse_args'}


def is_hash_iter(s):
    return 'hash_map::' in s or 'hash_set::' in s or 'collections::hash::map::' in s and '::HashMap<' not in s.split('collections::hash::map', 1)[0] and (
        any(x in s for x in ('hash::map::Iter', 'hash::map::Keys', 'hash::map::Values', 'hash::map::IntoIter', 'hash::map::IntoKeys', 'hash::map::IntoValues', 'hash::map::Drain'))) or any(
        x in s for x in ('hash::set::Iter', 'hash::set::IntoIter', 'hash::set::Drain', 'hash::set::Union', 'hash::set::Intersection', 'hash::set::Difference'))


def full_ty(p, i):
    """type text with full paths"""
    t = p.ty(i)
    k = t['k']
    if k in ('ref', 'ptr', 'slice', 'array'): return full_ty(p, t['ty'])
    if k == 'adt':
        return t['path'] + '<' + ', '.join(full_ty(p, x) for x in t['args'] if isinstance(x, int)) + '>'
    if k == 'tuple': return '(' + ', '.join(full_ty(p, x) for x in t['args']) + ')'
    return t['s']


def I06(rep):
    """Effect analysis over all functions of the crate: (1) no function from which a result is produced reaches clocks, random
    sources, environment, files, threads or pointer addresses (call graph); (2) every iteration over a HashMap/HashSet is
    consumed by an order-insensitive consumer (collected into an ordered or hashed container, all/any/count, or a loop which
    only fills such containers)."""
    p = rep.p
    eng = Engine(p)
    calls = {}
    direct = {}
    nhash = 0
    for f in p.local():
        rep.fns.add(f.name)
        for bi, b in enumerate(f.blocks):
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast' and 'Expose' in str(s[2][1]):
                    rep.bad(f'address:{f.name}', 'an address is turned into a number', f.where())
            t = b['t']
            if t[0] != 'call' or 'op' in t[1]: continue
            cj = t[1]
            rep.sites += 1
            d = cj.get('path') or cj['decl']
            if 'fn' in cj: calls.setdefault(f.id, set()).add(cj['fn'])
            for pre in FORBIDDEN:
                if d.startswith(pre) or cj['decl'].startswith(pre) or ('<' + pre) in d:
                    direct.setdefault(f.id, set()).add(d)
            if f.j.get('derived'): continue
            owner, item = eng.callkey(cj)
            tys = [full_ty(p, eng.op_ty(Fr(f), a)) if eng.op_ty(Fr(f), a) is not None else '' for a in t[2]]
            if owner in ('HashMap', 'HashSet'): nhash += 1
            hashy = [x for x in tys if is_hash_iter(x)]
            if not hashy and not (owner in ('IntoIterator', 'Confined', 'FromIterator') and item in ('into_iter', 'try_from_iter', 'from_iter_checked', 'from_iter', 'extend') and tys and any(
                    x.startswith(('std::collections::hash::map::HashMap', 'std::collections::hash::set::HashSet')) for x in tys)): continue
            key = f'hash-iteration:{clean(f.name)}:{item}'
            dst = full_ty(p, f.j['locals'][t[3][0]][0]) if not t[3][1] else ''
            if item in INSENSITIVE or item in ADAPT: continue
            if item in ('collect', 'from_iter', 'try_from_iter', 'from_iter_checked', 'extend', 'unzip', 'fmt', 'partial_cmp', 'eq'):
                tgt = dst + ' ' + (tys[0] if item == 'extend' else '') + ' ' + ' '.join(full_ty(p, x) for x in cj.get('args', []) if isinstance(x, int))
                into = any(x in tgt for x in ('BTreeMap', 'BTreeSet', 'hash::map::HashMap', 'hash::set::HashSet'))
                srt = any('op' not in bb['t'][1] and eng.callkey(bb['t'][1])[1].startswith('sort') for bb in f.blocks if bb['t'][0] == 'call')
                rep.tri(key, True if into else None if srt else False, f'iteration over a randomly seeded container is collected in its order ({item})', f.where())
            elif item == 'next':
                lp = [body for h, body in f.loops().items() if bi in body]
                body = min(lp, key=len) if lp else {bi}
                sinks = set()
                for x in body:
                    tt = f.blocks[x]['t']
                    if tt[0] == 'call' and 'op' not in tt[1]:
                        o2, i2 = eng.callkey(tt[1])
                        if i2 in ORDER_SINKS: sinks.add(i2)
                rep.check(key, bool(lp) and not sinks, f'a loop over a randomly seeded container feeds an ordered sink: {sorted(sinks)}', f.where())
            elif item in SENSITIVE:
                rep.bad(key, f'an iteration over a randomly seeded container is consumed by order-sensitive `{item}`', f.where())
            else: rep.unknown(key, f'an iteration over a randomly seeded container is passed to `{item}`', f.where())
    # reachability of forbidden sources
    rev = {}
    for a, bs in calls.items():
        for x in bs: rev.setdefault(x, set()).add(a)
    byid = {f.id: f for f in p.fns}
    for fid, ds in direct.items():
        seen, st = {fid}, [fid]
        while st:
            x = st.pop()
            if byid[x].item in IO_ENTRY or (byid[x].j.get('parent') is not None and any(i in byid[x].name for i in IO_ENTRY)): continue
            if x != fid or byid[x].item not in IO_ENTRY:
                for y in rev.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
        bad = sorted({byid[x].name for x in seen if byid[x].crate == p.crate and byid[x].item not in IO_ENTRY and not any(i in byid[x].name for i in IO_ENTRY)})
        # helpers only used by the I/O entries are fine
        bad = [b for b in bad if not only_from_io(b, rev, byid, fid)]
        rep.check(f'source:{clean(byid[fid].name)}', not bad, f'{sorted(ds)} is reachable from {bad[:5]}', byid[fid].where())
    rep.floor('hash', nhash, 1, 'operations on hashed containers recognised')
    rep.floor('functions', len(p.local()), 1000, 'functions')


def only_from_io(name, rev, byid, fid):
    """every caller chain of the function starts in an I/O entry"""
    ids = [i for i, f in byid.items() if f.name == name]
    seen, st = set(ids), list(ids)
    tops = 0
    while st:
        x = st.pop()
        ys = rev.get(x, ())
        if not ys:
            if byid[x].j.get('vis') == 'pub' or x in ids and not ys: return False
        for y in ys:
            if byid[y].item in IO_ENTRY or any(i in byid[y].name for i in IO_ENTRY): continue
            if y not in seen:
                seen.add(y)
                st.append(y)
    return True


def clean(n):
    import re
    return re.sub(r'\{closure#\d+\}', '{closure}', n)


class Fr:
    def __init__(self, fn): self.fn = fn
