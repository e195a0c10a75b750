"""V15, A05, K02: what the types, the visibility and the call graph of the crate admit."""
import re
from .common import *
from .tables import *

S = sym('self')


def aggregates(f, path):
    """lines at which the function builds a value of the type"""
    for b in f.j['blocks']:
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == path: yield s[-1]
        t = b['t']
        if t[0] == 'call' and isinstance(t[1], dict) and t[1].get('ctor', {}).get('adt') == path: yield t[-1]


def mentions(x, what):
    if isinstance(x, dict): return any(mentions(y, what) for y in x.values())
    if isinstance(x, list): return any(mentions(y, what) for y in x)
    return x is what


def callees(p, f):
    """names of the functions and closures which the function refers to"""
    r = set()

    def go(x):
        if isinstance(x, dict):
            for k in ('decl', 'path'):
                if isinstance(x.get(k), str): r.add(x[k])
            if isinstance(x.get('ty'), int):
                t = p.ty(x['ty'])
                if t['k'] == 'fndef':
                    r.add(t['path'])
                    c = t.get('callee') or {}
                    if c.get('path'): r.add(c['path'])
            for v in x.values(): go(v)
        elif isinstance(x, list):
            if len(x) > 1 and x[0] == 'closure' and isinstance(x[1], str): r.add(x[1])
            for v in x: go(v)
    go(f.j['blocks'])
    return r


def ty_has(p, i, path, seen=None):
    """the type mentions the named type"""
    seen = set() if seen is None else seen
    if i in seen or not isinstance(i, int): return False
    seen.add(i)
    t = p.ty(i)
    return t.get('path') == path or any(ty_has(p, x, path, seen) for x in list(t.get('args', ())) + [t.get('ty')] + list(t.get('tys', ())) + list(t.get('elems', ())))


MUTATING = ('DerefMut', 'AsMut', 'BorrowMut', 'IndexMut', 'WrapperMut')
EXTERNAL = ('Deserialize', 'StrictDecode', 'Default', 'From', 'FromStr', 'TryFrom', 'FromIterator', 'Extend', 'StrictDumb', 'Wrapper')


def originals(p):
    """analysed functions of the crate without specialised copies"""
    seen = set()
    for f in p.local():
        if f.name not in seen or f.j.get('identity'):
            seen.add(f.name)
            yield f


def V15(rep):
    """The fields of a typed value are private and each place which builds one is found in the type-checked program; in the call
    graph without typification and decoding no public function or trait method reaches such a place.  No trait implementation and no
    public function makes a typed value of something else, and none gives or takes mutable access to one."""
    p = rep.p
    path = ety(rep, 'TypedVal')
    a = p.adts.get(path)
    if not a:
        rep.bad('type', 'TypedVal is gone')
        return
    for x in a['variants'][0]['fields']: rep.check('private:' + x['name'], x['vis'] != 'pub', f'the field {x["name"]} is public')
    allowed = set()
    for ow, it in (('TypeSystem', 'typify'), ('TypeSystem', 'strict_read_type')):
        f = rep.fn(ow, it)
        if f: allowed.add(f.name)
    fns = list(originals(p))
    by = {}
    for f in p.local(): by.setdefault(f.name, []).append(f)
    sites = {f.name: (f, list(aggregates(f, path))) for f in fns if any(True for _ in aggregates(f, path))}
    rep.check('sites', bool(sites), 'no place builds a typed value')
    derived = {n for n, (f, _) in sites.items() if LAST(f.j.get('trait') or '') == 'Clone'}
    rev = {}
    for f in p.local():
        for c in callees(p, f):
            if c in by: rev.setdefault(c, set()).add(f.name)
    # closures belong to the function around them
    for n in by:
        if '::{closure#' in n: rev.setdefault(n, set()).add(n.split('::{closure#')[0])
    entry = {n for n, v in by.items() if any(f.j.get('vis') == 'pub' or f.j.get('trait') for f in v) and '{closure' not in n}
    for n, (f, lines) in sites.items():
        if n in derived: continue
        todo, seen = [(n, (n,))], set()
        while todo:
            x, way = todo.pop()
            if x in seen or x in allowed: continue
            seen.add(x)
            if x in entry and x not in derived:
                rep.bad('built:' + LAST(x), f'a typed value is built at line {lines[0]} and reachable by {" <- ".join(LAST(y) for y in way)} without typification or decoding', by[x][0].where())
                continue
            todo += [(y, way + (y,)) for y in rev.get(x, ())]
        rep.ok('built:' + n, '', f.where())
    rep.fns |= set(sites)
    for i in p.impls:
        if p.adt_name(i['self']) == path:
            tr = LAST(i.get('trait') or '')
            rep.check('impl:' + tr, tr not in MUTATING + EXTERNAL, f'{i.get("trait_ref")}: a typed value is made or changed without a type system')
        elif i.get('trait') and path in str(i.get('trait_ref', '')) and LAST(i['trait']) in ('Into', 'TryInto'): rep.bad('impl:into', f'{i["trait_ref"]} makes typed values')
    for f in fns:
        if f.j.get('vis') != 'pub' or f.j.get('derived') or '{closure' in f.name: continue
        for k, l in enumerate(f.j['locals'][:f.j.get('argc', 0) + 1]):
            t = p.ty(l[0])
            if t['k'] == 'ref' and p.adt_name(l[0]) == path and re.match(r"&('\w+ )?mut ", t['s']):
                rep.bad('mutable:' + LAST(f.name), 'takes or gives mutable access to a typed value', f.where())
        if f.j.get('argc') and p.adt_name(f.j['locals'][1][0]) == path:
            r = p.ty(f.j['locals'][0][0])
            rep.check('access:' + LAST(f.name), not (r['k'] == 'ref' and re.match(r"&('\w+ )?mut ", r['s'])), 'gives mutable access to a part of a typed value', f.where())
    # delegation of the system with symbols, and serialization under the type which the value was checked against
    f, outs = rep.run('SymbolicSys', 'typify', opts=dict(names=['self', 'val', 'spec'], opaque=('to_sem_id', 'typify')))
    for o in outs or ():
        if o.k != 'ret': continue
        v = o.v
        fs = {canon(k): x for k, x in o.st.facts.items()}
        if is_call(v, 'typify'):
            t, val, idt = (canon(x) for x in v.a[1][:3])
            good = t is fldp(S, 'types') and val is sym('val') and idt.op == 'fld' and idt.a[1] == 'Some' and is_call(idt.a[0], 'to_sem_id') and idt.a[0].a[1][0] is S and sym('spec') in set(walk(idt.a[0].a[1][1]))
            rep.tri('symbolic', True if good else None if fuzzy(v) else False, f'typifies as {pp(v)[:200]}', f.where())
        else:
            k, _ = res_parts(o)
            rep.tri('symbolic', True if k == 'Err' and any(v == 'None' for v in fs.values()) else None if k != 'Err' or not known_conditions(o) else False, f'gives {pp(v)[:200]}', f.where())
    for item in ('as_val', 'unbox'):
        f, outs = rep.run('TypedVal', item, opts=dict(names=['self']))
        for o in outs or ():
            if o.k == 'ret': rep.tri(item, True if canon(o.v) is fldp(S, 'val') else None if fuzzy(o.v) else False, f'gives {pp(o.v)[:100]}', f.where())
    f, outs = rep.run('TypedVal', 'as_orig', opts=dict(names=['self']))
    for o in outs or ():
        if o.k == 'ret': rep.tri('as_orig', True if canon(o.v) is fldp(S, 'orig') else None if fuzzy(o.v) else False, f'gives {pp(o.v)[:100]}', f.where())
    for item in ('strict_write_value', 'strict_write_type'):
        f, outs = rep.run('TypeSystem', item, opts=dict(names=['self', 'typed', 'writer'], opaque=('strict_write_val',)))
        for o in outs or ():
            if o.k != 'ret': continue
            v = o.v
            c = next((x for x in [v] + [e.x.get('call') for e in o.st.events() if isinstance(e.x, dict) and 'call' in e.x] if x is not None and is_call(x, 'strict_write_val')), None)
            if c is None:
                rep.unknown(item, f'gives {pp(v)[:200]}', f.where())
                continue
            args = [canon(x) for x in c.a[1]]
            good = args[0] is S and args[1] is fldp(sym('typed'), 'val') and args[2] is fldp(sym('typed'), 'orig', 'id')
            rep.tri(item, True if good else None if fuzzy(c) else False, f'writes {pp(c)[:200]}', f.where())


BOUNDS = {'NamedFields.0': (1, 255), 'UnnamedFields.0': (1, 255), 'UnionVariants.0': (1, 255), 'EnumVariants.0': (1, 255),
          'TypeLib.dependencies': (0, 255), 'TypeLib.types': (1, 65535), 'TypeSystem.0': (0, 0xffffff), 'Symbols.libs': (0, 65535), 'Symbols.symbols': (0, 0xffffff),
          'SymbolicLib.dependencies': (0, 255), 'MemoryLayout.items': (0, 0xffffffff), 'TypeInfo.nested': (0, 255), 'SemVer.pre': (0, 255), 'SemVer.build': (0, 255)}
CONTENT = {'NamedFields.0': 'Vec', 'UnnamedFields.0': 'Vec', 'UnionVariants.0': 'BTreeMap', 'EnumVariants.0': 'BTreeSet', 'TypeLib.dependencies': 'BTreeSet', 'TypeLib.types': 'BTreeMap',
           'TypeSystem.0': 'BTreeMap', 'Symbols.libs': 'BTreeSet', 'Symbols.symbols': 'BTreeSet', 'SymbolicLib.dependencies': 'BTreeSet', 'MemoryLayout.items': 'Vec', 'TypeInfo.nested': 'Vec'}
SEALED = ('NamedFields', 'UnnamedFields', 'UnionVariants', 'EnumVariants', 'TypeSystem', 'Symbols', 'SymbolicLib')


def A05(rep):
    """The bounds are held by the types: the declared minimum and maximum of each container of the published data types, evaluated by the
    compiler, are compared with the published ones (they also determine the width of the length prefix), the containers of
    definitions are private and reached by shared references only, and their conversions from unbounded collections succeed exactly with the
    checked collection."""
    p = rep.p
    for n, (lo, hi) in BOUNDS.items():
        ty, fld = n.split('.')
        a = p.adts.get(ety(rep, ty))
        x = next((x for x in (a['variants'][0]['fields'] if a else ()) if x['name'] == fld), None)
        if x is None:
            rep.tri('bounds:' + n, False if ty in SEALED[:4] and a is None else None, 'the container is gone')
            continue
        m = re.match(r'^amplify::\S*Confined<(.*), ([\w:]+), ([\w:]+)>$', x.get('nty') or '')
        if not m:
            rep.tri('bounds:' + n, False if (x.get('nty') or '').startswith('alloc::') else None, f'the container has the type {x.get("nty")}, whose size is not bounded')
            continue
        got = [None if not v.isdigit() else int(v) for v in m.groups()[1:]]
        if None in got and 'MAX' not in m.group(3): rep.unknown('bounds:' + n, f'bounds of {x["nty"]} are not evaluated')
        else: rep.check('bounds:' + n, tuple(got) == (lo, hi), f'holds between {m.group(2)} and {m.group(3)} items, published are {lo} and {hi}')
        if n in CONTENT: rep.check('content:' + n, re.match(r'^(\w+::)*(\w+)', m.group(1)).group(2) == CONTENT[n], f'is made of {m.group(1)}, published is {CONTENT[n]}')
        if ty in SEALED: rep.check('private:' + n, x['vis'] != 'pub', 'the container is public')
    paths = {ety(rep, t) for t in SEALED}
    for i in p.impls:
        if p.adt_name(i['self']) in paths:
            tr = LAST(i.get('trait') or '')
            if tr: rep.check('impl:' + LAST(p.adt_name(i['self'])) + ':' + tr, tr not in MUTATING, f'{i.get("trait_ref")} gives mutable access to a container')
    for f in originals(p):
        if f.j.get('vis') != 'pub' or f.j.get('derived') or '{closure' in f.name: continue
        for k, l in enumerate(f.j['locals'][:f.j.get('argc', 0) + 1]):
            t = p.ty(l[0])
            if t['k'] == 'ref' and p.adt_name(l[0]) in paths and re.match(r"&('\w+ )?mut ", t['s']) and k == 0:
                rep.bad('mutable:' + LAST(f.name), f'gives mutable access to {LAST(p.adt_name(l[0]))}', f.where())
        if f.j.get('argc') and p.adt_name(f.j['locals'][1][0]) in paths:
            r = p.ty(f.j['locals'][0][0])
            if r['k'] == 'ref': rep.check('access:' + f.name, not re.match(r"&('\w+ )?mut ", r['s']), 'gives mutable access to a container', f.where())
    for ty in SEALED[:4]:
        f, outs = rep.run(ty, 'try_from', trait='TryFrom', opts=dict(names=['inner']))
        for o in outs or ():
            if o.k == 'panic': rep.tri(f'try_from:{ty}', None if not known_conditions(o) else False, f'panics in {o.x.get("fn")}', f.where())
            if o.k != 'ret': continue
            k, v = res_parts(o)
            inner = sym('inner')
            fs = {canon(x): y for x, y in o.st.facts.items()}
            if k == 'Ok':
                v = canon(v)
                c = v.a[2][0] if v.op == 'adt' and v.a[0] == ety(rep, ty) else v
                while c.op == 'adt' and len(c.a[2]) == 1: c = c.a[2][0]
                while c.op == 'fld' and c.a[1] == 'Ok' and c.a[0].op == 'call' and LAST(c.a[0].a[0]) == 'try_from' or c.op == 'call' and LAST(c.a[0]) in ('from', 'into'): c = c.a[0].a[1][0] if c.op == 'fld' else c.a[1][0]
                rep.tri(f'try_from:{ty}', True if c is inner else None if fuzzy(c) or c.op in ('call', 'fld') else False, f'gives {pp(v)[:200]}', f.where())
            elif k == 'Err':
                m = Model(o.st.facts, o.st.neq)
                ln = T('call', 'len', (inner,), '')
                low, high = m.le(I(1), ln), m.le(ln, I(255))
                checked = any(x.op == 'discr' and y == 'Err' or x.op == 'pred' and x.a[0] == 'fits' and y == 0 and canon(x.a[1]) is inner for x, y in fs.items())
                rep.tri(f'refused:{ty}', True if checked or low is False or high is False else None if not known_conditions(o) else False,
                        f'refuses {[pp(x)[:80] + "=" + str(y) for x, y in fs.items()]}', f.where())
            else: rep.tri(f'try_from:{ty}', None, f'gives {pp(o.v)[:200]}', f.where())
    rep.floor('containers', sum(k.startswith('bounds:') for k, *_ in rep.obl), 10, 'containers')


SAFE = {'raw_writer', 'raw_reader'}
UNSAFE_TRAITS = ('TypedWrite', 'TypedRead', 'ReadRaw', 'WriteRaw')


def K02(rep):
    """The unsafe blocks of the crate's own code (macros of other crates excluded) are taken from the type-checked program together with the
    unsafe operations in them: calls of unsafe functions, dereferences of raw pointers, unions, statics, assembly.  Only the access to the raw
    writer or reader is admitted.  There are no unsafe functions and no mutable statics."""
    p = rep.p
    for b in p.d['unsafe_blocks']:
        ops = b.get('ops', [])
        bad = [x for x in ops if not (x.startswith('call ') and LAST(x[5:]) in SAFE)]
        rep.check('block:' + LAST(b['fn']), not bad, f'{b["fn"]}: unsafe {", ".join(bad)} in `{b["text"][:100]}`')
    for f in originals(p):
        if not f.j.get('unsafe'): continue
        tr = f.j.get('trait') or ''
        rep.check('function:' + LAST(f.name), LAST(tr) in UNSAFE_TRAITS, f'{f.name} is an unsafe function', f.where())
        for b in f.j['blocks']:
            c = b['t'][1] if b['t'][0] == 'call' and isinstance(b['t'][1], dict) else {}
            c = c.get('callee') or c
            if c.get('unsafe') and 'core::fmt' not in (c.get('decl') or ''): rep.check('function:' + LAST(f.name), LAST(c.get('path') or '') in SAFE or LAST(c.get('path') or '').startswith('register_'), f'{f.name} makes an unsafe call of {c.get("path")}', f.where())
    for x in p.d['statics']: rep.check('static:' + LAST(x['path']), not x['mut'], f'{x["path"]} is a mutable static')
    n = len(list(originals(p)))
    rep.ok('functions', f'{n} functions without unsafe operations besides the listed blocks')
    rep.fns |= {f.name for f in p.local()}
