"""C: compilation of libraries and assembly of type systems."""
from .common import *

S, B, C = sym('self'), sym('builder'), sym('ctx')


def tr(x): return T('tr', x)
def el(src): return T('elem', src, '_')
def mget(m, k): return T('call', 'get', (m, k), '')
def coll(src, item, how): return T('coll', T('empty', ''), src, (item,), how)
def tup(*a): return T('tup', a)


def deref_ref(owner, item, self_ty, fn):
    return item == 'translate' and (self_ty in ('Ref', 'ToRef') or self_ty.startswith('Ty<'))


def only_ref(owner, item, self_ty, fn): return item == 'translate' and self_ty == 'Ref'


def ty_table(rep):
    v = lambda var, n: fldp(S, f'{var}:{n}')
    A = lambda var, *f: fulladt(rep, 'Ty', var, *f)
    un, st, tu = v('Union', '0'), v('Struct', '0'), v('Tuple', '0')
    return {
        'Primitive': A('Primitive', v('Primitive', '0')), 'UnicodeChar': A('UnicodeChar'), 'Enum': A('Enum', v('Enum', '0')),
        'Union': A('Union', coll(un, tup(fldp(el(un), '0'), tr(fldp(el(un), '1'))), 'ins')),
        'Struct': A('Struct', coll(st, fulladt(rep, 'Field', '', fldp(el(st), 'name'), tr(fldp(el(st), 'ty'))), 'push')),
        'Tuple': A('Tuple', coll(tu, tr(el(tu)), 'push')),
        'Array': A('Array', tr(v('Array', '0')), v('Array', '1')),
        'List': A('List', tr(v('List', '0')), v('List', '1')),
        'Set': A('Set', tr(v('Set', '0')), v('Set', '1')),
        'Map': A('Map', tr(v('Map', '0')), tr(v('Map', '1')), v('Map', '2')),
    }


def ref_table(rep):
    """(target, source) -> variant -> expected Ok value"""
    v = lambda var, n, *r: fldp(S, f'{var}:{n}', *r)
    r = {}
    ext = fulladt(rep, 'ExternRef', '', v('Extern', '0', 'lib_id'), v('Extern', '0', 'sem_id'))
    for t in ('LibRef', 'InlineRef', 'InlineRef1', 'InlineRef2'):
        A = lambda var, *f: fulladt(rep, t, var, *f)
        d = {'Named': A('Named', fldp(mget(fldp(B, 'index'), v('Named', '0')), 'Some:0')), 'Extern': A('Extern', ext)}
        if t != 'InlineRef2': d['Embedded'] = A('Inline', tr(v('Embedded', '0')))
        r[(t, 'TranspileRef')] = d
    A = lambda var, *f: fulladt(rep, 'TranspileRef', var, *f)
    libname = fldp(mget(fldp(C, 'lib_index'), v('Extern', '0', 'lib_id')), 'Some:0')
    tyname = fldp(mget(fldp(mget(B, libname), 'Some:0'), v('Extern', '0', 'sem_id')), 'Some:0')
    for s in ('LibRef', 'InlineRef', 'InlineRef1', 'InlineRef2'):
        d = {'Named': A('Named', fldp(mget(fldp(C, 'reverse_index'), v('Named', '0')), 'Some:0')),
             'Extern': A('Extern', fulladt(rep, 'SymbolRef', '', libname, tyname, v('Extern', '0', 'lib_id'), v('Extern', '0', 'sem_id')))}
        if s != 'InlineRef2': d['Inline'] = A('Embedded', tr(v('Inline', '0')))
        r[('TranspileRef', s)] = d
        d = {'Named': v('Named', '0'), 'Extern': v('Extern', '0', 'sem_id')}
        if s != 'InlineRef2': d['Inline'] = None     # judged separately
        r[('SemId', s)] = d
    return r


def target_of(f):
    t = f.j.get('trait_args')
    n = f.name
    i = n.find('Translate<')
    if i < 0: return ''
    d, j = 0, i + 10
    while j < len(n):
        if n[j] == '<': d += 1
        if n[j] == '>' and d == 0: break
        if n[j] == '>': d -= 1
        j += 1
    return n[i + 10:j].split('<')[0].split('::')[-1]


def LAST(n): return n.split("::")[-1]


def translations(rep):
    r = {}
    for f in rep.p.find(item='translate', trait='Translate', identity=True):
        r[(target_of(f), rep.p.self_name(f))] = f
    return r


def C05(rep):
    """Every Translate implementation is enumerated from the impl table.  For the definitions (Ty, UnionVariants, NamedFields,
    UnnamedFields) and each kind of reference, the value returned on every successful path (loops generalised over a generic
    element, helpers inlined) must be the same structure with each reference replaced by the translation of that very
    reference: same class, names, tags, order, lengths, bounds; failing translations are propagated; each class has a
    successful path."""
    trs = translations(rep)
    n = 0
    f = trs.get(('Ty', 'Ty'))
    if f is None: rep.bad('anchor:Ty', 'the translation of type definitions is missing')
    else:
        n += judge(rep, f, 'Ty', ty_table(rep), (only_ref,))
    for (t, s), spec in ref_table(rep).items():
        f = trs.get((t, s))
        if f is None:
            rep.bad(f'anchor:{s}->{t}', 'the translation between these stages is missing')
            continue
        ops = (deref_ref, lambda owner, item, self_ty, fn: item == 'translate_inline')
        n += judge(rep, f, f'{s}->{t}', {k: v for k, v in spec.items() if v is not None}, ops)
    # embedded types entering a type system
    for (t, s), f in trs.items():
        if t != 'SemId' or s == 'InlineRef2': continue
        outs = rep.paths_of(f, names=['self', 'builder', 'ctx'], opaque=(deref_ref, 'sem_id_unnamed'))
        for o in outs or ():
            if variant_of(o, S) != 'Inline': continue
            k, v = res_parts(o)
            if k != 'Ok': continue
            n += 1
            i = fldp(S, 'Inline:0')
            vid = T('call', 'Ty::sem_id_unnamed', (i,), '')
            good = is_call(v, 'sem_id_unnamed') and v.a[1][0] is i
            rep.tri(f'{s}->SemId::Inline', True if good else False if resolved(v) else None, f'an embedded type is registered under {pp(v)[:300]}', f.where())
            ins = [e for e in deep_events(o.st.events()) if e.k == 'call' and e.name == 'insert']
            want = [e for e in ins if len(e.args) == 3 and e.args[1] is v and norm(e.args[2]) is norm(fulladt(rep, 'SymTy', '', T('adt', M.OPT, 'None', ()), tr(i)))]
            fz = any(not resolved(norm(e.args[2])) for e in ins if len(e.args) == 3)
            rep.tri(f'{s}->SemId::Inline:stored', True if want else None if fz or has_unknown_calls(o) else False, f'the embedded type is not stored: {ins}', f.where())
    # the type symbol of an id
    f = trs.get(('TypeSymbol', 'SemId'))
    if f is None: rep.bad('anchor:TypeSymbol', 'the translation from ids to symbols is missing')
    else:
        for o in rep.paths_of(f, names=['self', 'builder', 'ctx']) or ():
            k, v = res_parts(o)
            if k != 'Ok': continue
            n += 1
            vid = fldp(v, 'id') if v.op != 'adt' else v.a[2][0]
            rep.tri('SemId->TypeSymbol', True if vid is S else False if resolved(v) else None, pp(v)[:300], f.where())
            fqn = fldp(v, 'fqn') if v.op != 'adt' else v.a[2][-1]
            if fqn.op == 'adt' and fqn.a[1] == 'None':
                lost = [a for a, x in o.st.facts.items() if a.op == 'discr' and x == 'Some' and a.a[0].op == 'fld' and a.a[0].a[2] == 'fqn']
                rep.tri('SemId->TypeSymbol:name', not lost, f'a type is left without the name {pp(lost[0].a[0])[:200] if lost else ""} found for it', f.where())
    external_kept(rep, trs)
    rep.floor('translations', n, 50, 'successful translation paths')
    # whole libraries
    f, outs = rep.run('TypeLib', 'to_symbolic', opts=dict(names=['self'], opaque=(deref_ref, 'sem_id_named')))
    if outs is not None:
        m = 0
        for o, v in oks(outs):
            m += 1
            types = fldp(S, 'types')
            if v.op != 'adt':
                rep.unknown('TypeLib->SymbolicLib', pp(v)[:200])
                continue
            d = dict(zip([x['name'] for x in rep.p.adts[v.a[0]]['variants'][0]['fields']], v.a[2]))
            expect(rep, 'TypeLib->SymbolicLib:name', d.get('name'), fldp(S, 'name'), f.where())
            expect(rep, 'TypeLib->SymbolicLib:dependencies', d.get('dependencies'), fldp(S, 'dependencies'), f.where())
            expect(rep, 'TypeLib->SymbolicLib:types', d.get('types'), coll(types, tup(fldp(el(types), '0'), tr(fldp(el(types), '1'))), 'ins'), f.where())
            ctxs = [e.args[2] for e in deep_events(o.st.events()) if e.k == 'call' and e.name.endswith('translate') and len(e.args) == 3]
            for c in ctxs:
                if c.op != 'adt':
                    rep.unknown('TypeLib->SymbolicLib:context', pp(c)[:200])
                    continue
                cd = dict(zip([x['name'] for x in rep.p.adts[c.a[0]]['variants'][0]['fields']], c.a[2]))
                rev = coll(types, tup(T('call', 'Ty::sem_id_named', (fldp(el(types), '1'), fldp(el(types), '0')), ''), fldp(el(types), '0')), 'ins')
                expect(rep, 'TypeLib->SymbolicLib:reverse_index', drop_self(norm(cd.get('reverse_index'))), drop_self(norm(rev)), f.where())
                deps = fldp(S, 'dependencies')
                expect(rep, 'TypeLib->SymbolicLib:lib_index', cd.get('lib_index'), coll(deps, tup(fldp(el(deps), 'id'), fldp(el(deps), 'name')), 'ins'), f.where())
        rep.check('TypeLib->SymbolicLib', m > 0, 'no successful path', f.where())


def external_kept(rep, trs):
    """The table of external types, out of which references are given their names, is the one put into the symbolic library:
    the translation of an external reference must not take a type (or a library) out of it."""
    B, n = sym('builder'), 0
    for s in ('LibRef', 'InlineRef', 'InlineRef1', 'InlineRef2'):
        f = trs.get(('TranspileRef', s))
        if f is None: continue
        for o in rep.paths_of(f, names=['self', 'builder', 'ctx'], opaque=(deref_ref,)) or ():
            if variant_of(o, S) != 'Extern' or res_parts(o)[0] != 'Ok': continue
            n += 1
            evs = [e for e in deep_events(o.st.events()) if e.k == 'call' and e.args and isinstance(e.args[0], T) and mention(e.args[0], B)]
            puts = [e for e in evs if LAST(e.name) == 'insert' and len(e.args) == 3]
            good, why = True, ''
            for e in evs:
                nm = LAST(e.name)
                if nm in ('clear', 'retain', 'pop_first', 'pop_last', 'drain', 'split_off', 'truncate'): good, why = False, f'{nm} takes external types out of their table'
                elif nm != 'remove': continue
                elif e.args[0] is not B: good, why = False, f'an external type is taken out of the table of its library: {pp(e.args[1])[:200]}'
                else:
                    back = [x for x in puts if x.args[1] is e.args[1] and x.args[0].op == 'after']
                    if not back: good, why = (None, '') if has_unknown_calls(o) and not puts else (False, 'the external types of a library are taken out and not put back')
                    else:
                        got = [a for a, x in o.st.facts.items() if a.op == 'discr' and a.a[0].op == 'call' and LAST(a.a[0].a[0]) == 'remove' and x == 'Some']
                        if got and not any(mention(x.args[2], got[0].a[0]) for x in back): good, why = False, 'the other external types of the library are dropped'
                if good is not True: break
            rep.tri(f'{s}->TranspileRef::Extern:kept', good, why, f.where())
    rep.floor('external', n, 4, 'translations of external references')


def drop_self(t):
    """forget the static receiver type of calls"""
    memo = {}

    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x in memo: return memo[x]
        if x.op == 'call': r = T('call', x.a[0].split('::')[-1], go(x.a[1]), '')
        else: r = T(x.op, *(go(y) for y in x.a))
        memo[x] = r
        return r
    return go(t)


def has_unknown_calls(o):
    return any(e.k == 'call' and not known_event(e) for e in deep_events(o.st.events()))


KNOWN_EVENTS = {'insert', 'push', 'extend', 'with_capacity', 'translate', 'sem_id_named', 'sem_id_unnamed'}


def known_event(e): return e.name.split('::')[-1] in KNOWN_EVENTS


def judge(rep, f, key, spec, opaque):
    outs = rep.paths_of(f, key=key, names=['self', 'builder', 'ctx'], opaque=opaque)
    if outs is None: return 0
    seen, n, other = set(), 0, []
    for o in outs:
        if o.k == 'panic':
            continue
        k, v = res_parts(o)
        var = variant_of(o, S)
        if k == 'Err': continue
        if k is None:
            if var in spec: rep.unknown(f'{key}::{var}', f'result is {pp(o.v)[:200]}', f.where())
            seen.add(var)
            continue
        if var is None:
            rep.unknown(f'{key}', 'successful path for an undetermined class: ' + pp(v)[:200], f.where())
            seen |= set(spec)
            continue
        seen.add(var)
        if var not in spec: continue
        n += 1
        expect(rep, f'{key}::{var}', v, spec[var], f.where())
    for v in spec:
        if v not in seen: rep.bad(f'{key}::{v}', 'no successful path translates this class', f.where())
    return n


# ------------------------------------------------------------------ shared: collections and membership
def refs(rep): return (refs_iter(rep.p),)


def known_in(facts, coll_ok, key):
    """Is `key` known to be (True) / not to be (False) in a collection satisfying coll_ok?"""
    for a, v in facts.items():
        m = k = None
        if a.op == 'pred' and a.a[0] == 'contains': m, k, r = a.a[1], a.a[2], v == 1
        elif a.op in ('discr', 'issome') and is_call(a.a[0], 'get') and len(a.a[0].a[1]) == 2:
            m, k = a.a[0].a[1]
            r = v in ('Some', 1, True)
        if m is not None and k is key and coll_ok(m): return r
    return None


def loops_in(evs, facts=None, neq=None, parents=()):
    """(loop event, facts known around it, parents) for all loops at any depth"""
    facts, neq = facts or {}, neq or {}
    for e in evs:
        if e.k != 'loop': continue
        yield e, facts, parents
        for b in e.x['bodies']:
            f2 = dict(facts)
            f2.update(b['facts'])
            yield from loops_in(b['events'], f2, neq, parents + ((e, b),))


def over(e, term):
    """the loop iterates over the term (or its keys / values)"""
    for s in e.x['src']:
        while s.op in ('keys', 'values', 'rev', 'enumerate'): s = s.a[0]
        if s is term: return True
    return False


def elem_of(e, term): return T('elem', term, e.x['uid'])


def mention(t, term): return any(x is term for x in walk(t))


def adt_fields(rep, t):
    if t is None or t.op != 'adt' or t.a[0] not in rep.p.adts: return None
    return dict(zip([x['name'] for x in rep.p.adts[t.a[0]]['variants'][0]['fields']], t.a[2]))


def unresolved_about(o, term):
    """unknown calls or opaque adaptors which get the term and might do what we did not see"""
    for e in deep_events(o.st.events()):
        if e.k == 'call' and not known_event(e) and any(isinstance(a, T) and mention(a, term) for a in e.args): return True
        if e.k == 'loop' and any(x.op.startswith('opq') for s in e.x['src'] for x in walk(s)): return True
    # conditions on something computed from the term which was not resolved
    for a in list(o.st.facts) + list(o.st.neq):
        if mention(a, term) and any(y.op == 'unk' or y.op.startswith('opq') for y in walk(a)): return True
    return False


def finished(o, e, ctx):
    """the loop ran to its end on the path"""
    return any(a.op == 'done' and a.a[1] == e.x['uid'] for a in ctx) or not e.x['src']


def pushes(b):
    return [x for x in deep_events(b['events']) if x.k == 'call' and x.name.split('::')[-1] in ('push', 'insert', 'extend', 'push_back')]


def empty_facts(facts):
    """terms whose emptiness is known"""
    r = []
    for a, v in facts.items():
        if a.op == 'call' and a.a[0] == 'len' and v == 0: r.append(a.a[1][0])
        if a.op == 'bin' and a.a[0] == 'Eq' and v == 1 and is_call(a.a[1], 'len') and a.a[2] is I(0): r.append(a.a[1].a[1][0])
    return r


def C03(rep):
    """On every successful path of SystemBuilder::finalize (loops generalised over a generic element): the loop over all
    types and over all references of each type ran to its end, each body either knows that exactly this reference is
    contained in the types, or records an error into a collection whose emptiness is a condition of success; the same for
    the pending dependencies; the system returned is made of exactly the types checked."""
    f, outs = rep.run('SystemBuilder', 'finalize', opts=dict(names=['self'], over=refs(rep)))
    if outs is None: return
    types, pend = fldp(S, 'types'), fldp(S, 'pending_deps')
    n = 0
    for o, v in oks(outs):
        n += 1
        facts = o.st.facts
        empt = empty_facts(facts)
        cover = None
        for e, ctx, parents in loops_in(o.st.events(), dict(facts)):
            srcs = [s for s in e.x['src'] if is_call(s, 'type_refs')]
            for s in srcs:
                base = s.a[1][0]
                outer = next((p for p, _ in parents if over(p, types)), None)
                if outer is None or not mention(base, elem_of(outer, types)): continue
                key = fldp(T('elem', s, e.x['uid']), '0')
                good = True
                why = ''
                if not e.x['bodies']: good = None
                for b in e.x['bodies']:
                    fs = dict(ctx)
                    fs.update(b['facts'])
                    if known_in(fs, lambda m: m is types, key): continue
                    p = pushes(b)
                    rec = [x for x in p if any(isinstance(a, T) and mention(a, key) for a in x.args[1:])]
                    if rec and any(any(renum(y) is renum(rec[0].args[-1]) for y in walk(t)) for t in empt): continue
                    good, why = False, f'a reference passes unless {[pp(a)[:200] + "=" + str(x) for a, x in b["facts"].items()]}: not known to be contained and not reported'
                    break
                if good and not (finished(o, e, {**ctx, **dict((a, 1) for p, b in parents for a in b['facts'])}) and finished(o, outer, facts)):
                    good, why = None, 'the loop may end early'
                # every type: a body of the outer loop without the inner one leaves the references of its type unchecked
                if good:
                    ty = fldp(elem_of(outer, types), '1')
                    for b in outer.x['bodies']:
                        if any(x.k == 'loop' and any(is_call(q, 'type_refs') for q in x.x['src']) for x in deep_events(b['events'])) or pushes(b): continue
                        if any(x.k == 'call' and not known_event(x) for x in deep_events(b['events'])): good, why = None, 'a type is handed to an unknown function'
                        elif any(mention(a, fldp(ty, 'ty')) for a in b['facts']): good, why = None, 'the references of some types are not looked at'
                        else:
                            good, why = False, f'the references of a type are not checked if {[pp(a)[:200] + "=" + str(x) for a, x in b["facts"].items()]}'
                            break
                if cover is None or cover[0] is not True: cover = (good, why)
        if cover is None:
            rep.tri('finalize:references', None if unresolved_about(o, types) else False, 'the references of the contained types are not checked on a successful path', f.where())
        else: rep.tri('finalize:references', cover[0], cover[1], f.where())
        # pending dependencies
        ok = any(t is pend or any(x.op == 'coll' and x.a[1] is pend and not any(i.op == 'skip' for i in x.a[2]) for x in walk(t)) for t in empt)
        rep.tri('finalize:pending', True if ok else None if unresolved_about(o, pend) else False, 'succeeds with dependencies which were not imported', f.where())
        d = adt_fields(rep, v)
        if d is None: rep.unknown('finalize:result', pp(v)[:200], f.where())
        else:
            ts = d.get('types')
            while ts.op == 'adt' and len(ts.a[2]) == 1: ts = ts.a[2][0]
            expect(rep, 'finalize:result', ts, coll(types, tup(fldp(el(types), '0'), fldp(el(types), '1', 'ty')), 'ins'), f.where())
            sy = adt_fields(rep, d.get('symbols'))
            if sy is not None:
                expect(rep, 'finalize:libs', sy.get('libs'), coll(fldp(S, 'imported_deps'), el(fldp(S, 'imported_deps')), 'ins'), f.where())
    rep.floor('finalize', n, 1, 'successful paths of finalize')
    errs = [o for o in outs if res_parts(o)[0] == 'Err' and any(x.op == 'adt' and x.a[1] == 'InnerTypeAbsent' for x in walk(o.v))]
    for o in errs:
        for x in walk(norm(o.v)):
            if x.op == 'adt' and x.a[1] == 'InnerTypeAbsent':
                want = fldp(el(types), '0')
                rep.tri('finalize:error', True if x.a[2][1] is want else None, pp(x)[:200], f.where())


def simplify_cmp(t, v):
    """Is fact t == v contradictory? (only evident cases)"""
    if t.op == 'int': return t.a[0] != v
    if t.op == 'bin' and len(t.a) == 3:
        op, a, b = t.a
        if a is b:
            truth = op in ('Eq', 'Le', 'Ge')
            if op in ('Eq', 'Ne', 'Lt', 'Gt', 'Le', 'Ge'): return truth != bool(v)
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            r = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Gt': x > y, 'Le': x <= y, 'Ge': x >= y}.get(op)
            if r is not None: return r != bool(v)
    return False


def progress_of(rep, e, body):
    """An iteration of the unbounded loop `e`: True if it certainly removed something of what its condition is about,
    False if it certainly need not, None if undecided."""
    uid = e.x['uid']
    guard = set()
    for a in list(body['facts']) + list(body['neq']):
        for x in walk(a):
            if x.op == 'lv' and x.a[1] == uid: guard.add(x)
    inner = [x for x in body['events'] if x.k == 'loop']
    keys = {str(k): k for k in body['upd']}
    gk = [x.a[0] for x in guard if x.a[0] in keys]
    # removed directly in this body
    for g in gk:
        u = body['upd'][keys[g]]
        if u is not None and u.op == 'after' and u.a[0].split('::')[-1] in ('remove', 'pop_first', 'pop_last', 'pop', 'pop_front', 'pop_back', 'remove_entry', 'swap_remove'): return True
        if u is not None and u.op in ('tail', 'init'): return True
    hyp = {}
    found = False
    for L in inner:
        iu = L.x['uid']
        ks = {}
        for b in L.x['bodies']:
            for k, v in b['upd'].items(): ks.setdefault(k, []).append(v)
        stuck = []
        for b in L.x['bodies']:
            moved = False
            for k, v in b['upd'].items():
                if str(k) in gk and not (v is not None and v.op == 'lv' and v.a[1] == iu): moved = True
            if moved: found = True
            else: stuck.append(b)
        for k in ks:
            same = all(b['upd'].get(k) is not None and b['upd'][k].op == 'lv' and b['upd'][k].a == (str(k), iu) for b in stuck)
            if same: hyp[(str(k), iu)] = set(renum(T('acc') if v is T('lv', str(k), iu) else subst_lv(v, str(k), iu)) for v in ks[k])
    if not inner: return None

    def under(t):
        """the value when no inner iteration removed anything"""
        if isinstance(t, tuple): return tuple(under(x) for x in t)
        if not isinstance(t, T): return t
        if t.op == 'fold':
            ups = set(renum(x) for x in t.a[2])
            if any(ups <= h for h in hyp.values()): return under(t.a[0])
        if t.op == 'coll' and any(x.op == 'skip' for x in t.a[2]): pass
        na = tuple(under(x) for x in t.a)
        return t if na == t.a else T(t.op, *na)
    related = False
    for a, v in body['facts'].items():
        if simplify_cmp(under(a), v): return True
        if any(x.op in ('fold', 'coll', 'call', 'partial') for x in walk(a)) and a.op != 'done': related = True
    for a, vs in body['neq'].items():
        ua = under(a)
        if ua.op == 'int' and ua.a[0] in vs: return True
        if any(x.op == 'fold' for x in walk(a)): related = True
    if related or not found: return None
    return False


def subst_lv(v, k, uid):
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        if x.op == 'lv' and x.a == (k, uid): return T('acc')
        return T(x.op, *(go(y) for y in x.a))
    return go(v) if v is not None else T('acc')


def C01(rep):
    """Termination: every loop of SymbolicLib::compile (helpers inlined) either iterates over a finite collection or each of
    its iterations which goes back to the start provably removed something from what the loop condition examines: a path
    which goes back although no inner iteration removed anything must contradict a condition tested on that path.
    Resolution: for every kind of reference a name absent from the index makes the translation fail, on every path, and the
    names become known to the index only together with the translation of the type of that very name."""
    f, outs = rep.run('SymbolicLib', 'compile', opts=dict(names=['self'], opaque=('sem_id_named', 'translate'), over=refs(rep)))
    if outs is None: return
    seen = {}
    n = 0
    for o in outs:
        for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
            key = (e.x['uid'], e.x['label'])
            if e.x['src']:
                rep.sites += 1
                continue
            if key in seen: continue
            seen[key] = 1
            n += 1
            for i, b in enumerate(e.x['bodies']):
                v = progress_of(rep, e, b)
                rep.tri(f'compile:progress:{i}', v, 'an iteration in which no type was resolved starts over without end' if v is False else '' if v else 'progress is not evident', f.where())
    rep.check('compile:analysed', len([o for o in outs if res_parts(o)[0] == 'Ok']) > 0, 'no successful path', f.where())
    # what gets known to the index and to the result
    m = 0
    for o in outs:
        if res_parts(o)[0] != 'Ok': continue
        for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
            for b in e.x['bodies']:
                for c in b['events']:
                    if c.k == 'call' and c.name.split('::')[-1] == 'remove' and len(c.args) == 2:
                        k = c.args[1]
                        ins = [x for x in b['events'] if x.k == 'call' and x.name.split('::')[-1] == 'insert' and len(x.args) == 3 and x.args[1] is k]
                        idx, ty = [x for x in ins if is_call(x.args[2], 'sem_id_named')], [x for x in ins if is_trans_of(x.args[2], k)]
                        rep.tri('compile:registered', True if idx and ty else None if has_unknown_calls(o) and not ins else False,
                                f'a type is taken off the work list without being {"indexed" if ty else "added"} under its own name', f.where())
                    if c.k != 'call' or c.name.split('::')[-1] != 'insert' or len(c.args) != 3: continue
                    k, v = c.args[1], c.args[2]
                    if is_call(v, 'sem_id_named'):
                        m += 1
                        t, nm = v.a[1]
                        good = nm is k and is_trans_of(t, k)
                        rep.tri('compile:index', True if good else False if resolved(norm(T('tup', (v, k))), ('remove',)) or nm is not k and not fuzzy(nm) else None,
                                f'name {pp(k)[:150]} gets the id {pp(v)[:400]}', f.where())
                    elif v.op == 'fld' and is_call(v.a[0], 'translate'):
                        m += 1
                        rep.tri('compile:types', True if is_trans_of(v, k) else None, f'name {pp(k)[:150]} gets the type {pp(v)[:400]}', f.where())
    rep.floor('compile:index', m, 2, 'registrations of compiled types')
    # names which are not known
    trs = translations(rep)
    cnt = 0
    for t in ('LibRef', 'InlineRef', 'InlineRef1', 'InlineRef2'):
        g = trs.get((t, 'TranspileRef'))
        if g is None:
            rep.bad(f'anchor:{t}', 'the translation of references is missing')
            continue
        for o in rep.paths_of(g, names=['self', 'builder', 'ctx'], opaque=(deref_ref,)) or ():
            if variant_of(o, S) != 'Named': continue
            k, v = res_parts(o)
            nm = fldp(S, 'Named:0')
            known = known_in(o.st.facts, lambda m: m is fldp(B, 'index'), nm)
            cnt += 1
            if k == 'Ok': rep.tri(f'{t}:unknown-name', True if known else None if fuzzy(v) or has_unknown_calls(o) else False, f'a name is resolved to {pp(v)[:200]} though it is not known to be in the index', g.where())
            elif k == 'Err': rep.ok(f'{t}:refused')
    rep.floor('names', cnt, 8, 'paths for named references')
    # the caller gets an error: no placeholder error leaks out
    for o in outs:
        k, v = res_parts(o)
        if k == 'Err':
            leak = v.op == 'adt' and v.a[1] == 'Continue'
            rep.check('compile:error', not leak, 'the internal placeholder error is returned', f.where())


def is_trans_of(t, key):
    """t is the successful translation of the type stored under the name `key`"""
    if not (t.op == 'fld' and t.a[1] == 'Ok' and is_call(t.a[0], 'translate')): return False
    x = t.a[0].a[1][0]
    if x.op == 'fld' and x.a[1] == 'Some' and is_call(x.a[0], 'get') and x.a[0].a[1][1] is key: return True
    # taken from an iteration over (name, type)
    return key.op == 'fld' and x.op == 'fld' and key.a[0] is x.a[0] and key.a[2] == '0' and x.a[2] == '1'
