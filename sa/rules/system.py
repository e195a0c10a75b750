"""C: dependencies between libraries, additions, extraction and symbol tables."""
from .common import *
from .compiler import S, tr, el, mget, coll, tup, refs, known_in, loops_in, over, elem_of, mention, adt_fields, unresolved_about, finished, pushes, drop_self, has_unknown_calls

LAST = lambda n: n.split('::')[-1]


def eq_facts(facts, val=1):
    for a, v in facts.items():
        if a.op == 'bin' and a.a[0] == 'Eq' and v == val: yield a.a[1], a.a[2]
        if a.op == 'bin' and a.a[0] == 'Ne' and v == 1 - val: yield a.a[1], a.a[2]


def discr_is(facts, term):
    for a, v in facts.items():
        if a.op == 'discr' and a.a[0] is term: return v


def strip0(t):
    """newtypes around a name"""
    while t.op == 'fld' and t.a[2] == '0': t = t.a[0]
    while t.op == 'adt' and len(t.a[2]) == 1: t = t.a[2][0]
    while t.op == 'fld' and t.a[2] == '0': t = t.a[0]
    return t


def same_name(facts, a, b):
    """a == b is known"""
    a, b = strip0(a), strip0(b)
    return any((strip0(x) is a and strip0(y) is b) or (strip0(x) is b and strip0(y) is a) for x, y in eq_facts(facts))


def is_embedded_name(facts, name):
    """known to be the name of the library of embedded types"""
    nm = strip0(name)
    for x, y in eq_facts(facts):
        for p, q in ((x, y), (y, x)):
            if strip0(p) is nm and any(z.op == 'str' and z.a[0] == '_' or z.op == 'cparam' and '"_"' in str(z.a) for z in walk(q)): return True
    return False


def inserts(b):
    """(collection, key, value) added directly in a body"""
    for e in b['events']:
        if e.k == 'call' and LAST(e.name) in ('insert', 'push') and len(e.args) >= 2:
            yield e.args[0], e.args[1], e.args[2] if len(e.args) > 2 else None


def depcheck(rep, key, o, f, ext, deps, name_of, dep_of):
    """The loop over the libraries referred to: each of them is an embedded one, or is declared as a dependency."""
    facts = o.st.facts
    best = None
    for e, ctx, parents in loops_in(o.st.events(), dict(facts)):
        if parents or not any(mention(s, ext) for s in e.x['src']): continue
        src = e.x['src'][0]
        good, rel = True, False
        for b in e.x['bodies']:
            fs = {**ctx, **b['facts']}
            eacs = {x for a in list(fs) for x in walk(a) if x.op == 'elem' and x.a[1] == e.x['uid']}
            eacs |= {x for ev in deep_events(b['events']) if ev.k == 'call' for a in ev.args if isinstance(a, T) for x in walk(a) if x.op == 'elem' and x.a[1] == e.x['uid']}
            names = [fldp(x, '0') for x in eacs] + list(eacs)
            if any(is_embedded_name(fs, n) for n in names): continue
            ds = [x for a in fs for x in walk(a) if x.op == 'elem' and mention(x.a[0], deps) and x.a[1] != e.x['uid']]
            hit = [d for d in ds for n in names if same_name(fs, name_of(d), n)]
            if hit:
                rel = True
                ins = [v for _, k, v in inserts(b)] + [k for _, k, _ in inserts(b)]
                if not any(dep_of(h) is v for h in hit for v in ins): good = good and None
                continue
            if known_in(fs, lambda m: True, fldp(next(iter(eacs)), '0') if eacs else None) and any(known_in(fs, lambda m: True, n) for n in names): continue
            # already among those used: any(|d| d.name == lib)
            if any(same_name(fs, n, x) for n in names for p in fs for x in walk(p) if x.op == 'fld' and x.a[2] == 'name'): continue
            if any(ev.k == 'loop' for ev in b['events']) and any(same_name(b2['facts'], n, x) for ev in b['events'] if ev.k == 'loop' for b2 in ev.x['bodies'] for n in names for p in b2['facts'] for x in walk(p) if x.op == 'fld' and x.a[2] == 'name'): continue
            good = False if rel or eacs or not b['facts'] else None
            break
        if not e.x['bodies']: good = None
        if rel or good is False:
            if best is not True: best = good
    return best


def C02(rep):
    """On every successful path of LibBuilder::compile_symbols (loops generalised over a generic element): for each library
    referred to, either a declared dependency with the same name was found and recorded, or the library is the pseudo-library
    of embedded types; each type of it referred to is known to be contained in the set of types given for that dependency
    (or no set was given, through the deprecated constructor), and all references are kept in the result.  The same for the
    dependencies in SymbolicLib::compile.  The dependencies offered by a library list each of its types under its own id.
    The references made while transpiling carry the id of the type and the id of the dependency of that name."""
    kl, ext = fldp(S, 'known_libs'), fldp(S, 'extern_types')
    f, outs = rep.run('LibBuilder', 'compile_symbols', opts=dict(names=['self'], over=refs(rep)))
    n = 0
    for o, v in oks(outs or ()):
        n += 1
        facts = o.st.facts
        r = depcheck(rep, 'symbols', o, f, ext, kl, lambda d: fldp(d, '0', 'name'), lambda d: fldp(d, '0'))
        if r is None: r = None if unresolved_about(o, ext) else None
        rep.tri('symbols:declared', r, 'a library which is not a declared dependency is accepted', f.where())
        cover = None
        for e, ctx, parents in loops_in(o.st.events(), dict(facts)):
            outer = next((p for p, _ in parents if over(p, ext)), None)
            if outer is None: continue
            oe = elem_of(outer, ext)
            if not over(e, fldp(oe, '1')): continue
            key = fldp(T('elem', fldp(oe, '1'), e.x['uid']), '0')
            good, why, rel = True, '', False
            for b in e.x['bodies']:
                fs = {**ctx, **b['facts']}
                ks = [a for a, val in fs.items() if a.op == 'pred' and a.a[0] == 'contains' and val == 1 and a.a[2] is key]
                if ks:
                    rel = True
                    m = ks[0].a[1]
                    if not mention(m, kl): good, why = (None if fuzzy(m) else False), f'the type is looked up in {pp(m)[:300]}'
                    elif not mention(m, fldp(oe, '0')) and not any(same_name(fs, fldp(oe, '0'), x) for x in walk(m) if x.op == 'fld' and x.a[2] == 'name') \
                            and not any(same_name(fs, fldp(oe, '0'), fldp(x, '0', 'name')) for x in walk(m) if x.op == 'elem'):
                        good, why = (None if fuzzy(m) else False), f'the set of types is not the one of the library referred to: {pp(m)[:300]}'
                    continue
                dep = [a for a, val in fs.items() if a.op == 'discr' and val == 'None' and mention(a.a[0], kl)]
                if dep: continue
                if not e.x['bodies'] or any(x.op.startswith('opq') for a in fs for x in walk(a)): good = None
                else: good, why = False, f'a type is accepted without being looked up: {[pp(a)[:160] + "=" + str(x) for a, x in b["facts"].items()]}'
                break
            if not rel and good is True: continue
            if good and not (finished(o, outer, facts) and any(a.op == 'done' and a.a[1] == e.x['uid'] for p, b in parents for a in b['facts'])): good, why = None, 'the loop may end early'
            if cover is None or cover[0] is not True and good: cover = (good, why)
            elif good is False: cover = (good, why) if cover[0] is not True else cover
        if cover is None:
            rep.tri('symbols:contained', None if unresolved_about(o, ext) else False, 'the referred types are not looked up in the dependency', f.where())
        else: rep.tri('symbols:contained', cover[0], cover[1], f.where())
        d = adt_fields(rep, v)
        if d is None:
            rep.unknown('symbols:result', pp(v)[:200], f.where())
            continue
        expect(rep, 'symbols:name', d.get('name'), fldp(S, 'lib_name'), f.where())
        expect(rep, 'symbols:types', d.get('types'), coll(fldp(S, 'types'), el(fldp(S, 'types')), 'ins'), f.where())
        expect(rep, 'symbols:extern', d.get('extern_types'), coll(ext, tup(fldp(el(ext), '0'), coll(fldp(el(ext), '1'), el(fldp(el(ext), '1')), 'ins')), 'ins'), f.where())
        dp = norm(d.get('dependencies'))
        rep.tri('symbols:dependencies', True if mention(dp, kl) else None if not resolved(dp) else False, f'the dependencies are {pp(dp)[:300]}', f.where())
    if outs is not None:
        rep.floor('symbols', n, 1, 'successful paths of compile_symbols')
        errs = {x.a[1] for o in outs if res_parts(o)[0] == 'Err' for x in walk(o.v) if x.op == 'adt' and LAST(x.a[0]) in ('TranspileError', 'CompileError')}
        for e in ('UnknownLib', 'DependencyMissesType'): rep.check('symbols:' + e, e in errs, 'the failed check is not reported', f.where())
    # the second stage
    f, outs = rep.run('SymbolicLib', 'compile', opts=dict(names=['self'], opaque=('sem_id_named', 'translate'), over=refs(rep)))
    n = 0
    deps = fldp(S, 'dependencies')
    for o, v in oks(outs or ()):
        n += 1
        r = depcheck(rep, 'compile', o, f, ext, deps, lambda d: fldp(d, 'name'), lambda d: d)
        rep.tri('compile:declared', r, 'a library which is not a declared dependency is accepted', f.where())
        d = adt_fields(rep, v)
        if d is None: continue
        expect(rep, 'compile:name', d.get('name'), fldp(S, 'name'), f.where())
        dp = norm(d.get('dependencies'))
        rep.tri('compile:dependencies', True if mention(dp, deps) else None if not resolved(dp) else False, f'the dependencies are {pp(dp)[:300]}', f.where())
    if outs is not None:
        rep.floor('compile', n, 1, 'successful paths of compile')
        errs = {x.a[1] for o in outs if res_parts(o)[0] == 'Err' for x in walk(o.v) if x.op == 'adt' and LAST(x.a[0]) == 'CompileError'}
        rep.check('compile:UnknownLib', 'UnknownLib' in errs, 'an undeclared library is not reported', f.where())
    # what a dependency offers
    f, outs = rep.run('TypeLib', 'to_dependency_types', opts=dict(names=['self'], opaque=('sem_id_named', 'id', 'to_dependency')))
    ts = fldp(S, 'types')
    for o in outs or ():
        if o.k != 'ret' or o.v.op != 'tup': continue
        dep, ids = o.v.a[0]
        expect(rep, 'offer:ids', drop_self(norm(ids)), drop_self(norm(coll(ts, T('call', 'Ty::sem_id_named', (fldp(el(ts), '1'), fldp(el(ts), '0')), ''), 'ins'))), f.where())
        if is_call(dep, 'to_dependency'): rep.ok('offer:dependency')
        else: expect(rep, 'offer:dependency', drop_self(norm(dep)), drop_self(norm(fulladt(rep, 'Dependency', '', T('call', 'TypeLib::id', (S,), ''), fldp(S, 'name')))), f.where())
    for item, st, arg in (('to_dependency', 'TypeLib', 'self'), ('from', 'Dependency', 'lib')):
        f, outs = rep.run(st, item, opts=dict(names=[arg], opaque=('id',)))
        A = sym(arg)
        for o in outs or ():
            if o.k == 'ret': expect(rep, f'offer:{item}', drop_self(norm(o.v)), drop_self(norm(fulladt(rep, 'Dependency', '', T('call', 'TypeLib::id', (A,), ''), fldp(A, 'name')))), f.where())
    # references made while transpiling
    f, outs = rep.run('LibBuilder', 'compile_type', opts=dict(names=['self', 'value'], opaque=('strict_encode', 'id')))
    n = 0
    for o in outs or ():
        if o.k != 'ret' or o.v.op != 'tup': continue
        r = o.v.a[0][1]
        if r.op == 'adt' and r.a[1] == 'Extern':
            n += 1
            d = adt_fields(rep, r.a[2][0]) or {}
            sid, lid, lib, nm = d.get('sem_id'), d.get('lib_id'), d.get('lib_name'), d.get('ty_name')
            if sid is None:
                vals = r.a[2][0].a[2] if r.a[2][0].op == 'adt' else ()
                if len(vals) == 4: lib, nm, lid, sid = vals
            if sid is None:
                rep.unknown('reference', pp(r)[:200], f.where())
                continue
            rep.tri('reference:sem_id', True if is_call(sid, 'id') else None if not resolved(sid, ('strict_encode',)) else False, f'an external reference carries the id {pp(sid)[:200]}', f.where())
            good = lid.op == 'fld' and lid.a[2] == 'id' and same_name(o.st.facts, fldp(lid.a[0], 'name'), lib)
            rep.tri('reference:lib_id', True if good else None if fuzzy(lid) or has_calls(lid, ('dependency_id',)) else False, f'library {pp(lib)[:150]} gets the id {pp(lid)[:200]}', f.where())
        elif r.op == 'adt' and r.a[1] == 'Named':
            n += 1
            own = any(mention(x, fldp(S, 'lib_name')) or mention(y, fldp(S, 'lib_name')) for x, y in eq_facts(o.st.facts))
            have = known_in(o.st.facts, lambda m: m is fldp(S, 'types'), r.a[2][0])
            rep.tri('reference:named', True if own and have else None if fuzzy(o.v) or not any(mention(a, S) for a in o.st.facts) else False, 'a type is referred to by name though it is not known to be defined in this very library', f.where())
    if outs is not None: rep.floor('reference', n, 2, 'references made by name')
    f, outs = rep.run('LibBuilder', 'report_compiled', opts=dict(names=['self', 'lib', 'name', 'ty'], opaque=('sem_id_named', 'dependency_id')))
    n = 0
    for o in outs or ():
        if o.k != 'ret': continue
        rr = [x for x in walk(o.v) if x.op == 'adt' and LAST(x.a[0]) == 'TranspileRef']
        for r in rr:
            if r.a[1] != 'Extern': continue
            n += 1
            vals = r.a[2][0].a[2] if r.a[2][0].op == 'adt' else ()
            if len(vals) != 4: continue
            want = T('call', 'Ty::sem_id_named', (sym('ty'), fldp(sym('name'), 'Some:0')), '')
            good = drop_self(vals[3]) is drop_self(want)
            rep.tri('report:sem_id', True if good else None if not resolved(vals[3]) else False, pp(vals[3])[:300], f.where())
            rep.tri('report:lib', True if vals[0] is sym('lib') and vals[1] is fldp(sym('name'), 'Some:0') else None if fuzzy(r) else False, pp(r)[:300], f.where())
            rep.tri('report:lib_id', True if is_call(vals[2], 'dependency_id') and vals[2].a[1][1] is sym('lib') else None if not resolved(vals[2], ('dependency_id',)) else False, pp(vals[2])[:300], f.where())
            ins = [e for e in deep_events(o.st.events()) if e.k == 'call' and LAST(e.name) == 'insert' and len(e.args) == 3]
            ok = any(drop_self(e.args[1]) is drop_self(want) and e.args[2] is fldp(sym('name'), 'Some:0') and mention(e.args[0], fldp(S, 'extern_types')) and mention(e.args[0], sym('lib')) for e in ins)
            rep.tri('report:recorded', True if ok else None if has_unknown_calls(o) and any(e.name.split('::')[-1] not in ('entry', 'or_default', 'or_insert_with', 'dependency_id') for e in deep_events(o.st.events()) if e.k == 'call' and LAST(e.name) not in ('insert', 'sem_id_named')) else False,
                    'the external type is not recorded for the check against the dependency', f.where())
    if outs is not None: rep.floor('report', n, 1, 'external types recorded')
    f, outs = rep.run('LibBuilder', 'dependency_id', opts=dict(names=['self', 'lib_name']))
    for o in outs or ():
        if o.k != 'ret': continue
        v = o.v
        good = v.op == 'fld' and v.a[2] == 'id' and same_name(o.st.facts, fldp(v.a[0], 'name'), sym('lib_name'))
        rep.tri('dependency_id', True if good else None if fuzzy(v) or v.op != 'fld' or has_opq_facts(o) else False, f'the id given is {pp(v)[:200]}', f.where())


def has_opq_facts(o): return any(x.op.startswith('opq') for a in o.st.facts for x in walk(a))


def has_calls(t, names): return any(x.op == 'call' and LAST(x.a[0]) in names for x in walk(t))


def absent_by_loop(o, coll_f, key):
    """all entries were compared with the key, and none is equal"""
    for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
        if parents or not over(e, coll_f) or not finished(o, e, ctx): continue
        x = elem_of(e, coll_f)
        if e.x['bodies'] and all(any(mention(p, x) and mention(q, key) or mention(q, x) and mention(p, key) for p, q in eq_facts(b['facts'], 0)) for b in e.x['bodies']): return True
    return False


def adder(rep, key, st, item, names, coll_f, keyname, err, also_equal=False, trait=None, opaque=()):
    """A function adding an entry: a successful path knows that the key is absent (or that the present entry is equal)."""
    f, outs = rep.run(st, item, *([trait] if trait else []), opts=dict(names=names, opaque=opaque))
    if outs is None: return
    n = 0
    for o in outs:
        k, v = res_parts(o)
        if k == 'Err' or o.k != 'ret': continue
        adds = [e for e in deep_events(o.st.events()) if e.k == 'call' and LAST(e.name) in ('insert', 'push', 'extend') and e.args and e.args[0] is coll_f]
        for e in adds:
            n += 1
            kk = e.args[1]
            kn = known_in(o.st.facts, lambda m: m is coll_f, kk)
            eq = any((x is mval and y is e.args[2]) or (y is mval and x is e.args[2]) for x, y in eq_facts(o.st.facts) for mval in [fldp(mget(coll_f, kk), 'Some:0')]) if len(e.args) > 2 else False
            checked = any(mention(a, coll_f) and (a.op in ('pred', 'discr', 'issome')) and a.a[0] != 'full' for a in o.st.facts)
            if kn is None and absent_by_loop(o, coll_f, kk): kn = False
            good = True if kn is False or eq else False if kn is True or not checked and not has_unknown_calls(o) else None
            rep.tri(f'{key}:{item}', good, f'adds an entry under {pp(kk)[:100]} ' + ('which is present' if kn else 'without a check for a present one'), f.where())
        if not adds:
            kn = [a for a, v2 in o.st.facts.items() if a.op == 'pred' and a.a[0] == 'contains' and v2 == 1 or a.op == 'discr' and v2 == 'Some']
            same = any(True for x, y in eq_facts(o.st.facts))
            rep.tri(f'{key}:{item}:lost', True if same else None if has_unknown_calls(o) else False, 'succeeds without adding the entry', f.where())
    rep.floor(f'{key}:{item}', n, 1, 'additions')
    if err:
        errs = {x.a[1] for o in outs if res_parts(o)[0] == 'Err' for x in walk(o.v) if x.op == 'adt'}
        rep.check(f'{key}:{item}:error', err in errs, 'a repeated entry is not reported', f.where())


def C04(rep):
    """Every function which adds an entry to a library, a builder or a symbol table is run over abstract paths: an entry is
    added only where the key is known to be absent, or the present entry is known to be equal, or the value is determined by
    the key (types under their own semantic id); otherwise an error is returned.  SystemBuilder::import takes the library
    off the pending ones, records it as imported and notes all of its dependencies which are not imported yet."""
    adder(rep, 'lib', 'TypeLib', 'import', ['self', 'dependency'], fldp(S, 'dependencies'), 'dependency', 'DuplicatedDependency')
    adder(rep, 'lib', 'TypeLib', 'populate', ['self', 'name', 'ty'], fldp(S, 'types'), 'name', 'DuplicateName')
    adder(rep, 'symbols', 'Symbols', 'update_unchecked', ['self', 'sem_id', 'orig'], fldp(S, 'symbols'), 'sym', 'RepeatedType')
    # types reported to the library builder
    f, outs = rep.run('LibBuilder', 'report_compiled', opts=dict(names=['self', 'lib', 'name', 'ty'], opaque=('sem_id_named', 'dependency_id')))
    n = 0
    types, nm = fldp(S, 'types'), fldp(sym('name'), 'Some:0')
    for o in outs or ():
        if o.k != 'ret': continue
        for e in deep_events(o.st.events()):
            if e.k == 'call' and LAST(e.name) == 'insert' and e.args and e.args[0] is types:
                n += 1
                kn = known_in(o.st.facts, lambda m: m is types, e.args[1])
                eq = any(sym('ty') in (x, y) and fldp(mget(types, nm), 'Some:0') in (x, y) for x, y in eq_facts(o.st.facts))
                rep.tri('builder:types', True if kn is False or eq else False if kn is True or not any(mention(a, types) for a in o.st.facts) and not has_unknown_calls(o) else None, 'a type is overwritten by a different one of the same name', f.where())
                rep.tri('builder:key', True if e.args[1] is nm and e.args[2] is sym('ty') else None if fuzzy(e.args[1]) else False, f'{pp(e.args[1])[:100]} := {pp(e.args[2])[:100]}', f.where())
    if outs is not None: rep.floor('builder', n, 1, 'types added to a library builder')
    # import of a library into a system
    f, outs = rep.run('SystemBuilder', 'import', opts=dict(names=['self', 'lib'], opaque=('translate', 'sem_id_named', 'id')))
    L = sym('lib')
    pend, imp, deps, lt = fldp(S, 'pending_deps'), fldp(S, 'imported_deps'), fldp(L, 'dependencies'), fldp(L, 'types')
    dep = drop_self(norm(fulladt(rep, 'Dependency', '', T('call', 'TypeLib::id', (L,), ''), fldp(L, 'name'))))
    isdep = lambda t: drop_self(norm(t)) is dep
    n = 0
    for o, v in oks(outs or ()):
        n += 1
        evs = list(deep_events(o.st.events()))
        unk = any(e.k == 'call' and not any(isinstance(a, T) for a in e.args) for e in evs)
        rm = [e for e in evs if e.k == 'call' and LAST(e.name) in ('remove', 'take', 'retain') and e.args and e.args[0] is pend]
        rep.tri('import:pending-removed', True if any(isdep(e.args[1]) for e in rm) else None if rm or filtered(v, pend) else False, 'the imported library stays among the pending dependencies', f.where())
        ai = [e for e in evs if e.k == 'call' and LAST(e.name) in ('insert', 'push', 'extend') and e.args and mention(e.args[0], imp)]
        rep.tri('import:imported', True if any(isdep(e.args[1]) for e in ai) else None if any(fuzzy(e.args[1]) for e in ai) else False, 'the imported library is not recorded', f.where())
        # its dependencies
        good = None
        for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
            if not over(e, deps): continue
            x = elem_of(e, deps)
            good = True
            for b in e.x['bodies']:
                added = any(u is not None and u.op in ('ins', 'push') and u.a[1] is x for u in b['upd'].values()) or any(isinstance(u, T) and any(y.op in ('ins', 'push') and y.a[1] is x for y in walk(u)) for u in b['upd'].values()) \
                    or any(k is x for _, k, _ in inserts(b))
                if added: continue
                if known_in({**ctx, **b['facts']}, lambda m: mention(m, imp) or any(y.op == 'lv' for y in walk(m)) or mention(m, pend), x): continue
                good = False
        colls = [x for x in walk(v) if x.op == 'coll' and mention(x.a[1], deps) and mention(x.a[0], pend)]
        flds = [x for x in walk(v) if x.op in ('coll', 'fold') and mention(x.a[1], deps)]
        if good is None: rep.tri('import:dependencies', None if any(mention(a, deps) for e in evs if e.k == 'call' for a in e.args if isinstance(a, T)) else False, 'the dependencies of an imported library are not noted', f.where())
        else: rep.tri('import:dependencies', True if good and (colls or flds) else None if good else False, 'a dependency is skipped though it is not imported', f.where())
        # its types
        m = 0
        for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
            if not over(e, lt): continue
            x = elem_of(e, lt)
            for b in e.x['bodies']:
                want = T('call', 'Ty::sem_id_named', (fldp(x, '1'), fldp(x, '0')), '')
                ins = [(c, k, val) for c, k, val in inserts(b) if val is not None and drop_self(k) is drop_self(want)]
                fs = {**ctx, **b['facts']}
                if not ins:
                    pres = [a for a in b['facts'] if mention(drop_self(a), drop_self(want))]
                    rep.tri('import:types', None if pres or has_opq_facts(o) else False, 'a type of the library is not added', f.where())
                    continue
                m += 1
                c, k, val = ins[0]
                sy = adt_fields(rep, val)
                if sy is None:
                    rep.unknown('import:entry', pp(val)[:200], f.where())
                    continue
                ty = sy.get('ty')
                isok = ty.op == 'fld' and ty.a[1] == 'Ok' and is_call(ty.a[0], 'translate') and ty.a[0].a[1][0] is fldp(x, '1')
                rep.tri('import:entry', True if isok else None if not resolved(norm(ty)) else False, f'the type stored is {pp(ty)[:200]}', f.where())
                kn = known_in(fs, lambda mm: True, k)
                absent = kn is False
                eq = any(fldp(mget(c, k), 'Some:0') in (p, q) or any(is_call(z, 'get') for z in walk(p)) for p, q in eq_facts(b['facts']))
                rep.tri('import:symbol', True if absent or eq else None if kn is None and any(mention(drop_self(a), drop_self(want)) for a in b['facts']) and not kn else False,
                        'the symbol (library and name) of an equal named type of another library is overwritten', f.where())
        rep.tri('import:all', True if m else None, 'no loop over the types of the library', f.where())
    if outs is not None: rep.floor('import', n, 1, 'successful imports')
    f, outs = rep.run('SystemBuilder', 'import', opts=dict(names=['self', 'lib'], opaque=('translate', 'sem_id_named', 'id')))
    # assembling of the symbolic system
    f, outs = rep.run('SymbolicSys', 'with', opts=dict(names=['libs', 'types']))
    n = 0
    ty = sym('types')
    for o, v in oks(outs or ()):
        n += 1
        d = adt_fields(rep, v) or {}
        s = adt_fields(rep, d.get('symbols')) if d.get('symbols') is not None else None
        t = d.get('types')
        if t is not None and s is not None:
            while t.op == 'adt' and len(t.a[2]) == 1: t = t.a[2][0]
            expect(rep, 'system:types', t, coll(ty, tup(fldp(el(ty), '0'), fldp(el(ty), '1', 'ty')), 'ins'), f.where())
            expect(rep, 'system:symbols', s.get('symbols'), coll(ty, fulladt(rep, 'TypeSymbol', '', fldp(el(ty), '0'), fldp(el(ty), '1', 'orig')), 'push'), f.where())
            expect(rep, 'system:libs', s.get('libs'), coll(sym('libs'), el(sym('libs')), 'ins'), f.where())
    if outs is not None: rep.floor('system', n, 1, 'successful assemblies')
    # merging of systems
    f, outs = rep.run('TypeSystem', 'extend', opts=dict(names=['self', 'other']))
    n = 0
    for o in outs or ():
        k, v = res_parts(o)
        if k != 'Ok': continue
        n += 1
        evs = [e for e in deep_events(o.st.events()) if e.k == 'call' and LAST(e.name) in ('extend', 'insert')]
        src = fldp(sym('other'), '0')
        good = any(LAST(e.name) == 'extend' and e.args[0] is fldp(S, '0') and e.args[1].op == 'iter' and e.args[1].a[0] is src for e in evs)
        if not good:
            for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
                if over(e, src):
                    x = elem_of(e, src)
                    good = all(any(k2 is fldp(x, '0') and v2 is fldp(x, '1') for _, k2, v2 in inserts(b)) or known_in({**ctx, **b['facts']}, lambda mm: True, fldp(x, '0')) for b in e.x['bodies'])
        rep.tri('merge', True if good else None if evs else False, 'entries of the merged system are lost', f.where())
    if outs is not None: rep.floor('merge', n, 1, 'successful merges')


def filtered(v, pend):
    """the pending dependencies are filtered in some way"""
    return v is not None and any(x.op in ('coll', 'fold') and mention(x.a[1], pend) or x.op.startswith('opq') for x in walk(v))


POPS = {'pop', 'pop_first', 'pop_last', 'pop_front', 'pop_back'}


def C06(rep):
    """TypeSystem::extract, generalised over a generic iteration of its work list: the id taken is looked up in this system
    and a missing one is returned as an error; all references of the type go to the work list, except for those known to be
    collected already; the type is collected unchanged under its own id; success is possible only with an empty work list;
    the work list starts with all requested ids.  Termination: an id which is collected is never put on the list again."""
    f, outs = rep.run('TypeSystem', 'extract', opts=dict(names=['self', 'ids'], over=refs(rep)))
    if outs is None: return
    own = fldp(S, '0')
    n = 0
    for o, v in oks(outs):
        n += 1
        evs = o.st.events()
        loops = [e for e in evs if e.k == 'loop' and not e.x['src']]
        if len(loops) != 1:
            rep.unknown('extract', f'{len(loops)} work list loops', f.where())
            continue
        L = loops[0]
        uid = L.x['uid']
        results = []
        for b in L.x['bodies']:
            fs = b['facts']
            taken = [fldp(c, 'Some:0') for c in {x for a in list(fs) + [y for u in b['upd'].values() if isinstance(u, T) for y in (u,)] for x in walk(a) if x.op == 'call' and LAST(x.a[0]) in POPS and any(z.op == 'lv' and z.a[1] == uid for z in walk(x))}]
            if len(taken) != 1:
                rep.unknown('extract:taken', f'{len(taken)} ids taken in one iteration', f.where())
                continue
            ident = taken[0]
            w = next(z for z in walk(ident) if z.op == 'lv' and z.a[1] == uid)
            wkey = w.a[0]
            known = mget(own, ident)
            have = discr_is(fs, known) == 'Some' or known_in(fs, lambda m: m is own, ident)
            upd = {str(k): u for k, u in b['upd'].items()}
            if not have:
                dup = known_in(fs, lambda m: m is not own, ident)
                rep.tri('extract:lookup', True if dup else None if has_opq_facts(o) else False, 'an id taken from the list is dropped without being looked up in the system', f.where())
                continue
            ty = fldp(known, 'Some:0')
            u = upd.get(wkey)
            adds = [x for x in walk(u) if x.op == 'coll' and x.a[1].op == 'call' and x.a[1].a[0] == 'type_refs' and x.a[1].a[1][0] is ty] if u is not None else []
            seen_before = known_in(fs, lambda m: m is not own and any(z.op == 'lv' for z in walk(m)), ident)
            if not adds:
                fz = u is None or any(x.op.startswith('opq') or x.op in ('fold', 'after') and not (x.op == 'after' and LAST(x.a[0].split('#')[0]) in POPS) for x in walk(u))
                fz = fz and u is not None
                rep.tri('extract:references', True if seen_before else None if fz else False, 'the references of a collected type are not followed', f.where())
            for x in adds[:1]:
                each = [i for i in x.a[2] if i.op != 'skip']
                good = bool(each) and all(i.op == 'fld' and i.a[2] == '0' and i.a[0].op == 'elem' for i in each)
                rep.tri('extract:references', True if good else None if any(fuzzy(i) for i in each) else False, f'the ids put on the list are {pp(T("tup", tuple(each)))[:200]}', f.where())
                if any(i.op == 'skip' for i in x.a[2]):
                    for e2, ctx, parents in loops_in(b['events'], dict(fs)):
                        if x.a[1] not in e2.x['src']: continue
                        key = fldp(T('elem', x.a[1], e2.x['uid']), '0')
                        for b2 in e2.x['bodies']:
                            if any(isinstance(q, T) and any(y.op in ('ins', 'push') and y.a[1] is key for y in walk(q)) for q in b2['upd'].values()): continue
                            if any(k2 is key for _, k2, _ in inserts(b2)): continue
                            ok = known_in({**ctx, **b2['facts']}, lambda m: m is not own and any(z.op == 'lv' and z.a[1] == uid for z in walk(m)), key)
                            rep.tri('extract:skipped', True if ok else None if any(z.op.startswith('opq') for a in b2['facts'] for z in walk(a)) else False, 'a reference is skipped though it is not known to be collected', f.where())
            # membership sets only hold collected ids, the result holds the own types
            for k, q in upd.items():
                if k == wkey or q is None: continue
                if q.op == 'ins' and q.a[0].op == 'lv' and q.a[0].a[0] == k:
                    item = q.a[1]
                    if item is ident: continue
                    if item.op == 'tup':
                        good = len(item.a[0]) == 2 and item.a[0][0] is ident and item.a[0][1] is ty
                        results.append(k)
                        rep.tri('extract:entry', True if good else None if not resolved(item, POPS) else False, f'collected as {pp(item)[:300]}', f.where())
            if not any(isinstance(q, T) and q.op == 'ins' and q.a[1].op == 'tup' for k, q in upd.items() if k != wkey):
                rep.tri('extract:collected', True if seen_before else None if any(isinstance(q, T) and (fuzzy(q) or q.op == 'upd') for q in upd.values()) else False, 'the type taken from the list is not collected', f.where())
        # the end of the list
        ends = [a for a, val in o.st.facts.items() if a.op == 'discr' and val == 'None' and a.a[0].op == 'call' and LAST(a.a[0].a[0]) in POPS] + [a for a, val in o.st.facts.items() if is_call(a, 'len') and val == 0]
        miss = [a for a, val in o.st.facts.items() if a.op == 'discr' and is_call(a.a[0], 'get') and a.a[0].a[1][0] is own and val == 'None']
        rep.tri('extract:complete', False if miss or not ends and not has_opq_facts(o) and not any(a.op in ('bin', 'pred') for a in o.st.facts) else True if ends else None, 'success although a type is missing or the list is not empty', f.where())
        ids = sym('ids')
        start = [x for a in ends for x in walk(a) if x.op == 'coll' and x.a[1] is ids]
        if start: rep.tri('extract:start', False if any(i.op == 'skip' for i in start[0].a[2]) else True, 'not all requested ids are looked for', f.where())
        t = v
        while t.op == 'adt' and len(t.a[2]) == 1: t = t.a[2][0]
        rep.tri('extract:result', True if t.op in ('coll', 'fold') and not any(i.op == 'skip' for i in (t.a[2] if t.op == 'coll' else ())) else None, pp(t)[:200], f.where())
    rep.floor('extract', n, 1, 'successful paths of extract')
    errs = [x for o in outs if res_parts(o)[0] == 'Err' for x in walk(o.v) if x.op == 'adt' and LAST(x.a[0]) == 'UnknownType']
    rep.check('extract:error', bool(errs), 'a missing type is not reported', f.where())
    for x in errs:
        t = x.a[2][0]
        rep.tri('extract:error-id', True if t.op == 'fld' and t.a[0].op == 'call' and LAST(t.a[0].a[0]) in POPS else None, pp(t)[:100], f.where())


def C07(rep):
    """Lookups in symbol tables run over abstract paths: an entry is returned only where its name (id) is known to equal the
    one asked for, `None` only after all entries were compared; symbolic systems and type trees resolve a name first and then
    look up that id; the symbol of an imported type is made of the name of its library, its own name and its own id."""
    syms = fldp(S, 'symbols')
    f, outs = rep.run('Symbols', 'get', opts=dict(names=['self', 'spec']))
    finder(rep, 'get', f, outs, syms, lambda x: [fldp(x, 'fqn'), fldp(x, 'fqn', 'Some:0')], lambda x: [fldp(x, 'id')], sym('spec'))
    f, outs = rep.run('Symbols', 'lookup', opts=dict(names=['self', 'sem_id']))
    finder(rep, 'lookup', f, outs, syms, lambda x: [fldp(x, 'id')], lambda x: [fldp(x, 'fqn'), fldp(x, 'fqn', 'Some:0')], sym('sem_id'))
    f, outs = rep.run('SymbolicSys', 'resolve', opts=dict(names=['self', 'fqn'], opaque=('get',)))
    for o in outs or ():
        if o.k == 'ret': rep.tri('resolve', True if is_call(o.v, 'get') and o.v.a[1][0] is syms and mention(o.v, sym('fqn')) else None if fuzzy(o.v) else False, pp(o.v)[:200], f.where())
    f, outs = rep.run('SymbolicSys', 'lookup', opts=dict(names=['self', 'sem_id'], opaque=('lookup',)))
    for o in outs or ():
        if o.k == 'ret': rep.tri('lookup', True if is_call(o.v, 'lookup') and o.v.a[1][0] is syms and o.v.a[1][1] is sym('sem_id') else None if fuzzy(o.v) else False, pp(o.v)[:200], f.where())
    f, outs = rep.run('SymbolicSys', 'to_sem_id', opts=dict(names=['self', 'spec'], opaque=('resolve',)))
    seen = set()
    for o in outs or ():
        if o.k != 'ret': continue
        var = [(a.a[0], v) for a, v in o.st.facts.items() if a.op == 'discr' and v in ('Fqn', 'SemId')]
        if not var:
            rep.unknown('to_sem_id', pp(o.v)[:200], f.where())
            continue
        b, var = var[0]
        seen.add(var)
        v = o.v
        if var == 'SemId': good = v.op == 'adt' and v.a[1] == 'Some' and v.a[2][0] is fldp(b, 'SemId:0')
        else:
            while v.op == 'adt' and v.a[1] == 'Some': v = v.a[2][0]
            while v.op == 'fld' and v.a[1] == 'Some': v = v.a[0]
            good = is_call(v, 'resolve') and mention(v, fldp(b, 'Fqn:0'))
            if v.op == 'adt' and v.a[1] == 'None': good = any(a.op == 'discr' and val == 'None' and is_call(a.a[0], 'resolve') for a, val in o.st.facts.items())
        rep.tri(f'to_sem_id:{var}', True if good else None if not resolved(v, ('resolve', 'into')) else False, pp(o.v)[:200], f.where())
    if outs is not None: rep.floor('to_sem_id', len(seen), 2, 'kinds of type specifications')
    for item in ('get', 'type_tree'):
        f, outs = rep.run('SymbolicSys', item, opts=dict(names=['self', 'spec'], opaque=('to_sem_id',)))
        n = 0
        for o in outs or ():
            if o.k != 'ret': continue
            ids = [x for a in list(o.st.facts) + [o.v] for x in walk(a) if is_call(x, 'to_sem_id')]
            if not ids:
                rep.tri(item, None if fuzzy(o.v) else False, f'gives {pp(o.v)[:200]} without resolving the specification', f.where())
                continue
            i = fldp(ids[0], 'Some:0')
            v = o.v
            ts = fldp(S, 'types', '0')
            none = v.op == 'adt' and v.a[1] == 'None'
            if none:
                good = discr_is(o.st.facts, ids[0]) == 'None' or known_in(o.st.facts, lambda m: m is ts, i) is False
                rep.tri(f'{item}:none', True if good else None if has_opq_facts(o) else False, 'nothing is returned for a known type', f.where())
            elif item == 'get':
                n += 1
                if v.op == 'adt' and v.a[1] == 'Some': v = v.a[2][0]
                if v.op == 'fld' and v.a[1] == 'Some': v = v.a[0]
                rep.tri('get', True if v is mget(ts, i) else None if not resolved(v, ('to_sem_id',)) else False, pp(o.v)[:200], f.where())
            else:
                n += 1
                good = v.op == 'adt' and v.a[2] and v.a[2][0].op == 'adt' and v.a[2][0].a[2][0] is i and S in v.a[2][0].a[2]
                kn = known_in(o.st.facts, lambda m: m is ts, i)
                rep.tri('type_tree', True if good and kn else None if not resolved(v, ('to_sem_id',)) else False, f'{pp(o.v)[:200]}' + ('' if kn else ' for a type which is not known to be contained'), f.where())
        if outs is not None: rep.floor(item, n, 1, 'results')
    f, outs = rep.run('TypeSystem', 'get', opts=dict(names=['self', 'sem_id']))
    for o in outs or ():
        v = o.v
        if o.k == 'ret': rep.tri('types:get', True if v is mget(fldp(S, '0'), sym('sem_id')) or v.op == 'adt' and (not v.a[2] or v.a[2][0] is fldp(mget(fldp(S, '0'), sym('sem_id')), 'Some:0')) else None if not resolved(v) else False, pp(v)[:200], f.where())
    for st, item, names, exp in (
            ('TypeFqn', 'with', ['lib', 'name'], lambda: (('lib', sym('lib')), ('name', sym('name')))),
            ('SymTy', 'named', ['lib_name', 'ty_name', 'ty'], lambda: (('orig.lib', sym('lib_name')), ('orig.name', sym('ty_name')), ('ty', sym('ty')))),
            ('SymTy', 'unnamed', ['ty'], lambda: (('ty', sym('ty')),)),
            ('TypeSymbol', 'with', ['id', 'fqn'], lambda: (('id', sym('id')), ('fqn', sym('fqn')))),
            ('TypeSymbol', 'unnamed', ['id'], lambda: (('id', sym('id')),)),
            ('TypeSymbol', 'named', ['id', 'lib', 'name'], lambda: (('id', sym('id')), ('fqn.lib', sym('lib')), ('fqn.name', sym('name')))),
            ('SymbolicSys', 'new', ['types', 'symbols'], lambda: (('types', sym('types')), ('symbols', sym('symbols'))))):
        f, outs = rep.run(st, item, opts=dict(names=names))
        for o in outs or ():
            if o.k != 'ret': continue
            for path, e in exp():
                t = o.v
                for p in path.split('.'):
                    d = adt_fields(rep, t) if t is not None else None
                    t = d.get(p) if d else None
                    if t is not None and t.op == 'adt' and t.a[1] == 'Some': t = t.a[2][0]
                if t is not None and is_call(t, 'into') and t.a[1]: t = t.a[1][0]
                if t is None: rep.unknown(f'{st}::{item}:{path}', pp(o.v)[:200], f.where())
                else: rep.tri(f'{st}::{item}:{path}', True if t is e else None if not resolved(t, ('into',)) else False, pp(o.v)[:200], f.where())
    # a symbol imported with a library
    f, outs = rep.run('SystemBuilder', 'import', opts=dict(names=['self', 'lib'], opaque=('translate', 'sem_id_named', 'id')))
    L = sym('lib')
    lt = fldp(L, 'types')
    n = 0
    for o, v in oks(outs or ()):
        for e, ctx, parents in loops_in(o.st.events(), dict(o.st.facts)):
            if not over(e, lt): continue
            x = elem_of(e, lt)
            for b in e.x['bodies']:
                for c, k, val in inserts(b):
                    d = adt_fields(rep, val) if val is not None else None
                    if not d or 'orig' not in d: continue
                    n += 1
                    want = T('call', 'Ty::sem_id_named', (fldp(x, '1'), fldp(x, '0')), '')
                    rep.tri('import:id', True if drop_self(k) is drop_self(want) else None if not resolved(norm(k)) else False, f'stored under {pp(k)[:200]}', f.where())
                    og = d['orig']
                    if og.op == 'adt' and og.a[1] == 'Some': og = og.a[2][0]
                    q = adt_fields(rep, og) or {}
                    rep.tri('import:name', True if q.get('lib') is fldp(L, 'name') and q.get('name') is fldp(x, '0') else None if not resolved(norm(og)) else False, f'the symbol is {pp(og)[:200]}', f.where())
    if outs is not None: rep.floor('import', n, 1, 'imported symbols')
    # one name, one id
    f, outs = rep.run('Symbols', 'update_unchecked', opts=dict(names=['self', 'sem_id', 'orig']))
    n = 0
    for o in outs or ():
        if res_parts(o)[0] != 'Ok': continue
        n += 1
        cmp_names = any(any(x.op == 'fld' and x.a[2] == 'fqn' for x in walk(a)) and mention(a, sym('orig')) for a in all_facts(o))
        rep.tri('symbols:unique-names', True if cmp_names else False if not has_opq_facts(o) else None, 'two types of one name (of two versions of a library) can be registered: the name resolves to only one of them', f.where())


def all_facts(o):
    for a in o.st.facts: yield a
    for e, ctx, p in loops_in(o.st.events(), {}):
        for b in e.x['bodies']: yield from b['facts']


def finder(rep, key, f, outs, coll_f, field, result, needle):
    if outs is None: return
    n = 0
    for o in outs:
        if o.k != 'ret': continue
        v = o.v
        w = v.a[2][0] if v.op == 'adt' and v.a[1] == 'Some' else v
        if w.op == 'fld' and w.a[1] == 'Some': w = w.a[0] if w not in () else w
        els = {x for x in walk(v) if x.op == 'elem' and x.a[0] is coll_f}
        if v.op == 'adt' and v.a[1] == 'None':
            done = any(a.op == 'done' and a.a[0] is coll_f for a in o.st.facts)
            named = any(a.op == 'discr' and val == 'None' and any(x.op == 'elem' for x in walk(a)) for a, val in o.st.facts.items())
            skipping = [b for e, ctx, p in loops_in(o.st.events(), {}) if over(e, coll_f) for b in e.x['bodies']
                        if not any(needle in set(walk(x)) | set(walk(y)) for x, y in eq_facts(b['facts'], 0)) and not b['facts']]
            rep.tri(f'{key}:none', False if skipping else True if done or named else None, 'nothing is found though not all entries were compared', f.where())
            continue
        n += 1
        if not els:
            rep.tri(f'{key}:found', None if fuzzy(v) or not resolved(v) else False, pp(v)[:200], f.where())
            continue
        x = next(iter(els))
        kn = any((p in fs or strip0(p) in fs or (p.op == 'adt' and p.a[1] == 'Some' and p.a[2][0] in fs)) and needle in set(walk(q)) for a, b in eq_facts(o.st.facts) for p, q in ((a, b), (b, a)) for fs in [field(x)])
        rep.tri(f'{key}:found', True if kn else None if has_opq_facts(o) or has_unknown_calls(o) and not any(True for _ in eq_facts(o.st.facts)) else False, f'the entry returned is not known to be the one asked for: {[pp(a)[:120] for a in o.st.facts]}', f.where())
        rep.tri(f'{key}:part', True if any(w is r or v is r for r in result(x)) or w in [fldp(r, 'Some:0') for r in result(x)] else None if not resolved(v) else False, pp(v)[:200], f.where())
    rep.floor(key, n, 1, 'results')
