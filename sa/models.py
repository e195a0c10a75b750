"""Semantics of the library functions the crate uses, in terms of provenance terms.

`lookup(...)` -> model(eng, fr, args, st, ctx) -> [Out] (or None for "no model: inline or opaque").
"""
from .term import T, mk, walk, pp
from .engine import Out, Ev, UNIT, TRUE, FALSE, I, INT_BITS

OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(v): return T('adt', OPT, 'Some', (v,))
NONE = T('adt', OPT, 'None', ())
def ok(v): return T('adt', RES, 'Ok', (v,))
def err(v): return T('adt', RES, 'Err', (v,))


def ret(v, st): return [Out('ret', v, st)]


def mut_val(eng, a, st):
    return eng.deref_val(a, st)


def set_mut(eng, a, v, st):
    """store through a mutable reference (in place on st)"""
    if a.op == 'ptr':
        # follow pointer to pointer
        cur = eng.val(a.a[0], None, list(a.a[1]), st)
        n = 0
        while cur.op == 'ptr' and n < 8:
            a, cur = cur, eng.val(cur.a[0], None, list(cur.a[1]), st)
            n += 1
        eng.write_at(a.a[0], None, list(a.a[1]), v, st)
    else:
        st.store[('H', a)] = v


def cur_val(eng, a, st):
    if a.op == 'ptr': return eng.deref_val(a, st)
    h = st.store.get(('H', a))
    return h if h is not None else a


# ------------------------------------------------------------------ iterators
COMPOSITE1 = {'map', 'filter', 'filter_map', 'enumerate', 'keys', 'values', 'take', 'skip', 'take_while', 'map_while', 'flat_map', 'peek'}
LEAFWRAP = {'tail', 'init', 'mid', 'midn', 'spent'}


def map_leaves(src, f):
    o = src.op
    if o in COMPOSITE1: return T(o, map_leaves(src.a[0], f), *src.a[1:])
    if o in ('zip', 'chain'): return T(o, map_leaves(src.a[0], f), map_leaves(src.a[1], f))
    return f(src)


def leaves(src):
    o = src.op
    if o in COMPOSITE1: return leaves(src.a[0])
    if o in ('zip', 'chain'): return leaves(src.a[0]) + leaves(src.a[1])
    return [src]


def root(src):
    def f(x):
        back = False
        while x.op in LEAFWRAP: x = x.a[0]
        return x
    return map_leaves(src, f)


def unwrapped(x):
    """innermost collection and how many items were taken from its front and its back before"""
    n = m = 0
    known = True
    while x.op in LEAFWRAP:
        if x.op == 'tail': n += 1
        elif x.op == 'init': m += 1
        else: known = False
        x = x.a[0]
    return x, n, m, known


def midify(src, uid, entry=None):
    es = leaves(entry) if entry is not None else []
    here = leaves(src)
    es = list(es) if len(es) == len(here) else [None] * len(here)
    es = iter(es)

    def f(x):
        x, n, m, _ = unwrapped(x)
        e = next(es)
        if e is not None:
            e, n0, m0, known = unwrapped(e)
            if known and e is x:
                if n0: x = T('rest', x, n0)
                if m0: x = T('front', x, m0)
                m -= m0
        if m > 0: x = T('rev', x)
        return T('mid', x, uid)
    return map_leaves(src, f)


def spentify(src, uid, facts):
    def f(x):
        y = x
        if y.op == 'midn': y = T('mid', y.a[0], y.a[1])
        if y.op == 'mid' and y.a[1] == uid and T('done', y.a[0], uid) in facts: return T('spent', y.a[0])
        return x
    return map_leaves(src, f)


def as_iter(eng, v):
    if v.op == 'iter': return v
    if v.op == 'adt':
        if v.a[0].endswith('range::Range'):
            return T('iter', T('range', v.a[2][0], v.a[2][1]))
        if v.a[0].endswith('RangeInclusive'):
            return T('iter', T('rangeinc', v.a[2][0], v.a[2][1]))
        if v.a[0].endswith('range::RangeFrom'): return T('iter', T('rangefrom', v.a[2][0]))
        if v.a[0] == OPT: return T('iter', T('opt', v))
    return T('iter', v)


def advance(eng, fr, src, st, line=0):
    """-> list of (value or None, src', st) ; panics are appended as Out objects"""
    o = src.op
    if o == 'iter': src, o = src.a[0], src.a[0].op
    if o == 'spent': return [(None, src, st)]
    if o in ('mid', 'midn'):
        c, uid = src.a[0], src.a[1]
        n = src.a[2] if o == 'midn' else 0
        done = T('done', c, uid)
        if done in st.facts: return [(None, src, st)]
        s1 = st.copy()
        s1.facts[done] = 1
        e = T('elem', c, uid if n == 0 else (uid, n)) if c.op != 'opt' else T('fld', c.a[0], 'Some', '0')
        if c.op == 'range':
            st = st.copy()
            st.facts[T('bin', 'Lt', e, c.a[1])] = 1
        return [(e, T('midn', c, uid, n + 1), st), (None, T('mid', c, uid), s1)]
    if o == 'map':
        r = []
        for v, s, t in advance(eng, fr, src.a[0], st):
            ns = T('map', s, src.a[1])
            if v is None or v is SKIP: r.append((v, ns, t))
            elif isinstance(v, Out): r.append((v, s, t))
            else:
                for out in eng.call_value(fr, src.a[1], [v], t, line):
                    if out.k == 'ret': r.append((out.v, ns, out.st))
                    else: r.append((out, ns, out.st))
        return r
    if o in ('filter', 'filter_map', 'take_while', 'map_while'):
        r = []
        for v, s, t in advance(eng, fr, src.a[0], st):
            ns = T(o, s, src.a[1])
            if v is None or v is SKIP: r.append((v, ns, t))
            elif isinstance(v, Out): r.append((v, s, t))
            else:
                for out in eng.call_value(fr, src.a[1], [v], t, line):
                    if out.k != 'ret':
                        r.append((out, ns, out.st))
                        continue
                    if o in ('filter', 'take_while'):
                        for b, s2 in eng.branch(out.st, out.v):
                            if b: r.append((v, ns, s2))
                            elif o == 'take_while': r.append((None, T('spent', s), s2))
                            else: r.append((SKIP, ns, s2))
                    else:
                        for vn, s2 in eng.split_discr(out.st, out.v, OPT):
                            if vn == 'Some': r.append((eng.get(out.v, ('f', OPT, 'Some', '0')), ns, s2))
                            elif o == 'map_while': r.append((None, T('spent', s), s2))
                            else: r.append((SKIP, ns, s2))
        return r
    if o in ('keys', 'values'):
        i = '0' if o == 'keys' else '1'
        return [(v if v is None or isinstance(v, Out) or v is SKIP else eng.get(v, ('f', None, '', i)), T(o, s), t)
                for v, s, t in advance(eng, fr, src.a[0], st)]
    if o == 'enumerate':
        r = []
        for v, s, t in advance(eng, fr, src.a[0], st):
            if v is None or isinstance(v, Out) or v is SKIP: r.append((v, T(o, s), t))
            else:
                ls = leaves(src.a[0])
                l = ls[0]
                if l.op in ('mid', 'midn'): pos = T('pos', l.a[0], l.a[1])
                elif l.op == 'tail': pos = T('posn', l)
                else: pos = I(0)
                r.append((T('tup', (pos, v)), T(o, s), t))
        return r
    if o == 'zip':
        r = []
        for v, s, t in advance(eng, fr, src.a[0], st):
            if v is None or isinstance(v, Out) or v is SKIP:
                r.append((v, T('zip', s, src.a[1]), t))
                continue
            for v2, s2, t2 in advance(eng, fr, src.a[1], t):
                ns = T('zip', s, s2)
                if v2 is None or isinstance(v2, Out) or v2 is SKIP: r.append((v2, ns, t2))
                else: r.append((T('tup', (v, v2)), ns, t2))
        return r
    if o == 'chain':
        r = []
        for v, s, t in advance(eng, fr, src.a[0], st):
            if v is None:
                for v2, s2, t2 in advance(eng, fr, src.a[1], t): r.append((v2, T('chain', T('spent', root(src.a[0])), s2), t2))
            else: r.append((v, T('chain', s, src.a[1]), t))
        return r
    if o in ('take', 'skip', 'flat_map', 'peek'):
        src2 = T('opq' + o, root(src.a[0]), *src.a[1:])
        src = src2
    if src.op == 'empty': return [(None, src, st)]
    if src.op == 'opt':
        r = []
        for vn, s in eng.split_discr(st, src.a[0], OPT):
            r.append((eng.get(src.a[0], ('f', OPT, 'Some', '0')) if vn == 'Some' else None, T('spent', src), s))
        return r
    if src.op == 'once': return [(src.a[0], T('spent', src), st)]
    if src.op == 'arr':
        if not src.a[0]: return [(None, src, st)]
        return [(src.a[0][0], T('tail', src), st)]
    if src.op == 'tail' and src.a[0].op == 'arr' and len(src.a[0].a[0]) > 1:
        return [(src.a[0].a[0][1], T('tail', src), st)]
    # a plain collection: first and rest
    r = []
    for empty, s in eng.branch(st, T('bin', 'Eq', src_len(eng, src), I(0))):
        if empty: r.append((None, T('spent', src), s))
        else: r.append((T('first', src), T('tail', src), s))
    return r


SKIP = T('skip-item')


def advance_back(eng, fr, src, st):
    o = src.op
    if o in ('map', 'keys', 'values'):
        r = []
        for v, s, t in advance_back(eng, fr, src.a[0], st):
            ns = T(o, s, *src.a[1:])
            if v is None or isinstance(v, Out): r.append((v, ns, t))
            elif o == 'map':
                for out in eng.call_value(fr, src.a[1], [v], t, 0): r.append((out.v if out.k == 'ret' else out, ns, out.st))
            else: r.append((eng.get(v, ('f', None, '', '0' if o == 'keys' else '1')), ns, t))
        return r
    if o in LEAFWRAP and o in ('mid', 'midn', 'spent'): return advance(eng, fr, src, st)
    if o == 'empty': return [(None, src, st)]
    r = []
    for empty, s in eng.branch(st, T('bin', 'Eq', src_len(eng, src), I(0))):
        if empty: r.append((None, T('spent', src), s))
        else: r.append((T('last', src), T('init', src), s))
    return r


def src_len(eng, src):
    o = src.op
    if o in ('map', 'enumerate', 'keys', 'values'): return src_len(eng, src.a[0])
    if o == 'range' and src.a[0] is I(0): return src.a[1]
    if o == 'rev': return src_len(eng, src.a[0])
    if o == 'iter': return src_len(eng, src.a[0])
    return eng.length(src)


def it_src(eng, a, st):
    v = cur_val(eng, a, st)
    return as_iter(eng, v).a[0]


def m_next(eng, fr, args, st, ctx):
    v = cur_val(eng, args[0], st)
    if v.op != 'iter':
        if v.op == 'adt' and v.a[0].endswith(('range::Range', 'RangeInclusive', 'RangeFrom')) or v.op in ('empty', 'coll', 'arr'):
            v = as_iter(eng, v)
        else: return None
    adv = advance if ctx['item'] == 'next' else advance_back
    res = []
    pend = [(v.a[0], st, 0)]
    while pend:
        src, s, d = pend.pop()
        for x, ns, t in adv(eng, fr, src, s.copy()) if adv is advance_back else adv(eng, fr, src, s.copy(), ctx['line']):
            if isinstance(x, Out):
                res.append(x)
                continue
            if x is SKIP:
                e1 = t.copy()
                set_mut(eng, args[0], T('iter', ns), e1)
                # the generic element of the innermost loop was filtered out: nothing happens in this iteration
                if eng.lstack and any(l.op == 'midn' and l.a[1] == eng.lstack[-1][0] for l in leaves(ns)):
                    res.append(Out('back', None, e1))
                    continue
                # a filtered out element: another (unknown) element or the end
                mp = map_leaves(root(ns), lambda l: l)
                o1 = T('call', 'next_match', (mp, I(d)), '')
                for vn, s2 in eng.split_discr(e1, o1, OPT):
                    res.append(Out('ret', some(T('fld', o1, 'Some', '0')) if vn == 'Some' else NONE, s2))
                continue
            t = t.copy()
            set_mut(eng, args[0], T('iter', ns), t)
            res.append(Out('ret', NONE if x is None else some(x), t))
    return res


def abstract_loop(eng, fr, src, st, ctx, step, acc0=None, finish=None):
    """Runs `step(elem, acc, state) -> [('next', acc, st) | ('exit', value, st) | Out]` for a generic element."""
    eng.nframe += 1
    ik, ak = ('I', eng.nframe, 0), ('I', eng.nframe, 1)
    st = st.copy()
    st.store[ik] = T('iter', src)
    if acc0 is not None: st.store[ak] = acc0

    def body(s):
        outs = []
        it = s.store[ik].a[0] if s.store[ik].op == 'iter' else s.store[ik]
        for v, ns, t in advance(eng, fr, it, s.copy(), ctx['line']):
            if isinstance(v, Out):
                outs.append(v)
                continue
            t = t.copy()
            t.store[ik] = T('iter', ns)
            if v is SKIP:
                outs.append(Out('back', None, t))
            elif v is None:
                a = t.store.get(ak)
                outs.append(Out('exit', T('pair', T('end'), a if a is not None else UNIT), t))
            else:
                for r in step(v, t.store.get(ak), t):
                    if isinstance(r, Out): outs.append(r)
                    elif r[0] == 'next':
                        s2 = r[2].copy()
                        if acc0 is not None: s2.store[ak] = r[1]
                        outs.append(Out('back', None, s2))
                    else: outs.append(Out('exit', T('pair', T('early'), r[1]), r[2]))
        return outs
    res = []
    for o in eng.widen(st, body, f"{ctx['item']} in {fr.fn.name}"):
        if o.k != 'exit':
            res.append(o)
            continue
        s = o.st
        how, v = o.v.a
        final_it = s.store.get(ik)
        s.store = {k: x for k, x in s.store.items() if k not in (ik, ak)}
        o2 = Out('ret', v, s, x={'how': how.op, 'it': final_it})
        res.append(o2)
    out = []
    for o in res:
        if o.k == 'ret' and finish is not None: out.extend(finish(o))
        else: out.append(o)
    return out


def conv(outs, f):
    return [f(o) if o.k == 'ret' else o for o in outs]


def bool_pred(eng, fr, clo, v, t, line, f):
    r = []
    for out in eng.call_value(fr, clo, [v], t, line):
        if out.k != 'ret': r.append(out)
        else:
            for b, s in eng.branch(out.st, out.v): r.append(f(b, s))
    return r


def m_all(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    step = lambda v, a, t: bool_pred(eng, fr, args[1], v, t, ctx['line'], lambda b, s: ('next', None, s) if b else ('exit', FALSE, s))
    def fin(o):
        o.v = TRUE if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_any(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    step = lambda v, a, t: bool_pred(eng, fr, args[1], v, t, ctx['line'], lambda b, s: ('exit', TRUE, s) if b else ('next', None, s))
    def fin(o):
        o.v = FALSE if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_find(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    step = lambda v, a, t: bool_pred(eng, fr, args[1], v, t, ctx['line'], lambda b, s: ('exit', some(v), s) if b else ('next', None, s))
    def fin(o):
        o.v = NONE if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_position(eng, fr, args, st, ctx):
    src = T('enumerate', it_src(eng, args[0], st))
    step = lambda v, a, t: bool_pred(eng, fr, args[1], v.a[0][1], t, ctx['line'], lambda b, s: ('exit', some(v.a[0][0]), s) if b else ('next', None, s))
    def fin(o):
        o.v = NONE if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_find_map(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    def step(v, a, t):
        r = []
        for out in eng.call_value(fr, args[1], [v], t, ctx['line']):
            if out.k != 'ret': r.append(out)
            else:
                for vn, s in eng.split_discr(out.st, out.v, OPT):
                    r.append(('exit', out.v, s) if vn == 'Some' else ('next', None, s))
        return r
    def fin(o):
        o.v = NONE if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_for_each(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    def step(v, a, t):
        return [('next', None, o.st) if o.k == 'ret' else o for o in eng.call_value(fr, args[1], [v], t, ctx['line'])]
    def fin(o):
        o.v = UNIT
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_try_for_each(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    def step(v, a, t):
        r = []
        for out in eng.call_value(fr, args[1], [v], t, ctx['line']):
            if out.k != 'ret': r.append(out)
            else:
                for vn, s in eng.split_discr(out.st, out.v, RES):
                    r.append(('exit', out.v, s) if vn == 'Err' else ('next', None, s))
        return r
    def fin(o):
        o.v = ok(UNIT) if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, None, fin)


def m_fold(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    def step(v, a, t):
        return [('next', o.v, o.st) if o.k == 'ret' else o for o in eng.call_value(fr, args[2], [a, v], t, ctx['line'])]
    return abstract_loop(eng, fr, src, st, ctx, step, args[1])


def m_try_fold(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    def step(v, a, t):
        r = []
        for out in eng.call_value(fr, args[2], [a, v], t, ctx['line']):
            if out.k != 'ret': r.append(out)
            else:
                if out.v.op == 'adt' and out.v.a[0] == OPT or (out.v.op == 'call' and False):
                    for vn, s in eng.split_discr(out.st, out.v, OPT):
                        r.append(('exit', NONE, s) if vn == 'None' else ('next', eng.get(out.v, ('f', OPT, 'Some', '0')), s))
                else:
                    for vn, s in eng.split_discr(out.st, out.v, RES):
                        r.append(('exit', out.v, s) if vn == 'Err' else ('next', eng.get(out.v, ('f', RES, 'Ok', '0')), s))
        return r
    def fin(o):
        o.v = ok(o.v) if o.x['how'] == 'end' else o.v
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, args[1], fin)


def m_count(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    return ret(src_len(eng, src), st)


MAPS = ('BTreeMap', 'HashMap', 'IndexMap', 'BTreeSet', 'HashSet', 'IndexSet')


def coll_kind(tn):
    tn = tn.strip('&')
    for m in MAPS:
        if tn.startswith(m): return m
    if tn.startswith('Confined<'): return coll_kind(tn[9:])
    for m in ('TinyOrdMap', 'SmallOrdMap', 'MediumOrdMap', 'LargeOrdMap'):
        if tn.startswith(m): return 'BTreeMap'
    for m in ('TinyOrdSet', 'SmallOrdSet', 'MediumOrdSet', 'LargeOrdSet'):
        if tn.startswith(m): return 'BTreeSet'
    if tn.startswith('String') or tn.startswith('Cow') or tn.startswith('TinyString'): return 'String'
    return 'Vec'


def build(eng, fr, src, st, ctx, kind, wrap, start=None):
    """collect into a collection of the kind; wrap: None | 'Result' | 'Option' """
    op = 'ins' if kind in MAPS else 'push'
    def add(acc, v): return T(op, acc, v)
    def step(v, a, t):
        if wrap is None: return [('next', add(a, v), t)]
        path, good, bad = (RES, 'Ok', 'Err') if wrap == 'Result' else (OPT, 'Some', 'None')
        r = []
        for vn, s in eng.split_discr(t, v, path):
            if vn == good: r.append(('next', add(a, eng.get(v, ('f', path, good, '0'))), s))
            else: r.append(('exit', err(eng.get(v, ('f', path, 'Err', '0'))) if wrap == 'Result' else NONE, s))
        return r
    def fin(o):
        if wrap and o.x['how'] == 'end': o.v = ok(o.v) if wrap == 'Result' else some(o.v)
        return [o]
    return abstract_loop(eng, fr, src, st, ctx, step, start if start is not None else T('empty', kind), fin)


def m_collect(eng, fr, args, st, ctx):
    cj = ctx['cj']
    tgt = None
    tys = [x for x in cj.get('args', []) if isinstance(x, int)]
    tn = eng.tname(tys[-1]) if len(tys) > 1 else (eng.tname(ctx['dty']) if ctx['dty'] is not None else 'Vec')
    wrap = None
    inner = tn
    if tn.startswith('Result<'): wrap, inner = 'Result', tn[7:]
    elif tn.startswith('Option<'): wrap, inner = 'Option', tn[7:]
    return simplify_collect(eng, build(eng, fr, it_src(eng, args[0], st), st, ctx, coll_kind(inner), wrap))


def simplify_collect(eng, outs):
    return outs


def m_from_iter(eng, fr, args, st, ctx):
    tn = ctx['self_ty'] or (eng.tname(ctx['dty']) if ctx['dty'] is not None else 'Vec')
    return build(eng, fr, it_src(eng, args[0], st), st, ctx, coll_kind(tn), None)


def m_try_from_iter(eng, fr, args, st, ctx):
    tn = eng.tname(ctx['dty']) if ctx['dty'] is not None else 'Confined<Vec>'
    if tn.startswith('Result<'): tn = tn[7:]
    r = []
    for o in build(eng, fr, it_src(eng, args[0], st), st, ctx, coll_kind(tn), None):
        if o.k != 'ret': r.append(o)
        elif ctx['item'] == 'from_iter_checked': r.append(o)
        else: r.extend(try_confine(eng, o.v, o.st, ctx))
    return r


def try_confine(eng, v, st, ctx):
    tn = eng.tname(ctx['dty']) if ctx['dty'] is not None else ''
    a = T('pred', 'fits', v, tn)
    r = []
    for b, s in eng.branch(st, a):
        r.append(Out('ret', ok(v) if b else err(T('cerr', v)), s))
    return r


def m_iter_adapt(eng, fr, args, st, ctx):
    src = it_src(eng, args[0], st)
    it = ctx['item']
    if it in ('map', 'filter', 'filter_map', 'take_while', 'map_while', 'flat_map', 'inspect'):
        return ret(T('iter', T(it, src, args[1])), st)
    if it == 'enumerate': return ret(T('iter', T('enumerate', src)), st)
    if it == 'rev': return ret(T('iter', rev(src)), st)
    if it in ('zip', 'chain'): return ret(T('iter', T(it, src, it_src(eng, args[1], st))), st)
    if it in ('cloned', 'copied', 'by_ref', 'fuse'):
        if it == 'by_ref': return ret(args[0], st)
        return ret(T('iter', src), st)
    if it in ('take', 'skip'): return ret(T('iter', part_of(eng, it, src, args[1])), st)
    return None


def part_of(eng, it, src, n):
    """the first n items, or all but the first n"""
    if src.op in ('map', 'keys', 'values') or it == 'take' and src.op == 'enumerate': return T(src.op, part_of(eng, it, src.a[0], n), *src.a[1:])
    if src.op in LEAFWRAP or src.op in COMPOSITE1 or src.op in ('zip', 'chain', 'opt', 'once', 'arr', 'empty', 'range', 'rangeinc', 'rangefrom'): return T(it, src, n)
    if it == 'take' and n is src_len(eng, src) or it == 'skip' and n is I(0): return src
    return T('first-n' if it == 'take' else 'but-n', src, n)


def rev(src):
    if src.op in ('map', 'keys', 'values', 'filter', 'filter_map'): return T(src.op, rev(src.a[0]), *src.a[1:])
    if src.op == 'rev': return src.a[0]
    return T('rev', src)


def m_into_iter(eng, fr, args, st, ctx):
    v = cur_val(eng, args[0], st)
    if v.op == 'iter': return ret(v if args[0].op != 'ptr' else args[0], st)
    return ret(as_iter(eng, v), st)


def m_keys(eng, fr, args, st, ctx):
    v = cur_val(eng, args[0], st)
    i = ctx['item']
    k = 'keys' if i in ('keys', 'into_keys') else 'values'
    return ret(T('iter', T(k, v)), st)


def m_chars(eng, fr, args, st, ctx): return ret(T('iter', T('chars', cur_val(eng, args[0], st))), st)


# ------------------------------------------------------------------ plain models
def m_id(eng, fr, args, st, ctx): return ret(args[0], st)


def m_id_val(eng, fr, args, st, ctx): return ret(cur_val(eng, args[0], st) if args[0].op == 'ptr' else args[0], st)


def m_clone(eng, fr, args, st, ctx):
    v = args[0]
    if v.op == 'ptr': v = eng.deref_val(v, st)
    return ret(v, st)


def m_len(eng, fr, args, st, ctx):
    v = cur_val(eng, args[0], st)
    if v.op == 'iter': return ret(src_len(eng, v.a[0]), st)
    return ret(eng.length(v), st)


def m_is_empty(eng, fr, args, st, ctx):
    return ret(eng.arith('Eq', eng.length(cur_val(eng, args[0], st)), I(0)), st)


def m_eq(eng, fr, args, st, ctx):
    a, b = (cur_val(eng, x, st) for x in args)
    base = ctx['self_ty'].split('<')[0]
    man = eng.manual_eq.get(base)
    if man is not None and man.id not in eng.stack:
        outs = eng.run(man, [a, b], st, fr.depth + 1)
        if ctx['item'] == 'ne':
            for o in outs:
                if o.k == 'ret': o.v = T('un', 'Not', o.v) if o.v.op != 'int' else I(1 - o.v.a[0])
        return outs
    if ctx['item'] == 'eq': return ret(eng.arith('Eq', a, b), st)
    return ret(eng.arith('Ne', a, b), st)


def m_ord(eng, fr, args, st, ctx):
    a, b = (cur_val(eng, x, st) for x in args)
    return ret(eng.arith({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[ctx['item']], a, b), st)


def m_contains_key(eng, fr, args, st, ctx):
    return ret(T('issome', getter(eng, cur_val(eng, args[0], st), cur_val(eng, args[1], st))), st)


def getter(eng, m, k):
    x = m
    while x.op == 'ins' and x.a[1].op == 'tup':
        if x.a[1].a[0][0] is k: return some(x.a[1].a[0][1])
        if x.a[1].a[0][0].op == 'str' and k.op == 'str': x = x.a[0]
        else: break
    return T('call', 'get', (x, k), '')


def m_get(eng, fr, args, st, ctx):
    m, k = cur_val(eng, args[0], st), cur_val(eng, args[1], st)
    r = getter(eng, m, k)
    return ret(r, st)


def m_contains(eng, fr, args, st, ctx):
    m, k = cur_val(eng, args[0], st), cur_val(eng, args[1], st)
    if m.op == 'adt' and m.a[0].endswith(('RangeInclusive', 'range::Range')):
        lo, hi = m.a[2][0], m.a[2][1]
        o = 'Le' if 'Inclusive' in m.a[0] else 'Lt'
        return ret(T('bin', 'BitAnd', eng.arith('Le', lo, k), eng.arith(o, k, hi)), st)
    if m.op == 'call' and m.a[0].endswith('RangeInclusive::new'):
        lo, hi = m.a[1]
        return ret(T('bin', 'BitAnd', eng.arith('Le', lo, k), eng.arith('Le', k, hi)), st)
    if m.op == 'arr' and len(m.a[0]) <= 12:
        t = None
        for x in m.a[0]:
            e = eng.arith('Eq', k, x)
            t = e if t is None else T('bin', 'BitOr', t, e)
        return ret(t if t is not None else FALSE, st)
    return ret(T('pred', 'contains', m, k), st)


def m_range_inc(eng, fr, args, st, ctx):
    return ret(T('adt', 'core::ops::range::RangeInclusive', '', (args[0], args[1], FALSE)), st)


def m_index(eng, fr, args, st, ctx):
    m, k = cur_val(eng, args[0], st), cur_val(eng, args[1], st)
    sty = ctx['self_ty']
    kind = coll_kind(sty)
    if kind in MAPS:
        g = getter(eng, m, k)
        r = []
        for vn, s in eng.split_discr(st, g, OPT):
            if vn == 'Some': r.append(Out('ret', eng.get(g, ('f', OPT, 'Some', '0')), s))
            else: r.append(Out('panic', None, s, {'kind': 'index-missing', 'ops': (m, k), 'fn': fr.fn.name, 'line': ctx['line']}))
        return r
    if k.op == 'adt' and 'range' in k.a[0]:
        r = ret(T('slice', m, k), st)
        s2 = st.copy()
        s2.facts[T('pred', 'badrange', m, k)] = 1
        r.append(Out('panic', None, s2, {'kind': 'slice-range', 'ops': (m, k), 'fn': fr.fn.name, 'line': ctx['line']}))
        return r
    r = []
    for b, s in eng.branch(st, T('bin', 'Lt', k, eng.length(m))):
        if b: r.append(Out('ret', eng.index(m, k), s))
        else: r.append(Out('panic', None, s, {'kind': 'BoundsCheck', 'ops': (m, k), 'fn': fr.fn.name, 'line': ctx['line']}))
    return r


def m_split_at(eng, fr, args, st, ctx):
    m, k = cur_val(eng, args[0], st), cur_val(eng, args[1], st)
    a, b = T('adt', 'core::ops::range::RangeTo', '', (k,)), T('adt', 'core::ops::range::RangeFrom', '', (k,))
    r = ret(T('tup', (T('slice', m, a), T('slice', m, b))), st)
    s2 = st.copy()
    s2.facts[T('pred', 'badrange', m, a)] = 1
    r.append(Out('panic', None, s2, {'kind': 'slice-range', 'ops': (m, a), 'fn': fr.fn.name, 'line': ctx['line']}))
    return r


def event(eng, fr, name, vals, res, st, ctx):
    st.ev(Ev('call', name, tuple(vals), res, ctx['self_ty'], fr.fn.name, ctx['line']))


def m_insert(eng, fr, args, st, ctx):
    st = st.copy()
    m = cur_val(eng, args[0], st)
    vals = [eng.snap(a, st) for a in args[1:]]
    conf = ctx['owner'] == 'Confined'
    kind = coll_kind(ctx['self_ty'] or '') if not conf else None
    if len(vals) == 2:
        prev = getter(eng, m, vals[0])
        res = prev
        item = T('tup', tuple(vals))
    else:
        res = T('un', 'Not', T('pred', 'contains', m, vals[0]))
        item = vals[0]
    out = []
    s1 = st.copy()
    set_mut(eng, args[0], T('ins', m, item), s1)
    event(eng, fr, 'insert', [m] + vals, res, s1, ctx)
    if conf:
        s1.facts[T('pred', 'full', m)] = 0
        out.append(Out('ret', ok(res), s1))
        s2 = st.copy()
        s2.facts[T('pred', 'full', m)] = 1
        out.append(Out('ret', err(T('cerr', m)), s2))
        return out
    return [Out('ret', res, s1)]


def m_push(eng, fr, args, st, ctx):
    st = st.copy()
    m = cur_val(eng, args[0], st)
    v = eng.snap(args[1], st)
    s1 = st.copy()
    set_mut(eng, args[0], T('push', m, v), s1)
    event(eng, fr, 'push', [m, v], None, s1, ctx)
    if ctx['owner'] == 'Confined':
        s1.facts[T('pred', 'full', m)] = 0
        s2 = st.copy()
        s2.facts[T('pred', 'full', m)] = 1
        return [Out('ret', ok(UNIT), s1), Out('ret', err(T('cerr', m)), s2)]
    return ret(UNIT, s1)


def m_extend(eng, fr, args, st, ctx):
    v = cur_val(eng, args[1], st)
    src = as_iter(eng, v).a[0]
    m = cur_val(eng, args[0], st)
    conf = ctx['owner'] == 'Confined'
    tn = ctx['self_ty'] or ''
    kind = coll_kind(tn)
    if conf:
        cj = ctx['cj']
        for a in cj.get('args', []):
            if isinstance(a, int):
                kind = coll_kind(eng.tname(a))
                break
    r = []
    for o in build(eng, fr, src, st, ctx, kind, None, start=m):
        if o.k != 'ret':
            r.append(o)
            continue
        s = o.st.copy()
        set_mut(eng, args[0], o.v, s)
        event(eng, fr, 'extend', [m, T('iter', src)], None, s, ctx)
        if conf:
            s2 = o.st.copy()
            s2.facts[T('pred', 'full', m)] = 1
            r.append(Out('ret', ok(UNIT), s))
            r.append(Out('ret', err(T('cerr', m)), s2))
        else: r.append(Out('ret', UNIT, s))
    return r


def m_new_coll(eng, fr, args, st, ctx):
    if ctx['item'] == 'with_capacity':
        st = st.copy()
        event(eng, fr, 'with_capacity', args[:1], None, st, ctx)
    k = ctx['owner']
    if k in ('Confined',): 
        tn = eng.tname(ctx['dty']) if ctx['dty'] is not None else 'Vec'
        k = coll_kind(tn)
    return ret(T('empty', k), st)


def m_default(eng, fr, args, st, ctx):
    tn = ctx['self_ty'] or (eng.tname(ctx['dty']) if ctx['dty'] is not None else '')
    if any(tn.startswith(x) for x in MAPS + ('Vec', 'String', 'Confined<')): return ret(T('empty', coll_kind(tn)), st)
    if tn in INT_BITS: return ret(I(0), st)
    if tn.startswith('Option<'): return ret(NONE, st)
    return None


def m_take(eng, fr, args, st, ctx):
    st = st.copy()
    v = cur_val(eng, args[0], st)
    cj = ctx['cj']
    tn = eng.tname(ctx['dty']) if ctx['dty'] is not None else ''
    if tn.startswith('Option<'): set_mut(eng, args[0], NONE, st)
    else: set_mut(eng, args[0], T('empty', coll_kind(tn)), st)
    return ret(v, st)


def m_replace(eng, fr, args, st, ctx):
    st = st.copy()
    v = cur_val(eng, args[0], st)
    set_mut(eng, args[0], args[1], st)
    return ret(v, st)


def m_swap(eng, fr, args, st, ctx):
    st = st.copy()
    a, b = cur_val(eng, args[0], st), cur_val(eng, args[1], st)
    set_mut(eng, args[0], b, st)
    set_mut(eng, args[1], a, st)
    return ret(UNIT, st)


def m_confined_try_from(eng, fr, args, st, ctx):
    return try_confine(eng, args[0], st, ctx)


def m_from(eng, fr, args, st, ctx):
    cj = ctx['cj']
    tys = [eng.tname(x) for x in cj.get('args', []) if isinstance(x, int)]
    if ctx['owner'] == 'Into': tys = tys[::-1]
    if len(tys) >= 2:
        to, frm = tys[0], tys[1]
        if to == frm: return ret(args[0], st)
        if to in INT_BITS and frm in INT_BITS: return ret(args[0], st)
        if to.split('<')[0] in ('Vec', 'Box') and frm.startswith('[') and '[' not in to: return ret(eng.deref_val(args[0], st), st)
        if to in ('String', 'Vec<u8>', 'str') and frm in ('str', 'String', '[u8]', 'Vec<u8>'): return ret(args[0], st)
        if to in ('u64', 'u32', 'usize', 'u128') and frm == 'u24': return ret(args[0], st)
    return None


def m_to_string(eng, fr, args, st, ctx):
    tn = ctx['self_ty']
    v = cur_val(eng, args[0], st)
    if tn in ('str', 'String') or v.op == 'str': return ret(v, st)
    return ret(T('call', 'to_string', (v,), tn), st)


def pure(name=None):
    def m(eng, fr, args, st, ctx):
        vals = tuple(eng.snap(a, st) if a.op == 'ptr' else a for a in args)
        return ret(T('call', name or f"{ctx['owner']}::{ctx['item']}", vals, ctx['self_ty']), st)
    return m


def m_quiet(eng, fr, args, st, ctx):
    return eng.opaque_call(fr, f"{ctx['owner']}::{ctx['item']}", args, st, ctx['line'], ctx['self_ty'], quiet=True)


def m_pop(eng, fr, args, st, ctx):
    """Vec::pop"""
    m = cur_val(eng, args[0], st)
    st = st.copy()
    if m.op == 'push':
        set_mut(eng, args[0], m.a[0], st)
        return ret(some(m.a[1]), st)
    if m.op == 'empty': return ret(NONE, st)
    return None


def m_dumb(eng, fr, args, st, ctx): return None


def m_try_branch(eng, fr, args, st, ctx): return None


def m_unwrap_panic(eng, fr, args, st, ctx): return None


def m_cmp(eng, fr, args, st, ctx):
    a, b = (cur_val(eng, x, st) for x in args)
    return ret(T('call', 'cmp', (a, b), ctx['self_ty']), st)


def m_min(eng, fr, args, st, ctx):
    a, b = eng.order(args[0], args[1])
    if a.op == 'int' and b.op == 'int': return ret(I(min(a.a[0], b.a[0]) if ctx['item'] == 'min' else max(a.a[0], b.a[0])), st)
    return ret(T('call', ctx['item'], (a, b), ''), st)


def m_sat(eng, fr, args, st, ctx):
    return ret(T('bin', 'Sat' + ctx['item'].split('_')[1].capitalize(), args[0], args[1]), st)


def m_checked(eng, fr, args, st, ctx):
    o = ctx['item'].split('_')[1].capitalize()
    r = eng.arith(o, args[0], args[1])
    ov = T('ovf', o, args[0], args[1])
    out = []
    for b, s in eng.branch(st, ov): out.append(Out('ret', NONE if b else some(r), s))
    return out


def m_repeatfn(eng, fr, args, st, ctx): return None


def m_once(eng, fr, args, st, ctx): return ret(T('iter', T('once', args[0])), st)


def m_primitive(eng, fr, args, st, ctx):
    v = cur_val(eng, args[0], st)
    path = next((n for n in eng.p.adts if n.endswith('primitives::Primitive')), None)
    code = eng.get(v, ('f', path, '', '0'))
    if ctx['item'] == 'into_code': return ret(code, st)
    if code.op == 'int': return ret(I(prim_bytes(code.a[0])), st)
    return ret(T('call', 'Primitive::byte_size', (v,), ''), st)


def prim_bytes(c):
    """size in bytes of a primitive of the given code (strict encoding specification)"""
    if c == 0x40: return 1
    if c == 0xC0: return 2
    k = c & 0x1F
    return (k + 2) * 16 if c & 0x20 else k


IDENT = {
    'Deref': {'deref'}, 'DerefMut': {'deref_mut'}, 'AsRef': {'as_ref'}, 'AsMut': {'as_mut'}, 'Borrow': {'borrow'},
    'BorrowMut': {'borrow_mut'}, 'Box': {'new'}, 'Vec': {'as_slice', 'into_boxed_slice'}, 'String': {'as_str', 'into_boxed_str'},
    'Confined': {'as_slice', 'as_unconfined', 'release', 'into_inner', 'as_inner', 'from_checked', 'unbox', 'to_inner', 'as_unconfined_mut'},
    'Array': {'as_slice'}, 'Rc': {'new'}, 'slice': {'to_vec', 'into_vec', 'as_ref'}, 'ToOwned': {'to_owned'},
    'hint': {'must_use'}, 'str': {'as_str', 'to_owned', 'into_string'},
    'Option': {'as_ref', 'as_mut', 'as_deref', 'cloned', 'copied'}, 'Result': {'as_ref', 'cloned', 'copied'},
    'u24': {'into_u32', 'into_u64', 'into_usize', 'to_u32'}, 'Cow': {'into_owned'}, 'char': {'from'},
}
ITER_ADAPT = {'map', 'filter', 'filter_map', 'take_while', 'map_while', 'flat_map', 'enumerate', 'rev', 'zip', 'chain', 'cloned',
              'copied', 'by_ref', 'fuse', 'take', 'skip'}
COLL = set(MAPS) | {'Vec', 'Confined', 'slice', 'String', 'str', 'VecDeque', 'AsciiString', 'AsciiStr'}
QUIET_OWNERS = {'Argument', 'Arguments'}
PURE_ITEMS = {
    'as_bytes', 'into_bytes', 'is_ascii', 'to_le_bytes', 'to_be_bytes', 'byte_size', 'into_code', 'chars_count', 'first_key_value', 'last_key_value',
    'first', 'last', 'to_ident', 'into_ident', 'to_hex', 'trim_start_matches', 'split_once', 'is_human_readable', 'alternate',
    'width', 'position', 'is_f64', 'is_i64', 'is_u64', 'as_i64', 'as_u64', 'is_char_boundary', 'starts_with', 'ends_with', 'to_lowercase',
    'from_utf8', 'strict_name', 'join', 'replace', 'symbol', 'trim', 'parse', 'variant_name', 'to_uppercase', 'is_nan', 'to_bits', 'is_ascii_digit',
    'to_vec', 'wrapping_add', 'wrapping_sub', 'pow', 'to_byte_array', 'from_byte_array',
}


def lookup(owner, item, self_ty, local_body):
    if item in ('eq', 'ne') and owner == 'PartialEq': return None if local_body else m_eq
    if local_body and owner not in ('Iterator',):
        return None
    if item == 'box_assume_init_into_vec_unsafe': return lambda eng, fr, args, st, ctx: ret(cur_val(eng, args[0], st), st)
    if owner == 'Primitive' and item in ('into_code', 'byte_size'): return m_primitive
    if owner in IDENT and item in IDENT[owner]: return m_id_val if item in ('deref', 'as_ref', 'borrow') else m_id
    if owner == 'Clone' and item == 'clone': return m_clone
    if owner == 'PartialOrd' and item in ('lt', 'le', 'gt', 'ge'): return m_ord
    if owner == 'Ord' and item == 'cmp' or owner == 'PartialOrd' and item == 'partial_cmp': return m_cmp if owner == 'Ord' else None
    if owner in ('Ord', 'cmp') and item in ('min', 'max'): return m_min
    if owner in ('From', 'Into') and item in ('from', 'into'): return m_from
    if owner == 'ToString': return m_to_string
    if owner == 'IntoIterator': return m_into_iter
    if owner in ('Iterator', 'DoubleEndedIterator') and not local_body:
        if item in ('next', 'next_back'): return m_next
        if item in ITER_ADAPT: return m_iter_adapt
        r = {'all': m_all, 'any': m_any, 'find': m_find, 'position': m_position, 'find_map': m_find_map, 'for_each': m_for_each,
             'try_for_each': m_try_for_each, 'fold': m_fold, 'try_fold': m_try_fold, 'count': m_count, 'collect': m_collect}.get(item)
        if r: return r
        return None
    if local_body: return None
    if owner == 'FromIterator' and item == 'from_iter': return m_from_iter
    if owner in ('ExactSizeIterator',) and item == 'len': return m_len
    if owner == 'Default' and item == 'default': return m_default
    if owner == 'mem': return {'take': m_take, 'replace': m_replace, 'swap': m_swap}.get(item)
    if owner == 'Option' and item == 'take': return m_take
    if owner == 'Option' and item == 'replace': return None
    if owner == 'iter' and item == 'once': return m_once
    if owner == 'RangeInclusive' and item == 'new': return m_range_inc
    if item == 'contains' and owner in COLL | {'Range', 'RangeInclusive'}: return m_contains
    if owner in ('Index', 'IndexMut') : return m_index if owner == 'Index' else None
    if owner == 'Extend' and item == 'extend': return m_extend
    if owner in INT_BITS or owner in ('num',):
        if item in ('saturating_add', 'saturating_sub', 'saturating_mul'): return m_sat
        if item in ('checked_add', 'checked_sub', 'checked_mul'): return m_checked
    if owner in COLL:
        if item in ('len', 'len_u8', 'len_u16', 'len_u24', 'len_u32', 'len_u64'): return m_len
        if item == 'is_empty': return m_is_empty
        if item in ('iter', 'into_iter', 'iter_mut'): return m_into_iter if item != 'iter_mut' else None
        if item in ('keys', 'values', 'into_keys', 'into_values'): return m_keys
        if item == 'chars': return m_chars
        if item == 'bytes': return m_into_iter
        if item == 'contains_key': return m_contains_key
        if item == 'get': return m_get
        if item == 'split_at': return m_split_at
        if item == 'insert': return m_insert
        if item == 'push' and owner != 'PathBuf': return m_push
        if item == 'pop': return m_pop
        if item in ('new', 'with_capacity'): return m_new_coll
        if item == 'extend': return m_extend
        if owner == 'Confined' and item in ('try_from', 'try_from_iter', 'from_iter_checked'):
            return m_confined_try_from if item == 'try_from' else m_try_from_iter
        if item in ('try_from', 'try_from_iter'): return m_try_from_iter
    if owner == 'TryFrom' and item == 'try_from' and self_ty.startswith('Confined<'): return m_confined_try_from
    if owner in QUIET_OWNERS: return m_quiet
    if item in PURE_ITEMS: return pure(item if owner in COLL | {'AsciiStr', 'AsciiString'} else None)
    return None
