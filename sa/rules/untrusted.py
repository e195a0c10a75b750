"""V05, V08..V11: what the encoder may meet, and what the decoder does with data nobody has checked."""
from .common import *
from .compiler import loops_in, mention
from .system import eq_facts
from .values import VAL, ID, LAST, SELF, typified, lens, unc, coll_parts, le, Bits, Verdict, need, no, dunno
from .wire import (decoded, encoded, dops, eops, NESTED, codes_of, rstring_path, not_rstring, const, unw, CONF, D, interval, is_item, plus, unwrap, matched, HARMLESS, DCanon, DCase, variants_of, keep_reads, SUPPORTED)
from .order import Order, order_of, implies, size, BYTES
from ..engine import INT_BITS
from ..models import prim_bytes
from ..term import subst


# ------------------------------------------------------------------ V05
def reduce_(t, memo=None):
    """fields taken of values whose making is known"""
    memo = {} if memo is None else memo
    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if na == x.a else T(x.op, *na)
            if r.op == 'fld' and r.a[0].op == 'adt' and r.a[0].a[1] == r.a[1] and r.a[2].isdigit() and int(r.a[2]) < len(r.a[0].a[2]): r = r.a[0].a[2][int(r.a[2])]
            elif r.op == 'fld' and r.a[0].op == 'tup' and r.a[2].isdigit(): r = r.a[0].a[0][int(r.a[2])]
            memo[x] = r
        return r
    return go(t)


def peel(t):
    t = unc(t)
    while t.op == 'adt' and len(t.a[2]) == 1 and t.a[1] == '' or t.op == 'fld' and t.a[1] == '' and t.a[2] == '0' and t.a[0].op == 'fld': t = unc(t.a[2][0] if t.op == 'adt' else t.a[0])
    return t


class Meets:
    """whether a value produced on a path C of typification or decoding can take a path B of the encoder"""
    def __init__(self, c, b, kinds):
        self.c, self.b, self.kinds = c, b, kinds
        self.m = {} if c.v is VAL else {VAL: c.v}
        self.peqs = [{peel(x), peel(y)} for x, y in eq_facts(c.facts)]
        self.eqs = [{unc(x), unc(y)} for x, y in eq_facts(c.facts)]

    def sub(self, t):
        t = reduce_(subst(t, self.m)) if self.m else t
        return self.b.canon(t)

    def kind(self, t):
        """possible variants of t or None"""
        c = self.c
        if t is VAL: return set(c.vset)
        if t is c.ty: return set(c.tset) if not c.unit else None
        if t.op == 'adt': return {t.a[1]}
        for a, x in c.facts.items():
            if a.op == 'discr' and a.a[0] is t: return {x}
        if t.op == 'call' and LAST(t.a[0]) in ('find',): return {'Some'}
        if t.op == 'call' and LAST(t.a[0]) in NESTED: return {'Ok', 'Err'}
        if t.op == 'call' and LAST(t.a[0]) == 'write_all': return {'Ok', 'Err'}
        if t.op == 'call' and LAST(t.a[0]) == 'get' and len(t.a[1]) == 2:
            p = coll_parts(t.a[1][0])
            k = t.a[1][1]
            if p is not None and p[1].op == 'tup' and k.op == 'fld' and k.a[0].op == 'elem':
                e = [y for y in walk(p[1].a[0][0]) if y.op == 'elem' and y.a[0] is p[0]]
                lf, lm = lens(k.a[0].a[0]), lens(p[0])
                if p[2] == 'ins' and p[0] is not k.a[0].a[0] and any({lf, lm} == q for q in self.eqs): return {'Some'}      # distinct declared names, as many as there are (V01)
                if e and k.a[0].a[0] is p[0] and subst(p[1].a[0][0], {e[0]: k.a[0]}) is k: return {'Some'}
        if t.op == 'idx' and self.nested(t): return self.kinds.get(self.nested(t))
        return None

    def nested(self, t):
        """the class of the type by which an element of the tuple was made, if known"""
        p = coll_parts(t.a[0])
        if p is None: return None
        ty = T('look', T('idx', T('fld', self.c.ty, 'Tuple', '0'), t.a[1]))
        ks = [x for a, x in self.b.facts.items() if a.op == 'discr' and a.a[0] is ty]
        return ks[0] if ks else None

    def holds(self, x, v):
        """True: certainly so on C, False: never, None: not known"""
        x0, x = x, self.sub(x)
        c = self.c
        if x.op == 'discr':
            k = self.kind(x.a[0])
            if k is None:
                ns = [s for a, s in c.neq.items() if a is x]
                return False if ns and v in ns[0] else None
            return True if k == {v} else False if v not in k else None
        if x.op == 'bin' and x.a[0] == 'Eq' and {x.a[1], x.a[2]} == {ID, T('call', 'SemId::unit', (), '')}: return c.unit == bool(v)
        if x.op == 'done': return self.exhausted(x0, v)
        if not any(y.op == 'elem' for y in walk(x0)):      # entries met in loops of the one are not those of the other
            if x in c.facts: return c.facts[x] == v
            if x in c.neq and v in c.neq[x]: return False
        r = self.prims(x, v)
        if r is not None: return r
        if x.op == 'bin':
            l, r = self.num(x.a[1]), self.num(x.a[2])
            if x.a[0] == 'Eq' and (l is r or {unc(l), unc(r)} in self.eqs): return bool(v)
            if x.a[0] == 'Lt' and (l is r or {unc(l), unc(r)} in self.eqs): return not v
            if l.op == r.op == 'int': return bool(v) == ({'Lt': l.a[0] < r.a[0], 'Eq': l.a[0] == r.a[0]}.get(x.a[0]))
            return None
        if x.op == 'call' and x.a[0] == 'len':
            n = self.num(x)
            return n.a[0] == v if n.op == 'int' else None
        if x.op == 'call' and LAST(x.a[0]) == 'is_ascii': return self.ascii(x, v)
        return None

    def prims(self, x, v):
        """a condition on the primitive: whether one of the codes of C meets it"""
        c = self.c
        prim = T('fld', c.ty, 'Primitive', '0')
        if c.unit or c.tset != {'Primitive'} or not mention(x, prim) or x.op == 'discr': return None
        codes, opn = codes_of(c)
        got = set()
        for k in codes:
            r = Bits(k, {T('fld', prim, '', '0'), T('call', 'Primitive::into_code', (prim,), '')}, None, False, 0, 64, 'Uint').ev(x)
            if r is None or isinstance(r, tuple) and r[0] != r[1]: return None
            got.add(bool(r[0] if isinstance(r, tuple) else r))
        if opn and bool(v) in got: return None
        return bool(v) in got

    def ascii(self, x, v):
        c = self.c
        if rstring_path(c): return bool(v)     # all characters are checked (V04, V09)
        t = x.a[1][0]
        if mention(t, VAL) and resolved(t):
            # nothing but its length was asked
            for f in list(c.facts) + list(c.neq):
                if mention(f, t) and not (f.op == 'discr' and f.a[0] is not t and t.op == 'fld' and f.a[0] is t.a[0]) and not lengths_only(f, t): return None
            if any(mention(s, t) for _, srcs, _, _ in c.loops() for s in srcs): return None
            return True
        return None

    def num(self, t):
        t = unc(t)
        if t.op == 'call' and t.a[0] == 'len':
            p = coll_parts(t.a[1][0])
            s = p[0] if p is not None else t.a[1][0]
            if s.op == 'zip':
                for y in s.a:
                    r = self.known(lens(y))
                    if r is not None: return r
            return self.known(lens(s)) or lens(s)
        return self.known(t) or t

    def known(self, t):
        v = self.c.facts.get(t)
        if v is None: v = self.b.facts.get(t)
        return I(v) if isinstance(v, int) else None

    def exhausted(self, x, v):
        """a search over all entries fails"""
        if v != 1: return None
        loops = [e for e, _, _ in loops_in(self.b.events(), {}) if e.x['uid'] == x.a[1]]
        if not loops: return True
        e = loops[0]
        src = self.sub(x.a[0])
        old0, old = T('elem', x.a[0], x.a[1]), T('elem', src, x.a[1])
        bodies = [self.b.cfacts(b['facts']) for b in e.x['bodies']]
        if not any(mention(f, old0) for b in bodies for f in b): return True
        ws = {y for t in list(self.c.facts) + [self.c.v] for y in walk(t) if y.op == 'elem' and y.a[0] is src}
        for w in ws:
            def fails(f, val):
                g = self.b.canon(subst(self.sub(f), {old: w}))
                if g.op == 'bin' and g.a[0] == 'Eq':
                    a, b = unc(g.a[1]), unc(g.a[2])
                    return val == 0 and (a is b or {a, b} in self.eqs or {peel(a), peel(b)} in self.peqs or self.option(a, b, w))
                return self.c.facts.get(g) is not None and self.c.facts[g] != val
            if all(any(fails(f, val) for f, val in b.items()) for b in bodies): return False
        return None

    def option(self, a, b, w):
        """the variant w of an option, known by its tag, has the name"""
        if not any(x.op == 'discr' and v == 'Some' and is_call(x.a[0], 'as_some') for x, v in self.c.facts.items()): return False
        tag = self.c.facts.get(T('fld', T('fld', w, '', '0'), '', 'tag'))
        name = [y.a[0] for t in (a, b) for y in walk(t) if y.op == 'str']
        return T('fld', T('fld', w, '', '0'), '', 'name') in (a, b) and (tag, name) in ((0, ['none']), (1, ['some']))

    def excluded(self, x, vs):
        """the term takes none of the values vs"""
        x = self.sub(x)
        if x.op == 'discr':
            k = self.kind(x.a[0])
            if k is None: return None
            return False if k <= set(vs) else True if not k & set(vs) else None
        if x in self.c.facts: return self.c.facts[x] not in vs
        n = self.num(x)
        if n.op == 'int': return n.a[0] not in vs
        if x.op == 'call' and LAST(x.a[0]) == 'is_ascii': return self.ascii(x, 1 - min(vs)) if len(vs) == 1 and min(vs) in (0, 1) else None
        return None

    def result(self):
        """False: never taken; True: taken for certain; None: not known"""
        c, b = self.c, self.b
        if c.unit != b.unit: return False
        if not (c.vset if c.v is VAL else {c.v.a[1]}) & b.vset or not c.tset & b.tset: return False
        rs, done = [], set()
        for x, v in b.facts.items():
            if x.op == 'bin' and x.a[0] == 'Eq' and not isinstance(v, int): rs.append(None)
            else: rs.append(self.holds(x, v))
        for x, vs in b.neq.items(): rs.append(self.excluded(x, vs))
        if False in rs: return False
        if rstring_path(c) and not_rstring(b) or not_rstring(c) and rstring_path(b): return False
        return True if None not in rs else None


def lengths_only(f, t):
    if f is t: return False
    if f.op == 'call' and f.a[0] == 'len': return True
    return all(lengths_only(y, t) for y in f.a if isinstance(y, T) and mention(y, t)) and not any(isinstance(y, tuple) and any(mention(z, t) for z in y if isinstance(z, T)) for y in f.a)


def own_failure(c):
    """the path ends in a failure which the writer did not report"""
    if c.o.k == 'panic': return True
    return not any(a.op == 'discr' and x == 'Err' and a.a[0].op == 'call' and LAST(a.a[0].a[0]) in NESTED + ('write_all',) for a, x in c.facts.items())


def width_fits(c, b):
    """the number of bytes taken of the number is there"""
    m, k = b.o.x['ops'][:2]
    m = b.canon(m)
    while m.op == 'call' and LAST(m.a[0]) in ('as_slice', 'as_ref') and len(m.a[1]) == 1: m = m.a[1][0]
    if not (m.op == 'call' and LAST(m.a[0]) in ('to_le_bytes', 'to_be_bytes')): return None
    from .wire import NUM
    o = m.a[0].split('::')[-2] if '::' in m.a[0] else ''
    size = NUM.get(o, ({'i1024': 128, 'u1024': 128}.get(o),))[0]
    k = b.canon(k.a[2][-1])
    n = const(k)
    if size is None: return None
    if n is not None: return n <= size
    if not (is_call(unc(k), 'byte_size') and len(unc(k).a[1]) == 1): return None
    codes, opn = codes_of(c)
    if c.unit: codes = [0]
    worst = max([prim_bytes(x) for x in codes if x <= 0x7f] or [0])
    floats = [x for x in codes if x > 0x7f]
    return True if worst <= size and not floats else None if opn or floats else False


def V05(rep):
    """Each accepting path of typification and of the decoder is matched against each path of the encoder ending in a panic or in an error of its own:
    the conditions of the latter are evaluated for the value made by the former (its kind, the class of the type, numbers of items, the declared
    entry found as the witness against a failed search). All conditions met is a violation; one refuted settles the pair. Also, for each kind of value made for a
    class of types there is a path of the encoder returning success."""
    tf, tcases, _ = typified(rep)
    df, dcases, _ = decoded(rep)
    g, ecases = encoded(rep)
    if None in (tf, df, g) or tcases is None or dcases is None or ecases is None:
        rep.unknown('paths', 'analysis gave up')
        return
    bad = [b for b in ecases if (b.o.k == 'panic' or res_parts(b.o)[0] == 'Err') and own_failure(b)]
    good = [b for b in ecases if b.o.k == 'ret' and res_parts(b.o)[0] in ('Ok', None)]
    prod = [('typify', c, tf) for c in tcases] + [('decode', c, df) for c in dcases]
    kinds = {}
    for _, c, _ in prod:
        for tv in c.tset:
            if c.v is None or c.v is not VAL and not (c.v.op == 'adt' and c.v.a[1]): continue
            if tv == 'List' and any(is_item(c, n, T('fld', c.ty, 'List', '0')) for n in ('byte',)): continue
            kinds.setdefault(tv, set()).update(c.vset if c.v is VAL else {c.v.a[1]})
    n = 0
    for who, c, f in prod:
        if c.v is None or c.v is not VAL and not (c.v.op == 'adt' and LAST(c.v.a[0]) == 'StrictVal'):
            rep.unknown(f'{who}:result', f'result not resolved: {pp(c.o.v)[:120]}', f.where())
            continue
        ks = c.vset if c.v is VAL else {c.v.a[1]}
        tag = f"{who}:{'|'.join(sorted(ks))}:{'|'.join(sorted(c.tset)) if len(c.tset) < 4 else 'any'}"
        n += 1
        res, why, where = True, '', f.where()
        if not any(b.unit == c.unit and ks & b.vset and c.tset & b.tset for b in good):
            res, why = False, f'the encoder has no successful path for a {"|".join(sorted(ks))} as a {"|".join(sorted(c.tset))}'
        for b in bad:
            if res is False: break
            if b.o.k == 'panic' and b.o.x.get('kind') == 'slice-range':
                if not (c.unit == b.unit and ks & b.vset and c.tset & b.tset): continue
                if Meets(c, b, kinds).result() is False: continue
                r = width_fits(c, b)
                r = None if r is None else not r
            else: r = Meets(c, b, kinds).result()
            if r is False: continue
            line = (b.o.x or {}).get('line') if b.o.k == 'panic' else None
            what = f'{"panics" if b.o.k == "panic" else "fails"}{" (" + str(b.o.x.get("kind")) + f", line {line})" if line else ""}'
            if r is True: res, why, where = False, f'a {"|".join(sorted(ks))} made for a {"|".join(sorted(c.tset))} type is encoded on a path which {what}', g.where()
            elif res is True: res, why = None, f'may be encoded on a path which {what}'
        rep.tri(tag, res, why, where)
    rep.floor('values', n, 150, 'ways of making a typed value')
    rep.floor('failures', len(bad), 20, 'failing paths of the encoder')


# ------------------------------------------------------------------ V08
READERS = ('strict_decode', 'strict_read_type', 'read_raw', 'from_utf8', 'from_ascii', 'read', 'read_exact', 'strict_deserialize_type')
LOOKUPS = ('find', 'get', 'to_sem_id')
BUILTIN = ('len', 'is_empty', 'unit', 'byte', 'ascii', 'unicode_char', 'position', 'into', 'from', 'min', 'max', 'is_byte', 'is_unicode_char', 'into_code', 'as_some', 'check', 'byte_size') \
    + READERS + LOOKUPS + BYTES + ('split_first', 'split_last', 'first', 'last', 'has_tag', 'try_from', 'try_into')


def from_data(t): return any(y.op in ('prim', 'raw', 'rd', 'rdv') for y in walk(t))


def known_calls(t, more=()):
    """no call whose meaning is not known takes part"""
    def go(x):
        if isinstance(x, tuple): return all(go(y) for y in x)
        if not isinstance(x, T): return True
        if x.op in ('rd', 'rdv'): return go(x.a[0])
        if x.op in ('prim', 'raw'): return True
        if x.op in OPAQUE_OPS or x.op in ('upd', 'partial', 'fold', 'clo', 'after'): return x.op == 'after' and LAST(x.a[0].split('#')[0]) in READERS
        if x.op == 'call' and LAST(x.a[0]) not in BUILTIN + tuple(more): return False
        return all(go(y) for y in x.a)
    return go(t)


def bits_of(t):
    """width of the arithmetic done on the term"""
    from .wire import NUM
    if t.op == 'cast': return INT_BITS.get(t.a[0])
    if t.op == 'fld' and t.a[0].op == 'call' and LAST(t.a[0].a[0]) == 'strict_decode':
        n = NUM.get(t.a[0].a[2].replace(' ', ''))
        return n[0] * 8 if n and not n[1] else None
    if t.op in ('elem', 'lv', 'unk'): return None
    return 64


def reachable(c, d_in_loop=None):
    """whether a panicking path can be taken: (verdict, what decides)"""
    o = c.o
    raw = list(o.st.facts)
    if not raw and o.x['kind'].startswith('panic'): return True, 'whatever is given'
    kind, ops = o.x['kind'], o.x.get('ops') or ()
    facts, neq = dict(c.facts), c.neq
    if not c.unit and not c.tset: return False, ''
    if not c.unit and c.tset == {'Primitive'}:
        codes, opn = codes_of(c)
        if not [k for k in codes if k in SUPPORTED or k in (0, 0x10, 0x20, 0x50, 0x60, 0x81, 0x82, 0x84, 0x88, 0xc0)] and not opn: return False, ''
    extra = []        # conditions of the panic itself: (a, b, strict): a < b
    skip = {x for x in facts if x.op in ('ovf', 'pred') and facts[x] == 1}
    if kind == 'slice-range':
        m, k = c.canon(ops[0]), c.canon(ops[1])
        what = f'the range {pp(k)[-80:]} of {pp(m)[-80:]}'
        if not (k.op == 'adt' and k.a[2] and LAST(k.a[0]) in ('RangeTo', 'RangeFrom', 'Range', 'RangeToInclusive')): return None, what
        if len(k.a[2]) == 1: extra = [(size(m), k.a[2][0], LAST(k.a[0]) != 'RangeToInclusive')]
        else: extra = [(size(m), k.a[2][1], True)] if const(k.a[2][0]) == 0 else None
        if extra is None: return None, what
        main = [size(m), k.a[2][-1]]
    elif kind.startswith('overflow') and ops and len(ops) == 2:
        a, b = (c.canon(x) for x in ops)
        what = f'{kind} of {pp(a)[-80:]} and {pp(b)[-80:]}'
        if kind.endswith(':Sub'): extra, main = [(a, b, True)], [a, b]
        elif kind.endswith(':Add'):
            k, x, rx = (const(b), a, ops[0]) if const(b) is not None else (const(a), b, ops[1])
            w = bits_of(rx)
            if k is None or w is None: return None, what
            extra, main = [(I((1 << w) - k), x, False)], [x]
        else: return None, what
    else:
        last = c.canon(raw[-1]) if raw else None
        v = facts.get(last)
        what = f'{pp(last)[-140:]} = {v}' if last is not None else kind
        if neq and last is None: return None, what
        main = [last] if last is not None else []
        if last is not None and last.op == 'discr' and last.a[0].op == 'call':
            it = LAST(last.a[0].a[0])
            if it in READERS and v == 'Err': return True, f'{it} reports an error'
            if it in LOOKUPS and v == 'None': return True, 'the type is absent'
            if it in ('split_first', 'first', 'last', 'split_last') and v == 'None':
                extra, main = [(size(last.a[0].a[1][0]), I(1), True)], [size(last.a[0].a[1][0])]
            elif it in READERS + LOOKUPS: pass
            else: return None, what
        elif last is not None and last.op == 'done':
            loops = [(e, bs) for e, srcs, bs, _ in c.loops() if e.x['uid'] == last.a[1]]
            if not loops: return None, what
            for e, bs in loops:
                for fs, b in bs:
                    tests = [x for x in fs if x.op == 'bin' and x.a[0] == 'Eq' and from_data(x) and mention(x, T('elem', last.a[0], last.a[1])) and known_calls(x)]
                    if not tests: return None, what
            return True, 'no declared entry has the tag read'
        elif last is not None and last.op == 'pred':
            if from_data(last) and known_calls(last): return True, what
            return None, what
    sysm, rest = order_of(facts, neq, skip)
    for a, b, s in extra: sysm.less(a, b, s)
    for x in list(facts) + list(neq) + main:       # bounds are in their order
        for y in walk(x):
            if y.op == 'fld' and y.a[2] == 'min' and y.a[1] == '': sysm.less(y, T('fld', y.a[0], '', 'max'), False)
    if not sysm.sat(): return False, ''
    parts = [y for t in main for y in walk(t) if y.op in ('prim', 'raw', 'rd') or y.op == 'call' and y.a[0] == 'len' or y.op == 'fld' and y.a[2] in ('min', 'max')]
    for x in rest:
        if x.op in ('discr', 'done') or x in skip: continue
        if x.op == 'call' and LAST(x.a[0]) in BUILTIN: continue
        if any(mention(x, y) for y in parts): return None, what
    if not all(known_calls(t) for t in main): return None, what
    if not all(known_calls(x) for x in list(facts) + list(neq) if x.op not in ('done', 'pred')): return None, what
    return True, what


ENTRY = (('TypeSystem', 'strict_deserialize_type'), ('SymbolicSys', 'strict_deserialize_type'), ('SymbolicSys', 'strict_read_type'))
DATA, SPEC = T('sym', 'data'), T('sym', 'spec')


def entries(rep):
    """(owner, item, function, outcomes) of the entry points around the reader"""
    for ow, it in ENTRY:
        f = rep.fn(ow, it)
        if f is None: continue
        yield ow, it, f, rep.paths_of(f, key=f'{ow}::{it}', names=['self', 'spec', 'data'], opaque=(keep_reads,))


def V08(rep):
    """Each path of the four decoding entry points (helpers and combinators inlined) which ends in a panic -- a failed unwrap, expect or
    assertion, an explicit panic, an index, range or arithmetic outside its bounds -- is judged: contradictory conditions (difference constraints
    over lengths, numbers read and declared bounds; classes and codes of types) discharge it; it is a violation if what decides it is the result of a reader,
    of a look-up, or a comparison of data and the type definition which nothing before it settles."""
    f, cases, outs = decoded(rep)
    if f is not None and outs is None: rep.unknown('decoder', 'analysis gave up', f.where())
    todo = [('TypeSystem::strict_read_type', f, outs)] + [(f'{ow}::{it}', g, os) for ow, it, g, os in entries(rep)]
    canon, n, tot = DCanon(), 0, 0
    vv, tv = variants_of(rep, 'StrictVal'), variants_of(rep, 'Ty')
    for name, g, os in todo:
        if g is None: continue
        if os is None: continue
        bad = 0
        for o in os:
            tot += 1
            if o.k != 'panic': continue
            n += 1
            c = DCase(o, UNIT, canon, vv, tv)
            c.o = o
            r, why = reachable(c)
            bad += r is not False
            fn = LAST(str(o.x.get('fn')).replace('{closure', 'closure').split('::{')[0])
            rep.tri(f'{name}:{o.x["kind"]}:{fn}', None if r is None else not r, f'panic ({o.x["kind"]} in {fn}, line {o.x.get("line")}): {why}', g.where())
        if not bad: rep.ok(f'{name}', f'{len(os)} paths', g.where())
    rep.floor('paths', tot, 150, 'paths of the decoder')


# ------------------------------------------------------------------ V09
def sizing_term(c, tv):
    if tv in ('List', 'Set'): return T('fld', c.ty, tv, '1'), 0
    if tv == 'Map': return T('fld', c.ty, tv, '2'), 0
    return T('fld', T('look', T('idx', T('fld', c.ty, 'Tuple', '0'), I(1))), 'List', '1'), 1


def bound_ok(c, n, m, shift, low, text):
    """the number n of items satisfies the declared bound m + shift"""
    ms = [m]
    if shift:
        ms = [x for f in c.facts for x in walk(f) if x.op == 'bin' and x.a[0] in ('SatAdd', 'Add') and any(y is m for y in x.a[1:]) and any(y is I(shift) for y in x.a[1:])]
        ms = list(dict.fromkeys(ms)) or [T('bin', 'SatAdd', m, I(shift))]
    for t in ms:
        if implies(c.facts, c.neq, t if low else n, n if low else t): return
        if shift and not low:      # n - shift <= max
            if implies(c.facts, c.neq, T('bin', 'Sub', n, I(shift)), m): return
    opn = False
    for x in list(c.facts) + list(c.neq):
        if x.op in ('discr', 'done'): continue
        if mention(x, m) or any(y.op == 'fld' and y.a[0] is m.a[0] for y in walk(x)) or x.op == 'call' and any(y is m.a[0] for y in walk(x)):
            if x.op == 'bin' and x.a[0] in ('Lt', 'Eq') and known_calls(x): continue
            opn = True
    need(False, text, opn)


def compared(c, items):
    """the ways items read are compared with each other on the path: (shape, verdict)"""
    out = []
    own = lambda t: t is items or size(t) is size(items) and mention(t, items)
    def facts(fs, loops):
        for x, v in fs.items():
            if x.op in ('discr', 'done', 'ovf') and not (x.op == 'discr' and mention(x, items)): continue
            if not mention(x, items): continue
            if x.op in ('bin',) and x.a[0] in ('Lt', 'Eq') and all(index_only(y, items) for y in x.a[1:]): continue
            out.append((x, v, loops))
    facts(c.facts, ())
    def go(events, loops):
        for e in events:
            if e.k != 'loop': continue
            srcs = [c.canon(s) for s in e.x['src']]
            for b in e.x['bodies']:
                ls = loops + ((e.x['uid'], srcs, b, e),)
                facts(c.cfacts(b['facts']), ls)
                go(b['events'], ls)
    go(c.events(), ())
    return out


def index_only(t, items):
    """the term is about positions and numbers of the items"""
    if t is items or t.op in ('elem', 'idx') and t.a[0] is items: return False
    if t.op == 'pos' or t.op == 'call' and t.a[0] == 'len' or not mention(t, items): return True
    if t.op in ('elem', 'idx'): return t.a[0].op == 'range'
    return t.op in ('bin', 'cast') and all(index_only(y, items) for y in t.a if isinstance(y, T))


def base_of(t):
    """(collection, restriction): the part of a collection that is looked through"""
    while t.op == 'call' and LAST(t.a[0]) in BYTES and len(t.a[1]) == 1: t = t.a[1][0]
    if t.op == 'slice': return t.a[0], t.a[1]
    if t.op in ('first-n', 'but-n'): return t.a[0], T(t.op, t.a[1])
    return t, None


def before(r, src, uid):
    """the restriction stands for those before (after) the current one of the loop"""
    if r is None: return False
    k = r.a[2] if r.op == 'adt' else (r.a[0],)
    p = T('pos', src, uid)
    if r.op == 'adt' and LAST(r.a[0]) == 'RangeTo': return k[0] is p
    if r.op == 'adt' and LAST(r.a[0]) == 'RangeFrom' and plus(k[0]) == (p, 1): return True
    if r.op == 'first-n': return k[0] is p
    if r.op == 'but-n': return plus(k[0]) == (p, 1)
    return False


def unique(c, items, key, what):
    """each pair of the items (keys) was found to differ"""
    got = compared(c, items)
    seen, good = [], {}
    for x, v, loops in got:
        if x.op == 'pred' and x.a[0] == 'contains' and len(x.a) == 3 and v == 0:
            b, r = base_of(x.a[1])
            for uid, srcs, body, loop in loops:
                if items in srcs and b is items and before(r, items, uid) and x.a[2] is T('elem', items, uid):
                    if key(x.a[2]) is x.a[2]: good.setdefault(uid, (loop, []))[1].append(body)
                    else: no(f'only entries equal as a whole are refused, and not {what}')
                if items in srcs and b is not items and b.op in ('coll', 'fold', 'acc', 'lv'): dunno('a set of those seen')
                if items in srcs and b is items and r is not None and r.op == 'adt' and LAST(r.a[0]) == 'RangeTo' and len(r.a[2]) == 1 and r.a[2][0].op == 'bin' and r.a[2][0].a[0] == 'Sub' \
                        and r.a[2][0].a[1] is T('pos', items, uid) and (const(r.a[2][0].a[2]) or 0) > 0: no(f'some of {what} before are passed over: {pp(r.a[2][0].a[2])}')
            seen.append('contains')
        elif x.op == 'bin' and x.a[0] == 'Eq' and v == 0:
            es = [y for y in walk(x) if y.op == 'elem']
            ids = {l[0] for l in loops}
            mine = {y.a[1] for y in walk(x) if y.op in ('elem', 'pos') and y.a[1] in ids}
            for (u, ss, body, loop), (w, ts, _, _) in [(p, q) for p in loops for q in loops if p[0] != q[0]]:
                full = [s for s in ss if s.op == 'range' and s.a[0] is I(0) and unw(s.a[1]) is unw(size(items))]
                A = [T('elem', items, u)] * bool(items in ss or full) + [T('idx', items, T('elem', s, u)) for s in full]
                B = [T('elem', t, w) for t in ts if base_of(t)[0] is items and (before(base_of(t)[1], items, u) or any(before(base_of(t)[1], s, u) for s in full))]
                for i in [T('pos', items, u)] * (items in ss) + [T('elem', s, u) for s in full]:
                    for t in ts:
                        if t.op == 'range' and (t.a[0] is I(0) and unw(t.a[1]) is i or plus(t.a[0]) == (i, 1) and unw(t.a[1]) is unw(size(items))):
                            B += [T('idx', items, T('elem', t, w)), T('elem', items, w)]
                        elif base_of(t)[0] is items and base_of(t)[1] is not None and base_of(t)[1].op == 'adt' and LAST(base_of(t)[1].a[0]) in ('RangeTo', 'RangeFrom'):
                            k = base_of(t)[1]
                            if k.a[2][0] is i and LAST(k.a[0]) == 'RangeTo' or LAST(k.a[0]) == 'RangeFrom' and plus(k.a[2][0]) == (i, 1): B.append(T('elem', t, w))
                for p in A:
                    for q in B:
                        if {x.a[1], x.a[2]} == {key(p), key(q)}: good.setdefault(u, (loop, []))[1].append(body)
                        elif {x.a[1], x.a[2]} == {p, q}: no(f'only entries equal as a whole are refused, and not {what}')
                        elif all(y in (p, q) or y.op == 'fld' and y.a[0] in (p, q) for y in x.a[1:]): no(f'{pp(x)[-160:]} is refused, and not the repetition of {what}')
            if len(mine) < 2 and known_calls(x):
                seen.append('single')
                continue
            seen.append('compare')
        elif x.op in ('call', 'pred') and LAST(str(x.a[0])) in ('insert', 'replace', 'all_unique', 'contains_key'): dunno('a set of those seen')
        elif x.op == 'bin' and x.a[0] in ('Eq', 'Lt') and any(is_call(y, 'len') and y.a[1][0].op == 'coll' and y.a[1][0].a[3] == 'ins' for y in walk(x)): return
        elif x.op == 'discr' and is_call(x.a[0], 'get'): dunno('a map of those seen')
        else: seen.append(x.op)
    for uid, (loop, bodies) in good.items():
        left = []
        for b in loop.x['bodies']:
            if any(b is x for x in bodies): continue
            fs = c.cfacts(b['facts'])
            if implies({**c.facts, **fs}, {}, T('pos', items, uid), I(0)): continue
            left.append(b)
        if not left:
            if any(x.op == 'done' and x.a[1] == uid and v == 1 for x, v in c.facts.items()) or any(loop is y for e in c.events() if e.k == 'loop' for b in e.x['bodies'] for y in b['events']): return
            no(f'the comparison of {what} need not get to the end')
        ns = [x for b in left for x in list(c.cfacts(b['facts'])) + [c.canon(y) for y in b.get('neq', ())] if x.op != 'done']
        need(False, f'some of {what} are passed over without comparison', not ns or not all(known_calls(x) for x in ns))
    odd_loops(c, what)
    if not good and got and all(l and near_only(x, items, l) for x, _, l in got if not mention_len(x, items)) and any(x.op == 'bin' and x.a[0] == 'Eq' and v == 0 for x, v, _ in got):
        no(f'of {what}, only neighbours are compared with each other')
    if not got:
        # nothing compares the items, unless something unknown looks at them
        for e in deep_events(c.events()):
            if e.k == 'call' and LAST(e.name) not in HARMLESS and any(isinstance(a, T) and mention(c.canon(a), items) for a in e.args): dunno(f'items are given to {e.name}')
        no(f'{what} are not compared with each other')
    plain = all(known_calls(x) or x.op == 'pred' and x.a[0] == 'contains' and known_calls(x.a[1]) and known_calls(x.a[2]) for x, _, _ in got)
    tot = [x for x, v, loops in got if any(items in ss for _, ss, _, _ in loops) and not any(y.op == 'idx' for y in walk(x))]
    need(False, f'not all of {what} are compared with each other', not plain or tot and set(seen) - {'single'})


def mention_len(x, items):
    """only the number of the items is looked at"""
    return all(index_only(y, items) for y in x.a if isinstance(y, T))


def near_only(x, items, loops):
    """the fact reads of the items nothing but the current one and the last of those before it, for their being the same"""
    if not (x.op == 'bin' and x.a[0] == 'Eq' or x.op == 'discr'): return False
    uids = [u for u, ss, _, _ in loops if items in ss]
    def ok(t):
        if t.op == 'elem' and t.a[0] is items and t.a[1] in uids: return True
        if is_call(t, 'last') and len(t.a[1]) == 1:
            b, r = base_of(t.a[1][0])
            if b is items and any(before(r, items, u) for u in uids): return True
        if t is items: return False
        return all(ok(y) for y in subs(t))
    return ok(x)


def subs(t):
    """the terms right inside the term"""
    def flat(a):
        for y in a:
            if isinstance(y, T): yield y
            elif isinstance(y, (tuple, list)): yield from flat(y)
    return list(flat(t.a))


def unique_of(c, items, key, what):
    """the items (their keys), or a list made of all the keys"""
    terms = list(c.facts) + [c.canon(f) for e, _, _ in loops_in(c.events(), {}) for b in e.x['bodies'] for f in b['facts']]
    for k in dict.fromkeys(y for x in terms for y in walk(x) if y.op == 'coll'):
        p = coll_parts(k)
        if k is items or p is None or p[0] is not items or p[2] != 'push': continue
        es = [y for y in walk(p[1]) if y.op == 'elem' and y.a[0] is items]
        if es and p[1] is key(es[0]):
            try: return unique(c, k, lambda e: e, what)
            except Verdict: pass
    unique(c, items, key, what)


def odd_loops(c, what):
    for e, srcs, bs, _ in c.loops():
        if not srcs: dunno(f'{what}: a loop with no known source')


def chars_known(c, is_src, direct, coll, root, what):
    """each of the characters is a declared variant of the enum"""
    wrong, part = [], []
    def by(fs, is_ch):
        """the variants among which the character was found; False: it was not looked for"""
        r = False
        for x, v in fs.items():
            if x.op == 'bin' and x.a[0] == 'Eq':
                a, b = unc(x.a[1]), unc(x.a[2])
                for p, q in ((a, b), (b, a)):
                    if is_ch(p) and q.op == 'fld' and q.a[2] == 'tag' and q.a[0].op == 'elem' and v == 1:
                        if q.a[0].a[0] is coll: return coll
                        r = q.a[0].a[0]
        return r
    def take(x):
        if x is not False and x is not coll: wrong.append(x)
        return x is coll
    if direct is not None and take(by(c.facts, direct)): return
    def go(events):
        for e in events:
            if e.k != 'loop': continue
            for s in [c.canon(s) for s in e.x['src']]:
                if not is_src(s): continue
                el = T('elem', s, e.x['uid'])
                ds = [v for x, v in c.facts.items() if x.op == 'done' and x.a[1] == e.x['uid'] and v == 1]
                if [take(by(c.cfacts(b['facts']), lambda t: t is el)) for b in e.x['bodies']].count(False) == 0 and ds and e.x['bodies']: return True
            if any(go(b['events']) for b in e.x['bodies']): return True
        return False
    if go(c.events()): return
    if wrong: no(f'{what} are looked for among the variants of another type: {pp(wrong[0])[:100]}')
    for e in deep_events(c.events()):
        if e.k == 'call' and LAST(e.name) not in HARMLESS | set(CONTENT) and any(isinstance(a, T) and mention(c.canon(a), root) for a in e.args): dunno(f'{what} are given to {e.name}')
    odd_loops(c, what)
    about = [x for x in list(c.facts) + list(c.neq) if x.op != 'done' and mention(x, root) and not lengths_only(x, root)]
    need(False, f'{what} are not looked for among those allowed', not all(known_calls(x) for x in about))


CONTENT = ('split_first', 'from_ascii', 'from_utf8', 'split_last', 'first', 'last', 'release', 'as_bytes', 'len', 'to_string', 'is_empty')


def is_first(cont):
    """the first byte of the content"""
    def go(t):
        t = unc(t)
        if t.op == 'idx': return const(t.a[1]) == 0 and strip_bytes(t.a[0]) is cont
        if t.op == 'fld' and t.a[2] == '0' and t.a[0].op == 'fld' and is_call(t.a[0].a[0], 'split_first'): return t.a[0].a[1] == 'Some' and strip_bytes(t.a[0].a[0].a[1][0]) is cont
        if t.op == 'fld' and t.a[1] == 'Some' and is_call(t.a[0], 'first'): return strip_bytes(t.a[0].a[1][0]) is cont
        return False
    return go


def head(t, cont):
    """a slice which begins with the first byte"""
    while t.op == 'call' and LAST(t.a[0]) in BYTES and len(t.a[1]) == 1: t = t.a[1][0]
    b, r = base_of(t)
    if r is None or strip_bytes(b) is not cont: return False
    if r.op == 'first-n': return (const(r.a[0]) or 0) > 0
    if r.op != 'adt': return False
    if LAST(r.a[0]) == 'RangeTo': return (const(r.a[2][0]) or 0) > 0
    return LAST(r.a[0]) == 'Range' and const(r.a[2][0]) == 0 and (const(r.a[2][1]) or 0) > 0


def is_rest(cont):
    """the bytes from the second on (or all)"""
    def go(t):
        while t.op == 'call' and LAST(t.a[0]) in BYTES and len(t.a[1]) == 1: t = t.a[1][0]
        if strip_bytes(t) is cont: return True
        if t.op == 'fld' and t.a[2] == '1' and t.a[0].op == 'fld' and is_call(t.a[0].a[0], 'split_first'): return t.a[0].a[1] == 'Some' and strip_bytes(t.a[0].a[0].a[1][0]) is cont
        b, r = base_of(t)
        if r is None or strip_bytes(b) is not cont: return False
        return const(r.a[2][0] if r.op == 'adt' and LAST(r.a[0]) == 'RangeFrom' else r.a[0] if r.op == 'but-n' else UNIT) in (0, 1)
    return go


def strip_bytes(t):
    while True:
        if t.op == 'call' and LAST(t.a[0]) in BYTES and len(t.a[1]) == 1: t = t.a[1][0]
        elif t.op == 'adt' and len(t.a[2]) == 1 and t.a[1] == '': t = t.a[2][0]
        else: return t


def V09(rep):
    """For each path of the decoder which returns a value of a type with bounds: the conditions of the path imply (as difference constraints)
    that the number of items, or bytes, is at least the declared minimum and at most the declared maximum, be it by checks or by the prefix width; each pair of set
    items or map keys was compared and found to differ; enum and union tags are those of a declared variant; each character of a restricted string was
    found among the variants of the character enum of its position."""
    f, cases, outs = decoded(rep)
    if f is not None and cases is None: rep.unknown('decoder', 'analysis gave up', f.where())
    n = 0
    for c in cases or ():
        if c.v is None or c.unit: continue
        tv = '|'.join(sorted(c.tset)) if len(c.tset) < 4 else 'any'
        v = c.v
        if not (v.op == 'adt' and LAST(v.a[0]) == 'StrictVal'):
            rep.unknown(f'{tv}:result', f'result not resolved: {pp(v)[:120]}', f.where())
            continue
        vk = v.a[1]
        if len(c.tset) != 1:
            if tv != 'any': rep.unknown(f'{tv}:{vk}', 'class not decided', f.where())
            continue
        key = f'{tv}:{vk}'
        if tv in ('Enum', 'Union'):
            n += 1
            try:
                ops = dops(c)
                need(ops and ops[0][0] == 'dec', 'the tag is not read first')
                matched(c, v.a[2][0], ops[0][2], T('fld', c.ty, tv, '0'))
                rep.ok(f'{key}:tag', '', f.where())
            except Verdict as e: rep.tri(f'{key}:tag', e.v, e.text, f.where())
            continue
        if not (tv in ('List', 'Set', 'Map') or tv == 'Tuple' and vk == 'String'): continue
        if vk not in ('List', 'Set', 'Map', 'String', 'Bytes'):
            rep.unknown(key, 'kind of value', f.where())
            continue
        n += 1
        cont = v.a[2][0]
        sz, shift = sizing_term(c, tv)
        num = size(cont)
        for low in (True, False):
            b = 'minimum' if low else 'maximum'
            try:
                if not from_data(num): dunno(f'number of items not resolved: {pp(num)[:100]}')
                bound_ok(c, num, T('fld', sz, '', b[:3]), shift, low, f'a {vk} read for a {tv} need not observe the declared {b} of items')
                rep.ok(f'{key}:{b}', '', f.where())
            except Verdict as e: rep.tri(f'{key}:{b}', e.v, e.text, f.where())
        try:
            if tv == 'Set': unique_of(c, cont, lambda e: e, 'set members')
            elif tv == 'Map': unique_of(c, cont, lambda e: reduce_(T('fld', e, '', '0')), 'map keys')
            else: raise Verdict(True, '')
            rep.ok(f'{key}:unique', '', f.where())
        except Verdict as e:
            if e.v is not True: rep.tri(f'{key}:unique', e.v, e.text, f.where())
        if vk == 'String':
            try:
                root = strip_bytes(cont)
                var = lambda i: T('fld', T('look', i), 'Enum', '0')
                if tv == 'List':
                    idt = T('fld', c.ty, 'List', '0')
                    if any(a.op == 'discr' and a.a[0] is T('look', idt) and x == 'Enum' for a, x in c.facts.items()) and not is_item(c, 'unicode_char', idt) and not implies(c.facts, c.neq, num, I(0)):
                        chars_known(c, lambda t: strip_bytes(t) is root, None, var(idt), root, 'characters')
                elif order_of(c.facts, c.neq)[0].sat() and not implies(c.facts, c.neq, num, I(0)):
                    tup_, ok1 = T('fld', c.ty, 'Tuple', '0'), is_first(root)
                    item = T('fld', T('look', T('idx', tup_, I(1))), 'List', '0')
                    chars_known(c, lambda t: t.op == 'arr' and len(t.a[0]) == 1 and ok1(t.a[0][0]) or strip_bytes(t) is root or head(t, root), ok1, var(T('idx', tup_, I(0))), root, 'the first character')
                    chars_known(c, is_rest(root), None, var(item), root, 'characters after the first')
                rep.ok(f'{key}:characters', '', f.where())
            except Verdict as e: rep.tri(f'{key}:characters', e.v, e.text, f.where())
    rep.floor('values', n, 12, 'ways of decoding a value with constraints')


# ------------------------------------------------------------------ V10
ALLOC = {'with_capacity': 0, 'reserve': 1, 'reserve_exact': 1, 'from_elem': 1, 'try_reserve': 1, 'resize': 1, 'zeroed': 0, 'with_capacity_and_hasher': 0, 'resize_with': 1, 'repeat': 1}
LARGEST = 1 << 24


def up_front(e, c):
    """(number reserved, text) or None"""
    it = LAST(e.name)
    if it in ALLOC and len(e.args) > ALLOC[it]: return c.canon(e.args[ALLOC[it]]), f'{it}'
    if it == 'read_raw' and len(e.args) == 2: return c.canon(e.args[1]), 'read_raw'
    if it == 'strict_decode':
        d = CONF.match((e.self_ty or '').replace(' ', ''))
        if d and int(d.group(3)) >= LARGEST: return I(int(d.group(3))), f'decoding of {e.self_ty}'
    return None


def V10(rep):
    """For each reservation of memory on any path of the decoder (with_capacity, reserve, vec![_; n], reading of raw bytes, confined
    collections decoded at once): the number is a term over the type definition alone (fields, length of an array), or the conditions of the path together with
    minima and widths imply that it is below 2^24; a number taken of the data without such a bound is a violation."""
    f, cases, outs = decoded(rep)
    if f is not None and outs is None: rep.unknown('decoder', 'analysis gave up', f.where())
    canon, vv, tv = DCanon(), variants_of(rep, 'StrictVal'), variants_of(rep, 'Ty')
    n, seen = 0, {}
    for o in outs or ():
        c = None
        for e, fs in each_event(o.st.events(), {}):
            if e.k != 'call' or LAST(e.name) not in ALLOC and LAST(e.name) not in ('read_raw', 'strict_decode'): continue
            c = c or DCase(o, UNIT, canon, vv, tv)
            r = up_front(e, c)
            if r is None: continue
            n += 1
            k, how = r
            fn = LAST(str(e.fn)) if e.fn else ''
            key = f'{how}:{"|".join(sorted(c.tset)) if len(c.tset) < 4 else "any"}:{pp(k)[:60]}'
            inner = {c.canon(a): b for a, b in fs.items() if isinstance(b, int)}
            x = rest_of(c, k, [c.canon(a) for a in fs])
            if x is not None and not implies({**c.facts, **inner}, {}, k, I(LARGEST)): k, looped = x, True
            else: looped = False
            if const(k) is not None: v = const(k) < LARGEST
            elif implies({**c.facts, **inner}, {}, k, I(LARGEST)): v = True
            elif not from_data(k): v = None if fuzzy(k) else not any(y.op == 'fld' and y.a[2] in ('max', 'min') for y in walk(k))
            else: v = False if known_calls(k) and not unknown_bounds(c, k, looped) else None
            if seen.get(key, 0) == v and key in seen: continue
            seen[key] = v
            rep.tri(key, v, f'memory for {pp(k)[:160]} items is reserved by {how} (line {e.line}) before any of them is read', f.where())
    rep.floor('reservations', n, 10, 'reservations')


def each_event(evs, facts):
    """events with the conditions of the round of the loop they are in"""
    for e in evs:
        yield e, facts
        if e.k == 'loop':
            for b in e.x['bodies']: yield from each_event(b['events'], {**facts, **b['facts'], **{k: v for k, v in b['neq'].items() if k not in b['facts']}})


def rest_of(c, k, inner):
    """n, if n less the number of items collected so far is reserved, which nothing but n limits"""
    if k.op == 'call' and LAST(k.a[0]) in ('saturating_sub', 'wrapping_sub') and len(k.a[1]) == 2: n, l = k.a[1]
    elif k.op == 'bin' and k.a[0].startswith('Sub'): n, l = k.a[1], k.a[2]
    else: return None
    if any(y.op == 'lv' for y in walk(n)) or not (l.op == 'len' or l.op == 'call' and LAST(l.a[0]) == 'len'): return None
    of = [y for y in walk(l) if y.op == 'lv']
    if len(of) != 1: return None
    free = lambda x: x.op in ('discr', 'done', 'ovf') or x.op == 'bin' and x.a[0] in ('Lt', 'Eq') and all(any(y is of[0] for y in walk(z)) for z in x.a[1:])
    return n if all(free(x) for x in list(c.facts) + list(c.neq) + list(inner) if mention(x, of[0])) else None


def unknown_bounds(c, k, looped=False):
    parts = [y for y in walk(k) if y.op in ('prim', 'raw')]
    # what a loop has collected is looked at after the reservations in it
    late = lambda x: looped and any(y.op == 'fold' and mention(y.a[1], z) for y in walk(x) for z in parts)
    return any(not (late(x) or x.op in ('discr', 'done') or x.op == 'bin' and x.a[0] in ('Lt', 'Eq') and known_calls(x)) and any(mention(x, y) for y in parts) for x in list(c.facts) + list(c.neq))


# ------------------------------------------------------------------ V11
def V11(rep):
    """For each successful path of the two functions decoding a slice: the value is the result of one nested read by the id asked for (or the
    id of the name asked for), the reader goes over the whole slice given, and the conditions of the path imply that the position after the read is not below the
    length of the slice."""
    n = 0
    for ow, it, f, outs in entries(rep):
        if outs is None: continue
        canon = DCanon()
        for o in outs:
            if o.k != 'ret': continue
            facts, neq = {canon(a): x for a, x in o.st.facts.items()}, {canon(a): x for a, x in o.st.neq.items()}
            k, v = res_parts(o)
            if k == 'Err': continue
            val = o.v if k is None else v
            key = f'{ow}::{it}'
            n += 1
            try:
                if k is None:
                    if val.op == 'call' and LAST(val.a[0]) == 'strict_read_type': call = val
                    else: dunno(f'result not resolved: {pp(val)[:120]}')
                else:
                    call = val.a[0] if val.op == 'fld' and val.a[1] == 'Ok' else None
                    if call is None or not (call.op == 'call' and LAST(call.a[0]) in ('strict_read_type', 'strict_deserialize_type')):
                        need(False, f'the result is {pp(val)[:120]} and not that of a read', fuzzy(val) or val.op not in ('adt', 'fld'))
                sysm, idt, rd = call.a[1]
                sym_call = sysm is SELF and ow == 'SymbolicSys'
                ids = {SPEC, T('call', 'Into::into', (SPEC,), ''), T('call', 'From::from', (SPEC,), '')}
                if ow == 'SymbolicSys' and not sym_call:
                    idt = unwrap(idt)
                    need(idt.op == 'fld' and idt.a[1] == 'Some' and is_call(idt.a[0], 'to_sem_id') and idt.a[0].a[1][0] is SELF and norm_spec(idt.a[0].a[1][1]) is SPEC,
                         f'the type read is {pp(idt)[:120]} and not the one asked for', fuzzy(idt))
                    need(any(y is SELF for y in walk(sysm)), f'the type is read by {pp(sysm)[:80]}', fuzzy(sysm))
                else: need(norm_spec(idt) is SPEC, f'the type read is {pp(idt)[:120]} and not the one asked for', fuzzy(idt))
                if it == 'strict_deserialize_type':
                    if LAST(call.a[0]) == 'strict_deserialize_type':
                        need(strip_bytes(rd) is DATA, 'not the whole of the data is decoded', fuzzy(rd))
                    else: whole(o, facts, neq, call, rd, [{canon(a) for a in list(q.st.facts) + list(q.st.neq)} for q in outs if q.k == 'ret' and res_parts(q)[0] == 'Err'])
                else: need(mention(rd, DATA), f'the value is read from {pp(rd)[:100]}', fuzzy(rd))
                rep.ok(key, '', f.where())
            except Verdict as e: rep.tri(key, e.v, e.text, f.where())
    rep.floor('paths', n, 3, 'successful paths')


def norm_spec(t):
    while t.op == 'call' and LAST(t.a[0]) in ('into', 'from', 'clone') and len(t.a[1]) == 1: t = t.a[1][0]
    return t


def whole(o, facts, neq, call, rd, errs=()):
    curs = [y for y in walk(rd) if y.op == 'call' and LAST(y.a[0]) in ('new', 'cursor', 'from', 'with') and len(y.a[1]) == 1 and mention(y, DATA)]
    curs = [y for y in curs if y.a[1][0].op not in ('call',) or not mention(y.a[1][0], DATA) or LAST(y.a[1][0].a[0]) in BYTES]
    src = strip_bytes(curs[-1].a[1][0]) if curs else strip_bytes(rd) if strip_bytes(rd) is DATA else None
    if src is None: dunno(f'reader not resolved: {pp(rd)[:120]}')
    part = src.op == 'slice' and strip_bytes(src.a[0]) is DATA and src.a[1].op == 'adt'
    if part and [const(y) if const(y) is not None else unc(y) for y in src.a[1].a[2]] in ([0], [0, lens(DATA)], [lens(DATA)]) and (len(src.a[1].a[2]) == 2 or LAST(src.a[1].a[0]) == ('RangeFrom' if const(src.a[1].a[2][0]) == 0 else 'RangeTo')): src = DATA
    need(src is DATA, f'what is read is {pp(src)[:120]} and not the whole of the data', not part and fuzzy(src) or not part and not resolved(src, ('position', 'rposition', 'find', 'get', 'min', 'max', 'len')))
    after = lambda t: any(y.op == 'after' and LAST(y.a[0].split('#')[0]) == 'strict_read_type' for y in walk(t))
    pos = {y for x in list(facts) + list(neq) for y in walk(x) if y.op == 'call' and LAST(y.a[0]) == 'position' and after(y)}
    n = lens(DATA)
    ok = [p for p in pos if implies(facts, neq, n, p)]
    if ok: return
    about = [x for x in list(facts) + list(neq) if after(x)]
    # a rest is refused for what its bytes are, and not for being there
    seen = {y.a[0] for fs in errs for x in fs for y in walk(x) if y.op == 'elem'}
    if any(x.op == 'done' and x.a[0] in seen for x in about): need(False, 'data which are not read are accepted for some of their bytes', False)
    fine = [x for x in about if (x.op == 'bin' and x.a[0] in ('Lt', 'Eq') or x.op == 'ovf' or x in pos) and (any(mention(x, p) for p in pos))]
    need(False, 'success does not depend on the data having been read to the end' if not about else 'success does not require that the data have been read to the end', len(fine) < len(about))
