"""V01..V05: what typification accepts and produces."""
from .common import *
from .compiler import loops_in, over, mention
from .system import eq_facts
from ..models import prim_bytes

LAST = lambda n: n.split('::')[-1]
SELF, VAL, ID = T('sym', 'self'), T('sym', 'val'), T('sym', 'sem_id')


# ------------------------------------------------------------------ analysis of the code once per program
def keep_lookups(owner, item, self_ty, fn):
    """calls kept as they are: look-ups by id, nested typification, the ids of the built-in types"""
    if fn is None: return False
    if owner in ('TypeSystem', 'SymbolicSys') and item in ('typify', 'find', 'get', 'strict_read_type', 'strict_write_val'): return True
    return owner == 'SemId' and item in ('unit', 'byte', 'ascii', 'unicode_char')


def option_model(owner, item, self_ty, fn):
    """`is_option` / `as_some` of a type as a predicate (what it means is the subject of A06)"""
    if fn is None or item not in ('is_option', 'as_some') or not (fn.name.find('ty::Ty') >= 0 or owner == 'Ty'): return None

    def m(eng, fr, args, st, ctx):
        v = eng.deref_val(args[0], st)
        c = T('call', 'Ty::as_some', (v,), '')
        return M.ret(T('issome', c) if item == 'is_option' else c, st)
    return m


def byte_model(owner, item, self_ty, fn):
    """the identifiers of the byte and the unicode character types, and comparisons with them, kept as predicates (subject of A05)"""
    if fn is None or item not in ('is_byte', 'is_unicode_char', 'byte', 'unicode_char') or 'SemId' not in (owner, self_ty) and not fn.name.startswith('<ast::id::SemId as '): return None

    def m(eng, fr, args, st, ctx): return M.ret(T('call', 'SemId::' + item, tuple(eng.deref_val(a, st) for a in args), ''), st)
    return m


class Canon:
    """look(id): the type found under an id; typed(value, id): the result of a nested typification"""
    def __init__(self): self.memo = {}

    def __call__(self, x):
        if isinstance(x, tuple): return tuple(self(y) for y in x)
        if not isinstance(x, T): return x
        r = self.memo.get(x)
        if r is not None: return r
        na = tuple(self(y) for y in x.a)
        r = x if na == x.a else T(x.op, *na)
        if r.op == 'fld' and r.a[1] in ('Some', 'Ok') and r.a[2] == '0' and r.a[0].op == 'call':
            c = r.a[0]
            it = LAST(c.a[0])
            if it in ('find', 'get') and len(c.a[1]) == 2 and c.a[1][0] is SELF: r = T('look', c.a[1][1])
            elif it.startswith('typify') and len(c.a[1]) == 3 and c.a[1][0] is SELF: r = T('typedv', c.a[1][1], c.a[1][2])
        elif r.op == 'fld' and r.a[0].op == 'typedv' and r.a[2] == 'val': r = T('typed', *r.a[0].a)
        self.memo[x] = r
        return r


class Case:
    """A path on which a value is accepted"""
    def __init__(self, o, v, canon, vvars, tvars):
        self.o, self.canon = o, canon
        self.facts = {canon(a): x for a, x in o.st.facts.items()}
        self.neq = {canon(a): x for a, x in o.st.neq.items()}
        self.v = canon(v)
        self.ty = T('look', ID)
        self.unit = any({a, b} == {ID, T('call', 'SemId::unit', (), '')} for a, b in eq_facts(self.facts))
        self.vset = self.variants(VAL, 'StrictVal', vvars)
        if self.unit: self.tset = {'Primitive'}
        else: self.tset = self.variants(self.ty, 'Ty', tvars)

    def variants(self, t, path, allv):
        for a, x in self.facts.items():
            if a.op == 'discr' and a.a[0] is t: return {x}
        r = set(allv)
        for a, x in self.neq.items():
            if a.op == 'discr' and a.a[0] is t: r -= set(x)
        return r

    def events(self): return self.o.st.events()

    def cfacts(self, fs): return {self.canon(a): x for a, x in fs.items()}

    def loops(self):
        """(sources, bodies' facts, loop, facts around) in canonical terms"""
        for e, ctx, parents in loops_in(self.events(), {}):
            yield e, [self.canon(s) for s in e.x['src']], [(self.cfacts(b['facts']), b) for b in e.x['bodies']], parents

    def fld(self, var, i='0'): return T('fld', self.ty, var, i)
    def vf(self, var, i='0'): return T('fld', VAL, var, i)
    def where(self): return self.o.where if hasattr(self.o, 'where') else ''


def typified(rep):
    """the accepting paths of TypeSystem::typify"""
    p = rep.p
    c = getattr(p, '_typify', None)
    if c is None:
        f = rep.fn('TypeSystem', 'typify')
        if f is None:
            p._typify = (None, None, None)
            return p._typify
        outs = rep.paths_of(f, names=['self', 'val', 'sem_id'], opaque=(keep_lookups,), over=(refs_iter(p), option_model, byte_model))
        cases = None
        if outs is not None:
            canon = Canon()
            vv = [v['name'] for v in p.adts[ety(rep, 'StrictVal')]['variants']]
            tv = [v['name'] for v in p.adts[ety(rep, 'Ty')]['variants']]
            cases, odd = [], 0
            for o in outs:
                if o.k != 'ret': continue
                k, v = res_parts(o)
                if k == 'Err': continue
                if k != 'Ok' or v.op != 'adt' or LAST(v.a[0]) != 'TypedVal':
                    cases.append(Case(o, o.v, canon, vv, tv))
                    cases[-1].v = None
                    continue
                fs = dict(zip([x['name'] for x in p.adts[v.a[0]]['variants'][0]['fields']], v.a[2]))
                cs = Case(o, fs.get('val', v), canon, vv, tv)
                cs.orig = fs.get('orig')
                cases.append(cs)
        p._typify = (f, cases, rep.last_eng.fns_seen if outs is not None else set())
        p._typify_paths = len(outs or ())
    else:
        rep.fns |= c[2] or set()
        rep.paths += getattr(p, '_typify_paths', 0)
    return p._typify


def lens(t): return T('call', 'len', (t,), '')
def unc(t):
    while t.op == 'cast': t = t.a[1]
    return t


def le(case, a, b):
    """a <= b is known"""
    for x, v in case.facts.items():
        if x.op == 'bin' and x.a[0] == 'Lt':
            l, r = unc(x.a[1]), unc(x.a[2])
            if v == 0 and l is b and r is a: return True
            if v == 1 and l is a and r is b: return True
        if x.op == 'bin' and x.a[0] == 'Eq' and v == 1 and {unc(x.a[1]), unc(x.a[2])} == {a, b}: return True
        if x.op == 'call' and LAST(x.a[0]) == 'check' and v == 1 and len(x.a[1]) == 2:
            s, n = x.a[1]
            if {T('fld', s, '', 'min'), n} == {a, b} or {T('fld', s, '', 'max'), n} == {a, b}: return True
    return False


def eqk(case, a, b):
    for x, v in case.facts.items():
        if x.op == 'bin' and x.a[0] == 'Eq' and v == 1 and {unc(x.a[1]), unc(x.a[2])} == {a, b}: return True
        if x is a and b.op == 'int' and v == b.a[0] and not isinstance(v, bool): return True
    return le(case, a, b) and le(case, b, a)


RECOGNISED = ('discr', 'issome', 'done', 'pred')


def open_about(case, *terms):
    """facts which mention all the terms (or unresolved parts) in a form not understood"""
    for x in list(case.facts) + list(case.neq):
        if x.op in ('discr',) or x.op == 'call' and x.a[0].startswith('SemId::is_'): continue
        fine = x.op == 'bin' and x.a[0] in ('Eq', 'Lt') and resolved(x, ('byte_size', 'leading_zeros', 'find', 'get', 'typify', 'try_from', 'bits_required', 'as_some', 'unit', 'byte', 'ascii', 'unicode_char', 'from'))
        if all(mention(x, t) for t in terms) and not fine: return True
    return False


def odd_calls(case, *terms):
    """unknown functions which get the terms and might check them"""
    for e in deep_events(case.events()):
        if e.k == 'call' and LAST(e.name) not in ('typify', 'find', 'get', 'with_capacity', 'push', 'insert', 'try_from', 'drop', 'unit', 'byte', 'ascii', 'unicode_char', 'from', 'pop', 'update', 'finalize', 'new', 'new_with_prefix', 'from_ascii', 'clone', 'shift_remove', 'remove', 'swap_remove', 'leading_zeros', 'bits_required', 'next'):
            if any(any(mention(case.canon(a), t) for t in terms) for a in e.args if isinstance(a, T)): return True
    return False


def label(case):
    return f"{'|'.join(sorted(case.vset)) if len(case.vset) < 4 else 'any'}:{'|'.join(sorted(case.tset)) if len(case.tset) < 4 else 'any'}"


def is_wrapped(case):
    """the result is made by handing the value on to the single field of a tuple or to the variants of an option"""
    return kind_of(case) in ('newtype', 'option')


def kind_of(case):
    v = case.v
    if v is None: return None
    opt = case.facts.get(T('discr', T('call', 'Ty::as_some', (case.ty,), ''), M.OPT)) == 'Some'
    if v.op == 'adt' and LAST(v.a[0]) == 'StrictVal':
        if v.a[1] == 'Tuple' and v.a[2][0].op == 'arr' and case.tset == {'Tuple'}: return 'newtype'
        if v.a[1] == 'Union' and opt: return 'option'
    return 'direct'


SIZED = {'List': ('1',), 'Set': ('1',), 'Map': ('2',)}


def items_of(case, var):
    """the collection of items of the value given"""
    f = case.vf(var)
    return [f, T('fld', f, '', '0')] if var == 'Bytes' else [f]


def V01(rep):
    """For each accepting path of `typify`: if the type may be a list, set, map or restricted string the branch conditions of the path imply
    minimum <= length and length <= maximum for the declared sizing of that very type; if it may be an array they imply length == declared length."""
    f, cases, _ = typified(rep)
    if f is None: return
    if cases is None: return rep.unknown('typify', 'analysis gave up', f.where())
    n = 0
    for c in cases:
        if c.v is None:
            rep.unknown(f'typify:{label(c)}', f'result not resolved: {pp(c.o.v)[:200]}', f.where())
            continue
        for tv in sorted(c.tset):
            if tv in SIZED or tv == 'Array' or (tv == 'Tuple' and 'String' in c.vset and kind_of(c) == 'direct' and (c.v is VAL or c.v.op == 'adt' and c.v.a[1] == 'String' or not fuzzy(c.v))) or tv == 'UnicodeChar':
                if tv != 'Array' and tv not in SIZED and c.vset != {'String'}: continue
                for vv in sorted(c.vset):
                    if vv not in ('List', 'Set', 'Map', 'Bytes', 'String', 'Tuple', 'Struct'): continue
                    n += 1
                    size_case(rep, f, c, vv, tv)
    rep.floor('collections', n, 9, 'accepted combinations of a value and a sized type')


def size_case(rep, f, c, vv, tv):
    key = f'{vv}:{tv}'
    colls = items_of(c, vv)
    ns = [lens(x) for x in colls]
    # the length after conversion
    if tv == 'Array':
        L = c.fld('Array', '1')
        good = any(eqk(c, n, L) for n in ns)
        rep.tri(key, True if good else None if open_about(c, L) or odd_calls(c, c.ty, L, *colls) else False,
                '' if good else 'accepted without the number of items being equal to the length of the array', f.where())
        return
    if tv == 'UnicodeChar':
        s = c.vf('String')
        one = any(mention(x, s) and (x.op == 'bin' or x.op == 'call') for x in list(c.facts) + list(c.neq))
        cnt = [x for x, v in c.facts.items() if v == 1 and x.op == 'call' and 'count' in x.a[0] and mention(x, s)]
        ln = [x for x, v in c.facts.items() if x is lens(s) and v == 1]
        good = bool(cnt) or any(x.op == 'call' and x.a[0] == 'len' and mention(x, s) and v == 1 and x is not lens(s) for x, v in c.facts.items())
        rep.tri(key, True if good else None if one and not ln else False, '' if good else 'a string accepted as a single character without its characters being counted to one', f.where())
        return
    if tv == 'Tuple':
        # restricted string: sizing is that of the list of the rest plus one
        rest = T('look', T('idx', c.fld('Tuple'), I(1)))
        sz = None
        for x in list(c.facts):
            for y in walk(x):
                if y.op == 'fld' and y.a[2] in ('min', 'max') and mention(y, c.ty): sz = y.a[0]
        if sz is None:
            rep.tri(key, None if odd_calls(c, c.ty, c.fld('Tuple')) else False, 'a restricted string is accepted without a check of its length', f.where())
            return
        lo, hi = T('fld', sz, '', 'min'), T('fld', sz, '', 'max')
        def plus1(t): return [T('bin', o, a, b) for o in ('SatAdd', 'Add') for a, b in ((t, I(1)), (I(1), t))]
        okl = any(le(c, b, n) for n in ns for b in plus1(lo))
        okh = any(le(c, n, b) for n in ns for b in plus1(hi))
        for nm, good, b in (('minimum', okl, lo), ('maximum', okh, hi)):
            rep.tri(f'{key}:{nm}', True if good else None if open_about(c, b) or odd_calls(c, b, sz) else False,
                    '' if good else f'a restricted string is accepted without its length being checked against the {nm} length (one character more than the list of the rest)', f.where())
        return
    sz = c.fld(tv, SIZED[tv][0])
    for nm, fieldn in (('minimum', 'min'), ('maximum', 'max')):
        b = T('fld', sz, '', fieldn)
        good = any(le(c, b, n) if fieldn == 'min' else le(c, n, b) for n in ns)
        rep.tri(f'{key}:{nm}', True if good else None if open_about(c, b) or odd_calls(c, sz, b) else False,
                '' if good else f'accepted without its number of items being checked against the declared {nm}', f.where())


# ------------------------------------------------------------------ V02: intervals
class Bits:
    """Abstract number: sign and number of significant bits"""
    def __init__(self, code, codeterms, num, neg, bits, width, cls):
        self.code, self.codeterms, self.num, self.neg, self.bits, self.width, self.cls = code, codeterms, num, neg, bits, width, cls

    def value(self):
        if not self.neg: return (0, 0) if self.bits == 0 else (1 << (self.bits - 1), (1 << self.bits) - 1)
        return (-1, -1) if self.bits == 0 else (-(1 << self.bits), -(1 << (self.bits - 1)) - 1)

    def ev(self, t):
        """interval of a term or None"""
        if t in self.codeterms: return (self.code, self.code)
        if t is self.num: return self.value()
        if t.op == 'int': return (t.a[0], t.a[0])
        if t.op == 'cast':
            r = self.ev(t.a[1])
            if r is None: return None
            from ..engine import INT_BITS
            b = INT_BITS.get(t.a[0])
            if b is None: return None
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.a[0].startswith('i') else (0, (1 << b) - 1)
            return r if lo <= r[0] and r[1] <= hi else None
        if t.op == 'call':
            it = LAST(t.a[0])
            if it == 'byte_size' and len(t.a[1]) == 1: return (prim_bytes(self.code),) * 2
            if it in ('leading_zeros', 'bits_required', 'leading_ones') and len(t.a[1]) == 1:
                x, inv = t.a[1][0], False
                if x.op == 'un' and x.a[0] == 'Not': x, inv = x.a[1], True
                if x.op == 'cast' and x.a[0] in ('u64', 'i64'): x = x.a[1]
                if x is not self.num: return None
                if it == 'bits_required': return None if inv else (self.bits + (1 if self.cls == 'BigInt' else 0),) * 2
                if self.width != 64: return None
                z = self.neg != inv
                if it == 'leading_ones': z = not z
                return (0, 0) if z else (64 - self.bits,) * 2
            if it == 'from' and len(t.a[1]) == 1: return self.ev(t.a[1][0])
            if it in ('max', 'min') and len(t.a[1]) == 2:
                a, b = self.ev(t.a[1][0]), self.ev(t.a[1][1])
                if a is None or b is None: return None
                f = max if it == 'max' else min
                return (f(a[0], b[0]), f(a[1], b[1]))
            if it in ('pow',) and len(t.a[1]) == 2:
                a, b = self.ev(t.a[1][0]), self.ev(t.a[1][1])
                if a is None or b is None or a[0] != a[1] or b[0] != b[1] or b[0] > 2048 or b[0] < 0: return None
                return (a[0] ** b[0],) * 2
            return None
        if t.op == 'un' and t.a[0] == 'Not':
            a = self.ev(t.a[1])
            return None if a is None or self.cls not in ('Int', 'BigInt') else (-a[1] - 1, -a[0] - 1)
        if t.op == 'un' and t.a[0] == 'Neg':
            a = self.ev(t.a[1])
            return None if a is None else (-a[1], -a[0])
        if t.op == 'bin':
            o = t.a[0]
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            if o in ('Eq', 'Lt', 'Ne', 'Le', 'Gt', 'Ge'):
                r = self.cmp(o, a, b)
                return None if r is None else (r, r)
            if a is None or b is None: return None
            if o == 'Add': return (a[0] + b[0], a[1] + b[1])
            if o in ('Sub',): return (a[0] - b[1], a[1] - b[0])
            if o == 'SatSub': return (max(0, a[0] - b[1]), max(0, a[1] - b[0]))
            if o == 'SatAdd': return (a[0] + b[0], a[1] + b[1])
            if o in ('Mul', 'SatMul'):
                q = [x * y for x in a for y in b]
                return (min(q), max(q))
            if o in ('Shl', 'Shr') and b[0] == b[1] and 0 <= b[0] < 4096:
                return (a[0] << b[0], a[1] << b[0]) if o == 'Shl' else (a[0] >> b[0], a[1] >> b[0])
            if o == 'Div' and b[0] == b[1] and b[0] > 0: return (a[0] // b[0], a[1] // b[0])
            if a[0] == a[1] and b[0] == b[1]:
                x, y = a[0], b[0]
                if o == 'Rem' and y: return (x % y,) * 2
                if o == 'BitAnd': return (x & y,) * 2
                if o == 'BitOr': return (x | y,) * 2
                if o == 'BitXor': return (x ^ y,) * 2
        return None

    def cmp(self, o, a, b):
        if a is None or b is None: return None
        if o in ('Gt', 'Le'): o, a, b = {'Gt': 'Lt', 'Le': 'Ge'}[o], b, a
        if o == 'Ne':
            r = self.cmp('Eq', a, b)
            return None if r is None else 1 - r
        if o == 'Ge':
            r = self.cmp('Lt', a, b)
            return None if r is None else 1 - r
        if o == 'Eq': return 1 if a[0] == a[1] == b[0] == b[1] else 0 if a[1] < b[0] or b[1] < a[0] else None
        if o == 'Lt': return 1 if a[1] < b[0] else 0 if a[0] >= b[1] else None

    def holds(self, facts, neq):
        """False if some fact is certainly violated"""
        for t, v in facts.items():
            if not isinstance(v, int) or t.op == 'ovf': continue
            r = self.ev(t)
            if r is not None and not (r[0] <= v <= r[1]): return False
        for t, vs in neq.items():
            r = self.ev(t)
            if r is not None and r[0] == r[1] and r[0] in vs: return False
        return True


CLS = {'Uint': (64, False), 'Int': (64, True), 'BigUint': (1024, False), 'BigInt': (1024, True)}


def V02(rep):
    """For each accepting path of `typify` for a number and a primitive type: for every primitive code and every sign and bit length
    of the number (an exhaustive finite abstraction) which the branch conditions of the path admit, the number is representable in the width and
    signedness of the code, the produced number is the same number, and the code is neither unit nor a float nor reserved."""
    f, cases, _ = typified(rep)
    if f is None: return
    if cases is None: return rep.unknown('typify', 'analysis gave up', f.where())
    n = 0
    classes = set()
    for c in cases:
        if c.v is None or 'Number' not in c.vset or 'Primitive' not in c.tset: continue
        if kind_of(c) != 'direct': continue
        num0 = c.vf('Number')
        nvs = c.variants(num0, 'StrictNum', list(CLS))
        prim = c.fld('Primitive')
        if c.unit: codeterms, codes = set(), [0]
        else: codeterms, codes = {T('fld', prim, '', '0'), T('call', 'Primitive::into_code', (prim,), '')}, range(256)
        for nv in sorted(nvs):
            n += 1
            classes.add(nv)
            key = f'Number.{nv}:Primitive'
            num = T('fld', num0, nv, '0')
            # the number produced
            out, outn = produced(c, num0, nv, num)
            if out is None:
                rep.tri(key + ':value', None if outn is None or fuzzy(outn) else False, f'the result is not the number given: {pp(c.v)[:200]}', f.where())
                continue
            width, signed = CLS[nv]
            ow, osg = CLS[out]
            bad = None
            for code in codes:
                for neg in ((False, True) if signed else (False,)):
                    for bits in (range(0, width + (0 if signed else 1)) if width == 64 else BIGBITS(width, signed)):
                        b = Bits(code, codeterms, num, neg, bits, width, nv)
                        if not b.holds(c.facts, c.neq): continue
                        r = fits(code, neg, bits, out, nv)
                        if r: bad = bad or (code, neg, bits, r)
            if bad:
                opn = any(mention(t, num) and t.op not in ('discr', 'ovf') and Bits(1, codeterms, num, False, 9, width, nv).ev(t) is None for t in list(c.facts) + list(c.neq)) or odd_calls(c, num, num0)
                rep.tri(key, None if opn else False, f'a {"negative " if bad[1] else ""}number of {bad[2]} bits is accepted for the primitive of code {bad[0]:#04x}: {bad[3]}', f.where())
            else: rep.ok(key, '', f.where())
    rep.floor('numbers', n, 6, 'accepting paths for numbers')
    rep.check('classes', len(classes) >= 4, f'numbers of the kinds {sorted(classes)} are accepted', f.where())


def BIGBITS(w, signed):
    r = set()
    for k in range(0, w + 1, 8): r |= {k - 1, k, k + 1}
    return sorted(x for x in r if 0 <= x <= (w - 1 if signed else w))


def produced(c, num0, nv, num):
    """(kind, term) of the number produced"""
    v = c.v
    if v is VAL: return nv, num
    if v.op == 'adt' and v.a[1] == 'Number':
        x = v.a[2][0]
        if x is num0: return nv, num
        if x.op == 'adt' and x.a[1] in CLS:
            y = x.a[2][0]
            z = y
            while z.op == 'cast' or (z.op == 'call' and LAST(z.a[0]) in ('from', 'into', 'clone') and len(z.a[1]) == 1): z = z.a[1] if z.op == 'cast' else z.a[1][0]
            if z is num: return x.a[1], y
            return None, y
        return None, x
    return None, v


def fits(code, neg, bits, out, nv):
    if code == 0: return 'the unit type holds no number'
    if code >= 0x80: return 'neither an integer type'
    by = prim_bytes(code)
    signed = 0x40 < code < 0x80
    w = by * 8
    if signed:
        if bits > w - 1: return f'it does not fit {w} bits with a sign'
    else:
        if neg: return 'it does not fit an unsigned type'
        if bits > w: return f'it does not fit {w} bits'
    ow, osg = CLS[out]
    if w > ow: return f'a number of {ow} bits is kept for a type of {w} bits which can not be written'
    if osg and not neg and bits > ow - 1: return 'the conversion changes its sign'
    if not osg and neg: return 'the conversion changes its sign'
    return None


# ------------------------------------------------------------------ V03 / V04: structure of the accepted values
def strip(t):
    while True:
        if t.op == 'adt' and len(t.a[2]) == 1 and LAST(t.a[0]) not in ('StrictVal', 'EnumTag', 'StrictNum'): t = t.a[2][0]
        elif t.op == 'fld' and t.a[2] == '0' and t.a[1] == '' and t.a[0].op in ('fld', 'adt'): t = t.a[0]
        elif t.op == 'fld' and t.a[2] == '0' and t.a[1] == '' and t.a[0].op == 'elem': return t
        else: return t


def same(facts, a, b):
    """a and b are the same term or known to be equal (names compared through their newtypes)"""
    a, b = strip(unc(a)), strip(unc(b))
    if a is b: return True
    return any({strip(unc(x)), strip(unc(y))} == {a, b} for x, y in eq_facts(facts)) or any(
        b.op == 'int' and strip(unc(x)) is a and v == b.a[0] for x, v in facts.items())


def posn(t):
    """(collection, index) of an item, whatever way it was reached"""
    if t.op == 'elem': return t.a[0], ('i', t.a[1])
    if t.op == 'idx': return t.a[0], (('i', t.a[1].a[1]) if t.a[1].op == 'pos' or t.a[1].op == 'elem' and t.a[1].a[0].op == 'range' else t.a[1])
    if t.op == 'fld' and t.a[1] == 'Some' and is_call(t.a[0], 'Ty::as_some'): return T('fld', t.a[0].a[1][0], 'Union', '0'), I(1)
    if t.op == 'first': return t.a[0], I(0)
    if t.op == 'fld' and t.a[1] == 'Some' and is_call(t.a[0], 'get') and len(t.a[0].a[1]) == 2: return t.a[0].a[1]
    if t.op == 'fld' and t.a[1] == 'Some' and t.a[0].op == 'call' and LAST(t.a[0].a[0]) == 'first': return t.a[0].a[1][0], I(0)
    return None, None


def coll_parts(t):
    """(source, item, how) of a collection built by one loop over a source"""
    if t.op == 'coll' and t.a[0].op == 'empty' and len(t.a[2]) == 1: return t.a[1], t.a[2][0], t.a[3]
    return None


def body_of(case, uid):
    """facts of the iterations of a loop, events"""
    for e, srcs, bodies, parents in case.loops():
        if e.x['uid'] == uid: return e, bodies
    return None, []


def uid_of(t):
    for x in walk(t):
        if x.op == 'elem' and not isinstance(x.a[1], tuple): yield x.a[1]


class Verdict(Exception):
    def __init__(self, v, text): self.v, self.text = v, text


def no(text): raise Verdict(False, text)


def dunno(text): raise Verdict(None, text)


def need(cond, text, open_=False):
    if not cond: raise Verdict(None if open_ else False, text)


def sv(case, var):
    """the parts of the result if it is this variant of a value"""
    v = case.v
    if v is VAL: return None
    if v.op == 'adt' and LAST(v.a[0]) == 'StrictVal' and v.a[1] == var: return v.a[2]
    need(False, f'a {pp(v)[:160]} is produced where a {var} is due', fuzzy(v) or v.op not in ('adt', 'sym'))


def listed(case, res, src, idt, what):
    cp = coll_parts(res)
    need(cp, f'the {what} are not collected one by one: {pp(res)[:200]}', res.op not in ('coll', 'empty', 'fld', 'sym', 'partial', 'arr'))
    s, item, how = cp
    need(s is src, f'the {what} are collected from {pp(s)[:120]}', fuzzy(s) or s.op.startswith('opq'))
    typed_ok(case, item, lambda x: posn(x)[0] is src, lambda i: i is idt, what)
    return item


def typed_ok(case, item, xok, iok, what):
    need(item.op == 'typed', f'the {what} are not typified: {pp(item)[:200]}', fuzzy(item) or any(x.op == 'call' for x in walk(item)))
    x, i = item.a
    need(xok(x), f'of the {what} not this one is typified: {pp(x)[:160]}', fuzzy(x))
    need(iok(i), f'the {what} are checked against {pp(i)[:200]}', fuzzy(i))


def distinct(case, item, key, src, what):
    """an item repeating an earlier one is not added"""
    uids = [u for u in uid_of(key)]
    for u in uids:
        e, bodies = body_of(case, u)
        if e is None or src is not None and not any(case.canon(x) is src for x in e.x['src']): continue
        seen = False
        for fs, b in bodies:
            good = False
            for a, v in fs.items():
                if a.op == 'pred' and a.a[0] == 'contains' and a.a[2] is key and v == 0: good = True
                if a.op == 'discr' and is_call(a.a[0], 'get') and len(a.a[0].a[1]) == 2 and strip(a.a[0].a[1][1]) is strip(key) and v == 'None': good = True
                if a.op == 'un' and a.a[0] == 'Not' and a.a[1].op == 'pred' and a.a[1].a[2] is key and v == 1: good = True
            for e2 in b['events']:
                if e2.k != 'loop' or not any(a.op == 'done' and a.a[1] == e2.x['uid'] for a in fs): continue
                if e2.x['bodies'] and all(any(strip(k) in (strip(case.canon(y)), strip(case.canon(z))) for y, z in eq_facts(b2['facts'], 0) for k in (key,)) for b2 in e2.x['bodies']): good = True
            if not good:
                one = lambda a: a.op == 'bin' and any(y.op in ('last', 'first', 'idx') or y.op == 'fld' and y.a[0].op == 'call' and LAST(y.a[0].a[0]) in ('last', 'first', 'get') or y.op == 'lv' for y in walk(a)) and all(y.op != 'call' or LAST(y.a[0]) in ('last', 'first', 'get', 'len', 'typify', 'try_from', 'as_bytes') for y in walk(a))
                about = any(mention(a, key) and a.op not in ('discr',) and not one(a) for a in fs) or any(mention(case.canon(a), key) and not one(case.canon(a)) for a in b['neq']) or any(
                    ev.k == 'call' and LAST(ev.name) not in ('push', 'typify', 'insert') and any(mention(case.canon(a), key) for a in ev.args if isinstance(a, T)) for ev in deep_events(b['events']))
                need(False, f'{what}', about)
            seen = True
        if seen: return
    dunno('no loop found: ' + what)


def chars_covered(case, want):
    """[(source of characters, variants)] such that each of the characters is the tag of one of the variants"""
    r = []
    for e, srcs, bodies, parents in case.loops():
        if not any(a.op == 'done' and a.a[1] == e.x['uid'] for a in case.facts): continue
        for s in srcs:
            el = T('elem', s, e.x['uid'])
            vs = None
            for fs, b in bodies:
                here = set()
                for x, y in eq_facts(fs):
                    for p, q in ((unc(x), unc(y)), (unc(y), unc(x))):
                        if p is el and q.op == 'fld' and q.a[2] == 'tag' and q.a[0].op == 'elem': here.add(q.a[0].a[0])
                vs = here if vs is None else vs & here
            for x in vs or (): r.append((s, x))
    # a single character checked directly
    for x, y in eq_facts(case.facts):
        for p, q in ((unc(x), unc(y)), (unc(y), unc(x))):
            if q.op == 'fld' and q.a[2] == 'tag' and q.a[0].op == 'elem' and p.op != 'elem': r.append((p, q.a[0].a[0]))
    return r


def bytes_of_str(t):
    """whole / prefix / rest of the bytes of the string"""
    if t.op == 'call' and LAST(t.a[0]) in ('as_bytes', 'bytes', 'into_bytes', 'chars') and len(t.a[1]) == 1:
        b = bytes_of_str(t.a[1][0])
        return b or ('all', t.a[1][0])
    if t.op == 'slice':
        b = t.a[0]
        while b.op == 'call' and LAST(b.a[0]) in ('as_bytes',): b = b.a[1][0]
        k = t.a[1]
        if k.op == 'adt':
            nm = LAST(k.a[0])
            if nm == 'RangeTo' and k.a[2][0] is I(1): return ('first', b)
            if nm == 'Range' and k.a[2][0] is I(0) and k.a[2][1] is I(1): return ('first', b)
            if nm == 'RangeFrom' and k.a[2][0] is I(1): return ('rest', b)
            if nm == 'RangeFrom' and k.a[2][0] is I(0) or nm == 'RangeFull': return ('all', b)
        return None
    if t.op == 'arr' and len(t.a[0]) == 1: return bytes_of_str(t.a[0][0])
    if t.op in ('idx', 'first') and (t.op == 'first' or t.a[1] is I(0)):
        b = t.a[0]
        while b.op == 'call' and LAST(b.a[0]) in ('as_bytes',): b = b.a[1][0]
        return ('first', b)
    if t.op == 'fld' and t.a[0].op == 'fld' and t.a[0].a[1] == 'Some' and is_call(t.a[0].a[0], 'split_first'):
        b = t.a[0].a[0].a[1][0]
        while b.op == 'call' and LAST(b.a[0]) in ('as_bytes',): b = b.a[1][0]
        return ('first' if t.a[2] == '0' else 'rest', b)
    return None


def is_id(case, name, idt):
    if case.facts.get(T('call', 'SemId::is_' + name, (idt,), '')) == 1: return True
    t = T('call', 'SemId::' + name, (), '')
    return any({x, y} == {t, idt} for x, y in eq_facts(case.facts))


def charset(case, idt, part, s, what):
    enum = T('fld', T('look', idt), 'Enum', '0')
    cov = chars_covered(case, None)
    for src, vs in cov:
        b = bytes_of_str(src)
        if vs is enum and b in ((part, s), ('all', s)): return
    opn = any(mention(x, s) and x.op not in ('bin', 'discr', 'done') and not (x.op == 'call' and x.a[0] == 'len') and not (
        x.op == 'call' and LAST(x.a[0]) in ('is_ascii', 'count')) for x in list(case.facts) + list(case.neq)) or any(vs is enum for _, vs in cov) or odd_calls(case, s)
    need(False, f'{what} are not checked to be characters the type declares', opn)


def elem_facts(case, uid):
    """facts which hold in each iteration of a loop"""
    e, bodies = body_of(case, uid)
    if not bodies: return {}
    fs = dict(bodies[0][0])
    for f2, _ in bodies[1:]: fs = {a: v for a, v in fs.items() if f2.get(a) == v}
    return {**case.facts, **fs}


def elems_of(t, src): return [x for x in walk(t) if x.op == 'elem' and x.a[0] is src]


def shape(case, vv, tv, count):
    """raises Verdict unless the result on the path is what the value and its type require; `count` = field counts and membership only"""
    ty, f = case.ty, case.facts
    if tv == 'Primitive':
        if vv == 'Number': return
        if vv in ('Unit', 'Tuple', 'Struct', 'List', 'Map', 'Set'):
            r = case.v
            need(r is VAL and vv == 'Unit' or r.op == 'adt' and r.a[1] == 'Unit', f'{pp(r)[:120]} is produced for the unit type', fuzzy(r))
            code = T('fld', case.fld('Primitive'), '', '0')
            need(case.unit or f.get(code) == 0, f'a {vv} is accepted for a primitive type which is not known to be the unit', open_about(case, code))
            if vv != 'Unit':
                n = lens(case.vf(vv))
                need(f.get(n) == 0 or eqk(case, n, I(0)), f'a {vv} with content is accepted for the unit type', open_about(case, case.vf(vv)) or odd_calls(case, case.vf(vv)))
            return
        need(False, f'a {vv} is accepted for a primitive type', fuzzy(case.v))
    if tv == 'UnicodeChar':
        need(vv == 'String', f'a {vv} is accepted for a character')
        r = sv(case, 'String')
        need(r is None or r[0] is case.vf('String'), 'the string produced is not the one given', r is not None and fuzzy(r[0]))
        return
    if count and tv in ('List', 'Array', 'Set', 'Map'): return
    if tv in ('List', 'Array') and vv == 'Bytes':
        need(is_id(case, 'byte', case.fld(tv)), f'bytes are accepted for a {tv} whose items are not known to be bytes', odd_calls(case, case.fld(tv), ty) or open_about(case, case.fld(tv)))
        r = sv(case, 'Bytes')
        need(r is None or strip(r[0]) in (case.vf('Bytes'), strip(case.vf('Bytes'))), 'the bytes produced are not those given', r is not None and fuzzy(r[0]))
        return
    if tv in ('List', 'Array') and vv == 'String':
        s, idt = case.vf('String'), case.fld(tv)
        v = case.v
        if v is not VAL:
            need(v.op == 'adt' and v.a[1] in ('String', 'Bytes'), f'{pp(v)[:160]} is produced of a string', fuzzy(v))
            x = strip(v.a[2][0])
            while x.op == 'call' and LAST(x.a[0]) in ('into_bytes', 'as_bytes', 'to_string') and len(x.a[1]) == 1: x = x.a[1][0]
            need(x is s, f'{pp(x)[:160]} is produced instead of the string given', fuzzy(x))
        if v.op == 'adt' and v.a[1] == 'Bytes':
            need(is_id(case, 'byte', idt), 'the bytes of a string are accepted for items not known to be bytes', odd_calls(case, idt, ty) or open_about(case, idt))
            return
        if is_id(case, 'unicode_char', idt) or is_id(case, 'byte', idt): return
        charset(case, idt, 'all', s, 'the characters of the string')
        return
    if (vv, tv) in (('List', 'List'), ('List', 'Array'), ('Set', 'Set')):
        r = sv(case, vv)
        need(r is not None, f'a {vv} is accepted as it is: its items are not typified')
        item = listed(case, r[0], case.vf(vv), case.fld(tv), 'items')
        if vv == 'Set': distinct(case, item, item, case.vf(vv), 'a repeated member of a set is accepted')
        return
    if (vv, tv) == ('Map', 'Map'):
        r = sv(case, 'Map')
        need(r is not None, 'a map is accepted as it is: its entries are not typified')
        cp = coll_parts(r[0])
        need(cp, f'the entries are not collected one by one: {pp(r[0])[:200]}', r[0].op not in ('coll', 'empty', 'fld', 'sym', 'partial', 'arr'))
        src, item, how = cp
        m = case.vf('Map')
        need(src is m, f'the entries are collected from {pp(src)[:120]}', fuzzy(src) or src.op.startswith('opq'))
        need(item.op == 'tup' and len(item.a[0]) == 2, f'the entries collected are {pp(item)[:160]}', fuzzy(item))
        for i, nm in enumerate(('keys', 'values')):
            typed_ok(case, item.a[0][i], lambda x: x.op == 'fld' and x.a[2] == str(i) and posn(x.a[0])[0] is m, lambda t: t is case.fld('Map', str(i)), nm)
        distinct(case, item, item.a[0][0], m, 'a repeated key of a map is accepted')
        return
    if tv == 'Tuple' and vv == 'String':
        s = case.vf('String')
        r = sv(case, 'String')
        need(r is None or r[0] is s, 'the string produced is not the one given', r is not None and fuzzy(r[0]))
        if count: return
        fields = case.fld('Tuple')
        a, b = T('idx', fields, I(0)), T('idx', fields, I(1))
        charset(case, a, 'first', s, 'the first characters of the string')
        charset(case, T('fld', T('look', b), 'List', '0'), 'rest', s, 'the other characters of the string')
        return
    if tv == 'Tuple' and vv in ('Tuple', 'List'):
        given, req = case.vf(vv), case.fld('Tuple')
        r = sv(case, 'Tuple')
        need(r is not None, 'a tuple is accepted as it is: its fields are not typified')
        if count:
            need(eqk(case, lens(given), lens(req)), f'a {vv} is accepted for a tuple without the number of fields being compared', open_about(case, lens(given)) or odd_calls(case, given))
            return
        cp = coll_parts(r[0])
        need(cp, f'the fields are not collected one by one: {pp(r[0])[:200]}', r[0].op not in ('coll', 'empty', 'fld', 'sym', 'partial', 'arr'))
        item = cp[1]
        typed_ok(case, item, lambda x: posn(x)[0] is given, lambda i: posn(i)[0] is req, 'fields')
        need(posn(item.a[0])[1] == posn(item.a[1])[1], f'a field is checked against the type of a field at another position: {pp(item)[:200]}', fuzzy(item))
        return
    if tv == 'Struct' and vv in ('Struct', 'Map'):
        given, req = case.vf(vv), case.fld('Struct')
        r = sv(case, 'Struct')
        need(r is not None, 'a structure is accepted as it is: its fields are not typified')
        if count:
            need(eqk(case, lens(given), lens(req)), f'a {vv} is accepted for a structure without the number of fields being compared', open_about(case, lens(given)) or odd_calls(case, given))
        cp = coll_parts(r[0])
        need(cp, f'the fields are not collected one by one: {pp(r[0])[:200]}', r[0].op not in ('coll', 'empty', 'fld', 'sym', 'partial', 'arr'))
        src, item, how = cp
        need(item.op == 'tup' and len(item.a[0]) == 2, f'the fields collected are {pp(item)[:160]}', fuzzy(item))
        nm, tv_ = item.a[0]
        if not count:
            typed_ok(case, tv_, lambda x: mention(x, given), lambda i: i.op == 'fld' and i.a[2] == 'ty' and posn(i.a[0])[0] is req, 'fields')
        if tv_.op != 'typed': return
        F = tv_.a[1].a[0] if tv_.a[1].op == 'fld' and tv_.a[1].a[2] == 'ty' else None
        x = tv_.a[0]
        us = list(uid_of(item))
        fs = dict(case.facts)
        for u in us: fs.update(elem_facts(case, u))
        fname = T('fld', F, '', 'name') if F is not None else None
        if x.op == 'fld' and x.a[2] == '1' and posn(x.a[0])[0] is given:
            own = T('fld', x.a[0], '', '0')
            def named(n):
                n = strip(n)
                while n.op == 'fld' and n.a[1] == 'Ok' and n.a[0].op == 'call' and len(n.a[0].a[1]) == 1: n = strip(n.a[0].a[1][0])
                while n.op == 'call' and LAST(n.a[0]) in ('as_bytes', 'as_str') and len(n.a[1]) == 1: n = n.a[1][0]
                return n
            mine = {own, T('fld', own, 'String', '0'), strip(own)}
            okn = F is not None and any((strip(p) is strip(fname) and named(q) in mine) or (strip(q) is strip(fname) and named(p) in mine) for p, q in eq_facts(fs))
            need(okn, 'a field is accepted without its name being one of those declared' if count else 'a field is checked against the type of a field of another name', fuzzy(item) or odd_calls(case, x.a[0], own) and False)
            if not count: need(named(nm) in mine or F is not None and strip(nm) is strip(fname), f'the field is kept under another name: {pp(nm)[:160]}', fuzzy(nm))
            if count and vv == 'Map': distinct(case, item, nm, given, 'a repeated field name is accepted: one of the declared fields may be missing')
        elif x.op == 'fld' and x.a[1] == 'Some' and x.a[0].op == 'call' and LAST(x.a[0].a[0]) in ('get', 'remove', 'shift_remove', 'swap_remove'):
            need(F is not None and strip(x.a[0].a[1][1]) is strip(fname), 'a field is taken by another name than that of the field declared', fuzzy(x))
            if not count: need(strip(nm) is strip(fname), f'the field is kept under another name: {pp(nm)[:160]}', fuzzy(nm))
        else: dunno(f'the field value is {pp(x)[:160]}')
        return
    if tv == 'Union' and vv == 'Union':
        req = case.fld('Union')
        r = sv(case, 'Union')
        need(r is not None, 'a union is accepted as it is: its content is not typified')
        tag, content = r
        given = case.vf('Union')
        if not count: typed_ok(case, content, lambda x: x is case.vf('Union', '1'), lambda i: posn(i.a[0])[0] is req if i.op == 'fld' else mention(i, req), 'content')
        if content.op != 'typed': return
        i = content.a[1]
        if i.op == 'fld' and i.a[1] == 'Some' and is_call(i.a[0], 'get'): dunno('variant found by key')
        need(i.op == 'fld' and i.a[2] == '1', f'the content is checked against {pp(i)[:160]}', fuzzy(i))
        E = i.a[0]
        need(variant_matches(case, T('fld', E, '', '0'), given), 'the content is checked against the type of another variant than the one given' if not count else 'a variant is accepted without being one of those declared', fuzzy(E) or opaque_eq(case, E))
        if not count: need(tag is given or tag.op == 'adt' and tag.a[2] and mention(tag.a[2][0], E), f'the variant produced is {pp(tag)[:120]}', fuzzy(tag))
        return
    if tv == 'Enum' and vv in ('Enum', 'String', 'Number'):
        req = case.fld('Enum')
        if count and not (case.v.op == 'adt' and case.v.a[1] == 'Enum'): dunno('no enum value is produced')
        r = sv(case, 'Enum')
        tag = case.vf('Enum') if r is None else r[0]
        Es = [x for a in f for x in walk(a) if x.op == 'elem' and x.a[0] is req] + elems_of(tag, req)
        good = False
        for E in set(Es):
            if not given_is(case, vv, E): continue
            good = True
            if tag.op == 'adt' and tag.a[1] == 'Name':
                if mention(tag, E) or same(f, tag.a[2][0], T('fld', E, '', 'name')): return
                good = None
            elif tag.op == 'adt' and tag.a[1] == 'Ord':
                if same(f, tag.a[2][0], T('fld', E, '', 'tag')): return
                good = None
            elif tag is case.vf('Enum'): return
        need(False, 'an enum value is accepted without being one of the variants declared' if not good and good is not None else f'the variant produced is not the one given: {pp(tag)[:160]}', fuzzy(tag) or odd_calls(case, req, ty) or enum_open(case, req))
    need(False, f'a {vv} is accepted for a {tv}', case.v is None or fuzzy(case.v))


def enum_open(case, req):
    """membership decided in a way not understood"""
    for x, v in list(case.facts.items()) + list(case.neq.items()):
        if x.op in ('pred', 'issome') and mention(x, req): return True
        if x.op == 'discr' and x.a[0].op == 'call' and mention(x, req): return True
    return False


def opaque_eq(case, E): return any(x.op not in ('bin', 'discr') and mention(x, E) for x in case.facts)


def variant_matches(case, V, given):
    """the variant declared is the one given by tag or name"""
    f = case.facts
    tagk, namek = T('fld', given, 'Ord', '0'), T('fld', given, 'Name', '0')
    gv = case.variants(given, 'EnumTag', ('Name', 'Ord'))
    res = []
    for k in gv:
        if k == 'Ord': res.append(same(f, T('fld', V, '', 'tag'), tagk))
        else: res.append(same(f, T('fld', V, '', 'name'), namek))
    return all(res) and bool(res)


def given_is(case, vv, E):
    """the variant E of an enum is the one the value names"""
    f = case.facts
    tag, name = T('fld', E, '', 'tag'), T('fld', E, '', 'name')
    if vv == 'Enum': return variant_matches(case, E, case.vf('Enum'))
    if vv == 'Number':
        n = T('fld', case.vf('Number'), 'Uint', '0')
        return same(f, tag, n) and any(x.op == 'bin' and x.a[0] == 'Lt' and (v == 1 and unc(x.a[1]) is n and x.a[2].op == 'int' and x.a[2].a[0] <= 256 or v == 0 and unc(x.a[2]) is n and x.a[1].op == 'int' and x.a[1].a[0] < 256) for x, v in f.items()) or any(
            {x, y} == {tag, n} for x, y in eq_facts(f))
    s = case.vf('String')
    for x, y in eq_facts(f):
        for p, q in ((strip(unc(x)), strip(unc(y))), (strip(unc(y)), strip(unc(x)))):
            if p is tag and bytes_of_str(q) == ('first', s) and f.get(lens(s)) == 1: return True
            if p is strip(name):
                while q.op == 'fld' and q.a[1] == 'Ok' and q.a[0].op == 'call' and len(q.a[0].a[1]) == 1: q = q.a[0].a[1][0]
                while q.op == 'call' and LAST(q.a[0]) in ('as_bytes', 'as_str') and len(q.a[1]) == 1: q = q.a[1][0]
                if q is s: return True
    return False


def wrapped(case, count):
    k = kind_of(case)
    f = case.facts
    if k == 'newtype':
        fields = case.fld('Tuple')
        n = lens(fields)
        need(f.get(n) == 1 or eqk(case, n, I(1)), 'a value is accepted for a tuple of several fields as its only field', open_about(case, n))
        items = case.v.a[2][0].a[0]
        need(len(items) == 1, f'{len(items)} fields are produced')
        if not count: typed_ok(case, items[0], lambda x: x is VAL, lambda i: posn(i) == (fields, I(0)) or i.op in ('last',) and i.a[0] is fields, 'wrapped value')
        return
    req = case.fld('Union')
    tag, content = case.v.a[2]
    name = next((x.a[0] for x in walk(tag) if x.op == 'str'), None)
    if name is None and tag.op == 'adt':
        E0 = elems_of(tag, req)
        name = 'some' if E0 and f.get(T('fld', T('fld', E0[0], '', '0'), '', 'tag')) == 1 else 'none' if E0 else None
    need(name in ('some', 'none'), f'the variant of an option is {pp(tag)[:120]}', True)
    want = 1 if name == 'some' else 0
    if count: return
    tup = case.vf('Tuple')
    def is_pair(): return case.vset == {'Tuple'} and f.get(lens(tup)) == 2
    def first_is(s):
        return any(posn(p) == (tup, I(0)) and any(z.op == 'str' and z.a[0] == s for z in walk(q)) for x, y in eq_facts(f) for p, q in ((x, y), (y, x))) or any(
            posn(strip_string(p)) == (tup, I(0)) and any(z.op == 'str' and z.a[0] == s for z in walk(q)) for x, y in eq_facts(f) for p, q in ((x, y), (y, x)))
    def xok(x):
        if name == 'none': return x.op == 'adt' and x.a[1] == 'Unit' or x is VAL and case.vset == {'Unit'} or posn(x) == (tup, I(1))
        if x is VAL: return True
        if is_pair() and first_is('some'):
            return posn(x) == (tup, I(1)) or x.op == 'last' and x.a[0] is tup or x.op == 'fld' and x.a[1] == 'Some' and is_call(x.a[0], 'pop') and mention(x, tup)
        return False
    def iok(i):
        if i is T('fld', T('call', 'Ty::as_some', (case.ty,), ''), 'Some', '0'): return want == 1
        if i.op != 'fld' or i.a[2] != '1': return False
        E = i.a[0]
        V = T('fld', E, '', '0')
        if posn(E)[0] is req: return f.get(T('fld', V, '', 'tag')) == want or same(f, T('fld', V, '', 'tag'), I(want))
        if E.op in ('first', 'last') and E.a[0] is req: return (E.op == 'last') == bool(want)
        if E.op == 'fld' and E.a[1] == 'Some' and E.a[0].op == 'call' and LAST(E.a[0].a[0]) in ('first_key_value', 'last_key_value'):
            return (LAST(E.a[0].a[0]) == 'last_key_value') == bool(want)
        return False
    typed_ok(case, content, xok, iok, f'content of `{name}`')
    if name == 'none': need(case.vset == {'Unit'} or is_pair() and first_is('none'), 'a value other than nothing is accepted as `none`', open_about(case, VAL))


def strip_string(t): return t.a[0] if t.op == 'fld' and t.a[1] == 'String' else t


def shapes(rep, count):
    f, cases, _ = typified(rep)
    if f is None: return
    if cases is None: return rep.unknown('typify', 'analysis gave up', f.where())
    n = 0
    seen = set()
    for c in cases:
        key = label(c)
        if c.v is None:
            rep.unknown(f'typify:{key}', f'result not resolved: {pp(c.o.v)[:200]}', f.where())
            continue
        k = kind_of(c)
        try:
            if k != 'direct':
                key = k + ':' + key
                wrapped(c, count)
            else:
                need(len(c.vset) == 1 and len(c.tset) == 1, f'{pp(c.v)[:120]} is accepted for any of {sorted(c.tset)}', fuzzy(c.v))
                vv, tv = next(iter(c.vset)), next(iter(c.tset))
                shape(c, vv, tv, count)
                # the type found is that of the id
            n += 1
            seen.add((k, tuple(sorted(c.vset)), tuple(sorted(c.tset))))
            rep.ok(key, '', f.where())
        except Verdict as e:
            rep.tri(key, e.v, e.text, f.where())
    rep.floor('accepted', len({x[0] + str(x[1]) + str(x[2]) for x in seen} ), 20, 'kinds of accepted values')
    return f, cases


def V03(rep):
    """For each accepting path of `typify`: the result is assembled of nested typification results of exactly the parts of the value given, each
    typified with the type declared for its position (element, key, value, field found by its name, variant found by its tag or name, content of
    a newtype or an option); strings are accepted only for bytes, unicode, or after each byte was found among the declared
    characters; set members and map keys are compared with those collected before; any other pair of value kind and type class is refused. The
    type checked against is the one found under the id asked for, and the typed value keeps this id."""
    r = shapes(rep, False)
    if not r: return
    f, cases = r
    bad = None
    for c in cases:
        if c.v is None: continue
        fields = adt_of(rep, c.orig)
        idv = fields.get('id') if fields else None
        if idv is not ID: bad = bad or (idv, c)
    if bad: rep.tri('id', None if bad[0] is None or fuzzy(bad[0]) else False, f'a value is marked as typed with {pp(bad[0])[:120]} instead of the id asked for', f.where())
    else: rep.ok('id', '', f.where())


def adt_of(rep, t):
    if t is None or t.op != 'adt' or t.a[0] not in rep.p.adts: return None
    return dict(zip([x['name'] for x in rep.p.adts[t.a[0]]['variants'][0]['fields']], t.a[2]))


def V04(rep):
    """For each accepting path of `typify` for tuples, structures, enums and unions: the branch conditions imply that the number of fields given is the
    number declared, that the name of each field is declared (and, for maps, not repeated), and that the enum or union variant is found
    among those declared by the name or tag given; the unit type only takes empty values."""
    shapes(rep, True)
