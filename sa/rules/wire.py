"""V05..V11: the wire format of values: what the encoder writes and the decoder reads."""
import re
from .common import *
from .compiler import loops_in, over, mention
from .system import eq_facts
from .values import (Canon, Case, SELF, VAL, ID, LAST, keep_lookups, option_model, byte_model, typified, lens, unc, need, no, dunno, Verdict,
                     coll_parts, le, open_about)
from ..engine import INT_BITS
from ..models import prim_bytes

D, W, TYPED = T('sym', 'd'), T('sym', 'w'), T('sym', 'typed')
NUM = {f'{s}{n}': (n // 8, s == 'i') for s in 'iu' for n in (8, 16, 24, 32, 40, 48, 56, 64, 128, 256, 512, 1024)}
NUM['usize'], NUM['isize'] = (8, False), (8, True)


# ------------------------------------------------------------------ decoder
def keep_reads(owner, item, self_ty, fn):
    """reads of the input, nested decoding and look-ups are kept as they are"""
    if fn is None: return False
    if owner in ('TypeSystem', 'SymbolicSys') and item in ('find', 'get', 'strict_read_type', 'to_sem_id'): return True
    if owner == 'SemId' and item == 'unit': return True
    return item == 'strict_decode' and fn.crate != 'strict_types'


class DCanon(Canon):
    """rd(id, reader): the value of a nested read; prim(type, reader): what a decoder of the encoding library gives;
    raw(len, reader): raw bytes"""
    def __call__(self, x):
        if isinstance(x, tuple): return tuple(self(y) for y in x)
        if not isinstance(x, T): return x
        r = self.memo.get(x)
        if r is not None: return r
        na = tuple(self(y) for y in x.a)
        r = x if na == x.a else T(x.op, *na)
        r = self.rule(r)
        self.memo[x] = r
        return r

    def rule(self, r):
        if r.op == 'fld' and r.a[2] == '0' and r.a[0].op == 'call' and r.a[1] in ('Some', 'Ok'):
            c = r.a[0]
            it, n = LAST(c.a[0]), len(c.a[1])
            if it in ('find', 'get') and n == 2 and c.a[1][0] is SELF: return T('look', c.a[1][1])
            if it == 'strict_read_type' and n == 3 and c.a[1][0] is SELF: return T('rdv', c.a[1][1], c.a[1][2])
            if it == 'strict_decode' and n == 1: return T('prim', c.a[2].replace(' ', ''), c.a[1][0])
            if it == 'read_raw' and n == 2: return T('raw', c.a[1][1], c.a[1][0])
            if it in ('from_utf8', 'from_ascii') and n == 1: return c.a[1][0]
        if r.op == 'fld' and r.a[2] == 'val' and r.a[0].op == 'rdv': return T('rd', *r.a[0].a)
        if r.op == 'fld' and r.a[0].op == 'typedv' and r.a[2] == 'val': return T('typed', *r.a[0].a)
        if r.op == 'call' and LAST(r.a[0]) in ('from', 'into', 'to_string', 'release', 'into_inner', 'into_u32', 'into_u64', 'into_usize') and len(r.a[1]) == 1 and r.a[1][0].op in ('prim', 'coll', 'raw', 'cast'):
            return r.a[1][0]
        if r.op == 'cast' and r.a[1].op == 'prim' and r.a[1].a[0] in NUM and r.a[0] in INT_BITS:
            w, s = NUM[r.a[1].a[0]]
            if INT_BITS[r.a[0]] >= w * 8 and (s == r.a[0].startswith('i')) or INT_BITS[r.a[0]] > w * 8 and not s: return r.a[1]
        if r.op == 'coll' and r.a[0].op == 'empty' and r.a[3] == 'push' and len(r.a[2]) == 1 and r.a[2][0].op == 'elem' and r.a[2][0].a[0] is r.a[1] \
                and r.a[1].op in ('coll', 'raw', 'prim'):
            return r.a[1]
        return r


class DCase(Case):
    """A path on which the decoder returns a value"""


def variants_of(rep, name): return [v['name'] for v in rep.p.adts[ety(rep, name)]['variants']]


def decoded(rep):
    """(function, accepting paths, all paths) of TypeSystem::strict_read_type"""
    p = rep.p
    c = getattr(p, '_decode', None)
    if c is None:
        f = rep.fn('TypeSystem', 'strict_read_type')
        if f is None: return None, None, None
        outs = rep.paths_of(f, names=['self', 'sem_id', 'd'], opaque=(keep_reads,), over=(refs_iter(p), option_model, byte_model))
        cases = None
        if outs is not None:
            canon = DCanon()
            vv, tv = variants_of(rep, 'StrictVal'), variants_of(rep, 'Ty')
            cases = []
            for o in outs:
                if o.k != 'ret': continue
                k, v = res_parts(o)
                if k == 'Err': continue
                cs = None
                if k == 'Ok' and v.op == 'adt' and LAST(v.a[0]) == 'TypedVal':
                    fs = dict(zip([x['name'] for x in p.adts[v.a[0]]['variants'][0]['fields']], v.a[2]))
                    cs = DCase(o, fs.get('val', v), canon, vv, tv)
                    cs.orig = fs.get('orig')
                else:
                    cs = DCase(o, o.v, canon, vv, tv)
                    cs.v = None
                cases.append(cs)
        c = p._decode = (f, cases, outs)
        p._decode_seen = (rep.last_eng.fns_seen, len(outs or ()))
    else:
        rep.fns |= p._decode_seen[0]
        rep.paths += p._decode_seen[1]
    return c


HARMLESS = {'find', 'get', 'with_capacity', 'push', 'insert', 'reserve', 'unit', 'byte', 'ascii', 'unicode_char', 'from', 'drop', 'clone', 'update', 'finalize', 'new',
            'new_with_prefix', 'from_ascii', 'from_utf8', 'to_string', 'release', 'contains', 'next', 'into_iter', 'iter', 'branch', 'from_residual'}


def is_stream(t, root):
    """the term is a state of the reader (writer)"""
    n = 0
    while n < 50:
        n += 1
        if t is root: return True
        if t.op == 'lv': return root.a[0] in re.findall(r"\w+", str(t.a[0]))
        if t.op == 'adt' and len(t.a[2]) == 1: t = t.a[2][0]
        elif t.op == 'fld' and t.a[0].op in ('adt', 'after', 'lv'): t = t.a[0]
        elif t.op == 'after':
            return any(is_stream(x, root) for x in t.a[1] if isinstance(x, T))
        elif t.op in ('upd', 'partial', 'fold'): return mention(t, root)
        else: return False
    return False


def dops(c, evs=None):
    """what is read from the input, in order"""
    out = []
    for e in (c.events() if evs is None else evs):
        if e.k == 'loop':
            bodies = [(c.cfacts(b['facts']), dops(c, b['events']), b) for b in e.x['bodies']]
            if any(b[1] for b in bodies): out.append(('loop', [c.canon(s) for s in e.x['src']], bodies, e.x['uid']))
            continue
        if e.k != 'call': continue
        it = LAST(e.name)
        if it == 'strict_decode' and len(e.args) == 1: out.append(('dec', (e.self_ty or '').replace(' ', ''), c.canon(T('fld', e.res, 'Ok', '0'))))
        elif it == 'read_raw' and len(e.args) == 2: out.append(('raw', c.canon(e.args[1]), c.canon(T('fld', e.res, 'Ok', '0'))))
        elif it == 'strict_read_type' and len(e.args) == 3: out.append(('sub', c.canon(e.args[1]), c.canon(T('fld', T('fld', e.res, 'Ok', '0'), '', 'val'))))
        elif any(isinstance(a, T) and is_stream(a, D) for a in e.args) and it not in HARMLESS: out.append(('?', e.name))
    return out


# ------------------------------------------------------------------ encoder
class ECanon(DCanon):
    def rule(self, r):
        if r.op == 'fld' and r.a[0] is TYPED and r.a[2] == 'val': return VAL
        if r.op == 'fld' and r.a[2] == 'id' and r.a[0].op == 'fld' and r.a[0].a[0] is TYPED: return ID
        return super().rule(r)


class ECase(Case):
    """A path through the encoder"""


def keep_finds(owner, item, self_ty, fn):
    return fn is not None and (owner in ('TypeSystem', 'SymbolicSys') and item in ('find', 'get') or owner == 'SemId' and item == 'unit')


def encoded(rep):
    """(function, cases of all paths) of TypeSystem::strict_write_value"""
    p = rep.p
    c = getattr(p, '_encode', None)
    if c is None:
        f = rep.fn('TypeSystem', 'strict_write_value')
        if f is None: return None, None
        outs = rep.paths_of(f, names=['self', 'typed', 'w'], opaque=(keep_finds,), over=(refs_iter(p), option_model, byte_model))
        cases = None
        if outs is not None:
            canon = ECanon()
            vv, tv = variants_of(rep, 'StrictVal'), variants_of(rep, 'Ty')
            cases = [ECase(o, o.v if o.v is not None else UNIT, canon, vv, tv) for o in outs]
        c = p._encode = (f, cases)
        p._encode_seen = (rep.last_eng.fns_seen, len(outs or ()))
    else:
        rep.fns |= p._encode_seen[0]
        rep.paths += p._encode_seen[1]
    return c


def piece(t):
    """bytes written"""
    if t.op == 'slice' and t.a[0].op == 'call' and LAST(t.a[0].a[0]) in ('to_le_bytes', 'to_be_bytes') and len(t.a[0].a[1]) == 1:
        k = t.a[1]
        if k.op == 'adt' and LAST(k.a[0]) == 'Range' and k.a[2][0] is I(0): return ('le' if 'to_le' in t.a[0].a[0] else 'be-start', t.a[0].a[1][0], k.a[2][1])
        if k.op == 'adt' and LAST(k.a[0]) == 'RangeTo': return ('le' if 'to_le' in t.a[0].a[0] else 'be-start', t.a[0].a[1][0], k.a[2][0])
        return ('?', t)
    if t.op == 'call' and LAST(t.a[0]) in ('to_le_bytes', 'to_be_bytes') and len(t.a[1]) == 1:
        w = NUM.get(t.a[0].split('::')[-2] if '::' in t.a[0] else '')
        return ('le' if 'to_le' in t.a[0] else 'be', t.a[1][0], I(w[0])) if w else ('?', t)
    if t.op == 'arr' and len(t.a[0]) == 1: return ('byte', t.a[0][0])
    if t.op == 'call' and LAST(t.a[0]) in ('as_bytes', 'as_slice', 'as_ref', 'deref') and len(t.a[1]) == 1: return piece(t.a[1][0])
    x = t
    while x.op in ('fld', 'idx', 'elem') or x.op == 'adt' and len(x.a[2]) == 1: x = x.a[2][0] if x.op == 'adt' else x.a[0]
    return ('content', t) if x.op == 'sym' else ('?', t)


NESTED = ('strict_write_val', 'strict_write_ty', 'strict_write_value', 'strict_write_type')


def eops(c, evs=None, root=W):
    """what is written to the output, in order"""
    out = []
    for e in (c.events() if evs is None else evs):
        if e.k == 'loop':
            bodies = [(c.cfacts(b['facts']), eops(c, b['events'], root), b) for b in e.x['bodies']]
            if any(b[1] for b in bodies): out.append(('loop', [c.canon(s) for s in e.x['src']], bodies, e.x['uid']))
            continue
        if e.k != 'call': continue
        it = LAST(e.name)
        args = [c.canon(a) for a in e.args]
        if it == 'write_all' and len(args) == 2 and is_stream(args[0], root): out.append(('put', args[1]))
        elif it in NESTED and any(is_stream(a, root) for a in args):
            rest = [a for a in args if a is not SELF and not is_stream(a, root)]
            if len(rest) == 2: out.append(('sub', rest[1].a[0] if rest[1].op == 'look' else rest[1], rest[0]))
            else: out.append(('?', e.name))
        elif it not in HARMLESS and any(is_stream(a, root) for a in args): out.append(('?', e.name))
    return out


# ------------------------------------------------------------------ the wire table
BIG = 1 << 64


def width(t):
    if t.op == 'prim': return NUM.get(t.a[0], (None,))[0]
    if t.op == 'cast': return (INT_BITS.get(t.a[0]) or 0) // 8 or None
    if t.op == 'fld' and t.a[1] == 'Array' and t.a[2] == '1': return 2
    if t.op == 'call' and t.a[0] == 'len': return 8
    return None


def unw(t):
    """t without casts which keep the number"""
    while t.op == 'cast':
        w, o = INT_BITS.get(t.a[0], 0) // 8, width(t.a[1])
        if o is None and w < 8 or o is not None and w < o: break
        t = t.a[1]
    return t


def const(t):
    t = unc(t)
    if t.op == 'int': return t.a[0]
    if t.op == 'adt' and len(t.a[2]) == 1: return const(t.a[2][0])
    if t.op == 'const': return const_named(str(t.a[0]))
    return None


def const_named(n):
    m = re.search(r'\b([iu])(8|16|24|32|40|48|56|64|128)::(MAX|MIN)', n)
    if not m: return None
    b = int(m.group(2))
    if m.group(3) == 'MIN': return 0 if m.group(1) == 'u' else -(1 << (b - 1))
    return (1 << b) - 1 if m.group(1) == 'u' else (1 << (b - 1)) - 1


def plus(t):
    """(term, n) for term + n"""
    t = unc(t)
    if t.op == 'bin' and t.a[0] in ('SatAdd', 'Add'):
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if y.op == 'int': return x, y.a[0]
    return t, 0


def interval(c, m, shift=0):
    """what the branch conditions say about the value of m + shift"""
    lo, hi = shift, BIG - 1
    for x, v in c.facts.items():
        if x.op != 'bin' or x.a[0] not in ('Lt', 'Eq') or not isinstance(v, int): continue
        (l, ls), (r, rs) = plus(x.a[1]), plus(x.a[2])
        k = const(r) if l is m else const(l) if r is m else None
        if k is None: continue
        k += (rs - ls if l is m else ls - rs) + shift
        if x.a[0] == 'Eq':
            if v: lo, hi = max(lo, k), min(hi, k)
        elif l is m: lo, hi = (lo, min(hi, k - 1)) if v else (max(lo, k), hi)
        else: lo, hi = (max(lo, k + 1), hi) if v else (lo, min(hi, k))
    return lo, hi


def width_of(mx): return 1 if mx < 1 << 8 else 2 if mx < 1 << 16 else 3 if mx < 1 << 24 else 4 if mx < 1 << 32 else 8


CONF = re.compile(r'^Confined<(.*),#?(\d+)(?:_?usize)?,#?(\d+)(?:_?usize)?>$')


def dec_type(ty):
    """('num', bytes, signed) | ('blob'|'str'|'ascii', prefix width, lo, hi) | None"""
    if ty in NUM: return ('num',) + NUM[ty]
    m = CONF.match(ty)
    if m:
        k = {'Vec<u8>': 'blob', 'String': 'str', 'AsciiString': 'ascii'}.get(m.group(1))
        if k: return (k, width_of(int(m.group(3))), int(m.group(2)), int(m.group(3)))
    return None


def sizing_of(c, tv):
    """(term of the maximum, what is added to it)"""
    if tv in ('List', 'Set'): return T('fld', T('fld', c.ty, tv, '1'), '', 'max'), 0
    if tv == 'Map': return T('fld', T('fld', c.ty, tv, '2'), '', 'max'), 0
    rest = T('look', T('idx', T('fld', c.ty, 'Tuple', '0'), I(1)))
    return T('fld', T('fld', rest, 'List', '1'), '', 'max'), 1


def check_width(c, tv, width, what):
    m, shift = sizing_of(c, tv)
    lo, hi = interval(c, m, shift)
    if lo > hi: return
    if width_of(lo) == width_of(hi) == width: return
    opn = open_width(c, m)
    near = width_of(lo) if width_of(lo) != width else width_of(hi)
    need(False, f'the length {what} in {width} bytes although the declared maximum may be {lo if width_of(lo) != width else hi}, which takes {near}', opn)


def open_width(c, m):
    """conditions about the maximum that are not understood"""
    for x in list(c.facts) + list(c.neq):
        if not mention(x, m): continue
        if x.op == 'bin' and x.a[0] in ('Lt', 'Eq'):
            (l, ls), (r, rs) = plus(x.a[1]), plus(x.a[2])
            o = r if l is m else l if r is m else None
            if o is not None and (const(o) is not None or not mention(o, m)): continue
        if x.op == 'bin' and x.a[0] == 'Lt' and resolved(x): continue
        return True
    return False


def done_loop(c, srcs, uid, what):
    ds = [v for x, v in c.facts.items() if x.op == 'done' and x.a[1] == uid and v == 1]
    need(ds, f'{what} do not all get processed', not srcs or any(fuzzy(s) for s in srcs))


def one_body(op, what):
    """the operations of an iteration"""
    alts = {repr(b[1]): b[1] for b in op[2] if True}
    seqs = [b[1] for b in op[2]]
    if not seqs: no(f'{what} are not processed')
    return seqs


def no_unknown(ops):
    for o in ops:
        if o[0] == '?': dunno(f'unknown operation {o[1]}')
        if o[0] == 'loop':
            for b in o[2]: no_unknown(b[1])


def rest_is(ops, n, side):
    need(len(ops) == n, f'{len(ops)} parts are {side} where {n} are due: {", ".join(str(o[0]) for o in ops)}')


# ------------------------------------------------------------------ V06: decoder
def dec_items(c, op, n, what, src=None):
    """the operations of each iteration of a loop over 0..n or over the declared items"""
    need(op[0] == 'loop', f'{what} are not read by a loop over their number')
    srcs = op[1]
    if src is None:
        good = [s for s in srcs if s.op == 'range' and s.a[0] is I(0) and unw(s.a[1]) is unw(n)]
        need(good, f'{what}: the loop goes over {", ".join(pp(s)[:80] for s in srcs)} and not over their number {pp(n)[:80]}', not srcs or any(fuzzy(s) for s in srcs))
    else:
        need(src in srcs, f'{what}: the loop goes over {", ".join(pp(s)[:80] for s in srcs)} and not over the declared ones', not srcs or any(fuzzy(s) for s in srcs))
    done_loop(c, srcs, op[3], what)
    return one_body(op, what)


def is_coll_of(v, src_ok, item, how=('push',)):
    p = coll_parts(v)
    return p is not None and src_ok(p[0]) and p[1] is item and p[2] in how


def the_value(c, var, text):
    v = c.v
    if v.op == 'adt' and LAST(v.a[0]) == 'StrictVal':
        need(v.a[1] == var, f'{text} gives a {v.a[1]}')
        return v.a[2]
    need(False, f'{text} gives {pp(v)[:100]}', fuzzy(v) or v.op not in ('adt',))


def dec_bytes(c, ops, tv):
    """length and content of a byte string or a text; returns the term of the content and its kinds"""
    need(ops and ops[0][0] == 'dec', 'the length is not read first')
    d = dec_type(ops[0][1])
    if d is None: dunno(f'unknown decoder {ops[0][1]}')
    if d[0] == 'num':
        need(not d[2], 'the length is read as a signed number')
        check_width(c, tv, d[1], 'is read')
        n = ops[0][2]
        rest_is(ops, 2, 'read')
        if ops[1][0] == 'raw':
            need(unw(ops[1][1]) is unw(n), 'the number of bytes read is not the length read', fuzzy(ops[1][1]))
            return ops[1][2], 'blob'
        for seq in dec_items(c, ops[1], n, 'bytes'):
            if len(seq) == 1 and seq[0][0] == 'dec':
                need(seq[0][1] == 'u8', f'characters are read as {seq[0][1]}')
                item = seq[0][2]
            elif len(seq) == 1 and seq[0][0] == 'sub': return None, 'items'
            else: no('not one byte is read for each byte of the length')
        return T('coll', T('empty', ''), ops[1][1][0], (item,), 'push'), 'blob'
    check_width(c, tv, d[1], 'is read')
    rest_is(ops, 1, 'read')
    return ops[0][2], d[0]


def same_content(a, b):
    """a is b up to wrappers"""
    a, b = norm(unwrap(a)), norm(unwrap(b))
    return a is b


def unwrap(t):
    while True:
        if t.op == 'adt' and len(t.a[2]) == 1 and LAST(t.a[0]) not in ('StrictVal', 'EnumTag', 'StrictNum'): t = t.a[2][0]
        elif t.op == 'call' and LAST(t.a[0]) in ('release', 'to_string', 'into_inner', 'into', 'from', 'into_string') and len(t.a[1]) == 1: t = t.a[1][0]
        else: return t


def is_item(c, name, idt):
    return c.facts.get(T('call', 'SemId::is_' + name, (idt,), '')) == 1 or any({x, y} == {T('call', 'SemId::' + name, (), ''), idt} for x, y in eq_facts(c.facts))


def dec_shape(c):
    """checks what is read for the class of type and what is made of it"""
    ops = dops(c)
    no_unknown(ops)
    need(len(c.tset) == 1 or c.unit, f'the same is read for the classes {sorted(c.tset)}', True)
    tv = next(iter(c.tset))
    if c.unit:
        rest_is(ops, 0, 'read')
        return 'unit'
    if tv == 'Primitive': return 'Primitive'
    v = c.v
    vk = v.a[1] if v.op == 'adt' and LAST(v.a[0]) == 'StrictVal' else None
    if vk is None: dunno(f'result not resolved: {pp(v)[:120]}')
    tag = f'{tv}:{vk}'
    if tv in ('List', 'Set', 'Map'):
        need(ops and ops[0][0] == 'dec', 'the length is not read first', not ops)
        if vk in ('Bytes', 'String') and tv == 'List':
            idt = T('fld', c.ty, 'List', '0')
            cont, kind = dec_bytes(c, ops, tv)
            if vk == 'Bytes': need(is_item(c, 'byte', idt), 'a byte string is read for a list of any items', open_about(c, idt))
            else:
                enum = c.facts.get(T('discr', T('look', idt), adtpath(c))) == 'Enum' or any(a.op == 'discr' and a.a[0] is T('look', idt) and x == 'Enum' for a, x in c.facts.items())
                need(enum or is_item(c, 'unicode_char', idt), 'a text is read for a list of any items', open_about(c, idt))
            if cont is not None: need(same_content(v.a[2][0], cont), f'the value is {pp(v)[:120]} and not the content read', fuzzy(v))
            return tag
        need(vk == tv, f'a {vk} is made of a {tv}')
        d = dec_type(ops[0][1])
        if d is None or d[0] != 'num':
            idt = T('fld', c.ty, tv, '0')
            need(False, f'items are read as {ops[0][1]}', d is None)
        need(not d[2], 'the length is read as a signed number')
        check_width(c, tv, d[1], 'is read')
        rest_is(ops, 2, 'read')
        n = ops[0][2]
        for seq in dec_items(c, ops[1], n, 'items'):
            if tv == 'Map':
                key, item = T('fld', c.ty, 'Map', '0'), T('fld', c.ty, 'Map', '1')
                need([(o[0], o[1]) for o in seq] == [('sub', key), ('sub', item)], f'for each entry are read {", ".join(pp(o[1]) if isinstance(o[1], T) else str(o[1]) for o in seq)}, and not the key and then the value')
                it = T('tup', (seq[0][2], seq[1][2]))
            else:
                idt = T('fld', c.ty, tv, '0')
                if len(seq) == 1 and seq[0][0] == 'dec' and seq[0][1] == 'u8' and is_item(c, 'byte', idt): dunno('bytes read one by one into a list')
                need([(o[0], o[1]) for o in seq] == [('sub', idt)], f'for each item are read {", ".join(pp(o[1]) if isinstance(o[1], T) else str(o[1]) for o in seq)}')
                it = seq[0][2]
            need(is_coll_of(v.a[2][0], lambda s: s in ops[1][1], it), f'the value is {pp(v)[:160]} and not the list of the items read', fuzzy_but_readers(v))
        return tag
    if tv == 'Array':
        idt, n = T('fld', c.ty, 'Array', '0'), T('fld', c.ty, 'Array', '1')
        rest_is(ops, 1, 'read')
        if vk == 'Bytes':
            need(is_item(c, 'byte', idt), 'a byte string is read for an array of any items', open_about(c, idt))
            if ops[0][0] == 'raw':
                need(unw(ops[0][1]) is n, f'{pp(ops[0][1])} bytes are read for an array')
                need(same_content(v.a[2][0], ops[0][2]), 'the value is not the content read', fuzzy(v))
            else:
                for seq in dec_items(c, ops[0], n, 'bytes'):
                    need(len(seq) == 1 and seq[0][0] == 'dec' and seq[0][1] in ('u8',), 'not one byte is read for each byte')
                    need(is_coll_of(unwrap(v.a[2][0]), lambda s: s in ops[0][1], seq[0][2]), 'the value is not the content read', fuzzy_but_readers(v))
            return tag
        if vk == 'String': dunno('text read for an array')
        need(vk == 'List', f'a {vk} is made of an array')
        for seq in dec_items(c, ops[0], n, 'items'):
            need([(o[0], o[1]) for o in seq] == [('sub', idt)], 'not one item is read for each item of the array')
            need(is_coll_of(v.a[2][0], lambda s: s in ops[0][1], seq[0][2]), 'the value is not the list of the items read', fuzzy_but_readers(v))
        return tag
    if tv == 'Tuple' and vk == 'String':
        idx = lambda k: T('idx', T('fld', c.ty, 'Tuple', '0'), I(k))
        cont, kind = dec_bytes(c, ops, 'Tuple')
        if cont is not None: need(same_content(v.a[2][0], cont), f'the value is {pp(v)[:120]} and not the content read', fuzzy(v))
        return tag
    if tv in ('Tuple', 'Struct'):
        need(vk == tv, f'a {vk} is made of a {tv}')
        src = T('fld', c.ty, tv, '0')
        rest_is(ops, 1, 'read')
        for seq in dec_items(c, ops[0], None, 'fields', src):
            e = T('elem', src, ops[0][3])
            idt = e if tv == 'Tuple' else T('fld', e, '', 'ty')
            need([(o[0], o[1]) for o in seq] == [('sub', idt)], f'for each field are read {", ".join(pp(o[1]) if isinstance(o[1], T) else str(o[1]) for o in seq)}, and not the type of the field')
            it = seq[0][2] if tv == 'Tuple' else T('tup', (T('fld', e, '', 'name'), seq[0][2]))
            need(is_coll_of(v.a[2][0], lambda s: s is src, it, ('push', 'ins')), f'the value is {pp(v)[:160]} and not that of the fields read', fuzzy_but_readers(v))
        return tag
    if tv in ('Enum', 'Union'):
        need(vk == tv, f'a {vk} is made of a {tv}')
        need(ops and ops[0][0] == 'dec' and ops[0][1] == 'u8', 'the tag is not read first, as one byte')
        rest_is(ops, 1 if tv == 'Enum' else 2, 'read')
        var = matched(c, v.a[2][0], ops[0][2], T('fld', c.ty, tv, '0'))
        if tv == 'Union':
            need(ops[1][0] == 'sub' and ops[1][1] is T('fld', var, '', '1'), f'the content is read by the type {pp(ops[1][1])[:120]} and not by that of the variant', fuzzy(ops[1][1]))
            need(v.a[2][1] is ops[1][2], 'the content is not that which was read', fuzzy_but_readers(v.a[2][1]))
        return tag
    dunno(f'class {tv}')


def adtpath(c):
    for a in c.facts:
        if a.op == 'discr' and len(a.a) > 1: return a.a[1]
    return ''


def fuzzy_but_readers(v):
    """unknown parts other than the state of the reader"""
    def go(x):
        if isinstance(x, tuple): return any(go(y) for y in x)
        if not isinstance(x, T): return False
        if x.op in ('rd', 'rdv'): return go(x.a[0])
        if x.op in ('prim', 'raw'): return False
        if x.op in OPAQUE_OPS or x.op in ('after', 'upd', 'partial', 'fold', 'clo'): return True
        return any(go(y) for y in x.a)
    return go(v)


def matched(c, tagterm, tag, coll):
    """the variant which the tag value of the result names; it must be the declared one having the tag read"""
    union = coll.a[1] == 'Union'
    if tagterm.op == 'adt' and LAST(tagterm.a[0]) == 'EnumTag':
        x = unc(tagterm.a[2][0])
        if tagterm.a[1] == 'Name':
            need(x.op == 'fld' and x.a[2] == 'name', f'the variant is named {pp(x)[:120]}', fuzzy(x) or x.op != 'fld')
            var = x.a[0]
            need(var.op in ('elem', 'fld'), 'the variant is not a declared one', fuzzy(var))
            ent = var.a[0] if union and var.op == 'fld' else var
            for y in walk(var):
                if y.op == 'call' and LAST(y.a[0]) in ('nth', 'get', 'get_index', 'nth_back') and len(y.a[1]) == 2 and unc(y.a[1][1]) is tag or y.op == 'idx' and unc(y.a[1]) is tag:
                    no('the variant is the one at the position given by the tag, whatever the tags of the variants are')
            need(any({unc(a), unc(b)} == {T('fld', var, '', 'tag'), tag} for a, b in eq_facts(c.facts)), f'the variant {pp(var)[:200]} is not the one with the tag read',
                 not (ent.op == 'elem' and not open_about(c, tag)))
            return ent
        need(x is tag, 'the variant is not given by the tag read', fuzzy(x))
        for a, b in eq_facts(c.facts):
            for p, q in ((unc(a), unc(b)), (unc(b), unc(a))):
                if p is tag and q.op == 'fld' and q.a[2] == 'tag': return q.a[0].a[0] if union and q.a[0].op == 'fld' else q.a[0]
        need(False, 'the tag read is not looked for among the declared ones', open_about(c, tag))
    dunno(f'variant not resolved: {pp(tagterm)[:100]}')


# ------------------------------------------------------------------ V06: encoder
def enc_len(c, op, tv, n, ns=()):
    need(op[0] == 'put', 'the length is not written first')
    p = piece(op[1])
    if p[0] == '?': need(False, f'the length is not written first but {pp(op[1])[:120]}', True)
    need(p[0] == 'le', 'the length is not written first, in little-endian order' if p[0] in ('be', 'be-start') else f'the length is not written first but {pp(op[1])[:100]}')
    need(unw(p[1]) in (n,) + tuple(ns), f'the length written is {pp(p[1])[:120]} and not the number of items', fuzzy(p[1]) or not resolved(p[1]))
    k = const(p[2])
    if k is None: dunno(f'width {pp(p[2])[:100]}')
    check_width(c, tv, k, 'is written')


def enc_loop(c, op, src, what):
    need(op[0] == 'loop', f'{what} are not written one by one')
    need(src in op[1], f'{what}: the loop goes over {", ".join(pp(s)[:80] for s in op[1])}', not op[1] or any(fuzzy(s) for s in op[1]))
    done_loop(c, op[1], op[3], what)
    return one_body(op, what), T('elem', src, op[3])


def enc_shape(c):
    ops = eops(c)
    no_unknown(ops)
    if len(c.vset) != 1: dunno(f'value of the kinds {sorted(c.vset)}')
    vv = next(iter(c.vset))
    if c.unit:
        if vv == 'Number': return None
        need(not ops, 'something is written for the unit type')
        return 'unit'
    if len(c.tset) != 1: dunno(f'type of the classes {sorted(c.tset)}')
    tv = next(iter(c.tset))
    if tv == 'Primitive': return 'Primitive'
    tag = f'{tv}:{vv}'
    f0 = T('fld', VAL, vv, '0')
    inner = [f0, T('fld', f0, '', '0')] if vv == 'Bytes' else [f0]
    if tv in ('List', 'Set', 'Map') or tv == 'Tuple' and vv == 'String':
        need(len(ops) >= 1, 'nothing is written')
        enc_len(c, ops[0], tv, lens(inner[-1]), [lens(x) for x in inner] + [lens(T('call', 'as_bytes', (f0,), ''))])
        if vv in ('Bytes', 'String'):
            rest_is(ops, 2, 'written')
            enc_content(ops[1], inner)
            return tag
        if vv == 'Map' and tv == 'Map':
            rest_is(ops, 2, 'written')
            seqs, e = enc_loop(c, ops[1], f0, 'entries')
            for seq in seqs:
                exp = [('sub', T('fld', c.ty, 'Map', '0'), T('fld', e, '', '0')), ('sub', T('fld', c.ty, 'Map', '1'), T('fld', e, '', '1'))]
                subs(seq, exp, 'for each entry')
            return tag
        if vv in ('List', 'Set', 'Tuple') and tv in ('List', 'Set'):
            rest_is(ops, 2, 'written')
            seqs, e = enc_loop(c, ops[1], f0, 'items')
            for seq in seqs: subs(seq, [('sub', T('fld', c.ty, tv, '0'), e)], 'for each item')
            return tag
        dunno(f'{vv} written for a {tv}')
    if tv in ('Array', 'UnicodeChar'):
        rest_is(ops, 1, 'written')
        if vv in ('Bytes', 'String'):
            enc_content(ops[0], inner)
            return tag
        if tv == 'Array' and vv in ('List', 'Tuple'):
            seqs, e = enc_loop(c, ops[0], f0, 'items')
            for seq in seqs: subs(seq, [('sub', T('fld', c.ty, 'Array', '0'), e)], 'for each item')
            return tag
        dunno(f'{vv} written for a {tv}')
    src = T('fld', c.ty, tv, '0')
    if tv == 'Tuple' and vv == 'Tuple':
        if rstring_path(c): return enc_rstring(c, ops, f0)
        if not not_rstring(c): c.both = True
        rest_is(ops, 1, 'written')
        need(ops[0][0] == 'loop', 'fields are not written one by one')
        need(src in ops[0][1] or f0 in ops[0][1] or any(s.op == 'range' for s in ops[0][1]), 'the loop does not go over the fields', not ops[0][1] or any(fuzzy(s) for s in ops[0][1]))
        done_loop(c, ops[0][1], ops[0][3], 'fields')
        for seq in one_body(ops[0], 'fields'):
            need(len(seq) == 1 and seq[0][0] == 'sub', 'not one value is written for each field')
            it, ix = pos_in(seq[0][1])
            vt, vx = pos_in(seq[0][2])
            need(it is src and vt is f0, f'the value {pp(seq[0][2])[:80]} is written by the type {pp(seq[0][1])[:80]}', it is None or vt is None)
            need(ix == vx, 'a value is written by the type of another field', fuzzy(seq[0][1]) or fuzzy(seq[0][2]))
        return tag
    if tv == 'Struct' and vv == 'Struct':
        rest_is(ops, 1, 'written')
        need(ops[0][0] == 'loop', 'fields are not written one by one')
        if src not in ops[0][1]:
            need(f0 not in ops[0][1], 'fields are written in the order of the value and not in the declared one', len(ops[0][1]) > 1)
            dunno('loop over something else')
        done_loop(c, ops[0][1], ops[0][3], 'fields')
        e = T('elem', src, ops[0][3])
        for fs, seq, b in ops[0][2]:
            need(len(seq) == 1 and seq[0][0] == 'sub', 'not one value is written for each field')
            need(seq[0][1] is T('fld', e, '', 'ty'), f'a field is written by the type {pp(seq[0][1])[:80]}', fuzzy(seq[0][1]) or not mention(seq[0][1], src))
            x = seq[0][2]
            good = x.op == 'fld' and x.a[1] == 'Some' and is_call(x.a[0], 'get') and x.a[0].a[1] == (f0, T('fld', e, '', 'name')) or \
                x.op == 'idx' and x.a[0] is f0 and x.a[1] is T('fld', e, '', 'name')
            if not good:
                # a search for the name in the value
                for y in walk(x):
                    if y.op == 'elem' and y.a[0] is f0 and any({unc(p), unc(q)} == {T('fld', y, '', '0'), T('fld', e, '', 'name')} for p, q in eq_facts({**c.facts, **fs})): good = x is T('fld', y, '', '1')
            if x.op == 'fld' and x.a[0] is T('elem', f0, ops[0][3]): no('the values are written in their own order, whatever the names of the fields are')
            need(good, f'the value written for a field is {pp(x)[:120]} and not that of its name', not x.op == 'elem' and not (is_call(x.a[0], 'get') if x.op == 'fld' and isinstance(x.a[0], T) else False))
        return tag
    if tv in ('Enum', 'Union') and vv == tv:
        rest_is(ops, 1 if tv == 'Enum' else 2, 'written')
        need(ops[0][0] == 'put', 'the tag is not written first')
        p = piece(ops[0][1])
        need(p[0] == 'byte', f'the tag is not written first but {pp(ops[0][1])[:80]}', p[0] == '?')
        x, ent = unc(p[1]), None
        given = [T('fld', f0, 'Ord', '0'), T('fld', f0, 'Name', '0')]
        if x is given[0]:
            for a, b in eq_facts(c.facts):
                for q, r in ((unc(a), unc(b)), (unc(b), unc(a))):
                    if q is x and r.op == 'fld' and r.a[2] == 'tag': ent = r.a[0]
        elif x.op == 'fld' and x.a[2] == 'tag':
            ent = x.a[0]
            need(any({unc(a), unc(b)} in ({T('fld', ent, '', 'name'), given[1]}, {x, given[0]}) for a, b in eq_facts(c.facts)), 'the tag written is not that of the variant given', open_about(c, f0) or fuzzy(x))
        else: need(False, f'the tag written is {pp(x)[:100]}', fuzzy(x) or not resolved(x) or x.op in ('call',) or x.op == 'fld' and x.a[1] == 'Some')
        if tv == 'Union':
            need(ops[1][0] == 'sub', 'the content is not written after the tag')
            if ent is None: dunno('variant written not resolved')
            var = ent.a[0] if ent.op == 'fld' else ent
            need(ops[1][1] is T('fld', var, '', '1'), f'the content is written by the type {pp(ops[1][1])[:100]} and not by that of the variant', fuzzy(ops[1][1]))
            need(strip_box(ops[1][2]) is T('fld', VAL, 'Union', '1'), f'the content written is {pp(ops[1][2])[:100]}', fuzzy(ops[1][2]))
        return tag
    dunno(f'{vv} written for a {tv}')


def strip_box(t):
    while t.op == 'adt' and len(t.a[2]) == 1 and LAST(t.a[0]) == 'Box' or t.op == 'fld' and t.a[2] == '0' and t.a[1] == '' and t.a[0].op == 'fld' and t.a[0].a[1] == 'Union': t = t.a[2][0] if t.op == 'adt' else t.a[0]
    return t


def pos_in(t):
    if t.op == 'elem': return t.a[0], ('i', t.a[1])
    if t.op == 'idx':
        k = unc(t.a[1])
        return t.a[0], (('i', k.a[1]) if k.op in ('pos', 'elem') else k)
    if t.op == 'fld' and t.a[1] == 'Some' and is_call(t.a[0], 'get') and len(t.a[0].a[1]) == 2:
        k = unc(t.a[0].a[1][1])
        return t.a[0].a[1][0], (('i', k.a[1]) if k.op in ('pos', 'elem') else k)
    return None, None


def subs(seq, exp, what):
    got = [(o[0], o[1], o[2]) for o in seq if o[0] == 'sub']
    if len(got) == len(seq) and got == exp: return
    if len(got) != len(seq): need(False, f'{what} something else than its parts is written', any(o[0] != 'sub' and piece(o[1])[0] == '?' for o in seq if o[0] == 'put'))
    need(False, f'{what} are written {", ".join(pp(o[2])[:60] + " by " + pp(o[1])[:60] for o in got)}', any(fuzzy(o[1]) or fuzzy(o[2]) for o in got))


def enc_content(op, inner):
    need(op[0] == 'put', 'the content is not written')
    t = op[1]
    while t.op == 'call' and LAST(t.a[0]) in ('as_bytes', 'as_slice', 'as_ref', 'deref', 'as_str') and len(t.a[1]) == 1: t = t.a[1][0]
    need(t in inner, f'the content written is {pp(t)[:120]}', fuzzy(t) or not resolved(t))


def rstring_path(c):
    """the path was taken since the tuple type is a restricted string"""
    tup_ = T('fld', c.ty, 'Tuple', '0')
    rest = T('look', T('idx', tup_, I(1)))
    first = T('look', T('idx', tup_, I(0)))
    def disc(t): return [x for a, x in c.facts.items() if a.op == 'discr' and a.a[0] is t]
    item = T('look', T('fld', rest, 'List', '0'))
    if disc(rest) != ['List'] or disc(first) != ['Enum'] or disc(item) != ['Enum']: return False
    # leaving the search for a character which is none, the tuple is not a string
    for x, v in c.facts.items():
        if x.op == 'bin' and x.a[0] == 'Lt' and any(y.op == 'fld' and y.a[2] == 'tag' for y in (unc(x.a[1]), unc(x.a[2]))) and any(mention(x, t) for t in (first, item)): return False
    return True


def not_rstring(c):
    """the path is taken only for tuples which are no restricted strings"""
    tup_ = T('fld', c.ty, 'Tuple', '0')
    rid = T('idx', tup_, I(1))
    rest, first = T('look', rid), T('look', T('idx', tup_, I(0)))
    item = T('look', T('fld', rest, 'List', '0'))
    for x, v in c.facts.items():
        if x is lens(tup_) and v != 2: return True
        if x.op == 'discr' and x.a[0] in (rest, first, item) and v != ('List' if x.a[0] is rest else 'Enum'): return True
        if x.op == 'discr' and v == 'None' and any(is_call(x.a[0], n) and x.a[0].a[1][-1] in (rid, T('idx', tup_, I(0)), T('fld', rest, 'List', '0')) for n in ('find', 'get')): return True
        if x.op == 'bin' and any(y.op == 'fld' and y.a[2] == 'tag' for y in (unc(x.a[1]), unc(x.a[2]))) and any(mention(x, t) for t in (first, item)): return True
        if x.op == 'bin' and mention(x, lens(tup_)) and not mention(x, VAL) and v == (x.a[0] == 'Lt'): return True
        if is_call(x, 'is_rstring') and v == 0: return True
    for x, vs in c.neq.items():
        if x is lens(tup_) and 2 in vs: return True
        if x.op == 'discr' and x.a[0] in (rest, first, item) and ('List' if x.a[0] is rest else 'Enum') in vs: return True
    return False


def chunks(t):
    """what a buffer was filled with"""
    if t.op == 'empty': return []
    if t.op == 'after' and LAST(t.a[0].split('#')[0]) in NESTED and len(t.a[1]) == 4:
        b = chunks(t.a[1][3])
        return None if b is None else b + [('sub', t.a[1][2], t.a[1][1])]
    if t.op == 'coll' and t.a[3] == 'push' and len(t.a[2]) == 1 and t.a[2][0].op == 'elem' and t.a[2][0].a[0] is t.a[1]:
        b, s = chunks(t.a[0]), t.a[1]
        while s.op == 'call' and LAST(s.a[0]) in ('as_bytes', 'as_slice', 'as_ref', 'deref', 'as_str') and len(s.a[1]) == 1: s = s.a[1][0]
        return None if b is None else b + [('content', s)]
    if t.op == 'fold' and len(t.a[2]) == 1 and t.a[2][0].op == 'after' and LAST(t.a[2][0].a[0].split('#')[0]) in NESTED and len(t.a[2][0].a[1]) == 4:
        b, x = chunks(t.a[0]), t.a[2][0].a[1]
        if b is None or x[3].op != 'acc' or not (x[1].op == 'elem' and x[1].a[0] is t.a[1]): return None
        return b + [('all', x[2], t.a[1])]
    return None


def enc_rstring(c, ops, f0):
    """first character and rest: the length of both together, then both"""
    rest_is(ops, 2, 'written')
    if ops[0][0] != 'put' or ops[1][0] != 'put': no('a restricted string given as a tuple is written in another way than it is read: not the length of all characters first')
    p = piece(ops[0][1])
    if p[0] == '?': dunno('length not resolved')
    need(p[0] == 'le', 'the length is not written first')
    need(p[1].op == 'call' and p[1].a[0] == 'len' and p[1].a[1][0] is ops[1][1], 'the length written is not that of the characters', fuzzy(p[1]))
    cs = chunks(ops[1][1])
    if cs is None: dunno(f'characters written not resolved: {pp(ops[1][1])[-300:]}')
    tup_ = T('fld', c.ty, 'Tuple', '0')
    v0, v1, t0 = T('idx', f0, I(0)), T('idx', f0, I(1)), T('idx', tup_, I(0))
    item = T('fld', T('look', T('idx', tup_, I(1))), 'List', '0')
    need(cs and cs[0] == ('sub', t0, v0), 'the first character is not written first', not cs)
    need(len(cs) == 2 and cs[1] in (('content', T('fld', v1, 'String', '0')), ('all', item, T('fld', v1, 'List', '0'))),
         f'the other characters written are {", ".join(pp(x[-1])[:80] for x in cs[1:])}', any(fuzzy(x[-1]) for x in cs[1:]))
    k = const(p[2])
    if k is None: dunno(f'width {pp(p[2])[:100]}')
    check_width(c, 'Tuple', k, 'is written')
    return 'Tuple:Tuple-string'


def V06(rep):
    """For each path of the decoder returning a value and each path of the encoder returning success, per class of type: the sequence of
    reads (writes) is the one of the wire table -- length, then items; key, then value; tag, then the content of the variant having that tag;
    fields in declared order by their own types --, loops run over all of the items, the value is made of the parts read (the parts written are
    those of the value), and the length is read (written) in the number of bytes which 2^8, 2^16, 2^24, 2^32 thresholds on the declared
    maximum give, for the interval of maxima which the branch conditions leave possible."""
    f, cases, outs = decoded(rep)
    seen = set()
    if f is not None and cases is None: rep.unknown('decoder', 'analysis gave up', f.where())
    for c in cases or ():
        if c.v is None:
            rep.unknown('decoder', f'result not resolved: {pp(c.o.v)[:160]}', f.where())
            continue
        key = f"decoder:{'|'.join(sorted(c.tset)) if len(c.tset) < 4 else 'any'}"
        try:
            r = dec_shape(c)
            if r == 'Primitive': continue
            seen.add('d:' + r)
            rep.ok(f'decoder:{r}', '', f.where())
        except Verdict as e: rep.tri(key, e.v, e.text, f.where())
    g, ecases = encoded(rep)
    both = False
    if g is not None and ecases is None: rep.unknown('encoder', 'analysis gave up', g.where())
    for c in ecases or ():
        if c.o.k != 'ret': continue
        k, _ = res_parts(c.o)
        if k == 'Err': continue
        key = f"encoder:{'|'.join(sorted(c.tset)) if len(c.tset) < 4 else 'any'}:{'|'.join(sorted(c.vset)) if len(c.vset) < 4 else 'any'}"
        if k is None:
            rep.unknown(key, f'result not resolved: {pp(c.o.v)[:160]}', g.where())
            continue
        try:
            r = enc_shape(c)
            if r in ('Primitive', None): continue
            seen.add('e:' + r)
            rep.ok(f'encoder:{r}', '', g.where())
            if getattr(c, 'both', False) and 'd:Tuple:String' in seen: both = True
        except Verdict as e: rep.tri(key, e.v, e.text, g.where())
    if both:
        # restricted strings are read as strings: a tuple of the first character and the rest must not be written field by field
        _, tcases, _ = typified(rep)
        made = [c for c in tcases or () if c.v is not None and c.v.op == 'adt' and c.v.a[1] == 'Tuple' and c.tset == {'Tuple'} and coll_parts(c.v.a[2][0]) and not not_rstring(c)]
        rep.tri('encoder:restricted-string-as-tuple', None if tcases is None else not made,
                'a tuple typified with a restricted string type is written field by field, while the decoder reads the length of the whole string first', g.where())
    rep.floor('combinations', len(seen), 20, 'combinations of a class of types and a kind of value')


# ------------------------------------------------------------------ V07
SUPPORTED = {0x01: 'u8', 0x02: 'u16', 0x03: 'u24', 0x04: 'u32', 0x05: 'u40', 0x06: 'u48', 0x07: 'u56', 0x08: 'u64', 0x40: 'u8',
             0x41: 'i8', 0x42: 'i16', 0x44: 'i32', 0x48: 'i64'}


def prim_width(code):
    """(bytes, signed) or None for codes without integers"""
    if 0x01 <= code <= 0x40: return prim_bytes(code), False
    if 0x41 <= code <= 0x7f: return prim_bytes(code), True
    return None


def codes_of(c):
    """the primitive codes a path is taken for"""
    prim = T('fld', c.ty, 'Primitive', '0')
    terms = {T('fld', prim, '', '0'), T('call', 'Primitive::into_code', (prim,), '')}
    from .values import Bits
    r = []
    for code in range(256):
        b = Bits(code, terms, None, False, 0, 64, 'Uint')
        if b.holds(c.facts, c.neq): r.append(code)
    opn = any((mention(x, prim)) and x.op != 'discr' and Bits(1, terms, None, False, 0, 64, 'Uint').ev(x) is None for x in list(c.facts) + list(c.neq))
    return r, opn


def V07(rep):
    """For each path of the decoder which returns a value for a primitive type: for each of the 256 primitive codes the branch conditions
    admit, exactly one number of the width and signedness of the code is read and becomes the (signed or unsigned) number of the value. For each
    writing path: the little-endian bytes of the very number, as many as the width of the primitive."""
    f, cases, outs = decoded(rep)
    if f is not None and cases is None: rep.unknown('decoder', 'analysis gave up', f.where())
    done = set()
    for c in cases or ():
        if 'Primitive' not in c.tset or c.v is None: continue
        if c.unit: codes, opn = [0], False
        else: codes, opn = codes_of(c)
        ops = dops(c)
        v = c.v
        for code in codes:
            key = f'decoder:{code:#04x}'
            try:
                no_unknown(ops)
                if code == 0:
                    need(not ops, 'something is read for the unit type', opn)
                    need(v.op == 'adt' and v.a[1] == 'Unit', f'the unit type gives {pp(v)[:80]}', opn or fuzzy(v))
                else:
                    w = prim_width(code)
                    need(w is not None, f'a value is read for the unsupported primitive {code:#04x}', opn)
                    need(len(ops) == 1, f'{len(ops)} parts are read for the primitive {code:#04x}', opn)
                    if ops[0][0] != 'dec': dunno('not read by a decoder of a number')
                    d = NUM.get(ops[0][1])
                    need(d is not None, f'read as {ops[0][1]}', True)
                    need(d == w, f'the primitive {code:#04x} is read as {ops[0][1]}', opn)
                    num = v.a[2][0] if v.op == 'adt' and v.a[1] == 'Number' else None
                    need(num is not None, f'a number gives {pp(v)[:80]}', opn or fuzzy(v))
                    need(num.op == 'adt' and num.a[1] in ('Uint', 'Int', 'BigUint', 'BigInt'), f'gives {pp(num)[:80]}', True)
                    x = num.a[2][0]
                    need(x is ops[0][2], f'the number is {pp(x)[:80]} and not the one read', fuzzy_but_readers(x) or x.op == 'call')
                    big = 'Big' in num.a[1]
                    if not big:
                        need(w[1] == (num.a[1] == 'Int'), f'the {"" if w[1] else "un"}signed primitive {code:#04x} gives {num.a[1]}', opn)
                done.add(code)
                rep.ok(key, '', f.where())
            except Verdict as e: rep.tri(key, e.v, e.text, f.where())
    g, ecases = encoded(rep)
    if g is not None and ecases is None: rep.unknown('encoder', 'analysis gave up', g.where())
    n = set()
    for c in ecases or ():
        if c.o.k != 'ret' or res_parts(c.o)[0] != 'Ok' or 'Primitive' not in c.tset or c.unit: continue
        if not c.vset & {'Number', 'Unit'} or len(c.vset) != 1: continue
        vv = next(iter(c.vset))
        ops = eops(c)
        if vv == 'Unit':
            rep.tri('encoder:Unit', True if not ops else None if any(o[0] == '?' for o in ops) else False, '' if not ops else 'something is written for a unit', g.where())
            continue
        num0 = T('fld', VAL, 'Number', '0')
        nvs = c.variants(num0, 'StrictNum', ['Uint', 'Int', 'BigUint', 'BigInt'])
        codes, opn = codes_of(c)
        for nv in sorted(nvs):
            key = f'encoder:{nv}'
            n.add(nv)
            try:
                no_unknown(ops)
                if any(o[0] == 'loop' for o in ops): dunno('the number is written in parts')
                need(len(ops) == 1 and ops[0][0] == 'put', 'not exactly one number is written')
                p = piece(ops[0][1])
                if p[0] == '?': dunno(f'{pp(ops[0][1])[:100]} is written')
                need(p[0] == 'le', f'{pp(ops[0][1])[:200]} is written and not the number in little-endian order')
                need(unc(p[1]) is T('fld', num0, nv, '0') and (p[1].op != 'cast' or INT_BITS.get(p[1].a[0], 0) >= 64), f'{pp(p[1])[:100]} is written', fuzzy(p[1]) or not resolved(p[1]))
                prim = T('fld', c.ty, 'Primitive', '0')
                from .values import Bits
                for code in codes:
                    if prim_width(code) is None: continue
                    b = Bits(code, {T('fld', prim, '', '0'), T('call', 'Primitive::into_code', (prim,), '')}, None, False, 0, 64, 'Uint')
                    k = b.ev(unc(p[2]))
                    if k is None:
                        size = unc(p[2])
                        dunno(f'width {pp(p[2])[:100]} not resolved')
                    if nv in ('Uint', 'Int') and prim_bytes(code) > 8: continue
                    need(k[0] == k[1] == prim_width(code)[0], f'{k[0]} bytes are written for the primitive {code:#04x}', opn)
                rep.ok(key, '', g.where())
            except Verdict as e: rep.tri(key, e.v, e.text, g.where())
    for code in (0x00, 0x01, 0x08, 0x40, 0x48):
        rep.check(f'supported:{code:#04x}', code in done or not cases or any(o[0].startswith('decoder') and o[1] == 'unknown' for o in rep.obl),
                  f'values of the primitive {code:#04x} are {"" if code in done else "not "}read', f.where() if f else '')
    rep.floor('decoded', len(done), 14, 'primitives read')
    rep.floor('encoded', len(n), 4, 'kinds of numbers written')
