"""Path-sensitive value-flow analysis over MIR.

Computes, for a function, the set of its abstract paths: branch facts over provenance terms, the ordered trace of
effects, and the provenance of the result.  Loops are widened (every storage location changed by the body is replaced by
an unknown, the body is abstracted by one generic iteration); recursion and foreign code are opaque; nothing is executed
and no solver is involved.
"""
import re
import sys
from .term import T, mk, pp, subst, walk, split_path

sys.setrecursionlimit(100000)

TRANSPARENT = {'Box', 'Confined', 'NamedFields', 'UnnamedFields', 'UnionVariants', 'EnumVariants', 'Unique', 'NonNull',
               'Wrapping', 'ManuallyDrop', 'Pin', 'MaybeUninit', 'MaybeDangling', 'SemId', 'TypeLibId', 'TypeSysId', 'Array',
               'GenericArray'}
INT_BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64,
            'i128': 128, 'isize': 64, 'char': 32, 'bool': 1}


class Budget(Exception):
    pass


class Ev:
    """One effect on a path."""
    __slots__ = ('k', 'name', 'args', 'res', 'self_ty', 'fn', 'line', 'x')

    def __init__(self, k, name='', args=(), res=None, self_ty='', fn='', line=0, x=None):
        self.k, self.name, self.args, self.res, self.self_ty = k, name, args, res, self_ty
        self.fn, self.line, self.x = fn, line, x

    def __repr__(self):
        if self.k == 'loop':
            return f"loop[{', '.join(pp(s) for s in self.x['src'])}]{{" + ' | '.join(
                '; '.join(map(repr, b['events'])) for b in self.x['bodies']) + '}'
        if self.k in ('iter', 'done'): return f"{self.k}[{pp(self.args)}]"
        s = f'@{self.self_ty}' if self.self_ty else ''
        return f"{self.name}{s}({', '.join(pp(a) for a in self.args)})"


class St:
    __slots__ = ('store', 'facts', 'neq', 'rng', 'trace', 'loops')

    def __init__(self):
        self.store, self.facts, self.neq, self.rng, self.trace, self.loops = {}, {}, {}, {}, None, 0

    def copy(self):
        s = St.__new__(St)
        s.store, s.facts, s.neq, s.rng = dict(self.store), dict(self.facts), dict(self.neq), dict(self.rng)
        s.trace, s.loops = self.trace, self.loops
        return s

    def ev(self, e): self.trace = (self.trace, e)

    def events(self, upto=None):
        r, t = [], self.trace
        while t is not None and t is not upto:
            r.append(t[1])
            t = t[0]
        return r[::-1]


class Out:
    __slots__ = ('k', 'v', 'st', 'x')

    def __init__(self, k, v, st, x=None): self.k, self.v, self.st, self.x = k, v, st, x


class Frame:
    __slots__ = ('fn', 'id', 'depth')

    def __init__(self, fn, i, depth): self.fn, self.id, self.depth = fn, i, depth


def I(n): return T('int', n)


UNIT = T('tup', ())
TRUE, FALSE = I(1), I(0)


class Engine:
    def __init__(self, prog, opaque=(), max_out=6000, inline_foreign=True, watch=None, max_depth=40, model_off=(), over=()):
        self.lstack = []
        self.over = list(over)     # extra models: f(owner, item, self_ty, fn) -> model or None
        self.p = prog
        self.opaque = {x for x in opaque if isinstance(x, str)}      # item names / owner::item kept opaque
        self.opaque_f = [x for x in opaque if not isinstance(x, str)]
        self.max_out = max_out
        self.max_depth = max_depth
        self.nframe = 0
        self.steps = 0
        self.max_steps = 3_000_000
        self.fns_seen = set()
        self.stack = []
        self.by_id = {f.id: f for f in prog.fns}
        self.model_off = set(model_off)
        self._fty = {}
        self.manual_eq = {}
        for f in prog.find(item='eq', trait='PartialEq'):
            if not f.j.get('derived') and f.argc == 2:
                a, b = (prog.adt_name(f.j['locals'][i][0]) for i in (1, 2))
                n = prog.self_name(f)
                if n and a == b and not f.j.get('gen'): self.manual_eq.setdefault(n, f)
        self.notes = []

    # ------------------------------------------------------------ types
    def ty(self, i): return self.p.ty(i)

    def tname(self, i):
        """short type name"""
        t = self.ty(i)
        k = t['k']
        if k in ('ref', 'ptr'): return self.tname(t['ty'])
        if k == 'adt':
            n = t['path'].split('::')[-1]
            if n == 'Box' and t['args']: return self.tname(t['args'][0])
            a = [self.tname(x) if isinstance(x, int) else x for x in t['args'] if x != "'r"]
            a = [x for x in a if x not in ('Global', 'RandomState')]
            return n + ('<' + ', '.join(a) + '>' if a else '')
        if k == 'tuple': return '(' + ', '.join(self.tname(x) for x in t['args']) + ')'
        if k == 'slice': return '[' + self.tname(t['ty']) + ']'
        if k == 'array': return '[' + self.tname(t['ty']) + '; ' + str(t.get('len', '_')) + ']'
        return t['s']

    def is_transparent(self, path): return path.split('::')[-1] in TRANSPARENT

    # ------------------------------------------------------------ construction
    def adt(self, path, variant, fields):
        if self.is_transparent(path) and fields:
            return fields[0]
        return T('adt', path, variant, tuple(fields))

    def variant_name(self, path, vi):
        a = self.p.adts.get(path)
        if a is None or a['kind'] != 'enum': return ''
        return a['variants'][vi]['name']

    def field_name(self, path, vi, fi):
        a = self.p.adts.get(path)
        if a is None: return str(fi)
        try: return a['variants'][vi or 0]['fields'][fi]['name']
        except IndexError: return str(fi)

    def field_index(self, path, variant, name):
        a = self.p.adts.get(path)
        if a is None: return int(name)
        for v in a['variants']:
            if v['name'] == variant or (variant == '' and a['kind'] != 'enum'):
                for i, f in enumerate(v['fields']):
                    if f['name'] == name: return i
        return int(name)

    # proj element: ('f', adtpath|None, variant, name) | ('i', term) | ('sub', a, b, fe) | ('ci', off, fe)
    def get(self, v, pr):
        k = pr[0]
        if k == 'f':
            _, path, variant, name = pr
            if path is not None and self.is_transparent(path): return v
            while v.op == 'upd':
                if v.a[1] == pr: return v.a[2]
                v = v.a[0]
            if v.op == 'adt':
                i = self.field_index(v.a[0], v.a[1], name)
                if v.a[1] == variant or variant == '':
                    if i < len(v.a[2]): return v.a[2][i]
            if v.op == 'tup' and name.isdigit() and int(name) < len(v.a[0]): return v.a[0][int(name)]
            if v.op == 'clo' and name.isdigit() and int(name) < len(v.a[1]): return v.a[1][int(name)]
            if v.op == 'fld' and False: pass
            return T('fld', v, variant, name)
        if k == 'i':
            i = pr[1]
            return self.index(v, i)
        if k == 'ci':
            if v.op == 'arr' and not pr[2] and pr[1] < len(v.a[0]): return v.a[0][pr[1]]
            if pr[2]: return T('idxend', v, I(pr[1]))
            return self.index(v, I(pr[1]))
        if k == 'sub':
            return T('sub', v, I(pr[1]), I(pr[2]) if not pr[3] else T('fromend', I(pr[2])))
        return T('unk', v)

    def index(self, v, i):
        if v.op == 'arr' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]): return v.a[0][i.a[0]]
        if i.op == 'elem' and i.a[0].op == 'range' and i.a[0].a[0] is I(0) and i.a[0].a[1] is self.length(v):
            return T('elem', v, i.a[1])
        return T('idx', v, i)

    def upd(self, v, prs, x):
        if not prs: return x
        p = prs[0]
        inner = self.upd(self.get(v, p), prs[1:], x)
        if p[0] == 'f':
            if p[1] is not None and self.is_transparent(p[1]): return inner
            if v.op == 'adt' and (v.a[1] == p[2] or p[2] == ''):
                i = self.field_index(v.a[0], v.a[1], p[3])
                fs = list(v.a[2])
                if i < len(fs):
                    fs[i] = inner
                    return T('adt', v.a[0], v.a[1], tuple(fs))
            if v.op == 'tup' and p[3].isdigit() and int(p[3]) < len(v.a[0]):
                fs = list(v.a[0])
                fs[int(p[3])] = inner
                return T('tup', tuple(fs))
            if v.op == 'clo' and p[3].isdigit():
                fs = list(v.a[1])
                fs[int(p[3])] = inner
                return T('clo', v.a[0], tuple(fs))
        return T('upd', v, p, inner)

    def length(self, v):
        while v.op == 'call' and v.a[0] in ('as_bytes', 'as_slice', 'into_bytes') and v.a[1]:
            v = v.a[1][0]
        if v.op == 'arr': return I(len(v.a[0]))
        if v.op == 'str': return I(len(v.a[0].encode()))
        if v.op == 'bytes': return I(len(v.a[0]))
        if v.op == 'empty': return I(0)
        if v.op == 'coll' and v.a[0].op == 'empty' and len(v.a[2]) == 1 and v.a[3] == 'push':
            return self.length(v.a[1]) if v.a[1].op != 'range' else v.a[1].a[1]
        return T('call', 'len', (v,), '')

    # ------------------------------------------------------------ places
    def load(self, key, st):
        v = st.store.get(key)
        return v if v is not None else T('undef', str(key))

    def resolve(self, fr, place, st):
        """-> (key or None, base value, projs list, type id)"""
        local, projs = place
        key = ('L', fr.id, local)
        cur_ty = fr.fn.j['locals'][local][0]
        base_key, base_val, pl = key, None, []
        variant = None
        for e in projs:
            if e == '*':
                v = self.val(base_key, base_val, pl, st)
                t = self.ty(cur_ty)
                if t['k'] in ('ref', 'ptr'): cur_ty = t['ty']
                elif t['k'] == 'adt' and t['path'].endswith('boxed::Box'): cur_ty = t['args'][0]
                if v.op == 'ptr':
                    base_key, base_val, pl = v.a[0], None, list(v.a[1])
                elif t['k'] == 'ref' and t.get('mut') or t['k'] == 'ptr':
                    # through an opaque mutable reference
                    hk = ('H', v)
                    if hk in st.store: base_key, base_val, pl = hk, None, []
                    else: base_key, base_val, pl = hk, v, []
                else:
                    # shared reference or box: the value itself
                    if t['k'] == 'adt': continue
                    base_key, base_val, pl = None, v, []
                variant = None
            elif e[0] == 'v':
                variant = e[1]
            elif e[0] == 'f':
                t = self.ty(cur_ty)
                if t['k'] == 'adt':
                    path = t['path']
                    nm = self.field_name(path, variant, e[1])
                    vn = self.variant_name(path, variant) if variant is not None else ''
                    pl.append(('f', path, vn, nm))
                else:
                    pl.append(('f', None, '', str(e[1])))
                cur_ty = e[2]
                variant = None
            elif e[0] == 'i':
                pl.append(('i', self.load(('L', fr.id, e[1]), st)))
                t = self.ty(cur_ty)
                cur_ty = t.get('ty', cur_ty)
            elif e[0] == 'ci':
                pl.append(('ci', e[1], e[2]))
                cur_ty = self.ty(cur_ty).get('ty', cur_ty)
            elif e[0] == 'sub':
                pl.append(('sub', e[1], e[2], e[3]))
            else:
                pl.append(('?',))
        return base_key, base_val, pl, cur_ty

    def val(self, key, base, pl, st):
        if base is not None and (key is None or key not in st.store): v = base
        else: v = self.load(key, st)
        for p in pl: v = self.get(v, p)
        return v

    def read(self, fr, place, st):
        k, b, pl, _ = self.resolve(fr, place, st)
        return self.val(k, b, pl, st)

    def write(self, fr, place, v, st):
        k, b, pl, _ = self.resolve(fr, place, st)
        self.write_at(k, b, pl, v, st)

    def write_at(self, k, b, pl, v, st):
        if k is None:
            return
        if not pl:
            st.store[k] = v
            return
        old = b if (b is not None and k not in st.store) else st.store.get(k)
        if old is None: old = T('undef', str(k)) if False else T('hole')
        st.store[k] = self.upd(old, pl, v)

    def deref_val(self, v, st):
        """value behind pointers (for terms of effects)"""
        n = 0
        while isinstance(v, T) and v.op == 'ptr' and n < 10:
            v = self.val(v.a[0], None, list(v.a[1]), st)
            n += 1
        return v

    def snap(self, v, st, d=0):
        """replace pointers inside a value by what they point to"""
        if v.op == 'ptr' and d < 6: return self.snap(self.deref_val(v, st), st, d + 1)
        if v.op in ('adt', 'tup', 'arr', 'clo') and d < 6:
            def conv(x):
                if isinstance(x, T): return self.snap(x, st, d + 1)
                if isinstance(x, tuple): return tuple(conv(y) for y in x)
                return x
            na = tuple(conv(y) for y in v.a)
            return v if na == v.a else T(v.op, *na)
        return v

    # ------------------------------------------------------------ constants
    def const(self, c, fr, st):
        if 'fn' in c and isinstance(c['fn'], dict): return self.fnval(c['fn'])
        if 'int' in c: return I(c['int'])
        if 'big' in c: return I(int(c['big']))
        if 'str' in c: return T('str', c['str'])
        if 'bytes' in c: return T('bytes', tuple(c['bytes']))
        if 'deref' in c and self.complete(c['deref']): return self.const(c['deref'], fr, st)
        if 'fields' in c and self.complete(c): return self.const_agg(c, fr, st)
        if 'body' in c:
            f = self.by_id.get(c['body'])
            if f is not None and f.ok and fr.depth < self.max_depth:
                s2 = st.copy()
                try:
                    outs = [o for o in self.run(f, [], s2, fr.depth + 1) if o.k == 'ret']
                except Budget:
                    outs = []
                if len(outs) == 1: return self.snap(outs[0].v, outs[0].st)
        if 'static' in c: return T('static', c['static'])
        t = self.ty(c['ty'])
        if t['k'] == 'adt':
            a = self.p.adts.get(t['path'])
            if a and a['kind'] == 'struct' and not a['variants'][0]['fields']:
                return T('adt', t['path'], '', ())
        if t['k'] == 'tuple' and not t['args']: return UNIT
        if t['k'] == 'fndef' and 'callee' in t: return self.fnval(t['callee'])
        if 'cparam' in c: return I(int(c['cparam'])) if re.fullmatch(r'-?\d+', str(c['cparam'])) else T('cparam', c['cparam'])
        if 'name' in c: return T('const', c['name'], self.tname(c['ty']))
        return T('const', '?', t['s'])

    def complete(self, c):
        if 'fields' in c: return all(self.complete(x) for x in c['fields'])
        if 'deref' in c: return self.complete(c['deref'])
        if any(k in c for k in ('int', 'big', 'str', 'bytes', 'fn')): return True
        t = self.ty(c['ty'])
        if t['k'] == 'adt':
            a = self.p.adts.get(t['path'])
            return bool(a and a['kind'] == 'struct' and not a['variants'][0]['fields'])
        return t['k'] == 'tuple' and not t['args']

    def const_agg(self, c, fr, st):
        t = self.ty(c['ty'])
        fs = tuple(self.const(x, fr, st) for x in c['fields'])
        if t['k'] == 'adt':
            vi = c.get('variant', 0)
            return self.adt(t['path'], self.variant_name(t['path'], vi), fs)
        if t['k'] == 'tuple': return T('tup', fs)
        if t['k'] == 'array': return T('arr', fs)
        return T('tup', fs)

    def fnval(self, cj):
        key = cj.get('path') or cj['decl']
        ident = (key, cj.get('fn', -1), str(cj.get('ctor')), str(cj.get('args')))
        t = T('fnval', *ident)
        self._fnv = getattr(self, '_fnv', {})
        self._fnv[t] = cj
        return t

    def operand(self, fr, o, st):
        if o[0] in ('c', 'm'): return self.read(fr, o[1], st)
        if o[0] == 'rc': return FALSE
        return self.const(o[1], fr, st)

    def op_ty(self, fr, o):
        if o[0] in ('c', 'm'):
            local, projs = o[1]
            ty = fr.fn.j['locals'][local][0]
            for e in projs:
                if e == '*':
                    t = self.ty(ty)
                    ty = t.get('ty') if 'ty' in t else (t['args'][0] if t.get('args') else ty)
                elif e[0] == 'f': ty = e[2]
                elif e[0] in ('i', 'ci'): ty = self.ty(ty).get('ty', ty)
            return ty
        if o[0] == 'k': return o[1].get('ty')
        return None

    # ------------------------------------------------------------ facts
    def order(self, a, b):
        return (a, b) if pp(a) <= pp(b) else (b, a)

    def norm_bool(self, t):
        """-> (atom, value) normalised so that `t` holds iff atom == value; atom may be a term for int compare"""
        neg = False
        while True:
            if t.op == 'un' and t.a[0] == 'Not':
                neg = not neg
                t = t.a[1]
                continue
            if t.op == 'bin':
                o, a, b = t.a
                if o == 'Ne':
                    neg = not neg
                    t = T('bin', 'Eq', a, b)
                    continue
                if o == 'Gt':
                    t = T('bin', 'Lt', b, a)
                    continue
                if o == 'Le':
                    neg = not neg
                    t = T('bin', 'Lt', b, a)
                    continue
                if o == 'Ge':
                    neg = not neg
                    t = T('bin', 'Lt', a, b)
                    continue
                if o == 'Eq':
                    if a.op == 'int' and b.op != 'int': a, b = b, a
                    if b.op == 'int' and a.op == 'bin' and a.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                        if b.a[0] == 0: neg = not neg
                        t = a
                        continue
                    if a.op == 'adt' and b.op != 'adt': a, b = b, a
                    if b.op == 'adt' and a.op != 'adt':
                        ad = self.p.adts.get(b.a[0])
                        if ad and ad['kind'] == 'struct' and len(b.a[2]) == 1:
                            t = T('bin', 'Eq', self.get(a, ('f', b.a[0], '', ad['variants'][0]['fields'][0]['name'])), b.a[2][0])
                            continue
                        if ad and ad['kind'] == 'enum' and not b.a[2]:
                            return (T('discr', a, b.a[0]), b.a[1], neg)
                        if ad and ad['kind'] == 'enum' and len(b.a[2]) == 1 and b.a[0].endswith('option::Option'):
                            pass
                    if a.op == 'call' and a.a[0] == 'len' and False: pass
                    if b.op == 'int' and a.op == 'discr':
                        ad = self.p.adts.get(a.a[1])
                        for v in ad['variants'] if ad else ():
                            if v['discr'] == b.a[0]: return (a, v['name'], neg)
                    if b.op == 'int': return (a, b.a[0], neg)
                    if a is b: return (TRUE, 0 if neg else 1, False) if False else (TRUE, 1, neg)
                    x, y = self.order(a, b)
                    return (T('bin', 'Eq', x, y), 1, neg)
            if t.op == 'issome':
                return (T('discr', t.a[0], 'core::option::Option'), 'Some', neg)
            return (t, 1, neg)

    def variants_of(self, atom):
        if atom.op == 'discr':
            ad = self.p.adts.get(atom.a[1])
            if ad: return [v['name'] for v in ad['variants']]
        return None

    def known(self, st, atom):
        if atom.op == 'int': return atom.a[0]
        if atom.op == 'discr' and atom.a[0].op == 'adt': return atom.a[0].a[1]
        if atom in st.facts: return st.facts[atom]
        if atom.op == 'ovf':
            a, b = atom.a[1], atom.a[2]
            if atom.a[0] == 'Add':
                if a.op == 'int': a, b = b, a
                if b is I(1):
                    for f, v in st.facts.items():
                        if v == 1 and f.op == 'bin' and f.a[0] == 'Lt' and f.a[1] is a: return 0
            if atom.a[0] == 'Sub' and b.op == 'int':
                lo = self.range(st, a)[0]
                if lo is not None and lo >= b.a[0]: return 0
        if atom.op == 'bin' and atom.a[0] == 'Lt':
            a, b = atom.a[1], atom.a[2]
            la, ha = self.range(st, a)
            lb, hb = self.range(st, b)
            if ha is not None and lb is not None and ha < lb: return 1
            if la is not None and hb is not None and la >= hb: return 0
            if a is b: return 0
        return None

    def range(self, st, t):
        if t.op == 'int': return (t.a[0], t.a[0])
        f = st.facts.get(t)
        if isinstance(f, int): return (f, f)
        r = st.rng.get(t)
        if r is None:
            r = (None, None)
        if t.op == 'call' and t.a[0] == 'len' and r[0] is None: r = (0, r[1])
        return r

    def assume(self, st, atom, val, neg):
        """In-place; returns False if infeasible."""
        k = self.known(st, atom)
        if k is not None:
            return (k == val) != neg
        boolish = val in (0, 1) and not isinstance(val, str) and (atom.op == 'bin' and atom.a[0] in ('Eq', 'Lt') or atom.op in ('pred',))
        if neg and boolish:
            val, neg = 1 - val, False
        if not neg:
            if val in st.neq.get(atom, ()): return False
            if isinstance(val, int) and not boolish:
                lo, hi = self.range(st, atom)
                if lo is not None and val < lo or hi is not None and val > hi: return False
            st.facts[atom] = val
            if atom.op == 'bin' and atom.a[0] == 'Lt':
                a, b = atom.a[1], atom.a[2]
                if val == 1:
                    hb = self.range(st, b)[1]
                    if hb is not None: self.set_rng(st, a, None, hb - 1)
                    la = self.range(st, a)[0]
                    if la is not None: self.set_rng(st, b, la + 1, None)
                else:
                    lb = self.range(st, b)[0]
                    if lb is not None: self.set_rng(st, a, lb, None)
                    ha = self.range(st, a)[1]
                    if ha is not None: self.set_rng(st, b, None, ha)
        else:
            ne = st.neq.get(atom, frozenset()) | {val}
            vs = self.variants_of(atom)
            if vs is not None:
                rest = [v for v in vs if v not in ne]
                if not rest: return False
                if len(rest) == 1:
                    st.facts[atom] = rest[0]
            elif isinstance(val, int):
                lo, hi = self.range(st, atom)
                if lo == val and lo is not None:
                    self.set_rng(st, atom, lo + 1, None)
                if hi is not None and hi == val: self.set_rng(st, atom, None, hi - 1)
                l2, h2 = self.range(st, atom)
                if l2 is not None and h2 is not None and l2 > h2: return False
            st.neq[atom] = ne
        return True

    def set_rng(self, st, t, lo, hi):
        if t.op == 'int': return
        a, b = st.rng.get(t, (None, None))
        if lo is not None: a = lo if a is None else max(a, lo)
        if hi is not None: b = hi if b is None else min(b, hi)
        st.rng[t] = (a, b)

    def branch(self, st, cond):
        """-> list of (bool, state)"""
        if cond.op == 'int': return [(bool(cond.a[0]), st)]
        if cond.op == 'bin' and cond.a[0] in ('BitAnd', 'BitOr') and self.is_boolish(cond.a[1]) and self.is_boolish(cond.a[2]):
            r = []
            for b1, s1 in self.branch(st, cond.a[1]):
                for b2, s2 in self.branch(s1, cond.a[2]):
                    r.append(((b1 and b2) if cond.a[0] == 'BitAnd' else (b1 or b2), s2))
            return r
        atom, val, neg = self.norm_bool(cond)
        k = self.known(st, atom)
        if k is not None: return [((k == val) != neg, st)]
        r = []
        s1 = st.copy()
        if self.assume(s1, atom, val, neg): r.append((True, s1))
        s2 = st.copy()
        if self.assume(s2, atom, val, not neg): r.append((False, s2))
        return r

    def is_boolish(self, t):
        return (t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'BitAnd', 'BitOr')) or t.op in ('issome', 'pred') or (
            t.op == 'un' and t.a[0] == 'Not') or (t.op == 'call' and t.a[0].split('::')[-1].startswith(('is_', 'has_', 'contains')))

    def split_discr(self, st, v, path):
        """-> list of (variant, state)"""
        if v.op == 'adt': return [(v.a[1], st)]
        atom = T('discr', v, path)
        k = self.known(st, atom)
        if k is not None: return [(k, st)]
        r = []
        for vn in self.variants_of(atom) or []:
            s = st.copy()
            if self.assume(s, atom, vn, False): r.append((vn, s))
        return r

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, st, dst_ty):
        k = rv[0]
        if k == 'use': return self.operand(fr, rv[1], st)
        if k in ('ref', 'raw'):
            key, base, pl, _ = self.resolve(fr, rv[2], st)
            if rv[1]:
                if key is None:
                    return self.val(key, base, pl, st)
                if base is not None and key not in st.store: st.store[key] = base
                return T('ptr', key, tuple(pl))
            return self.val(key, base, pl, st)
        if k == 'bin': return self.binop(rv[1], self.operand(fr, rv[2], st), self.operand(fr, rv[3], st), st)
        if k == 'un':
            a = self.operand(fr, rv[2], st)
            if rv[1] == 'Not' and a.op == 'int':
                t = self.ty(dst_ty)['s']
                if t == 'bool': return I(1 - a.a[0])
            if rv[1] == 'PtrMetadata': return self.length(a)
            if rv[1] == 'Neg' and a.op == 'int': return I(-a.a[0])
            return T('un', rv[1], a)
        if k == 'discr':
            key, base, pl, ty = self.resolve(fr, rv[1], st)
            v = self.val(key, base, pl, st)
            path = self.p.adt_name(ty) or self.ty(ty)['s']
            while v.op == 'upd': v = v.a[0]
            return T('discr', v, path)
        if k == 'cast':
            a = self.operand(fr, rv[2], st)
            return self.cast(rv[1], a, self.op_ty(fr, rv[2]), rv[3], st)
        if k == 'agg':
            kk, ops = rv[1], [self.operand(fr, o, st) for o in rv[2]]
            if kk[0] == 'adt':
                if kk[4] is not None: return T('unk', 'union')
                return self.adt(kk[1], self.variant_name(kk[1], kk[2]), ops)
            if kk[0] == 'tuple': return T('tup', tuple(ops))
            if kk[0] == 'array': return T('arr', tuple(ops))
            if kk[0] == 'closure': return T('clo', kk[2] if kk[2] is not None else -1, tuple(ops))
            if kk[0] == 'rawptr': return ops[0]
            return T('unk', 'agg')
        if k == 'repeat':
            a = self.operand(fr, rv[1], st)
            n = rv[2]
            if n is not None and n <= 64: return T('arr', (a,) * n)
            return T('repeat', a, I(n) if n is not None else T('unk', 'n'))
        return T('unk', str(rv[0]))

    def binop(self, o, a, b, st):
        if o.endswith('WithOverflow'):
            base = o[:-len('WithOverflow')]
            r = self.arith(base, a, b)
            if a.op == 'int' and b.op == 'int': return T('tup', (r, I(0) if 0 <= r.a[0] < 2 ** 64 else T('ovf', base, a, b)))
            return T('tup', (r, T('ovf', base, a, b)))
        if o.endswith('Unchecked'): o = o[:-len('Unchecked')]
        return self.arith(o, a, b)

    def arith(self, o, a, b):
        if a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            try:
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y,
                     'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y, 'Shr': lambda: x >> y,
                     'Eq': lambda: int(x == y), 'Ne': lambda: int(x != y), 'Lt': lambda: int(x < y), 'Le': lambda: int(x <= y),
                     'Gt': lambda: int(x > y), 'Ge': lambda: int(x >= y), 'Div': lambda: x // y, 'Rem': lambda: x % y}[o]()
                return I(r)
            except Exception:
                pass
        if o in ('Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                if x.op == 'discr' and x.a[0].op == 'adt' and y.op == 'int':
                    for v in (self.p.adts.get(x.a[1]) or {'variants': ()})['variants']:
                        if v['name'] == x.a[0].a[1]: return I(int((v['discr'] == y.a[0]) == (o == 'Eq')))
        if o in ('Eq', 'Ne') and a is b: return I(1 if o == 'Eq' else 0)
        if o in ('Eq', 'Ne') and a.op == 'str' and b.op == 'str': return I(int((a is b) == (o == 'Eq')))
        if o in ('Eq', 'Ne') and a.op == 'adt' and b.op == 'adt' and a.a[1] != b.a[1]: return I(0 if o == 'Eq' else 1)
        if o in ('Eq', 'Ne') and a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
            for x, y in zip(a.a[2], b.a[2]):
                if self.arith('Eq', x, y) is FALSE: return I(0 if o == 'Eq' else 1)
        if o in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'): a, b = self.order(a, b)
        return T('bin', o, a, b)

    def cast(self, kind, a, src, dst, st):
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'): return a
        if kind in ('IntToInt',):
            if a.op == 'discr' and a.a[0].op == 'adt':
                ad = self.p.adts.get(a.a[0].a[0])
                for v in ad['variants'] if ad else ():
                    if v['name'] == a.a[0].a[1]: return I(v['discr'])
            ds = self.ty(dst)['s']
            ss = self.ty(src)['s'] if src is not None else None
            if a.op == 'int':
                bits = INT_BITS.get(ds)
                if bits:
                    n = a.a[0] & ((1 << bits) - 1)
                    if ds.startswith('i') and n >> (bits - 1): n -= 1 << bits
                    return I(n)
            if ss in INT_BITS and ds in INT_BITS:
                if ss == ds: return a
                sb, db = INT_BITS[ss], INT_BITS[ds]
                if not ss.startswith('i') and (db > sb or (db == sb and not ds.startswith('i'))): return a
                if ss.startswith('i') and ds.startswith('i') and db >= sb: return a
            return T('cast', ds, a)
        if kind.startswith('Pointer') or kind.startswith('PtrToPtr') or kind.startswith('Transmute') or kind.startswith('Subtype') or kind.startswith('BoxDeref'):
            return a
        return T('cast', self.ty(dst)['s'], a)

    # ------------------------------------------------------------ execution
    def start(self, fn, arg_names=None, args=None):
        """Analyse a function from unconstrained arguments; -> list of Out."""
        st = St()
        vals = []
        for i in range(fn.argc):
            ty, nm = fn.j['locals'][i + 1]
            name = (arg_names[i] if arg_names and i < len(arg_names) else None) or nm or f'arg{i}'
            if args and args[i] is not None:
                vals.append(args[i])
                continue
            t = self.ty(ty)
            if t['k'] == 'ref' and t.get('mut'):
                key = ('A', name)
                st.store[key] = T('sym', name)
                vals.append(T('ptr', key, ()))
            else:
                vals.append(T('sym', name))
        self.steps = 0
        return self.run(fn, vals, st, 0)

    def run(self, fn, args, st, depth):
        if depth > self.max_depth: raise Budget('inlining depth')
        self.fns_seen.add(fn.name)
        self.nframe += 1
        fr = Frame(fn, self.nframe, depth)
        st = st.copy()
        for i, a in enumerate(args): st.store[('L', fr.id, i + 1)] = a
        if fn.j.get('spread') is not None and len(args) != fn.argc:
            pass
        self.stack.append(fn.id)
        try:
            outs = self.exec(fr, 0, st, None)
        finally:
            self.stack.pop()
        res = []
        for o in outs:
            if o.k == 'ret':
                o.v = self.load(('L', fr.id, 0), o.st) if ('L', fr.id, 0) in o.st.store else UNIT
            if o.k in ('ret', 'panic', 'back'):
                o.st.store = {k: v for k, v in o.st.store.items() if not (k[0] == 'L' and k[1] == fr.id)}
                res.append(o)
        if len(res) > self.max_out: raise Budget(f'{len(res)} paths in {fn.name}')
        return res

    def exec(self, fr, bb, st, loop, entering=False):
        """Outcomes: ret, panic, and inside a loop: back, exit."""
        loops = fr.fn.loops()
        work = [(bb, st, entering)]
        outs = []
        while work:
            b, st, first = work.pop()
            if not first:
                if loop is not None:
                    if b == loop[0]:
                        outs.append(Out('back', None, st))
                        continue
                    if b not in loop[1]:
                        outs.append(Out('exit', b, st))
                        continue
                if b in loops:
                    for o in self.loop(fr, (b, loops[b]), st):
                        if o.k == 'exit': work.append((o.v, o.st, False))
                        else: outs.append(o)
                    continue
            self.steps += 1
            if self.steps > self.max_steps: raise Budget('steps')
            if len(outs) + len(work) > self.max_out: raise Budget(f'paths in {fr.fn.name}')
            blk = fr.fn.blocks[b]
            for s in blk['s']:
                if s[0] == '=':
                    ty = fr.fn.j['locals'][s[1][0]][0] if not s[1][1] else None
                    v = self.rvalue(fr, s[2], st, ty if ty is not None else 0)
                    self.write(fr, s[1], v, st)
                elif s[0] == 'setd':
                    pass
            t = blk['t']
            k = t[0]
            if k == 'goto': work.append((t[1], st, False))
            elif k == 'drop': work.append((t[2], st, False))
            elif k == 'ret': outs.append(Out('ret', None, st))
            elif k in ('resume', 'unreach'): pass
            elif k == 'assert':
                c = self.operand(fr, t[1], st)
                exp = t[2]
                if c.op == 'ovf' and c.a[0] in ('Add', 'Sub') and exp is False:
                    pass
                for b2, s2 in self.branch(st, c):
                    if b2 == exp: work.append((t[5], s2, False))
                    else:
                        ops = tuple(self.operand(fr, o, st) for o in t[4])
                        outs.append(Out('panic', None, s2, {'kind': t[3], 'ops': ops, 'fn': fr.fn.name, 'line': blk['l']}))
            elif k == 'switch':
                for nb, s2 in self.switch(fr, t, st): work.append((nb, s2, False))
            elif k == 'call':
                for o in self.call_term(fr, t, st, blk['l']):
                    if o.k == 'ret':
                        if t[4] is not None:
                            self.write(fr, t[3], o.v, o.st)
                            work.append((t[4], o.st, False))
                    else: outs.append(o)
            else:
                raise Budget('unsupported terminator ' + str(t)[:80])
        return outs

    def switch(self, fr, t, st):
        d = self.operand(fr, t[1], st)
        ty = self.ty(t[2])['s']
        targets, other = t[3], t[4]
        if d.op == 'discr':
            path = d.a[1]
            ad = self.p.adts.get(path)
            if d.a[0].op == 'adt' and ad:
                for v in ad['variants']:
                    if v['name'] == d.a[0].a[1]:
                        dv = v['discr']
                        for val, b in targets:
                            if int(val) == dv: return [(b, st)]
                        return [(other, st)]
            if ad:
                names = {v['discr']: v['name'] for v in ad['variants']}
                bits = {k % (1 << 128): n for k, n in names.items()}
                r = []
                rest = st
                k = self.known(st, d)
                left = set(names.values())
                for val, b in targets:
                    n = bits.get(int(val))
                    if n is None: continue
                    left.discard(n)
                    s = st.copy()
                    if self.assume(s, d, n, False): r.append((b, s))
                s = st.copy()
                ok = True
                for val, b in targets:
                    n = bits.get(int(val))
                    if n is not None and not self.assume(s, d, n, True):
                        ok = False
                        break
                if ok and left: r.append((other, s))
                return r
        if ty == 'bool':
            r = []
            f = [b for v, b in targets if v == '0']
            fb = f[0] if f else other
            for truth, s in self.branch(st, d):
                r.append((other if truth and f else fb if not truth else targets[0][1], s))
            return r
        if d.op == 'int':
            for val, b in targets:
                if int(val) == d.a[0] or (d.a[0] < 0 and int(val) == d.a[0] % (1 << INT_BITS.get(ty, 64))): return [(b, st)]
            return [(other, st)]
        r = []
        for val, b in targets:
            s = st.copy()
            if self.assume(s, d, int(val), False): r.append((b, s))
        s = st.copy()
        for val, b in targets:
            if not self.assume(s, d, int(val), True):
                s = None
                break
        if s is not None: r.append((other, s))
        return r

    # ------------------------------------------------------------ loops
    def loop(self, fr, L, st):
        def body(s): return self.exec(fr, L[0], s, L, True)
        return self.widen(st, body, f'{fr.fn.name}')

    def is_iter_pair(self, a, b):
        """b is what remains of iterator a"""
        from . import models as M
        if b.op != 'iter' or a is b: return False
        if a.op != 'iter':
            if a.op != 'adt' or 'range::Range' not in a.a[0]: return False
            a = M.as_iter(self, a)
        return M.root(a.a[0]) is M.root(b.a[0])

    def mid_iter(self, b, uid, entry=None):
        from . import models as M
        if entry is not None: entry = M.as_iter(self, entry).a[0] if entry.op != 'iter' else entry.a[0]
        return T('iter', M.midify(b.a[0], uid, entry))

    def same_shape(self, hv, v):
        """v is hv except that iterators moved on and havocked leaves changed"""
        if hv is v or hv.op == 'lv': return True
        if hv.op == 'iter': return self.is_iter_pair(hv, v)
        if hv.op != v.op: return False
        if hv.op in ('tup', 'clo', 'adt') and len(hv.a[-1]) == len(v.a[-1]) and hv.a[:-1] == v.a[:-1]:
            return all(self.same_shape(x, y) for x, y in zip(hv.a[-1], v.a[-1]))
        if hv.op == 'upd':
            ps = {}
            x = hv
            while x.op == 'upd':
                ps.setdefault(x.a[1], x.a[2])
                x = x.a[0]
            y = v
            vs = {}
            while y.op == 'upd':
                vs.setdefault(y.a[1], y.a[2])
                y = y.a[0]
            return x is y and set(vs) <= set(ps) and all(self.same_shape(ps[p], vs[p]) for p in vs)
        return False

    def widen(self, entry, body, label):
        from . import models as M
        entry = entry.copy()
        uid = entry.loops
        entry.loops += 1
        havoc = {}
        for rnd in range(12):
            s0 = entry.copy()
            for k, v in havoc.items(): s0.store[k] = v
            mark = s0.trace
            self.lstack.append((uid, havoc))
            try: outs = body(s0)
            finally: self.lstack.pop()
            new = False
            for o in outs:
                if o.k != 'back': continue
                for k, v0 in s0.store.items():
                    v1 = o.st.store.get(k)
                    if v1 is None or v1 is v0: continue
                    if k in havoc:
                        if havoc[k].op == 'lv' or havoc[k] is v1 or self.same_shape(havoc[k], v1): continue
                    ev = entry.store[k]
                    if self.is_iter_pair(ev, v1):
                        mid = self.mid_iter(v1, uid, ev)
                        if havoc.get(k) is mid: continue
                    else: mid = None
                    if k not in havoc and mid is not None: havoc[k] = mid
                    else:
                        # partial: structural widening of aggregates
                        w = self.widen_val(ev, v1, k, uid, (), havoc.get(k))
                        if havoc.get(k) is w: w = T('lv', str(k), uid)
                        havoc[k] = w
                    new = True
            if not new: break
        else:
            raise Budget('loop does not stabilise in ' + label)
        # sources
        backs = [o for o in outs if o.k == 'back']
        src = []
        for k, v in havoc.items():
            for x in walk(v):
                if x.op == 'mid':
                    y = x.a[0]
                    if y.op == 'range' and y.a[0] is I(0) and y.a[1].op == 'call' and y.a[1].a[0] == 'len': y = y.a[1].a[1][0]
                    if y not in src: src.append(y)
        idxm = self.counted(entry, havoc, backs, uid, src)
        if idxm:
            memo = {}
            for o in outs:
                s = o.st
                s.store = {k: self.reindex(v, idxm, memo) for k, v in s.store.items()}
                s.facts = {self.reindex(a, idxm, memo): v for a, v in s.facts.items()}
                s.neq = {self.reindex(a, idxm, memo): v for a, v in s.neq.items()}
                s.rng = {self.reindex(a, idxm, memo): v for a, v in s.rng.items()}
                if isinstance(o.v, T): o.v = self.reindex(o.v, idxm, memo)
                evs = s.events(mark)
                s.trace = mark
                for e in evs: s.ev(self.sub_ev(e, idxm, memo, self.reindex))
                for lvt, (el, n) in idxm.items():
                    f = T('bin', 'Lt', el, n)
                    if s.facts.get(f) == 0: s.facts[T('done', src[-1], uid)] = 1
        bodies = []
        for o in backs:
            bodies.append({'facts': {a: v for a, v in o.st.facts.items() if entry.facts.get(a) != v},
                           'neq': {a: v for a, v in o.st.neq.items() if entry.neq.get(a) != v},
                           'events': o.st.events(mark),
                           'upd': {k: o.st.store.get(k) for k in havoc if havoc[k].op != 'iter'}})
        # closed forms
        close = {}
        for k, hv in havoc.items():
            self.close_forms(entry.store[k], hv, [o.st.store.get(k, hv) for o in backs], src, close)
        res = []
        for o in outs:
            if o.k == 'back': continue
            s = o.st
            evs = s.events(mark)
            s.trace = entry.trace
            lv = Ev('loop', x={'src': src, 'bodies': bodies, 'uid': uid, 'label': label, 'entry': {k: entry.store.get(k) for k in havoc if havoc[k].op != 'iter'}}, fn=label)
            s.ev(lv)
            if close:
                memo = {}
                if src and not any(a.op == 'done' and a.a[1] == uid for a in s.facts):
                    # left before the end
                    close_all = close
                    close = {k: T('partial', v) for k, v in close.items()}
                else: close_all = close
                s.store = {k: self.sub_clean(v, close, memo) for k, v in s.store.items()}
                s.facts = {self.sub_clean(a, close, memo): v for a, v in s.facts.items()}
                s.neq = {self.sub_clean(a, close, memo): v for a, v in s.neq.items()}
                s.rng = {self.sub_clean(a, close, memo): v for a, v in s.rng.items()}
                if o.v is not None and isinstance(o.v, T): o.v = self.sub_clean(o.v, close, memo)
                for e in evs: s.ev(self.sub_ev(e, close, memo))
                close = close_all
            else:
                for e in evs: s.ev(e)
            for k in list(s.store):
                v = s.store[k]
                if v.op == 'iter': s.store[k] = T('iter', M.spentify(v.a[0], uid, s.facts))
            s.loops = max(s.loops, entry.loops)
            res.append(o)
        return res

    def counted(self, entry, havoc, backs, uid, src):
        """while i < n { ..; i += 1 } : the index variable as an element of the range"""
        if src or not backs: return None
        r = {}
        for k, hv in havoc.items():
            if hv.op != 'lv' or entry.store.get(k) is not I(0): continue
            n = None
            good = True
            for o in backs:
                v = o.st.store.get(k)
                while v is not None and v.op == 'cast': v = v.a[1]
                if v is None or v.op != 'bin' or v.a[0] != 'Add' or {v.a[1], v.a[2]} != {hv, I(1)}:
                    good = False
                    break
                ns = [f.a[2] for f, x in o.st.facts.items() if f.op == 'bin' and f.a[0] == 'Lt' and f.a[1] is hv and x == 1]
                ns = [x for x in ns if not any(y.op == 'lv' and y in havoc.values() for y in walk(x))]
                if not ns or (n is not None and n not in ns):
                    good = False
                    break
                n = n if n is not None else ns[0]
            if good and n is not None:
                c = n.a[1][0] if n.op == 'call' and n.a[0] == 'len' else T('range', I(0), n)
                src.append(c)
                r[hv] = (T('elem', T('range', I(0), n), uid), n)
                break
        return r or None

    def reindex(self, v, idxm, memo):
        def go(x):
            if isinstance(x, T):
                y = memo.get(x)
                if y is not None: return y
                if x in idxm: y = idxm[x][0]
                else:
                    na = tuple(go(z) for z in x.a)
                    y = x if na == x.a else T(x.op, *na)
                    if y.op == 'idx': y = self.index(y.a[0], y.a[1])
                memo[x] = y
                return y
            if isinstance(x, tuple): return tuple(go(z) for z in x)
            return x
        return go(v)

    def sub_clean(self, v, close, memo): return subst(v, close, memo)

    def sub_ev(self, e, close, memo, subst=subst):
        if e.k in ('loop',): return e
        return Ev(e.k, e.name, tuple(subst(a, close, memo) for a in e.args) if isinstance(e.args, tuple) else e.args,
                  subst(e.res, close, memo) if e.res is not None else None, e.self_ty, e.fn, e.line, e.x)

    def widen_val(self, ev, v1, k, uid, path, prev):
        if prev is not None and prev.op == 'lv': return prev
        if ev.op == v1.op and ev.op in ('tup', 'clo') and len(ev.a[-1]) == len(v1.a[-1]) and (ev.op == 'tup' or ev.a[0] == v1.a[0]):
            fs = []
            for i, (x, y) in enumerate(zip(ev.a[-1], v1.a[-1])):
                if x is y: fs.append(x)
                elif self.is_iter_pair(x, y):
                    fs.append(self.mid_iter(y, uid, x))
                else: fs.append(T('lv', f'{k}.{".".join(map(str, path))}{i}', uid))
            return T('tup', tuple(fs)) if ev.op == 'tup' else T('clo', ev.a[0], tuple(fs))
        if ev.op == v1.op == 'adt' and ev.a[0] == v1.a[0] and ev.a[1] == v1.a[1] and prev is None:
            fs = []
            for i, (x, y) in enumerate(zip(ev.a[2], v1.a[2])):
                if x is y: fs.append(x)
                elif self.is_iter_pair(x, y):
                    fs.append(self.mid_iter(y, uid, x))
                else: fs.append(T('lv', f'{k}.{i}', uid))
            return T('adt', ev.a[0], ev.a[1], tuple(fs))
        if ev.op not in ('upd',) and v1.op == 'upd' and prev is None:
            # fields of an opaque value are updated: havoc only these fields
            base, ups = v1, {}
            while base.op == 'upd':
                ups.setdefault(base.a[1], base.a[2])
                base = base.a[0]
            if base is ev:
                r = ev
                for p in sorted(ups, key=str):
                    old = self.get(ev, p)
                    new = ups[p]
                    if self.is_iter_pair(old, new):
                        r = T('upd', r, p, self.mid_iter(new, uid, old))
                    else: r = T('upd', r, p, T('lv', f'{k}.{p[-1]}', uid))
                return r
        return T('lv', str(k), uid)

    def close_forms(self, ev, hv, backs, src, close):
        if hv.op == 'lv':
            if hv in close: return
            ups = []
            for b in backs:
                if b in ups: continue
                ups.append(b)
            idle = hv in ups
            if idle: ups.remove(hv)
            s = src[0] if len(src) == 1 else T('zip', *src) if src else T('unk', 'loop')
            kinds = set()
            items = []
            for b in ups:
                x = b
                its = []
                while x.op in ('push', 'ins', 'ext') and x is not hv:
                    its.append(x.a[1])
                    kinds.add(x.op)
                    x = x.a[0]
                if x is not hv:
                    kinds.add('?')
                    break
                items.append(its[0] if len(its) == 1 else T('tup', tuple(its[::-1])))
            if idle: ups.append(hv)
            if '?' in kinds or not kinds or len(kinds) > 1:
                acc = T('acc')
                close[hv] = T('fold', ev, s, tuple(subst(b, {hv: acc}) for b in ups))
            else:
                if idle: items.append(T('skip'))
                close[hv] = T('coll', ev, s, tuple(items), kinds.pop())
            return
        if hv.op in ('tup', 'clo', 'adt') and ev.op == hv.op:
            for i, (x, y) in enumerate(zip(ev.a[-1], hv.a[-1])):
                bs = []
                for b in backs:
                    if b.op == hv.op and len(b.a[-1]) > i: bs.append(b.a[-1][i])
                    else: bs.append(T('unk', 'shape'))
                self.close_forms(x, y, bs, src, close)
        if hv.op == 'upd':
            x = hv
            while x.op == 'upd':
                p = x.a[1]
                self.close_forms(self.get(ev, p), x.a[2], [self.get(b, p) for b in backs], src, close)
                x = x.a[0]

    # ------------------------------------------------------------ calls
    def call_term(self, fr, t, st, line):
        cj, args = t[1], [self.operand(fr, a, st) for a in t[2]]
        if 'op' in cj:
            f = self.operand(fr, cj['op'], st)
            return self.call_value(fr, f, args, st, line)
        dty = fr.fn.j['locals'][t[3][0]][0] if not t[3][1] else None
        return self.call(fr, cj, args, st, line, dty)

    def call_value(self, fr, f, args, st, line, dty=None):
        """Call of a closure / function value with untupled arguments."""
        fp = f
        f = self.deref_val(f, st)
        if f.op == 'clo':
            fn = self.by_id.get(f.a[0])
            if fn is not None and fn.ok and fn.id not in self.stack:
                t1 = self.ty(fn.j['locals'][1][0])
                if t1['k'] == 'ref' and t1.get('mut') and fp.op != 'ptr':
                    self.nframe += 1
                    key = ('C', self.nframe)
                    st = st.copy()
                    st.store[key] = f
                    fp = T('ptr', key, ())
                elif not (t1['k'] == 'ref' and t1.get('mut')):
                    fp = f
                if fn.argc == 1 + len(args): return self.run(fn, [fp] + args, st, fr.depth + 1)
                if fn.argc == 2 and len(args) != 1: return self.run(fn, [fp, T('tup', tuple(args))], st, fr.depth + 1)
        if f.op == 'fnval':
            return self.call(fr, self._fnv[f], args, st, line, dty)
        return self.opaque_call(fr, 'call', [f] + args, st, line, '')

    def callkey(self, cj):
        parts = [x for x in split_path(cj['decl'])]
        owner = None
        for x in reversed(parts[:-1]):
            if x.startswith('<impl'):
                owner = self.impl_self(x)
                break
            if x.startswith('<'):
                inner = x[1:-1]
                if ' as ' in inner: owner = self.short_ty(inner.split(' as ')[0])
                else:
                    continue
                break
            owner = x
            break
        return owner or '', parts[-1]

    def short_ty(self, s):
        s = s.strip().lstrip('&').replace('mut ', '')
        if s.startswith('['): return 'slice'
        i = s.find('<')
        if i > 0: s = s[:i]
        return s.split('::')[-1]

    def impl_self(self, x):
        x = x[len('<impl'):-1].strip()
        if ' for ' in x: x = x.split(' for ')[1]
        return self.short_ty(x)

    def call(self, fr, cj, args, st, line, dty=None):
        if 'ctor' in cj:
            c = cj['ctor']
            return [Out('ret', self.adt(c['adt'], self.variant_name(c['adt'], c['variant']), args), st)]
        owner, item = self.callkey(cj)
        name = f'{owner}::{item}'
        fn = self.by_id.get(cj['fn']) if 'fn' in cj else None
        if owner in ('FnOnce', 'FnMut', 'Fn') and item in ('call_once', 'call_mut', 'call'):
            tup = self.deref_val(args[1], st)
            if tup.op == 'tup': return self.call_value(fr, args[0], list(tup.a[0]), st, line, dty)
            return self.opaque_call(fr, 'call', args, st, line, '')
        self_ty = ''
        if cj.get('args') and isinstance(cj['args'][0], int) and cj['decl'] != cj.get('path', ''):
            self_ty = self.tname(cj['args'][0])
        if name in self.opaque or item in self.opaque or (fn and fn.name in self.opaque) or any(
                x(owner, item, self_ty, fn) for x in self.opaque_f):
            return self.opaque_call(fr, name, args, st, line, self_ty)
        from . import models
        for ov in self.over:
            m = ov(owner, item, self_ty, fn)
            if m is not None:
                r = m(self, fr, args, st, dict(cj=cj, line=line, dty=dty, self_ty=self_ty, owner=owner, item=item))
                if r is not None: return r
        if (item.startswith('panic') or name in ('panicking::panic', 'panicking::panic_fmt', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed')
                or owner == 'panicking' or item in ('unwrap_failed', 'expect_failed')) and (fn is None or fn.crate != self.p.crate):
            return [Out('panic', None, st, {'kind': 'panic:' + item, 'ops': tuple(args), 'fn': fr.fn.name, 'line': line})]
        if name not in self.model_off:
            local_body = fn is not None and fn.ok and fn.crate == self.p.crate and not (
                fn.j.get('derived') and owner in ('PartialEq', 'Clone', 'PartialOrd', 'Ord', 'Hash', 'Debug'))
            m = models.lookup(owner, item, self_ty, local_body)
            if m is not None:
                r = m(self, fr, args, st, dict(cj=cj, line=line, dty=dty, self_ty=self_ty, owner=owner, item=item))
                if r is not None: return r
        if fn is not None and fn.ok and fn.id not in self.stack and self.may_inline(fn):
            if len(args) == fn.argc: return self.run(fn, args, st, fr.depth + 1)
            if fn.j.get('spread') is not None and len(args) == fn.argc: return self.run(fn, args, st, fr.depth + 1)
        # same generic function on the stack (recursion) or foreign
        return self.opaque_call(fr, name, args, st, line, self_ty)

    def may_inline(self, fn):
        if fn.crate == self.p.crate: return fn.name not in [self.by_id[i].name for i in self.stack]
        if fn.crate == 'core': return len(fn.blocks) <= 60
        return len(fn.blocks) <= 30 and not fn.loops()

    def opaque_call(self, fr, name, args, st, line, self_ty, quiet=False):
        st = st.copy()
        vals = tuple(self.snap(a, st) for a in args)
        res = T('call', name, vals, self_ty)
        n = 0
        ptrs = []

        def collect(a):
            if a.op == 'ptr':
                if a not in ptrs: ptrs.append(a)
                collect(self.deref_val(a, st)) if self.deref_val(a, st).op in ('clo', 'tup', 'adt', 'ptr') else None
            elif a.op == 'clo':
                for x in a.a[1]: collect(x)
            elif a.op in ('tup', 'arr'):
                for x in a.a[0]: collect(x)
            elif a.op == 'adt':
                for x in a.a[2]: collect(x)
        for a in args: collect(a)
        for i, p in enumerate(ptrs):
            self.write_at(p.a[0], None, list(p.a[1]), T('after', name, vals, i, self_ty), st)
        if not quiet: st.ev(Ev('call', name, vals, res, self_ty, fr.fn.name, line))
        return [Out('ret', res, st)]


def summarize(o):
    f = {pp(a): v for a, v in o.st.facts.items()}
    return f
