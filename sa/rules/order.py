"""Difference constraints between lengths, bounds and numbers read: what the conditions of a path imply about them."""
from .common import *
from .values import unc, lens
from ..engine import INT_BITS

TOP = 1 << 64
BYTES = ('as_bytes', 'as_slice', 'as_ref', 'deref', 'as_str', 'iter', 'into_bytes', 'to_string', 'release', 'into_inner', 'as_mut_slice')


class Order:
    """x - y <= c between terms; the first variable is zero"""
    def __init__(self):
        self.idx, self.e, self.ne = {None: 0}, {}, []
        self.unsat = False

    def edge(self, i, j, c):
        if i == j:
            if c < 0: self.unsat = True
            return
        k = (i, j)
        if k not in self.e or self.e[k] > c: self.e[k] = c

    def var(self, t):
        i = self.idx.get(t)
        if i is not None: return i
        i = self.idx[t] = len(self.idx)
        lo, hi = self.bounds(t)
        self.edge(0, i, -lo)
        self.edge(i, 0, hi)
        if t.op == 'bin' and t.a[0] == 'SatAdd':
            for x, k in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if k.op == 'int':
                    j, c = self.lin(x)
                    self.edge(i, j, c + k.a[0])
                    self.edge(j, i, -c)
                    self.edge(0, i, -k.a[0])
        if t.op == 'call' and t.a[0] in ('min', 'max') and len(t.a[1]) == 2:
            for x in t.a[1]:
                j, c = self.lin(x)
                if t.a[0] == 'min': self.edge(i, j, c)
                else: self.edge(j, i, -c)
        if t.op == 'pos':
            j, c = self.lin(size(t.a[0]))
            self.edge(i, j, c - 1)
        if t.op == 'elem' and t.a[0].op == 'range':
            for b, d in ((t.a[0].a[0], 0), (t.a[0].a[1], 1)):
                j, c = self.lin(b)
                if d: self.edge(i, j, c - 1)
                else: self.edge(j, i, -c)
        return i

    def bounds(self, t):
        from .wire import NUM, dec_type
        if t.op == 'prim' and t.a[0] in NUM:
            w, s = NUM[t.a[0]]
            return (-(1 << w * 8 - 1), (1 << w * 8 - 1) - 1) if s else (0, (1 << w * 8) - 1)
        if t.op == 'call' and t.a[0] == 'len':
            x = t.a[1][0]
            d = dec_type(x.a[0]) if x.op == 'prim' else None
            if d and d[0] != 'num': return d[2], d[3]
            return 0, (1 << 63) - 1
        if t.op == 'cast' and t.a[0] in INT_BITS:
            b = INT_BITS[t.a[0]]
            return (-(1 << b - 1), (1 << b - 1) - 1) if t.a[0].startswith('i') else (0, (1 << b) - 1)
        if t.op == 'fld' and t.a[2] == 'tag': return 0, 255
        return 0, TOP - 1

    def lin(self, t):
        """(variable, constant)"""
        from .wire import unw, const
        t = unw(t)
        k = const(t)
        if k is not None: return 0, k
        if t.op == 'call' and t.a[0] == 'len': t = size(t.a[1][0])
        if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                k = const(y)
                if k is not None and (t.a[0] == 'Add' or y is t.a[2]):
                    i, c = self.lin(x)
                    return i, c + (k if t.a[0] == 'Add' else -k)
        k = const(t)
        if k is not None: return 0, k
        return self.var(t), 0

    def less(self, a, b, strict):
        """a < b (a <= b)"""
        from .wire import const
        a, b = rest(a), rest(b)
        if a.op == 'bin' and a.a[0] in ('Sub', 'SatSub') and const(a.a[2]) is None and const(b) is not None:
            a, b = a.a[1], T('bin', 'Add', a.a[2], b)
        elif b.op == 'bin' and b.a[0] in ('Sub', 'SatSub') and const(b.a[2]) is None and const(a) is not None and (b.a[0] == 'Sub' or const(a) > 0 or strict):
            a, b = T('bin', 'Add', b.a[2], a), b.a[1]
        i, c = self.lin(a)
        j, d = self.lin(b)
        self.edge(i, j, d - c - (1 if strict else 0))

    def add(self, x, v):
        """takes a condition in; False if it is of no known form"""
        if x.op == 'bin' and x.a[0] in ('Lt', 'Eq') and v in (0, 1):
            a, b = x.a[1], x.a[2]
            if x.a[0] == 'Lt':
                if v: self.less(a, b, True)
                else: self.less(b, a, False)
            elif v:
                self.less(a, b, False)
                self.less(b, a, False)
            else: self.ne.append((self.lin(a), self.lin(b)))
            return True
        if (x.op == 'bin' and x.a[0] in ('Sub', 'SatSub') or x.op == 'but-n') and isinstance(v, int):
            self.less(x, I(v), False)
            self.less(I(v), x, False)
            return True
        if x.op == 'discr' and x.a[0].op == 'get' and x.a[0].a[1].op == 'call' and x.a[0].a[1].a[0].split('::')[-1] == 'position':
            if v == 'None': self.less(lens(x.a[0].a[0]), x.a[0].a[1], False)
            elif v == 'Some': self.less(x.a[0].a[1], lens(x.a[0].a[0]), True)
            return True
        if x.op == 'ovf' and v == 0 and x.a[0] == 'Sub':
            self.less(x.a[2], x.a[1], False)
            return True
        if x.op == 'ovf' and v == 0: return True
        if (x.op == 'call' and x.a[0].split('::')[-1] in ('len', 'position') or x.op == 'prim' or x.op == 'cast') and isinstance(v, int):
            self.less(x, I(v), False)
            self.less(I(v), x, False)
            return True
        if x.op == 'call' and x.a[0].split('::')[-1] == 'check' and len(x.a[1]) == 2 and v == 1:
            s, n = x.a[1]
            self.less(T('fld', s, '', 'min'), n, False)
            self.less(n, T('fld', s, '', 'max'), False)
            return True
        if x.op == 'discr' and x.a[0].op == 'call' and len(x.a[0].a[1]) == 1 and x.a[0].a[0].split('::')[-1] in ('split_first', 'split_last', 'first', 'last'):
            if v == 'None': self.less(size(x.a[0].a[1][0]), I(0), False)
            elif v == 'Some': self.less(I(1), size(x.a[0].a[1][0]), False)
            return True
        if x.op == 'call' and x.a[0].split('::')[-1] == 'is_empty' and len(x.a[1]) == 1:
            if v: self.less(lens(x.a[1][0]), I(0), False)
            else: self.less(I(1), lens(x.a[1][0]), False)
            return True
        return False

    def sat(self):
        """False: contradictory"""
        if self.unsat: return False
        n = len(self.idx)
        INF = float('inf')
        d = [[INF] * n for _ in range(n)]
        for i in range(n): d[i][i] = 0
        for (i, j), c in self.e.items():
            if c < d[i][j]: d[i][j] = c
        for k in range(n):
            dk = d[k]
            for i in range(n):
                a = d[i][k]
                if a == INF: continue
                di = d[i]
                for j in range(n):
                    if a + dk[j] < di[j]: di[j] = a + dk[j]
        if any(d[i][i] < 0 for i in range(n)): return False
        for (i, c), (j, e) in self.ne:
            # x_i + c != x_j + e
            if d[i][j] == e - c and d[j][i] == c - e: return False
        return True


def rest(t):
    """what is left of a sequence is its length less the number left out"""
    x = t.a[1][0] if t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1 else None
    if x is None: return t
    if x.op == 'slice' and x.a[1].op == 'adt' and x.a[1].a[0].split('::')[-1] == 'RangeFrom' and len(x.a[1].a[2]) == 1: return T('bin', 'Sub', lens(x.a[0]), x.a[1].a[2][0])
    if x.op == 'but-n' and len(x.a) >= 2: return T('bin', 'SatSub', lens(x.a[0]), x.a[1])
    return t


def size(x):
    """number of items (bytes) of what the term is"""
    n = 0
    while n < 20:
        n += 1
        if x.op == 'call' and x.a[0].split('::')[-1] in BYTES and len(x.a[1]) == 1: x = x.a[1][0]
        elif x.op == 'adt' and len(x.a[2]) == 1 and x.a[1] == '': x = x.a[2][0]
        elif x.op == 'coll' and x.a[0].op == 'empty' and x.a[3] == 'push' and len(x.a[2]) == 1: x = x.a[1]
        else: break
    if x.op == 'range' and x.a[0] is I(0): return x.a[1]
    if x.op == 'raw': return x.a[0]
    if x.op == 'arr': return I(len(x.a[0]))
    return lens(x)


def order_of(facts, neq=None, skip=()):
    """(system, conditions not understood)"""
    o, rest = Order(), []
    for x, v in facts.items():
        if x in skip: continue
        if not o.add(x, v): rest.append(x)
    for x, vs in (neq or {}).items():
        if x.op == 'discr' or not all(isinstance(v, int) for v in vs): rest.append(x)
        elif x.op == 'call' and x.a[0] != 'len': rest.append(x)
        else:
            for v in vs: o.ne.append((o.lin(x), (0, v)))
    return o, rest


def implies(facts, neq, a, b):
    """a <= b follows from the conditions"""
    o, _ = order_of(facts, neq)
    o.less(b, a, True)
    return not o.sat()
