"""Hash-consed provenance terms."""


class T:
    __slots__ = ('op', 'a', 'h', '_m')
    _tab = {}

    def __new__(cls, op, *a):
        k = (op, a)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t.h = hash(k)
            t._m = None
            cls._tab[k] = t
        return t

    def __hash__(self): return self.h

    def __eq__(self, o): return self is o

    def __ne__(self, o): return self is not o

    def __repr__(self): return pp(self)


def walk(t, seen=None):
    """All subterms (each once)."""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen: continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def mentions(t, sub):
    return any(x is sub for x in walk(t))


def has_op(t, op):
    return any(x.op == op for x in walk(t))


def subst(t, m, memo=None):
    """Replaces subterms by the map m (top-down)."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, T):
            r = memo.get(x)
            if r is not None: return r
            if x in m:
                r = m[x]
            else:
                na = tuple(go(y) for y in x.a)
                r = x if na == x.a else mk(x.op, *na)
            memo[x] = r
            return r
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    return go(t)


def mk(op, *a):
    return T(op, *a)


def short(p):
    """Short readable form of a path."""
    if not isinstance(p, str): return str(p)
    out, depth, cur = [], 0, ''
    p2 = p
    segs = []
    for ch in p2:
        if ch == '<': depth += 1
        if ch == '>': depth -= 1
        cur += ch
    parts = [x for x in split_path(p) if not x.startswith('<')] or [p]
    return '::'.join(parts[-2:])


def split_path(p):
    parts, depth, cur = [], 0, ''
    i = 0
    while i < len(p):
        if p.startswith('::', i) and depth == 0:
            parts.append(cur); cur = ''; i += 2; continue
        ch = p[i]
        if ch in '<([{': depth += 1
        if ch in '>)]}' and not (ch == '>' and i and p[i - 1] == '-'): depth -= 1
        cur += ch
        i += 1
    parts.append(cur)
    return parts


def pp(t, d=0):
    if isinstance(t, tuple): return '(' + ', '.join(pp(x, d + 1) for x in t) + ')'
    if not isinstance(t, T): return repr(t) if isinstance(t, str) else str(t)
    if d > 14: return '…'
    o, a = t.op, t.a
    if o == 'sym': return a[0]
    if o == 'int': return str(a[0])
    if o == 'str': return repr(a[0])
    if o == 'adt':
        fs = ', '.join(pp(x, d + 1) for x in a[2])
        nm = a[0].split('::')[-1] + ('::' + a[1] if a[1] else '')
        return f'{nm}({fs})' if fs else nm
    if o == 'fld':
        return f'{pp(a[0], d + 1)}.{(a[1] + "." if a[1] else "")}{a[2]}'
    if o == 'discr': return f'discr({pp(a[0], d + 1)})'
    if o == 'bin': return f'({pp(a[1], d + 1)} {a[0]} {pp(a[2], d + 1)})'
    if o == 'call': return f'{short(a[0])}({", ".join(pp(x, d + 1) for x in a[1])})'
    if o == 'after': return f'after[{short(a[0])}#{a[2]}]({", ".join(pp(x, d + 1) for x in a[1])})'
    if o == 'elem': return f'each{a[1]}({pp(a[0], d + 1)})'
    if o == 'ptr': return f'&mut{a[0]}'
    if o == 'clo': return f'closure#{a[0]}[{", ".join(pp(x, d + 1) for x in a[1])}]'
    return f'{o}({", ".join(pp(x, d + 1) for x in a)})'
