"""The resolved program dumped by the compiler driver."""
import json
from .term import split_path


class Fn:
    __slots__ = ('id', 'j', 'name', 'crate', 'item', 'kind', '_loops', '_succ')

    def __init__(self, i, j):
        self.id, self.j = i, j
        self.name = j.get('name', '?')
        self.crate = j.get('crate', '?')
        self.item = j.get('item', '')
        self.kind = j.get('kind', 'fn')
        self._loops = None

    @property
    def ok(self): return 'blocks' in self.j

    @property
    def blocks(self): return self.j['blocks']

    @property
    def argc(self): return self.j['argc']

    def where(self):
        return f"{self.j.get('file', '?')}:{self.j.get('line', 0)}"

    def succ(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop': return [t[2]]
        if k == 'assert': return [t[5]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        return []

    def loops(self):
        """header -> set of blocks of its natural loop (merged for equal headers)."""
        if self._loops is not None: return self._loops
        n = len(self.blocks)
        succ = [self.succ(b) for b in range(n)]
        # iterative DFS order
        order, seen, stack = [], set(), [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: preds[s].append(b)
        idom = {rpo[0]: rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == rpo[0]: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = loops
        return loops


class Prog:
    def __init__(self, path):
        with open(path) as f: d = json.load(f)
        self.d = d
        self.types = d['types']
        self.adts = {a['path']: a for a in d['adts']}
        self.fns = [Fn(i, j) for i, j in enumerate(d['fns']) if j is not None]
        self.impls = d['impls']
        self.consts = {c['path']: c['val'] for c in d['consts']}
        self.crate = d['crate']
        self.by_name = {}
        for f in self.fns:
            if f.ok: self.by_name.setdefault(f.name, []).append(f)

    def ty(self, i): return self.types[i] if isinstance(i, int) else {'k': 'other', 's': str(i)}

    def adt_name(self, i):
        """path of the ADT behind references, or None"""
        t = self.ty(i)
        while t['k'] in ('ref', 'ptr'): t = self.ty(t['ty'])
        if t['k'] == 'adt' and t['path'] == 'alloc::boxed::Box' and t['args']:
            return self.adt_name(t['args'][0])
        return t.get('path') if t['k'] == 'adt' else None

    def self_name(self, f):
        s = f.j.get('self')
        if s is None: return None
        p = self.adt_name(s)
        return p.split('::')[-1] if p else self.ty(s)['s']

    def local(self): return [f for f in self.fns if f.crate == self.crate and f.ok]

    def find(self, self_name=None, item=None, trait=None, args=None, identity=None, inherent=False):
        """Local functions by self type (last path segment), item name and trait (last segment)."""
        r = []
        for f in self.fns:
            if f.crate != self.crate or not f.ok or f.kind != 'fn': continue
            if item is not None and f.item != item: continue
            if self_name is not None and self.self_name(f) != self_name.split('::')[-1]: continue
            if self_name is not None and '::' in self_name and not set(self_name.split('::')) <= set((self.adt_name(f.j.get('self')) or '').split('::')): continue
            tr = f.j.get('trait') or f.j.get('in_trait')
            if inherent and tr: continue
            if trait is not None and (tr or '').split('::')[-1] != trait: continue
            if identity is not None and f.j.get('identity') != identity: continue
            r.append(f)
        return r

    def one(self, *a, **k):
        k.setdefault('identity', True)
        r = self.find(*a, **k)
        if len(r) != 1:
            raise Missing(f"anchor {a} {k}: {len(r)} candidates")
        return r[0]

    def last(self, path): return split_path(path)[-1]


class Missing(Exception):
    pass
