"""K05, K06: printed forms."""
import itertools
from .common import *
from .tables import *

S, F = sym('self'), sym('f')
D = lambda t: T('discr', t, '')


class A:
    """printed form of a part"""
    def __init__(self, term, spec=None, by=None, text=None): self.term, self.spec, self.by, self.text = canon(term) if term is not None else None, spec, by, text
    def __repr__(self): return '{' + (self.text or pp(self.term)) + '}'


class J:
    """printed forms of the items of a collection in order, separated; fn(item, known) -> parts"""
    def __init__(self, src, sep, fn): self.src, self.sep, self.fn = canon(src), sep, fn


class If:
    """printed if the collection is not empty, or has n items"""
    def __init__(self, src, items, n=None): self.src, self.items, self.n = canon(src), items, n


class Case:
    """fn(known) -> parts"""
    def __init__(self, fn): self.fn = fn


def L(src, fn): return J(src, '', fn)


FLAGS = {21: '+', 22: '-', 23: '#', 24: '0', 25: 'x?', 26: 'X?'}


def template(t, args):
    """tokens of a format template"""
    b = [x.a[0] if x.op == 'int' else None for x in t.a[0]]
    if None in b: return None
    r, i, n = [], 0, 0
    while i < len(b):
        k = b[i]
        i += 1
        if k == 0: break
        if k < 0x80:
            r += list(bytes(b[i:i + k]).decode())
            i += k
        elif k == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            r += list(bytes(b[i:i + ln]).decode())
            i += ln
        else:
            spec = ''
            if k & 1:
                fl = int.from_bytes(bytes(b[i:i + 4]), 'little')
                i += 4
                spec += ''.join(c for bit, c in FLAGS.items() if fl >> bit & 1)
            if k & 2:
                w = b[i] | b[i + 1] << 8
                spec += f'w{w}' if not k & 16 else 'w$'
                i += 2
            if k & 4:
                spec += f'.{b[i] | b[i + 1] << 8}' if not k & 32 else '.$'
                i += 2
            if k & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            if n >= len(args): return None
            a = args[n]
            n += 1
            if a.op != 'call' or not LAST(a.a[0]).startswith('new_'): return None
            tr = LAST(a.a[0])[4:]
            r.append(part(a.a[1][0], spec + ('' if tr == 'display' else ':' + tr)))
    return [y for x in r for y in (x if isinstance(x, list) else [x])]


def part(t, spec):
    t = canon(t)
    while t.op == 'call' and LAST(t.a[0]) in ('to_string', 'as_str', 'as_ref', 'to_owned', 'clone', 'deref') and len(t.a[1]) == 1: t = canon(t.a[1][0])
    if t.op == 'str': return list(t.a[0])
    if t.op == 'int' and spec == ':char': return [chr(t.a[0])]
    return ('arg', t, spec)


def tokens(events):
    """what a path prints; None if that is not known"""
    r = []
    for e in events:
        if e.k == 'loop':
            if not e.x['bodies']: continue
            bodies = []
            for b in e.x['bodies']:
                x = tokens(b['events'])
                if x is None: return None
                bodies.append((b, x))
            if not any(x for _, x in bodies): continue
            if len(e.x['src']) != 1: return None
            r.append(('loop', canon(e.x['src'][0]), e.x['uid'], bodies, e.x.get('entry', {})))
            continue
        if e.k != 'call': continue
        n = LAST(e.name)
        a = e.args
        if n == 'write_str' and len(a) == 2: x = part(a[1], '')
        elif n == 'write_char' and len(a) == 2: x = part(a[1], ':char')
        elif n == 'write_fmt' and len(a) == 2:
            t = canon(a[1])
            if is_call(t, 'from_str'): x = part(t.a[1][0], '')
            elif is_call(t, 'new') and len(t.a[1]) == 2 and t.a[1][0].op == t.a[1][1].op == 'arr': x = template(t.a[1][0], [canon(y) for y in t.a[1][1].a[0]])
            else: x = None
        elif n == 'fmt' and len(a) == 2: x = part(a[0], 'f' if 'Display' in e.name else 'f:' + e.name)
        elif n in ('pad', 'pad_integral', 'write_formatted_parts', 'write') or n.startswith('debug_'): x = None
        else: continue
        if x is None: return None
        r += x if isinstance(x, list) else [x]
    return r


def failing(facts):
    return any(v == 'Err' and k.op == 'discr' and k.a[0].op == 'call' and LAST(k.a[0].a[0]) in ('write_str', 'write_fmt', 'fmt', 'write_char', 'pad') for k, v in facts.items())


def show(ts):
    return ''.join(t if isinstance(t, str) else '{' + pp(t[1])[:80] + '}' if t[0] == 'arg' else f'<for each of {pp(t[1])[:80]}: ' + ' / '.join(show(x) for _, x in t[3]) + '>' for t in ts)


class Unclear(Exception): pass


class Wrong(Exception): pass


def need_arg(t, exp, alt, values):
    if isinstance(t, str): raise Wrong(f'prints {t!r} in place of {exp}')
    if t[0] != 'arg': raise Unclear(f'repetition in place of {exp}')
    if exp.by is not None:
        x = exp.by(t[1])
        if x is None: raise Unclear(f'prints {pp(t[1])[:100]}')
        if not x: raise Wrong(f'prints {pp(t[1])[:100]} in place of {exp}')
    elif exp.term in values and t[1].op == 'int':
        if values[exp.term] != t[1].a[0]: raise Wrong(f'prints {t[1].a[0]} where {exp} is {values[exp.term]}')
    elif t[1] is not exp.term:
        if fuzzy(t[1]) or t[1].op == 'call' and LAST(t[1].a[0]) not in ('id', 'to_baid64_mnemonic', 'sem_id_named', 'lookup', 'translate', 'to_hex'): raise Unclear(f'prints {pp(t[1])[:100]}')
        raise Wrong(f'prints {pp(t[1])[:100]} in place of {exp}')
    okay = ('', 'f') + (('#',) if alt else ()) if exp.spec is None else exp.spec if isinstance(exp.spec, (tuple, Any_)) else (exp.spec,)
    if t[2] not in okay: raise Wrong(f'prints {exp} in the form {t[2]!r}')


ALT = T('sym', 'alternate form')


class Known:
    """what the conditions of a path say"""
    def __init__(self, facts, neq, values=None): self.facts, self.neq, self.values = facts, neq, values or {}

    def is_(self, t, v):
        t = canon(t)
        if t in self.facts: return self.facts[t] == v
        if v in self.neq.get(t, ()): return False
        return None


def replaced(t, m, memo):
    """a term with parts replaced"""
    if not isinstance(t, T):
        if isinstance(t, tuple): return tuple(replaced(x, m, memo) for x in t)
        return t
    if t in m: return m[t]
    if t in memo: return memo[t]
    r = T(t.op, *[replaced(x, m, memo) for x in t.a])
    memo[t] = r
    return r


class Run:
    """prints of a path for given numbers of items"""
    def __init__(self, sizes, values=None): self.sizes, self.values = sizes, values or {}

    def size(self, t, env):
        t = strip_seq(canon(t))
        if t in self.sizes: return self.sizes[t]
        if t.op == 'at' and ('nested', t.a[0]) in self.values: return self.values[('nested', t.a[0])]
        if t.op in ('rest', 'front') and len(t.a) == 2:
            n, m = self.size(t.a[0], env), self.val(T('int', t.a[1]) if isinstance(t.a[1], int) else t.a[1], env)
            return None if n is None or m is None else max(n - m, 0)
        if t.op in ('but-n', 'first-n') and len(t.a) == 2:
            n, m = self.size(t.a[0], env), self.val(t.a[1], env)
            return None if n is None or m is None else max(n - m, 0) if t.op == 'but-n' else min(n, m)
        if t.op == 'tail':
            n = self.size(t.a[0], env)
            return None if n is None else max(n - 1, 0)
        if t.op == 'midn':
            n = self.size(t.a[0], env)
            k = env['k'].get(t.a[1])
            m = t.a[2] if isinstance(t.a[2], int) else self.val(t.a[2], env)
            return None if n is None or k is None or m is None else max(n - k - m, 0)
        if t.op == 'rev': return self.size(t.a[0], env)
        if t.op == 'fld' and t.a[0].op == 'fld' and t.a[0].a[0].op == 'call' and LAST(t.a[0].a[0].a[0]) in ('split_last', 'split_first') and t.a[2] == '1':
            n = self.size(t.a[0].a[0].a[1][0], env)
            return None if n is None else max(n - 1, 0)
        return None

    def val(self, t, env):
        if isinstance(t, int): return t
        t = canon(t)
        if t.op == 'int': return t.a[0]
        if t in self.values: return self.values[t]
        if t.op == 'fold':
            for src, i, v in env.get('folds', ()):
                if src is canon(t.a[1]) and i == self.val(t.a[0], env): return v
            return None
        if t.op == 'pos' and t.a[1] in env['k']: return env['k'][t.a[1]]
        if t in env['lv']: return env['lv'][t]
        if t.op == 'call' and LAST(t.a[0]) == 'len': return self.size(t.a[1][0], env)
        if t.op == 'call' and LAST(t.a[0]) == 'is_empty':
            n = self.size(t.a[1][0], env)
            return None if n is None else int(n == 0)
        if t.op == 'discr':
            x = t.a[0]
            if x.op == 'call' and LAST(x.a[0]) in ('split_last', 'split_first', 'first', 'last') and x.a[1]:
                n = self.size(x.a[1][0], env)
                return None if n is None else 'Some' if n else 'None'
            if x.op == 'call' and LAST(x.a[0]) == 'get' and len(x.a[1]) == 2:
                n, i = self.size(x.a[1][0], env), self.val(x.a[1][1], env)
                return None if n is None or i is None else 'Some' if i < n else 'None'
            return None
        if t.op == 'cast': return self.val(t.a[-1], env)
        if t.op == 'not':
            x = self.val(t.a[0], env)
            return None if x is None else int(not x)
        if t.op == 'bin':
            a, b = self.val(t.a[1], env), self.val(t.a[2], env)
            if not isinstance(a, int) or not isinstance(b, int): return None
            return {'Add': a + b, 'Sub': a - b, 'Lt': int(a < b), 'Eq': int(a == b), 'Le': int(a <= b), 'SatAdd': min(a + b, 255), 'Rem': a % b if b else None, 'Mul': a * b}.get(t.a[0])
        return None

    def item(self, src, k, env):
        """the k-th item of a sequence"""
        s = strip_seq(canon(src))
        if s in self.sizes or s.op == 'at' and ('nested', s.a[0]) in self.values: return T('at', s, I(k))
        if s.op in ('rest', 'but-n'): return self.item(s.a[0], k + self.val(s.a[1], env), env)
        if s.op == 'tail': return self.item(s.a[0], k + 1, env)
        if s.op in ('front', 'first-n'): return self.item(s.a[0], k, env)
        if s.op == 'rev':
            n = self.size(s.a[0], env)
            return None if n is None else self.item(s.a[0], n - 1 - k, env)
        if s.op == 'fld' and s.a[0].op == 'fld' and s.a[0].a[0].op == 'call' and s.a[2] == '1':
            c = s.a[0].a[0]
            return self.item(c.a[1][0], k + (LAST(c.a[0]) == 'split_first'), env)
        return None

    def term(self, t, env):
        """a term with the positions of items known"""
        m = dict(env['items'])
        for x in walk(t):
            if x.op == 'lv' and isinstance(env['lv'].get(x), int): m[x] = I(env['lv'][x])
        for s, n in self.sizes.items():
            if n: m[T('first', s)], m[T('last', s)] = T('at', s, I(0)), T('at', s, I(n - 1))
        for x in walk(t):
            if x.op == 'fld' and x.a[2] == '0' and x.a[0].op == 'fld' and x.a[0].a[1] == 'Some' and x.a[0].a[0].op == 'call' and LAST(x.a[0].a[0].a[0]) in ('split_last', 'split_first'):
                c = x.a[0].a[0]
                s = strip_seq(canon(c.a[1][0]))
                if self.sizes.get(s): m[x] = T('at', s, I(0 if LAST(c.a[0]) == 'split_first' else self.sizes[s] - 1))
        return canon(replaced(canon(t), m, {}))

    def holds(self, facts, neq, env):
        """False if the conditions contradict the numbers of items"""
        for c, v in facts.items():
            x = self.val(c, env)
            if x is not None and x != v: return False
        for c, vs in neq.items():
            x = self.val(c, env)
            if x is not None and x in vs: return False
        return True

    def tokens(self, ts, env):
        """alternatives of (tokens, facts, neq, environment)"""
        alts = [([], {}, {}, env)]
        for t in ts:
            if isinstance(t, str):
                for a in alts: a[0].append(t)
            elif t[0] == 'arg':
                for a in alts: a[0].append(('arg', self.term(t[1], a[3]), t[2]))
            else: alts = [(x[0] + y[0], x[1] | y[1], self.union(x[2], y[2]), y[3]) for x in alts for y in self.loop(t, x[3])]
            if len(alts) > 3000: raise Unclear('too many combinations')
        return alts

    @staticmethod
    def passing(c): return any(x.op in ('lv', 'ovf', 'acc') for x in walk(c))

    @staticmethod
    def union(a, b):
        r = dict(a)
        for k, v in b.items(): r[k] = frozenset(r.get(k, ())) | frozenset(v)
        return r

    def loop(self, t, env):
        _, src, uid, bodies, entry = t
        src = self.term(src, env)
        n = self.size(src, env)
        if n is None: raise Unclear(f'items of {pp(src)[:80]}')
        lv = dict(env['lv'])
        for key, v in entry.items():
            x = self.val(v, env) if v is not None else None
            if x is not None: lv[T('lv', str(key), uid)] = x
        alts = [([], {}, {}, env | {'lv': lv})]
        for k in range(n):
            new = []
            for toks, fs, ns, e in alts:
                it = self.item(src, k, e)
                if it is None: raise Unclear(f'items of {pp(src)[:80]}')
                e = e | {'k': e['k'] | {uid: k}, 'items': e['items'] | {T('elem', x, uid): it for x in (t[1], src)}}
                some = False
                for b, x in bodies:
                    bf = {self.term(c, e): v for c, v in b['facts'].items()}
                    bn = {self.term(c, e): v for c, v in b['neq'].items()}
                    if not self.holds(b['facts'], b['neq'], e) or not self.holds(bf, bn, e): continue
                    form = [v for c, v in bf.items() if is_call(c, 'alternate')] + [int(not min(v)) for c, v in bn.items() if is_call(c, 'alternate')]
                    bf = {c: v for c, v in bf.items() if self.val(c, e) is None and not self.passing(c)}
                    bn = {c: v for c, v in bn.items() if self.val(c, e) is None and not self.passing(c)}
                    if form: bf[ALT] = form[0]
                    if any(fs.get(c, v) != v or v in ns.get(c, ()) for c, v in bf.items()) or any(fs.get(c) in vs for c, vs in bn.items() if c in fs): continue
                    some = True
                    for toks2, fs2, ns2, e2 in self.tokens(x, e):
                        lv2 = dict(e2['lv'])
                        for key, u in b['upd'].items():
                            w = self.val(self.term(u, e2), e2) if u is not None else None
                            q = T('lv', str(key), uid)
                            if w is None: lv2.pop(q, None)
                            else: lv2[q] = w
                        new.append((toks + toks2, fs | bf | fs2, self.union(self.union(ns, bn), ns2), e2 | {'lv': lv2}))
                if not some: raise Unclear('no way through an iteration')
            alts = new
            if len(alts) > 3000: raise Unclear('too many combinations')
        ends = lambda e: env.get('folds', ()) + tuple((canon(t[1]), self.val(v, env), e['lv'][T('lv', str(key), uid)]) for key, v in entry.items()
                                                      if v is not None and self.val(v, env) is not None and T('lv', str(key), uid) in e['lv'])
        return [(a, b, c, e | {'folds': ends(e), 'lv': env['lv'], 'k': env['k'], 'items': env['items']}) for a, b, c, e in alts]


def expected(items, run, known):
    r = []
    for it in items:
        if isinstance(it, (str, A)): r.append(it)
        elif isinstance(it, If):
            if run.sizes[it.src] if it.n is None else run.sizes[it.src] == it.n: r += expected(it.items, run, known)
        elif isinstance(it, Case):
            x = it.fn(known)
            if x is None: raise Unclear('case')
            r += expected(x, run, known)
        else:
            for k in range(run.size(it.src, {'k': {}, 'lv': {}})):
                x = it.fn(T('at', it.src, I(k)), known)
                if x is None: raise Unclear('case of an item')
                r += ([it.sep] if k and it.sep else []) + expected(x, run, known)
    return r


def sources(items, known=None):
    for it in items:
        if isinstance(it, J): yield it.src
        elif isinstance(it, If):
            yield it.src
            yield from sources(it.items)


def match(ts, items, alt, values={}):
    """all tokens are as expected; raises Wrong or Unclear"""
    i = 0
    for it in items:
        for c in it if isinstance(it, str) else (it,):
            if i >= len(ts): raise Wrong(f'{it!r} is not printed')
            if isinstance(c, A): need_arg(ts[i], c, alt, values)
            elif ts[i] != c:
                if not isinstance(ts[i], str) and (fuzzy(ts[i][1]) or ts[i][1].op == 'call'): raise Unclear(f'prints {pp(ts[i][1])[:100]}')
                raise Wrong(f'prints {show(ts[i:i + 8])!r} in place of {it!r}')
            i += 1
    if i < len(ts): raise Wrong(f'prints more: {show(ts[i:])[:100]!r}')


def countdown(o):
    """the underflow of a counter which starts at the number of items and is decreased with each of them"""
    ops = [canon(x) for x in o.x.get('ops') or () if isinstance(x, T)]
    for e in o.st.events():
        if e.k != 'loop' or len(e.x['src']) != 1: continue
        src = strip_seq(canon(e.x['src'][0]))
        for k, v in e.x.get('entry', {}).items():
            v = canon(v) if v is not None else None
            if v is None or not is_call(v, 'len') or strip_seq(canon(v.a[1][0])) is not src: continue
            lv = T('lv', str(k), e.x['uid'])
            ups = [canon(b['upd'][k]) for b in e.x['bodies'] if b['upd'].get(k) is not None]
            if not ups or any(u is not T('bin', 'Sub', lv, I(1)) for u in ups): continue
            if any(x is lv or x.op in ('fold', 'partial') and any(y is v for y in walk(x)) for a in ops for x in walk(a)) or any(y is lv or y.op == 'partial' and any(z is v for z in walk(y)) for f in o.st.facts if f.op == 'ovf' for y in walk(f)): return True
    return False


def excused(o):
    """an error of a nested translation or lookup, which the type invariants exclude"""
    if o.x.get('kind') == 'panic:expect_failed' and any(is_call(canon(c), 'is_option') and v == 1 for c, v in o.st.facts.items()): return True
    return o.x.get('kind') == 'panic:unwrap_failed' and any(isinstance(x, T) and x.op == 'fld' and x.a[1] == 'Err' and x.a[0].op == 'call' and LAST(x.a[0].a[0]) in ('translate', 'try_from')
                                                            for x in o.x.get('ops') or ())


def pure(o, run, env):
    """the conditions of a path are results of writing, numbers of items or tested values"""
    for c in list(o.st.facts) + list(o.st.neq):
        c = canon(c)
        if failing({c: 'Err'}) or c.op == 'done' or run.val(c, env) is not None or any(x.op == 'fold' for x in walk(c)): continue
        if fuzzy(c): return False
    return True


def constants(ts):
    """numbers which the conditions of loops compare something with"""
    for t in ts:
        if isinstance(t, str) or t[0] != 'loop': continue
        for b, x in t[3]:
            for c in list(b['facts']) + list(b['neq']):
                for y in walk(c):
                    if y.op == 'bin' and y.a[0] in ('Eq', 'Lt', 'Le', 'Rem'):
                        for z in y.a[1:3]:
                            if z.op == 'int' and 0 < z.a[0] < 40: yield z.a[0]
            yield from constants(x)


def broken(o):
    """a loop was left before its end"""
    return any(e.k == 'loop' and e.x['bodies'] and any(tokens(b['events']) != [] for b in e.x['bodies']) and
               not any(c.op == 'done' and c.a[1] == e.x['uid'] for c in o.st.facts) for e in o.st.events())


def near(ts, i, d, mark):
    while 0 <= i < len(ts) and isinstance(ts[i], str) and ts[i].isspace(): i += d
    return 0 <= i < len(ts) and mark(ts[i])


def squeezed(ts):
    """white space is not significant"""
    r = []
    mark = lambda c: isinstance(c, str) and c in ',|()[]{}:^>'
    ts = [c for i, c in enumerate(ts) if not (isinstance(c, str) and c.isspace() and (near(ts, i, -1, mark) or near(ts, i, 1, mark)))]
    for c in ts:
        if isinstance(c, str) and c.isspace():
            if r and r[-1] != ' ': r.append(' ')
        else: r.append(c)
    while r and r[-1] == ' ': r.pop()
    return r


def without(ts, text):
    for i in range(len(ts) - len(text) + 1):
        if ts[i:i + len(text)] == list(text): return ts[:i] + ts[i + len(text):]
    return ts


def printed(rep, ty, cases, key=None, trait='Display', opaque=('fmt',), item='fmt', names=('self', 'f'), space=True, worlds=None, drop=()):
    """cases: (name, Model, expected items[, form: alternate?])"""
    key = key or ty
    f, outs = rep.run(ty, item, trait=trait, opts=dict(names=list(names), opaque=opaque))
    if outs is None: return
    trees = {id(o): tokens(o.st.events()) for o in outs if o.k == 'ret' and not failing(o.st.facts)}
    more = sorted({c + d for t in trees.values() if t for c in constants(t) for d in (0, 1)})[:6]
    for name, m, items, *form in cases:
        verdict, text = True, ''
        srcs = list(dict.fromkeys(sources(items)))
        big, heavy = [c for c in more if c > 3], False
        for combo in sorted(itertools.product(*[[0, 1, 2, 3][:4 if len(srcs) < 2 or len(outs) < 40 else 3] + big for _ in srcs])):
            if len([x for x in combo if x > 3]) > 1 or heavy and max(combo) > 2: continue
            env = {'k': {}, 'lv': {}, 'items': {}}
            good, why = True, ''
            for values in worlds(*combo) if worlds else [{}]:
                run = Run(dict(zip(srcs, combo)), values)
                n, g0, why0 = 0, None, 'no path is compatible with the case'
                for o in outs:
                    p = m.path(o)
                    fs, neq = {canon(c): v for c, v in o.st.facts.items()}, {canon(c): v for c, v in o.st.neq.items()}
                    if p is False or failing(fs) or not run.holds(fs, neq, env): continue
                    alt = any(is_call(c, 'alternate') and v == 1 for c, v in fs.items())
                    if form and any(is_call(c, 'alternate') for c in list(fs) + list(neq)) and alt != form[0]: continue
                    if o.k == 'panic' and (countdown(o) or excused(o) or contradictory(o)): continue
                    if o.k == 'panic': g, w = (False if known_conditions(o) else None), f'panics in {o.x.get("fn")}'
                    elif o.k != 'ret': continue
                    elif trees.get(id(o)) is None: g, w = None, 'prints in an unknown way'
                    elif broken(o): g, w = (False if known_conditions(o) else None), 'stops before the last item'
                    else:
                        g, w, some = True, '', False
                        try:
                            for toks, f2, n2, e2 in run.tokens(trees[id(o)], env):
                                if m.facts and any(m.facts.get(c, v) != v for c, v in f2.items()): continue
                                f3, n3 = {run.term(c, e2): v for c, v in fs.items()}, {run.term(c, e2): v for c, v in neq.items()}
                                if not run.holds(fs, neq, e2) or not run.holds(f3, n3, e2): continue
                                some = True
                                exp = expected(items, run, Known(f3 | f2, run.union(n3, n2), run.values))
                                if not space:
                                    exp = squeezed([c for x in exp for c in (x if isinstance(x, str) else (x,))])
                                    for d, src, n0 in drop: toks = without(toks, d) if run.sizes[src] == n0 else toks
                                    toks = squeezed(toks)
                                try: match(toks, exp, alt, values)
                                except Wrong as x:
                                    if not any(fuzzy(c) for c in f2): raise
                                    g, w = None, str(x)
                        except Wrong as x: g, w = False if known_conditions(o) or pure(o, run, env) else None, f'{x} ({show(trees[id(o)])[:200]!r})'
                        except Unclear as x: g, w = None, str(x)
                        if not some and g is True: continue
                        if w == 'too many combinations' and max(combo) > 2: heavy, g = True, True
                    n += 1
                    if g is False: g0, why0 = False, w
                    elif g is None and g0 is not False: g0, why0 = None, w
                    elif g and n == 1: g0 = True
                if g0 is False: good, why = False, why0
                elif g0 is None and good: good, why = None, why0
            if good is False: verdict, text = False, why
            elif good is None and verdict: verdict, text = None, why
        rep.tri(f'{key}:{name}', verdict, text, f.where())


def K05(rep):
    """Each printing path is reduced to the sequence of literals and parts which it writes (format templates are decoded as compiled) and
    compared with the published form for each variant and for empty and non-empty optional parts; loops over labels must print each
    item once with a separator between any two.  The parsers are decided for each published name."""
    any_ = Model({})
    printed(rep, 'TypeFqn', [('', any_, [A(fldp(S, 'lib')), '.', A(fldp(S, 'name'))])])
    frag = lambda e, known: [A(e)]
    printed(rep, 'SemVer', [('', any_, [A(fldp(S, 'major')), '.', A(fldp(S, 'minor')), '.', A(fldp(S, 'patch')), If(fldp(S, 'pre'), ['-', J(fldp(S, 'pre'), '.', frag)]),
                                        If(fldp(S, 'build'), ['+', J(fldp(S, 'build'), '.', frag)])])])
    texts_of(rep)
    parsers(rep)
    constructors(rep)


def K06(rep):
    """The printing of types, fields, libraries and type systems is reduced to the sequence of literals and parts written, for collections
    of up to three items (and as many as some condition of a loop distinguishes), and compared with the notation up to white space."""
    is_ = lambda n: Model({D(S): n})
    v = lambda n, k=0, spec=None: A(fldp(S, f'{n}:{k}'), spec)
    u = fldp(S, 'Union:0')
    def union(known):
        c = next((c for c in known.facts if is_call(c, 'is_option') and canon(c.a[1][0]) is S), None)
        d = next((v for c, v in known.facts.items() if c.op == 'discr' and is_call(c.a[0], 'as_some') and canon(c.a[0].a[1][0]) is S), None)
        opt = int(d == 'Some') if d is not None else known.facts[c] if c is not None else 0 if any(is_call(c, 'is_option') for c in known.neq) else None
        if opt is None: return None
        return [A(None, None, payload, 'type of the value'), '?'] if opt else [A(u)]
    def payload(t):
        """the type of variant `some`"""
        if t is T('fld', canon(T('last', u)), '', '1') or t is T('fld', T('at', u, I(1)), '', '1'): return True
        if t.op == 'at' and t.a[0] is canon(u):
            lits = {x.a[0] for x in walk(t) if x.op == 'str'}
            return True if lits == {'some'} else False if lits or t.a[1] is I(0) else None
        if t.op in ('fld',) and t.a[0].op == 'call' and LAST(t.a[0].a[0]) in ('get', 'find', 'as_some'):
            c = t.a[0]
            if LAST(c.a[0]) == 'as_some': return canon(c.a[1][0]) is S
            lits = {x.a[0] for x in walk(c) if x.op == 'str'}
            return True if lits == {'some'} else False if lits else None
        return None if fuzzy(t) or t.op == 'call' else False
    printed(rep, 'Ty', [('Primitive', is_('Primitive'), [v('Primitive')]), ('UnicodeChar', is_('UnicodeChar'), ['Unicode']), ('Enum', is_('Enum'), [v('Enum')]), ('Union', is_('Union'), [Case(union)]),
                        ('Tuple', is_('Tuple'), [v('Tuple')]), ('Struct', is_('Struct'), [v('Struct')]), ('Array', is_('Array'), ['[', v('Array'), ' ^ ', v('Array', 1), ']']),
                        ('List', is_('List'), ['[', v('List'), v('List', 1), ']']), ('Set', is_('Set'), ['{', v('Set'), v('Set', 1), '}']),
                        ('Map', is_('Map'), ['{', v('Map'), ' ->', v('Map', 2), ' ', v('Map', 1), '}'])], opaque=('fmt', 'is_option', 'as_some'), space=False)
    any_ = Model({})
    printed(rep, 'Field', [('', any_, [A(fldp(S, 'name')), ' ', A(fldp(S, 'ty'))])], space=False)
    for ty in ('NamedFields', 'UnnamedFields'): printed(rep, ty, [('', any_, [J(S, ', ', lambda e, k: [A(e)])])], space=False)
    tag = lambda e: fldp(e, '0', 'tag')
    def variant(e, known):
        c = next((c for c in known.facts if is_call(c, 'is_compound') and canon(c.a[1][0]) is fldp(e, '1')), None)
        comp = known.facts[c] if c is not None else 0 if any(is_call(c, 'is_compound') and canon(c.a[1][0]) is fldp(e, '1') for c in known.neq) else None
        if comp is None: return None
        i = e.a[1].a[0]
        t = [known.values[tag(T('at', S, I(k)))] for k in range(i + 1)]
        shown = t[i] != (t[i - 1] + 1 if i else 0)
        return [A(fldp(e, '0'))] + (['#', A(tag(e))] if shown else []) + [' '] + (['(', A(fldp(e, '1')), ')'] if comp else [A(fldp(e, '1'))])
    def tags(n):
        if n == 0: return []
        seqs = {0: [()], 1: [(0,), (1,), (7,)], 2: [(0, 1), (0, 2), (1, 2), (4, 9)], 3: [(0, 1, 2), (0, 1, 4), (0, 3, 4), (2, 3, 4), (1, 4, 7)]}.get(n, [tuple(range(n))])
        return [{tag(T('at', S, I(k))): x for k, x in enumerate(q)} for q in seqs]
    printed(rep, 'UnionVariants', [('', any_, [J(S, ' | ', variant), If(S, [' | (|)'], 1)])], opaque=('fmt', 'is_compound'), space=False, worlds=tags)
    dec = lambda t: [A(fldp(t, '0'), WIDTH), ' : ', A(fldp(t, '1'), WIDTH)]
    ident = lambda t: True if is_call(t, 'id') and canon(t.a[1][0]) is S else None if fuzzy(t) or t.op == 'call' else False
    printed(rep, 'TypeLib', [('', any_, ['typelib ', A(fldp(S, 'name')), ' -- ', A(None, WIDTH, ident, 'id of the library'), ' ', J(fldp(S, 'dependencies'), '', lambda e, k: ['import ', A(e), ' ']),
                                         J(fldp(S, 'types'), '', lambda e, k: ['data ', A(fldp(e, '0'), WIDTH), ' : ', A(fldp(e, '1'), WIDTH), ' '])])],
            opaque=('fmt', 'id'), space=False, drop=(('-- no dependencies', fldp(S, 'dependencies'), 0),))
    ext = fldp(S, 'extern_types')
    def deps(e, known):
        h = known.facts.get(T('has', ext, fldp(e, 'name')))
        d = next((v for c, v in known.facts.items() if c.op == 'discr' and is_call(c.a[0], 'get') and canon(c.a[0].a[1][0]) is ext and canon(c.a[0].a[1][1]) is fldp(e, 'name')),
                 None if h is None else 'Some' if h in (1, 'Some') else 'None')
        if d is None: return None
        use = lambda x, k: ['use ', A(fldp(x, '1')), '#', A(None, WIDTH, lambda t: canon(t.a[1][0]) is fldp(x, '0') if is_call(t, 'to_baid64_mnemonic') else None if fuzzy(t) or t.op == 'call' else False, 'mnemonic of the id'), ' ']
        return ['import ', A(e), ' '] + ([J(T('at', ext, fldp(e, 'name')), '', use)] if d == 'Some' else [])
    mn = A(None, WIDTH, lambda t: True if is_call(t, 'to_baid64_mnemonic') else None, 'mnemonic')
    def data(e, known):
        alt = known.facts.get(ALT)
        if alt is None: return None
        return ([] if alt else ['@mnemonic(', mn, ') ']) + ['data ', A(fldp(e, '0'), WIDTH), ' : ', A(fldp(e, '1'), WIDTH), ' ']
    printed(rep, 'SymbolicLib', [('', any_, ['@context typelib ', A(fldp(S, 'name')), ' ', J(fldp(S, 'dependencies'), '', deps), J(fldp(S, 'types'), '', data)])],
            opaque=('fmt', 'sem_id_named'), space=False, drop=(('-- no dependencies', fldp(S, 'dependencies'), 0),), worlds=lambda *n: [{('nested', ext): k} for k in (0, 1, 2)])
    printed(rep, 'TypeSystem', [('', any_, ['typesys -- ', A(None, WIDTH, ident, 'id of the type system'), ' ', J(fldp(S, '0'), '', lambda e, k: ['data ', A(fldp(e, '0'), WIDTH), ': ', A(fldp(e, '1'), WIDTH), ' '])])],
            opaque=('fmt', 'id'), space=False)
    def symbol(e, known):
        fq = D(fldp(e, 'fqn'))
        x = known.is_(fq, 'Some')
        if x is None: return None
        return ['  ', A(fldp(e, 'fqn', 'Some:0')), ' => ', A(fldp(e, 'id')), ' '] if x else []
    printed(rep, 'Symbols', [('', any_, [J(fldp(S, 'libs'), '', lambda e, k: [A(e), ' as ', A(fldp(e, 'name')), ' ']), '{-- ', J(fldp(S, 'symbols'), '', symbol), '--}'])], space=False)
    types = fldp(S, 'types', '0')
    def typed(e):
        def f(t):
            c = t.a[0] if t.op == 'fld' else t
            return canon(c.a[1][0]) is fldp(e, '1') if is_call(c, 'translate') else None if fuzzy(t) or t.op == 'call' else False
        return f
    def named(e):
        def f(t):
            c = t.a[0] if t.op == 'fld' else t
            return fldp(e, '0') in [canon(x) for x in c.a[1]] if is_call(c, 'lookup') else None if fuzzy(t) or t.op == 'call' else False
        return f
    def entry(e, known):
        d = next((v for c, v in known.facts.items() if c.op == 'discr' and is_call(c.a[0], 'lookup') and fldp(e, '0') in [canon(x) for x in c.a[0].a[1]]), None)
        if d is None: return None
        id_ = A(fldp(e, '0'), WIDTH)
        return (['-- ', id_, ' data ', A(None, WIDTH, named(e), 'name of the type')] if d == 'Some' else ['data ', id_]) + [': ', A(None, WIDTH, typed(e), 'type with names in place of ids'), ' ']
    printed(rep, 'SymbolicSys', [('', any_, ['typesys -- ', A(None, WIDTH, ident, 'id of the system'), ' ', J(types, '', entry)])], opaque=('fmt', 'id', 'lookup', 'translate'), space=False)


class Any_:
    def __contains__(self, x): return ':' not in x


WIDTH = Any_()


def texts_of(rep):
    any_ = Model({})
    v = lambda n, k=0, t=S: A(fldp(t, f'{n}:{k}'))
    is_ = lambda n: Model({D(S): n})
    def inner(ty, *vs): printed(rep, ty, [(n, is_(n), [v(n)]) for n in vs])
    inner('PreFragment', 'Ident', 'Digits')
    inner('BuildFragment', 'Ident', 'Digits')
    printed(rep, 'Urn', [(n, is_(n), [f'urn:sten:{k}:', v(n)]) for n, k in (('Lib', 'lib'), ('Type', 'id'))])
    printed(rep, 'StlFormat', [(n, is_(n), [k]) for n, k in (('Source', 'sty'), ('Binary', 'stl'), ('Armored', 'sta'))])
    names = [A(fldp(S, 'lib_name')), '.', A(fldp(S, 'ty_name'))]
    printed(rep, 'SymbolRef', [('plain', any_, names, False), ('alternate', any_, names + ['#', A(fldp(S, 'sem_id'), '#')], True)])
    printed(rep, 'ExternRef', [('', any_, [A(fldp(S, 'lib_id')), '.', A(fldp(S, 'sem_id'))])])
    def mnemonic(t):
        if is_call(t, 'to_baid64_mnemonic'): return canon(t.a[1][0]) is fldp(S, 'id')
        if t.op == 'call' and LAST(t.a[0]).startswith('to_baid64_') and len(t.a[1]) == 1: return False
        return None if fuzzy(t) or t.op == 'call' else False
    printed(rep, 'Dependency', [('', any_, [A(fldp(S, 'name')), '#', A(None, '', mnemonic, 'mnemonic of the id')])])
    inner('TranspileRef', 'Embedded', 'Named', 'Extern')
    inner('InlineRef', 'Inline', 'Named', 'Extern')
    inner('InlineRef1', 'Inline', 'Named', 'Extern')
    inner('InlineRef2', 'Named', 'Extern')
    inner('LibRef', 'Inline', 'Named', 'Extern')
    fq = fldp(S, 'fqn')
    printed(rep, 'TypeSymbol', [('named', Model({D(fq): 'Some'}), [A(fldp(fq, 'Some:0'))]), ('unnamed', Model({D(fq): 'None'}), [A(fldp(S, 'id'))])])
    inner('TypeSpec', 'SemId', 'Fqn')
    printed(rep, 'TypedVal', [('', any_, [A(fldp(S, 'val')), '@', A(fldp(S, 'orig'))])])
    inner('EnumTag', 'Name', 'Ord')
    inner('StrictNum', 'Uint', 'Int', 'BigInt', 'BigUint')
    for mod, cases in (('ast', (('NamedField', ['.', v('NamedField')]), ('UnnamedField', ['.', v('UnnamedField')]), ('Variant', ['.', v('Variant')]), ('Index', ['#']),
                                ('List', ['[]']), ('Set', ['{}']), ('MapKey', ['[key]']), ('MapValue', ['[value]']))),
                       ('value', (('NamedField', ['.', v('NamedField')]), ('UnnamedField', ['.', v('UnnamedField')]), ('Index', ['[', v('Index'), ']']), ('Key', ['{', v('Key'), '}'])))):
        printed(rep, f'{mod}::Step', [(n, is_(n), items) for n, items in cases])
        printed(rep, f'{mod}::Path', [('', any_, [L(fldp(S, '0'), lambda e, known: [A(e)])])])
    blob = fldp(S, 'TinyBlob:0')
    def quoted(t):
        s = fldp(S, 'TinyString:0')
        if is_call(t, 'replace') and canon(t.a[1][0]) is s:
            a, b = canon(t.a[1][1]), canon(t.a[1][2])
            if a.op not in ('int', 'str') or b.op != 'str': return None
            return a.a[0] in (34, '"') and b.a[0] == '\\"'
        return None if fuzzy(t) or t.op == 'call' else False
    printed(rep, 'KeyStep', [('Number', is_('Number'), [v('Number')]), ('TinyBlob', is_('TinyBlob'), ['0h', L(blob, lambda e, known: [A(e, '0w2:upper_hex')])]),
                             ('TinyString', is_('TinyString'), [A(None, '', quoted, 'text with its quotes escaped')])])
    for ty, hri in (('SemId', 'semid'), ('TypeLibId', 'stl'), ('TypeSysId', 'sts')):
        f, outs = rep.run(ty, 'fmt', trait='Display', opts=dict(names=['self', 'f']))
        verdict, text = True, ''
        for o in outs or ():
            es = [e for e in o.st.events() if e.k == 'call']
            if any(LAST(e.name) == 'fmt_baid64' for e in es) and len(es) == 1 and canon(es[0].args[0]) is S: continue
            verdict, text = None, 'prints in another way'
        if outs is not None: rep.tri(f'{ty}:text', verdict, text, f.where())
        f, outs = rep.run(ty, 'from_str', trait='FromStr', opts=dict(names=['s']))
        verdict, text = True, ''
        for o in outs or ():
            if o.k == 'ret' and o.v is not None and is_call(canon(o.v), 'from_baid64_str') and canon(canon(o.v).a[1][0]) is sym('s'): continue
            verdict, text = None, 'parses in another way'
        if outs is not None: rep.tri(f'{ty}:parse', verdict, text, f.where())
        f, outs = rep.run(ty, 'to_baid64_payload', trait='DisplayBaid64', opts=dict(names=['self']))
        for o in outs or ():
            b = bytes_of(o.v) if o.v is not None else None
            rep.tri(f'{ty}:payload', same_bytes(o.v), f'the text is made of {pp(o.v)[:100]}', f.where())
        c = {k.split('::')[-1]: x for k, x in rep.p.consts.items() if f'::{ty} as ' in k and 'DisplayBaid64' in k}
        for n, x in (('HRI', hri), ('CHUNKING', 1), ('PREFIX', 1), ('EMBED_CHECKSUM', 0), ('MNEMONIC', 1)):
            if n not in c: rep.unknown(f'{ty}:{n}', 'no such constant')
            else: rep.check(f'{ty}:{n}', c[n].get('str', c[n].get('int')) == x, f'{n} of the text of {ty} is {c[n].get("str", c[n].get("int"))!r} instead of {x!r}')


def same_bytes(t):
    """all of the bytes of self"""
    t = canon(t)
    while True:
        if t is S: return True
        if t.op == 'call' and len(t.a[1]) == 1 and LAST(t.a[0]) in ('to_byte_array', 'into', 'from', 'as_inner', 'into_inner', 'clone', 'deref', 'as_ref', 'borrow'): t = canon(t.a[1][0])
        elif t.op == 'fld' and t.a[0].op in ('fld', 'sym'): t = t.a[0]
        elif t.op == 'fld': t = canon(t.a[0])
        else: return False if t.op in ('rev', 'arr', 'slice') or t.op == 'after' and any(x in pp(t)[:40] for x in ('reverse', 'fill', 'swap', 'rotate')) else None


def parsers(rep):
    f, outs = rep.run('StlFormat', 'from_str', trait='FromStr', opts=dict(names=['s']))
    if outs is not None:
        for name, var in (('sty', 'Source'), ('stl', 'Binary'), ('sta', 'Armored'), (None, None)):
            verdict, text, n = True, '', 0
            for o in outs:
                eq, ne = set(texts(o.st.facts)), set(texts(o.st.facts, 0))
                if name is None and eq or name in ne or eq - {name}: continue
                if name is not None and not eq:
                    if {'sty', 'stl', 'sta'} - ne == set() : continue
                    p = None
                else: p = True
                n += 1
                k, x = res_parts(o)
                if k == 'Ok' and x is not None and canon(x).op == 'adt': good = name is not None and canon(x).a[1] == var
                elif k == 'Err': good = name is None
                elif o.k == 'panic': good = False
                else: good = None
                if good is False and not p: good = None
                if good is False: verdict, text = False, f'{name or "an unknown name"} is read as {pp(o.v)[:80] if o.v is not None else "a panic"}'
                elif good is None and verdict: verdict, text = None, 'unclear'
            if not n: verdict, text = None, 'no such case'
            rep.tri(f'StlFormat:parse:{name or "other"}', verdict, text, f.where())
    f, outs = rep.run('TypeFqn', 'from', trait='From', opts=dict(names=['v']))
    if outs is not None:
        verdict, text = True, ''
        for o in outs:
            if o.k != 'ret':
                continue
            x = canon(o.v)
            for i, part_ in enumerate(('lib', 'name')):
                t = canon(fldp(x, part_)) if x.op != 'adt' else canon(x.a[2][i])
                got = {y.a[2] for z in walk(t) for y in [z] if y.op == 'fld' and y.a[0].op == 'fld' and y.a[0].a[1] == 'Some'}
                how = {LAST(y.a[0]) for y in walk(t) if y.op == 'call' and 'split' in y.a[0]}
                seps = {canon(y.a[1][1]) for y in walk(t) if y.op == 'call' and LAST(y.a[0]) in ('split_once', 'rsplit_once')}
                if how == {'split_once'} and got == {str(i)} and len(seps) == 1:
                    s = next(iter(seps))
                    good = s in (I(46), T('str', '.')) if s.op in ('int', 'str') else None
                elif how == {'split_once'} and got == {str(1 - i)}: good = False
                elif how == {'rsplit_once'}: good = False
                else: good = None
                if good is False: verdict, text = False, f'{part_} is {pp(t)[:120]}'
                elif good is None and verdict: verdict, text = None, f'{part_} is {pp(t)[:120]}'
        rep.tri('TypeFqn:parse', verdict, text, f.where())


def constructors(rep):
    for ty, item, names, exp in (('TypeFqn', 'with', ['lib', 'name'], ['lib', 'name']), ('ExternRef', 'with', ['lib_id', 'sem_id'], ['lib_id', 'sem_id']),
                                 ('SymbolRef', 'with', ['lib_name', 'ty_name', 'lib_id', 'sem_id'], ['lib_name', 'ty_name', 'lib_id', 'sem_id']),
                                 ('Dependency', 'with', ['id', 'name'], ['id', 'name'])):
        f, outs = rep.run(ty, item, opts=dict(names=names))
        if outs is None: continue
        verdict, text = True, ''
        for o in outs:
            x = canon(o.v) if o.k == 'ret' and o.v is not None else None
            if x is None or x.op != 'adt' or len(x.a[2]) != len(exp):
                verdict, text = None, 'unclear'
                continue
            for n, t in zip(exp, x.a[2]):
                ss = {y.a[0] for y in walk(canon(t)) if y.op == 'sym' and y.a[0] in names}
                if ss != {n}: verdict, text = False, f'{n} is {pp(t)[:100]}'
        rep.tri(f'{ty}:{item}', verdict, text, f.where())
    v = sym('v')
    for ty, item, names, trait, parts in (('TypeSymbol', 'with', ['id', 'fqn'], None, (('id', sym('id')), ('fqn', (sym('fqn'),)))), ('TypeSymbol', 'unnamed', ['id'], None, (('id', sym('id')), ('fqn', None))),
                                          ('ExternRef', 'from', ['v'], 'From', (('lib_id', fldp(v, 'lib_id')), ('sem_id', fldp(v, 'sem_id'))))):
        f, outs = rep.run(ty, item, opts=dict(names=names), **({'trait': trait} if trait else {}))
        if outs is None: continue
        verdict, text = True, ''
        for o in outs:
            x = canon(o.v) if o.k == 'ret' and o.v is not None else None
            if x is None or x.op != 'adt' or len(x.a[2]) != len(parts):
                verdict, text = None, 'unclear'
                continue
            for (n, e), t in zip(parts, x.a[2]):
                t = canon(t)
                if e is None: good = t.op == 'adt' and t.a[1] == 'None' if t.op == 'adt' else None
                elif isinstance(e, tuple): good = t.op == 'adt' and t.a[1] == 'Some' and canon(t.a[2][0]) is e[0] if t.op == 'adt' else None
                else: good = t is canon(e) or (None if fuzzy(t) or t.op == 'call' else False)
                if good is False: verdict, text = False, f'{n} is {pp(t)[:100]}'
                elif good is None and verdict: verdict, text = None, f'{n} is {pp(t)[:100]}'
        rep.tri(f'{ty}:{item}', verdict, text, f.where())


def V17(rep):
    """The printing of values is reduced to the sequence of literals and parts written for each variant, for collections of up to three
    items of any kind, and compared with the notation."""
    is_ = lambda n: Model({D(S): n})
    v = lambda n, k=0: A(fldp(S, f'{n}:{k}'))
    def part_of(e, known):
        """a value within another one: in parentheses if it is a structure or a tuple of several fields"""
        d = known.facts.get(D(e))
        if d is None:
            left = {'Unit', 'Number', 'String', 'Bytes', 'Tuple', 'Struct', 'Enum', 'Union', 'List', 'Set', 'Map'} - set(known.neq.get(D(e), ()))
            if not left & {'Struct', 'Tuple'}: return [A(e)]
            if left == {'Struct'}: return ['(', A(e), ')']
            if left == {'Tuple'}: d = 'Tuple'
            else: return None
        if d == 'Tuple':
            ln = T('call', 'len', (fldp(e, 'Tuple:0'),), '')
            lens = [n for n in range(6) if Run({fldp(e, 'Tuple:0'): n}).holds(known.facts, known.neq, {'k': {}, 'lv': {}})]
            if len(lens) == 6: return None
            if len({n == 1 for n in lens}) > 1: raise Wrong(f'tuples with {", ".join(str(n) for n in lens)} fields are printed in the same way')
            one = 1 in lens
            return [A(e)] if one else ['(', A(e), ')']
        return ['(', A(e), ')'] if d == 'Struct' else [A(e)]
    hexa = lambda t: (lambda x: x.op == 'sym' or x.op == 'fld')(canon(t.a[1][0])) and any(y is fldp(S, 'Bytes:0') for y in walk(t)) if is_call(t, 'to_hex') else None if fuzzy(t) or t.op == 'call' else False
    seq = lambda n: J(fldp(S, f'{n}:0'), ', ', part_of)
    def pair(mark):
        def f(e, known):
            x = part_of(fldp(e, '1'), known)
            return None if x is None else [A(fldp(e, '0')), mark] + x
        return f
    tag, body = fldp(S, 'Union:0'), fldp(S, 'Union:1')
    union = Case(lambda known: (lambda x: None if x is None else x + ['.', A(tag)])(part_of(body, known)))
    _, outs = rep.run('StrictVal', 'fmt', trait='Display', opts=dict(names=['self', 'f'], opaque=('fmt',)))
    tests = {}
    for o in outs or ():
        for c in list(o.st.facts) + list(o.st.neq):
            c = canon(c)
            if c.op != 'bin' or c.a[0] != 'Eq': continue
            for a, b in (c.a[1:], c.a[:0:-1]):
                if not any(x is tag for x in walk(b)) or any(x is S for x in walk(a)): continue
                lit = [x.a[0] for x in walk(a) if x.op in ('str', 'int')] + [s for x in walk(a) if x.op == 'cparam' for s in texts({T('bin', 'Eq', x, b): 1})]
                kind = 'Ord' if any(x.op == 'adt' and x.a[1] == 'Ord' for x in walk(a)) or b is fldp(tag, 'Ord:0') else 'Name'
                if len(lit) == 1: tests[c] = (kind, lit[0])
    def um(t, x, b):
        m = {D(S): 'Union', D(tag): t, D(body): b} | {c: int(k == (t, x)) for c, k in tests.items()}
        if t == 'Ord': m[fldp(tag, 'Ord:0')] = x
        unit = T('adt', ety(rep, 'StrictVal'), 'Unit', ())
        for e in (T('bin', 'Eq', unit, body), T('bin', 'Eq', body, unit)): m[e] = int(b == 'Unit')
        return Model(m)
    printed(rep, 'StrictVal', [('Unit', is_('Unit'), ['(,)']), ('Number', is_('Number'), [v('Number')]), ('String', is_('String'), ['"', v('String'), '"']), ('Bytes', is_('Bytes'), ['0x', A(None, '', hexa, 'hexadecimal form of the bytes')]),
                               ('Tuple', is_('Tuple'), [seq('Tuple')]), ('Struct', is_('Struct'), [J(fldp(S, 'Struct:0'), ', ', pair(' '))]), ('Enum', is_('Enum'), [v('Enum')]),
                               ('List', is_('List'), ['[', seq('List'), ']']), ('Set', is_('Set'), ['{', seq('Set'), '}']), ('Map', is_('Map'), ['{', J(fldp(S, 'Map:0'), ', ', pair(' -> ')), '}']),
                               ('none by number', um('Ord', 0, 'Unit'), ['~']), ('none by name', um('Name', 'none', 'Unit'), ['~']), ('other number', um('Ord', 1, 'Unit'), [union]),
                               ('other name', um('Name', 'some', 'Unit'), [union])] +
            [(f'zero with {b}', um('Ord', 0, b), [union]) for b in ('Number', 'Struct', 'Tuple')] + [(f'none with {b}', um('Name', 'none', b), [union]) for b in ('Number', 'Struct', 'Tuple')])
