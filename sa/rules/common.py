"""Shared vocabulary of the rules."""
import time
from ..engine import Engine, Budget, T, I, UNIT, TRUE, FALSE, Ev
from ..prog import Missing
from ..term import pp, walk, mentions, subst, split_path
from .. import models as M


class Report:
    def __init__(self, prop, prog):
        self.prop, self.p = prop, prog
        self.obl = []          # (key, status, text, where)
        self.said = set()
        self.fns = set()
        self.paths = 0
        self.sites = 0
        self.t0 = time.time()
        self._eng = {}

    # -------- verdicts
    def ok(self, key, text='', where=''): self.obl.append((key, 'ok', text, where))
    def bad(self, key, text, where=''): self.obl.append((key, 'violation', text, where))
    def unknown(self, key, text, where=''): self.obl.append((key, 'unknown', text, where))

    def check(self, key, cond, text, where=''):
        self.obl.append((key, 'ok' if cond else 'violation', text, where))
        return cond

    def tri(self, key, verdict, text, where=''):
        """verdict True / False / None (cannot tell)"""
        k = (key, verdict, text, where)
        if k in self.said: return
        self.said.add(k)
        self.obl.append((key, {True: 'ok', False: 'violation', None: 'unknown'}[verdict], text, where))

    def floor(self, key, n, least, what):
        self.check('floor:' + key, n >= least, f'{n} {what} analysed (at least {least} expected)')

    # -------- analysis
    def fn(self, *a, **k):
        """An anchored function; None (and a violation) if it is gone."""
        try:
            return self.p.one(*a, **k)
        except Missing as e:
            self.bad('anchor:' + '.'.join(str(x) for x in a), f'anchored function is missing: {e}')
            return None

    def paths_of(self, fn, key=None, **opts):
        """Abstract paths of a function or None when the analysis gives up."""
        if fn is None: return None
        args = opts.pop('args', None)
        names = opts.pop('names', None)
        eng = Engine(self.p, **opts)
        try:
            outs = eng.start(fn, names, args)
        except Budget as e:
            self.unknown('analysis:' + (key or fn.name), f'analysis gave up: {e}', fn.where())
            return None
        except (RecursionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            self.unknown('analysis:' + (key or fn.name), f'analysis gave up: {type(e).__name__} {e}', fn.where())
            return None
        self.fns |= eng.fns_seen
        self.paths += len(outs)
        self.last_eng = eng
        return outs

    def run(self, *a, **k):
        opts = k.pop('opts', {})
        f = self.fn(*a, **k)
        if f is None: return None, None
        return f, self.paths_of(f, **opts)


# ------------------------------------------------------------------ terms
def deep_events(evs):
    """All events including those of loop bodies, with the enclosing loops."""
    for e in evs:
        if e.k == 'loop':
            yield e
            for b in e.x['bodies']: yield from deep_events(b['events'])
        else: yield e


def fact(o, pred):
    return [(a, v) for a, v in o.st.facts.items() if pred(a, v)]


def variant_of(o, term):
    """variant known for a term on a path"""
    if term.op == 'adt': return term.a[1]
    for a, v in o.st.facts.items():
        if a.op == 'discr' and a.a[0] is term: return v
    return None


def fldp(t, *path):
    """field access; 'V:n' selects variant field"""
    for p in path:
        if ':' in p:
            v, n = p.split(':')
        else: v, n = '', p
        t = T('fld', t, v, n)
    return t


def sym(n): return T('sym', n)


def is_call(t, item):
    return isinstance(t, T) and t.op == 'call' and t.a[0].split('::')[-1] == item


OPAQUE_OPS = {'unk', 'lv', 'undef', 'hole'}


def fuzzy(t):
    """the term contains something the analysis does not know"""
    return any(x.op in OPAQUE_OPS or x.op in ('elem', 'done') and isinstance(x.a[0], T) and x.a[0].op == 'arr' and len(x.a[0].a[0]) > 1 for x in walk(t))


# ------------------------------------------------------------------ hashing
class Chain(Exception): pass


UPD = {'update', 'commit_consume', 'input_raw', 'input', 'chain_update'}
SUB = {'sem_commit', 'commit'}


def hash_chain(h, stop=()):
    """What was fed into a hasher value, in order: list of pieces."""
    out = []
    while True:
        if h in stop or h.op == 'sym' or h.op == 'acc': return out[::-1]
        if h.op == 'call' and h.a[0].split('::')[-1] in ('new', 'default'): return out[::-1]
        if h.op == 'call' and h.a[0].split('::')[-1] == 'new_with_prefix':
            out.extend(reversed(bytes_of(h.a[1][0])))
            return out[::-1]
        if h.op in ('after', 'call'):
            it = h.a[0].split('::')[-1]
            if it in UPD and len(h.a[1]) == 2:
                out.extend(reversed(bytes_of(h.a[1][1])))
                h = h.a[1][0]
                continue
            if it in SUB and len(h.a[1]) == 2:
                out.append(('sub', h.a[1][0]))
                h = h.a[1][1]
                continue
            if h.op == 'after':
                # fed by an unknown function
                out.append(('?', h.a[0].split('::')[-1]) + tuple(x for x in h.a[1]))
                nxt = [x for x in h.a[1] if x.op in ('after', 'fold', 'acc', 'sym')]
                h = nxt[-1] if nxt else T('sym', '?')
                continue
        if h.op in ('fold', 'coll'):
            if h.op == 'coll':
                out.append(('?', h))
                return out[::-1]
            alts = []
            for u in h.a[2]:
                alts.append(tuple(hash_chain(u)))
            rounds = unrolled(h.a[1], alts)
            if rounds is not None: out.extend(reversed(rounds))
            else: out.append(('each', h.a[1], tuple(dict.fromkeys(alts))))
            h = h.a[0]
            continue
        if h.op == 'upd':
            # wrapper structure with the hasher inside
            h = h.a[2]
            continue
        if h.op == 'adt' and len(h.a[2]) == 1:
            h = h.a[2][0]
            continue
        if h.op == 'lv':
            return out[::-1]
        if h.op == 'partial':
            out.append(('partial', 'a loop left before its end'))
            h = h.a[0]
            continue
        out.append(('?', h))
        return out[::-1]


def unrolled(src, alts):
    """what a loop of a few known rounds feeds"""
    if len(set(alts)) != 1: return None
    if src.op == 'arr' and len(src.a[0]) <= 16: vals = list(src.a[0])
    elif src.op == 'range' and src.a[0].op == 'int' and src.a[1].op == 'int' and 0 <= src.a[1].a[0] - src.a[0].a[0] <= 16: vals = [I(x) for x in range(src.a[0].a[0], src.a[1].a[0])]
    else: return None
    r = []
    for v in vals:
        def put(x):
            if isinstance(x, T):
                m = {y: v for y in walk(x) if y.op == 'elem' and y.a[0] is src}
                return subst(x, m) if m else x
            return tuple(put(y) for y in x) if isinstance(x, tuple) else x
        for pc in alts[0]:
            m = pc[1] if len(pc) == 2 and pc[0] == 'bytes' and isinstance(pc[1], T) else None
            q = put(pc)
            r.extend(bytes_of(q[1]) if m is not None else [q])
    return r


def bytes_of(d):
    """Byte string term -> list of pieces"""
    if d.op == 'arr':
        r = []
        for x in d.a[0]: r.append(('byte', strip_cast(x)))
        return r
    if d.op in ('bytes',): return [('byte', I(x)) for x in d.a[0]]
    if d.op == 'str': return [('byte', I(x)) for x in d.a[0].encode()]
    if d.op == 'empty': return []
    if d.op == 'push': return bytes_of(d.a[0]) + [('byte', strip_cast(d.a[1]))]
    if d.op == 'call':
        it = d.a[0].split('::')[-1]
        if it in ('to_le_bytes', 'to_be_bytes'):
            return [('le' if it == 'to_le_bytes' else 'be', d.a[1][0], d.a[0].split('::')[0])]
        if it in ('as_bytes', 'into_bytes', 'to_vec', 'as_slice', 'to_byte_array', 'from_byte_array', 'as_inner', 'as_ref'):
            return bytes_of(d.a[1][0])
        if it in ('finalize', 'finish'):
            return [('digest', tuple(hash_chain(d.a[1][0])))]
        if it == 'digest' and len(d.a[1]) == 1: return [('digest', tuple(bytes_of(d.a[1][0])))]
    if d.op == 'coll':
        base, src, items, how = d.a
        if how == 'push' and len(items) == 1:
            it = items[0]
            if it.op == 'elem' and it.a[0] is src: return bytes_of(base) + bytes_of(src)
            return bytes_of(base) + [('each', src, ((('byte', strip_cast(it)),),))]
    if d.op == 'adt' and len(d.a[2]) == 1: return bytes_of(d.a[2][0])
    return [('bytes', d)]


def strip_cast(x):
    return x.a[1] if x.op == 'cast' else x


def show(pieces):
    r = []
    for p in pieces:
        if p[0] == 'each': r.append(f'each[{pp(p[1])}]{{{" | ".join(show(a) for a in p[2])}}}')
        elif p[0] == 'digest': r.append(f'digest({show(p[1])})')
        else: r.append(f'{p[0]}:{" ".join(pp(x) if isinstance(x, T) else str(x) for x in p[1:])}')
    return ', '.join(r)


def has_unknown(pieces):
    for p in pieces:
        if p[0] == '?': return True
        if p[0] == 'each' and any(has_unknown(a) for a in p[2]): return True
        if p[0] == 'digest' and has_unknown(p[1]): return True
        if any(isinstance(x, T) and fuzzy(x) for x in p[1:]): return True
    return False


def norm_each(t):
    """rename loop indices inside terms so that they can be compared"""
    m = {}
    for x in walk(t):
        if x.op in ('elem', 'pos') and x.a[1] != 0:
            pass
    return renum(t)


def renum(t, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, T):
        r = memo.get(t)
        if r is None:
            if t.op in ('elem', 'pos', 'done'): r = T(t.op, renum(t.a[0], memo), '_')
            else:
                na = tuple(renum(x, memo) for x in t.a)
                r = T(t.op, *na)
            memo[t] = r
        return r
    if isinstance(t, tuple): return tuple(renum(x, memo) for x in t)
    return t


def mentions_norm(pieces):
    """all terms mentioned by the pieces, renumbered"""
    s = set()
    def go(x):
        if isinstance(x, T):
            for y in walk(renum(x)): s.add(y)
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(tuple(pieces))
    return s


def compare_pieces(got, exp):
    """-> (verdict, text)"""
    g, e = renum(tuple(got)), renum(tuple(exp))
    if g == e: return True, show(g)
    if has_unknown(g):
        have = mentions_norm(g)
        miss = [x for x in leaves_of(e) if x not in have]
        if miss: return False, f'never fed: {", ".join(pp(x) for x in miss)}; fed: {show(g)}'
        return None, f'cannot resolve: {show(g)}'
    return False, f'fed: {show(g)}; expected: {show(e)}'


def leaves_of(pieces):
    r = []
    for p in pieces:
        if p[0] == 'each':
            for a in p[2]: r.extend(leaves_of(a))
        elif p[0] == 'digest': r.extend(leaves_of(p[1]))
        else:
            for x in p[1:]:
                if isinstance(x, T) and x.op != 'int': r.append(x)
    return r


def norm(t, memo=None):
    """Normal form of a result: fallible translations of a part are `tr(part)`, kinds of empty containers do not matter."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        if not isinstance(x, T): return x
        r = memo.get(x)
        if r is not None: return r
        if x.op == 'fld' and x.a[1] == 'Ok' and is_call(x.a[0], 'translate'): r = T('tr', go(x.a[0].a[1][0]))
        elif x.op == 'empty': r = T('empty', '')
        elif x.op in ('elem', 'pos', 'done') : r = T(x.op, go(x.a[0]), '_')
        else:
            na = tuple(go(y) for y in x.a)
            r = T(x.op, *na)
        memo[x] = r
        return r
    return go(t)


def oks(outs):
    """(path, value) for paths returning Ok(value) / Err"""
    for o in outs:
        if o.k == 'ret' and o.v.op == 'adt' and o.v.a[0].endswith('result::Result') and o.v.a[1] == 'Ok': yield o, o.v.a[2][0]


def ety(rep, name):
    """full path of a type of the crate by its short name"""
    for n in rep.p.adts:
        if n.split('::')[-1] == name and not n.startswith(('core::', 'std::', 'alloc::')): return n
    return name


def fulladt(rep, name, var, *fields): return T('adt', ety(rep, name), var, tuple(fields))


PURE_CALLS = {'len', 'get', 'translate', 'into_code', 'cmp', 'min', 'max', 'to_string', 'as_bytes', 'is_ascii', 'byte_size', 'sem_id_named',
              'sem_id_unnamed', 'id', 'chars_count', 'first', 'last', 'lookup', 'default', 'strict_name', 'is_empty', 'to_le_bytes', 'decode', 'find',
              'type_refs', 'to_ident', 'into_ident', 'to_vec', 'skip_wrapper', 'trim', 'from_utf8', 'from_utf8_lossy', 'nth'}


def resolved(t, extra=()):
    """every part of the term has a known meaning"""
    for x in walk(t):
        if x.op in OPAQUE_OPS or x.op in ('after', 'upd', 'partial', 'fold', 'static', 'const'): return False
        if x.op == 'call' and x.a[0].split('::')[-1] not in PURE_CALLS and x.a[0].split('::')[-1] not in extra: return False
        if x.op in ('clo', 'fnval'): return False
    return True


def maximal(t):
    """the field paths and symbols mentioned, without the bases of field accesses"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, tuple):
            for y in x: go(y)
            return
        if not isinstance(x, T) or x in seen: return
        seen.add(x)
        if x.op == 'fld':
            out.add(x)
            b = x.a[0]
            while b.op == 'fld': b = b.a[0]
            if b.op != 'sym':
                for y in b.a: go(y)
            return
        if x.op == 'sym': out.add(x)
        for y in x.a: go(y)
    go(t)
    return out


def same_value(got, exp, extra=()):
    """True / False / None (cannot tell)"""
    g, e = norm(got), norm(exp)
    if g is e: return True
    if resolved(g, extra) : return False
    have = maximal(g)
    allg = set(walk(g))
    for leaf in maximal(e):
        if leaf.op == 'sym' or leaf in allg: continue
        b, cover = leaf, False
        while b.op == 'fld':
            b = b.a[0]
            if b in have: cover = True
        if not cover: return False
    return None


def expect(rep, key, got, exp, where='', extra=()):
    v = same_value(got, exp, extra)
    rep.tri(key, v, '' if v else f'gives {pp(norm(got))[:700]}, expected {pp(norm(exp))[:400]}', where)
    return v


def res_parts(o):
    """('Ok'|'Err'|None, value) of a result of a path"""
    if o.k == 'ret' and o.v is not None and o.v.op == 'adt' and o.v.a[0].split('::')[-1] in ('Result', 'Option'):
        return o.v.a[1], (o.v.a[2][0] if o.v.a[2] else None)
    return None, None


def refs_iter(prog):
    """Model of the iteration over the references of a type (A03 shows that it visits each of them): a plain sequence
    `type_refs(ty)`."""
    def mk(eng, fr, args, st, ctx):
        v = eng.deref_val(args[0], st) if args[0].op == 'ptr' else args[0]
        return M.ret(T('iter', T('call', 'type_refs', (v,), '')), st)

    def over(owner, item, self_ty, fn):
        if fn is None or fn.crate != prog.crate: return None
        sn = prog.self_name(fn) or ''
        if sn in ('Iter', 'IntoIter') and item == 'next': return M.m_next
        if sn in ('Iter', 'IntoIter') and item == 'from': return mk
        if sn.lstrip('&').split('<')[0].split('::')[-1] == 'Ty' and item in ('type_refs', 'iter', 'into_iter'): return mk
        return None
    return over
