"""K04: armored texts; K07: files written."""
from .common import *
from .tables import *
from .printed import tokens, part, template, failing

S = sym('self')
LABELS = ('Id', 'Check-SHA256')


def same(a, b): return canon(norm(a)) is canon(norm(b))


def inherent(rep, ty, item):
    fs = [f for f in rep.p.find(ty, item) if not f.j.get('trait') and not f.j.get('in_trait')]
    if len(fs) == 1: return fs[0]
    if not fs: rep.bad(f'anchor:{ty}.{item}', 'anchored function is missing')
    return None


def values_of(outs):
    if outs is None: return None
    r = {canon(norm(o.v)) for o in outs if o.k == 'ret'}
    return r if r and not any(fuzzy(x) for x in r) else None


def ids(rep, ty):
    f, outs = rep.run(ty, 'armor_id', trait='StrictArmor', opts=dict(opaque=('id',)))
    if outs is None: return
    vs = values_of(outs)
    want = lambda t: is_call(t, 'id') and f'::{ty}' in '::' + t.a[0].replace('<', '::') and same(t.a[1][0], S)
    if vs and all(want(t) for t in vs): return rep.ok(f'{ty}:id', '', f.where())
    g = inherent(rep, ty, 'id')
    a, b = values_of(rep.paths_of(f)), values_of(rep.paths_of(g)) if g else None
    rep.tri(f'{ty}:id', None if a is None or b is None else True if a == b else False,
            f'the id stated by the armor of {ty} is {", ".join(pp(x)[:100] for x in (vs or a or ()))} and not the id of the content', f.where())


def header(t):
    """(title, [values] | None) of a header, None if unknown"""
    t = canon(t)
    if t.op == 'adt' and t.a[0].endswith('ArmorHeader'):
        return None
    if t.op != 'call' or len(t.a[1]) != 2: return None
    title, v = canon(t.a[1][0]), canon(t.a[1][1])
    if LAST(t.a[0]) not in ('new', 'with') or 'ArmorHeader' not in t.a[0] or title.op != 'str': return None
    if LAST(t.a[0]) == 'new': return title.a[0], [v]
    return title.a[0], list(v.a[0]) if v.op == 'arr' else v


def headers_of(t):
    """headers pushed into a vector"""
    t = canon(t)
    if t.op == 'push' or is_call(t, 'push'):
        a = headers_of(t.a[0] if t.op == 'push' else t.a[1][0])
        h = header(t.a[1] if t.op == 'push' else t.a[1][1])
        return None if a is None or h is None else a + [h]
    if t.op == 'arr':
        r = [header(x) for x in t.a[0]]
        return None if None in r else r
    if t.op == 'empty': return []
    return None


def shown(t):
    """what a text shows, if it is the plain form of a value"""
    f = format_parts(t)
    p = f[0] if f and len(f) == 1 else part(t, '')
    return canon(p[1]) if isinstance(p, tuple) and p[2] in ('', 'f') else None


def is_text(t, of):
    p = shown(t)
    return p is not None and same(p, of)


def each_text(t, src):
    """all items of a collection as texts: True / False / None"""
    t = canon(t)
    if is_call(t, 'iter') or is_call(t, 'into_iter') or is_call(t, 'collect'): return each_text(t.a[1][0], src)
    if t.op == 'iter': return each_text(t.a[0], src)
    if t.op == 'map' and len(t.a) == 2:
        fn = t.a[1]
        if same(strip_seq(canon(t.a[0])), src) and fn.op == 'fnval' and 'to_string' in str(fn.a[0]): return True
        return None
    if t.op == 'coll' and t.a[0].op == 'empty':
        its = list(t.a[2])
        if same(strip_seq(canon(t.a[1])), src) and len(its) == 1 and shown(its[0]) is not None and shown(its[0]).op in ('elem', 'each'): return True
        if same(strip_seq(canon(t.a[1])), src) and len(its) == 1 and shown(its[0]) is not None and shown(its[0]).op == 'fld' and shown(its[0]).a[0].op in ('elem', 'each'): return False
        if t.op == 'coll' and any(x.op in ('first-n', 'but-n', 'rest', 'front') for x in walk(t.a[1])) and mentions(t.a[1], src): return False
    return None


def joined(t, src):
    """texts of all the items of a collection in one line: True / False / None"""
    t = canon(t)
    if is_call(t, 'join') and len(t.a[1]) == 2:
        sep = canon(t.a[1][1])
        if sep.op != 'str': return None
        if '\n' in sep.a[0]: return False
        if ',' not in sep.a[0]: return False
        return each_text(t.a[1][0], src)
    return None


def K04(rep):
    """The id stated by the armor must be the id computed from the whole content; titles differ; the headers are those of the
    content, one line each (the parser of the armor reads headers line by line), under titles not reserved by the armor."""
    titles = {}
    for ty in ('TypeLib', 'TypeSystem', 'SymbolicSys'):
        ids(rep, ty)
        cs = [v for k, v in rep.p.consts.items() if k.endswith('::PLATE_TITLE') and f'::{ty} as' in k.replace('<', '::') or k.endswith('PLATE_TITLE') and k.rstrip('>').split('>::')[0].endswith(f'::{ty}')]
        if len(cs) != 1 or 'str' not in cs[0]:
            rep.bad(f'{ty}:title', f'{ty} has no armor title')
            continue
        t = cs[0]['str']
        rep.check(f'{ty}:title', bool(t.strip()) and '\n' not in t and t == t.strip() and '-----' not in t, f'title {t!r} cannot be told from the frame of the armor')
        titles.setdefault(t, []).append(ty)
        over = rep.p.find(ty, 'parse_armor_headers', trait='StrictArmor')
        if over: accepting(rep, ty, over[0])
        hs = rep.p.find(ty, 'armor_headers', trait='StrictArmor')
        if hs: headers(rep, ty, hs[0], ty == 'TypeLib')
        elif ty == 'TypeLib': rep.bad('TypeLib:headers', 'the armor of a library states neither its name nor its dependencies')
    for t, tys in titles.items(): rep.check(f'titles:{t}', len(tys) == 1, f'the same title {t!r} is used for {", ".join(tys)}')
    rep.floor('armored', len(titles), 3, 'kinds of armored content')


def accepting(rep, ty, f):
    outs = rep.paths_of(f, names=['self', 'headers'])
    if outs is None: return
    v = True
    for o in outs:
        if o.k == 'panic' or contradictory(o) or o.k == 'ret' and not is_ok(o.v): v = None
        if o.st.facts and any(mentions(k, S) for k in o.st.facts): v = None
    rep.tri(f'{ty}:accepts', v, f'{ty} does its own checks of headers', f.where())


def is_ok(v): return v is not None and v.op == 'adt' and v.a[1] == 'Ok'


def headers(rep, ty, f, full):
    outs = rep.paths_of(f)
    if outs is None: return
    deps, name = fldp(S, 'dependencies'), fldp(S, 'name')
    verdicts = {}

    def say(k, v, text=''):
        o = verdicts.get(k, (True, ''))
        if o[0] is False: return
        if v is False or v is None and o[0]: verdicts[k] = (v, text)
        else: verdicts.setdefault(k, o)
    for o in outs:
        if o.k != 'ret' or contradictory(o):
            if o.k == 'panic' and not contradictory(o): say('headers', None, 'may panic')
            continue
        hs = headers_of(o.v)
        if hs is None:
            say('headers', None, f'headers are {pp(o.v)[:120]}')
            continue
        names = [h[0] for h in hs]
        say('reserved', not set(names) & set(LABELS) and len(set(names)) == len(names), f'headers {", ".join(names)} are not distinct from those of the armor')
        say('titles', not any(c in n for n in names for c in ':\n;'), f'header titles {names} cannot be parsed')
        for n, vs in hs:
            if not isinstance(vs, list): say('lines', False, f'header {n} takes a line for each of several values ({pp(vs)[:80]}), which the parser of the armor rejects')
            elif len(vs) != 1: say('lines', False, f'header {n} has {len(vs)} values and takes more than one line')
            else: say('lines', True)
        if not full: continue
        by = dict(hs)
        if 'Name' not in by: say('name', False if known_conditions(o) else None, 'the name is not stated')
        elif isinstance(by['Name'], list) and len(by['Name']) == 1:
            v = by['Name'][0]
            say('name', True if is_text(v, name) else False if resolved(v) and not fuzzy(v) else None, f'the name stated is {pp(v)[:100]}')
        empty = all(Model({canon(T('call', 'len', (deps,), '')): n}).path(o) is False for n in (1, 2, 3))
        if 'Dependencies' in by:
            vs = by['Dependencies']
            v = joined(vs[0], deps) if isinstance(vs, list) and len(vs) == 1 else each_text(vs, deps) if not isinstance(vs, list) else None
            say('dependencies', v, f'the dependencies stated are {pp(vs[0] if isinstance(vs, list) else vs)[:120]}')
        elif not empty: say('dependencies', False if known_conditions(o) else None, 'the dependencies are not stated')
    for k, (v, text) in verdicts.items(): rep.tri(f'{ty}:{k}', v, text, f.where())


# ------------------------------------------------------------------ files
NEUTRAL = ('default', 'id', 'format', 'push', 'join', 'to_owned', 'as_ref', 'name', 'new', 'with', 'to_symbolic', 'unwrap_or_default', 'stdout', 'create', 'to_ascii_armored_string', 'display_ascii_armored', 'to_path_buf', 'from', 'flush', 'lock', 'into')


def format_parts(t):
    """tokens of a formatted text"""
    t = canon(t)
    if is_call(t, 'format') and len(t.a[1]) == 1:
        a = canon(t.a[1][0])
        if is_call(a, 'new') and len(a.a[1]) == 2 and a.a[1][0].op == a.a[1][1].op == 'arr': return template(a.a[1][0], [canon(y) for y in a.a[1][1].a[0]])
        return None
    return None


def pieces(o):
    """what a path writes into the file: tokens, or ('encode', value, limit)"""
    r = []
    for e in o.st.events():
        if e.k == 'loop': return None
        if e.k != 'call': continue
        n = LAST(e.name)
        if n == 'write_fmt':
            x = tokens([e])
            if x is None: return None
            r += x
        elif n in ('strict_encode', 'strict_write') and len(e.args) >= 2:
            lim = [x.a[2][1] for x in walk(e.args[1]) if x.op == 'adt' and x.a[0].endswith('ConfinedWriter') and len(x.a[2]) == 3]
            r.append(('encode', canon(e.args[0]), lim[0].a[0] if lim and lim[0].op == 'int' else None))
        elif n not in NEUTRAL: return None
    return r


def target(o):
    """parts of the name of the file created, [] if none, None if unknown"""
    cr = [e for e in o.st.events() if e.k == 'call' and LAST(e.name) in ('create', 'create_new', 'open')]
    if not cr: return []
    if len(cr) != 1 or len(cr[0].args) < 1: return None
    fm = list({canon(x): 1 for x in walk(cr[0].args[-1]) if is_call(x, 'format')})
    if not fm and any(same(x, fldp(sym('dir'), 'Some', '0')) for x in [cr[0].args[-1]]): return ['dir']
    if len(fm) != 1: return None
    return format_parts(fm[0])


WRITES = ('write_fmt', 'strict_encode', 'strict_write', 'create', 'write_all')


def unchecked(o, returned=None):
    """operations whose failure is not looked at on a path"""
    r = []
    for e in o.st.events():
        if e.k == 'call' and LAST(e.name) in WRITES:
            hits = (returned is not None and LAST(returned.a[0]) == LAST(e.name)) + sum(1 for k, v in o.st.facts.items() if v == 'Ok' and k.op == 'discr' and k.a[0].op == 'call' and LAST(k.a[0].a[0]) == LAST(e.name))
            total = sum(1 for x in o.st.events() if x.k == 'call' and LAST(x.name) == LAST(e.name))
            if hits < total: r.append(LAST(e.name))
    return sorted(set(r))


def K07(rep):
    """For each format and destination the sequence of writes on every path is compared with the content the format stands for, and
    the failure of each of them must be reported."""
    lib_file(rep, 'TypeLib', fldp(S, 'name'), True)
    lib_file(rep, 'SymbolicLib', None, False)


def letters(ts):
    """splits tokens into parts and the texts between them"""
    r, text = [], ''
    for t in ts:
        if isinstance(t, str): text += t
        else:
            r += [text, t]
            text = ''
    return r + [text]


def lib_file(rep, ty, name, formats):
    f = inherent(rep, ty, 'serialize')
    if f is None: return
    names = ['self', 'format', 'dir', 'ver', 'header'] if formats else ['self', 'dir', 'ver', 'header']
    outs = rep.paths_of(f, names=names, opaque=('fmt', 'id', 'to_symbolic', 'strict_encode', 'strict_write', 'to_ascii_armored_string', 'serialize'))
    if outs is None: return
    D = lambda t: T('discr', t, '')
    dir_, fmt_, hdr, ver = sym('dir'), sym('format'), sym('header'), sym('ver')
    libname = lambda t: name is not None and same(t, name) or name is None and (same(t, fldp(S, 'name')) or is_call(t, 'name') and same(t.a[1][0], S))
    V = {}

    def say(k, v, text=''):
        o = V.get(k, (True, ''))
        if o[0] is False: return
        if v is False or v is None and o[0]: V[k] = (v, text)
        else: V.setdefault(k, o)

    def fact(o, t):
        for k, v in o.st.facts.items():
            if k.op == 'discr' and same(k.a[0], t): return v
        return None
    for o in outs:
        if o.k != 'ret' or contradictory(o): continue
        form = fact(o, fmt_) if formats else 'Source'
        where = fact(o, dir_)
        last = o.v is not None and o.v.op == 'call' and LAST(o.v.a[0]) in WRITES
        if not is_ok(o.v) and not last:
            if o.v is not None and o.v.op == 'adt' and o.v.a[1] == 'Err':
                errs = any(v == 'Err' for k, v in o.st.facts.items() if k.op == 'discr')
                say('errors', True if errs else None, 'fails although every operation succeeded')
            continue
        lost = unchecked(o, o.v if last else None)
        say('errors', False if lost else True, f'reports success without looking at the result of {", ".join(lost)}')
        if form is None or where not in ('None', 'Some'):
            say('cases', None, 'format or destination is not told apart')
            continue
        tg = target(o)
        if where == 'None': say('destination', True if tg == [] else None, 'creates a file when none is asked for')
        elif tg is None: say('destination', None, 'the name of the file is not known')
        elif not tg: say('destination', False if known_conditions(o) else None, 'does not create the file asked for')
        else:
            x = letters(tg)
            ext = ('x', ) if formats else ()
            good = len(x) == (7 if formats else 5) and x[0] == '' and libname(x[1][1]) and x[2] == '@' and same(x[3][1], ver) and \
                (x[4] == '.' and same(x[5][1], fmt_) and x[6] == '' if formats else x[4] == '.sty')
            if not good and len(x) == 5 and formats: good = x[0] == '' and libname(x[1][1]) and x[2] == '@' and same(x[3][1], ver) and x[4] == {'Source': '.sty', 'Binary': '.stl', 'Armored': '.sta'}.get(form)
            say('destination', True if good else False if all(isinstance(y, str) or resolved(y[1]) for y in x) else None,
                f'names the file {"".join(y if isinstance(y, str) else "{" + pp(y[1])[:40] + "}" for y in x)!r}')
        ps = pieces(o)
        key = form.lower()
        if ps is None:
            say(key, None, 'writes in an unknown way')
            continue
        enc = [p for p in ps if p[0] == 'encode' and isinstance(p, tuple)]
        if form == 'Binary':
            good = len(ps) == 1 and len(enc) == 1
            say(key, good and same(enc[0][1], S) if good or all(isinstance(p, str) or p[0] in ('arg', 'encode') for p in ps) else None, f'writes {ps!r:.120}')
            if good: say('limit', None if enc[0][2] is None else enc[0][2] >= (1 << 24) - 1, f'binary files are limited to {enc[0][2]} bytes')
            continue
        if enc:
            say(key, False, 'writes binary data into a text')
            continue
        x = letters(ps)
        args = [y[1] for y in x[1::2]]
        if form == 'Armored':
            a = args[0] if len(args) == 1 else None
            good = a is not None and (is_call(a, 'to_ascii_armored_string') or is_call(a, 'display_ascii_armored')) and same(a.a[1][0], S) and not (x[0] + x[2]).strip()
            say(key, True if good else False if all(resolved(y, ('to_ascii_armored_string',)) for y in args) else None, f'writes {"".join(y if isinstance(y, str) else "{" + pp(y[1])[:40] + "}" for y in x)!r}')
            continue
        labels = [''.join(c for c in y.split('\n')[-1] if c.isalpha()) for y in x[0::2]]
        roles = []
        for y, a in zip(labels, args):
            if is_call(a, 'id') and same(a.a[1][0], S): roles.append(('id', y))
            elif libname(a): roles.append(('name', y))
            elif same(a, ver): roles.append(('ver', y))
            elif same(a, fldp(hdr, 'Some', '0')) or a.op == 'fld' and same(a.a[0], hdr): roles.append(('header', y))
            elif mentions(a, hdr) or is_call(a, 'default'): roles.append(('header?', y))
            elif is_call(a, 'unwrap_or_default') and same(a.a[1][0], hdr): roles.append(('header', y))
            elif a.op == 'fld' and a.a[1] == 'Ok' and is_call(a.a[0], 'to_symbolic') and same(a.a[0].a[1][0], S): roles.append(('source', y))
            elif not formats and same(a, S): roles.append(('source', y))
            else: roles.append((None if fuzzy(a) or not resolved(a) else pp(a)[:60], y))
        kinds = [r for r, _ in roles]
        if None in kinds:
            say(key, None, 'writes an unknown part')
            continue
        have_header = fact(o, hdr)
        must = (['id'] if formats else []) + ['name', 'ver']
        for k in must: say(f'{key}:{k}', kinds.count(k) == 1 and dict(roles)[k].lower().startswith({'ver': 'version'}.get(k, k)), f'the {k} is shown {kinds.count(k)} times, as {[y for r, y in roles if r == k]}')
        if have_header == 'Some': say(f'{key}:header', True if kinds.count('header') == 1 else None if 'header?' in kinds else False, 'the header given is not written')
        say(f'{key}:source', kinds.count('source') == 1 and kinds[-1] == 'source', f'writes {kinds}')
        extra = [k for k in kinds if k not in ('id', 'name', 'ver', 'header', 'header?', 'source')]
        say(f'{key}:parts', not extra, f'writes {extra}')
        before = ''.join(y if isinstance(y, str) else 'x' for y in x[:-2]) if len(x) > 2 else ''
        say(f'{key}:comment', before.strip().startswith('{-') and before.strip().endswith('-}'), 'what precedes the source is not a comment')
    for k, (v, text) in V.items(): rep.tri(f'{ty}:{k}', v, text, f.where())
    want = {'destination', 'errors'} | ({'binary', 'armored', 'source:source', 'source:id', 'source:name', 'source:ver', 'limit'} if formats else {'source:source', 'source:name', 'source:ver'})
    for k in sorted(want - set(V)):
        if not any(v is None for v, _ in V.values()): rep.bad(f'{ty}:{k}', 'nothing is written for this case', f.where())
