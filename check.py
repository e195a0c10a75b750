#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decides one property by static analysis of /repo's current source."""
import argparse, importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True


def known():
    r = {}
    p = os.path.join(V, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: '):
                w = ln.split(None, 3)
                r[(w[1].split('=', 1)[1], w[2].split('=', 1)[1])] = w[3].strip() if len(w) > 3 else ''
    return r


def run(prop, tier, prog=None, quiet=False):
    from sa import build
    from sa.rules import RULES
    from sa.rules.common import Report
    t0 = time.time()
    if prog is None: prog = build.load()
    rule = RULES[prop]
    rep = Report(prop, prog)
    rep.tier = tier
    try: rule(rep)
    except Exception as e:      # code of an unforeseen shape: what was decided up to here counts
        import traceback
        if os.environ.get('VERBOSE'): traceback.print_exc()
        rep.unknown('rule', f'the rule gave up: {type(e).__name__} {e} at {traceback.extract_tb(e.__traceback__)[-1].lineno}')
    if len(prog.local()) < 1000: rep.bad('floor:functions', f'only {len(prog.local())} functions of the crate were resolved')
    kf = known()
    viol, kn, unk, okc = [], [], [], 0
    seen = set()
    for key, status, text, where in rep.obl:
        if status == 'ok': okc += 1
        elif status == 'unknown': unk.append((key, text, where))
        elif (prop, key) in kf:
            if key not in seen: kn.append((key, kf[(prop, key)]))
            seen.add(key)
        else: viol.append((key, text, where))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {
              'explanation': (rule.__doc__ or '').strip() or prop,
              'obligations': len(rep.obl), 'discharged': okc, 'undecided': len(unk), 'known_findings': len(kn),
              'functions_analysed': len(rep.fns), 'abstract_paths': rep.paths,
              'call_sites': rep.sites, 'crate_functions_resolved': len(prog.local()),
              'source_digest': getattr(prog, 'hash', ''),
              'functions': sorted(x for x in rep.fns)[:60],
              'obligation_keys': [f'{k}: {s}' for k, s, _, _ in rep.obl][:400],
              'undecided_list': [f'{k}: {t}'[:500] for k, t, _ in unk][:60],
          },
          'assumptions': ['models of std, amplify and strict_encoding functions in sa/models.py',
                          'the dumped MIR is that of the library built with all features'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, w in kn: print(f'KNOWN-FINDING: property={prop} {k}: {w}')
    if viol:
        rp = os.path.join(V, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as f:
            for k, t, w in viol: f.write(f'[{k}] {w}\n    {t}\n')
        for k, t, w in viol[:20]: print(f'  {prop} [{k}] {w}: {t[:900]}')
        print(f'VIOLATION property={prop} replay={rp}')
    if not quiet:
        print(f'{prop}: {len(rep.obl)} obligations, {okc} discharged, {len(unk)} undecided, {len(kn)} known, {len(viol)} violated; '
              f'{len(rep.fns)} functions, {rep.paths} paths, {time.time() - t0:.1f}s')
        if os.environ.get('VERBOSE'):
            for k, s, t, w in rep.obl: print('   ', s, k, w, t[:600])
        elif unk:
            for k, t, w in unk[:10]: print('    undecided', k, t[:300])
    return 1 if viol else 0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.prop == 'ALL':
        from sa import build
        from sa.rules import RULES
        prog = build.load()
        rc = 0
        for pid in sorted(RULES):
            try: rc |= run(pid, a.tier, prog)
            except Exception:
                traceback.print_exc()
                rc |= 2
        sys.exit(rc)
    sys.exit(run(a.prop, a.tier))
