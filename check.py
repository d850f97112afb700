#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current tree."""
import json, os, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def load_rules():
    import importlib, pkgutil
    import analyzer.rules as rr
    for m in sorted(pkgutil.iter_modules(rr.__path__), key=lambda m: m.name):
        importlib.import_module('analyzer.rules.' + m.name)


FACTS = {}


def work(a):
    path, prop, idx, tier, listed = a
    from analyzer import core
    from analyzer.facts import Facts
    if not core.RULES:
        load_rules()
    crate = getattr(core.RULES[prop][idx][1], 'crate', 'cbm')
    f = os.path.join(path, crate + '.json')
    if f not in FACTS:
        FACTS[f] = Facts(f)
    return core.run_rule(FACTS[f], prop, idx, tier, listed)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    nofacts = '--facts' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from analyzer import core
    load_rules()
    if prop not in core.RULES:
        print('no rules for', prop)
        return 2
    if nofacts:
        d = sys.argv[sys.argv.index('--facts') + 1]
    else:
        os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
        d = tempfile.mkdtemp(prefix='facts.', dir=os.path.join(HERE, 'build'))
        p = subprocess.run([os.path.join(HERE, 'extract.sh'), d], capture_output=True, text=True)
        if p.returncode != 0:
            sys.stderr.write(p.stderr[-3000:])
            print('the tree does not compile; nothing analysed')
            shutil.rmtree(d, ignore_errors=True)
            return 2
    known = []
    kf = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                known.append(line[len('finding: property=%s ' % prop):])
    t1 = time.time()
    try:
        jobs = [(d, prop, i, tier, [k.split(' ## ')[0] for k in known]) for i, (n, _, _) in enumerate(core.RULES[prop]) if only is None or only in n]
        if len(jobs) == 1:
            res = [work(jobs[0])]
        else:
            with ProcessPoolExecutor(max_workers=min(8, len(jobs))) as ex:
                res = list(ex.map(work, jobs))
    finally:
        if not nofacts:
            shutil.rmtree(d, ignore_errors=True)
    viol, kn = [], []
    for r in res:
        for c, m in r['violations']:
            text = '%s | %s | %s' % (r['rule'], c, m)
            hit = [k for k in known if text.startswith(k.split(' ## ')[0])]
            (kn if hit else viol).append(text)
    obs = [o for r in res for o in r['obligations']]
    und = ['%s: %s' % (r['rule'], u) for r in res for u in r['undecided']]
    fns = sorted({f for r in res for f in r['functions']})
    rep = os.path.join(HERE, 'evidence', prop + '.json')
    level, note = 'proof', ''
    for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
        if c['property'] == prop:
            level, note = c['level'], c['level_note']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'violations': len(viol), 'wall_s': round(time.time() - t0, 2),
          'coverage': {
              'obligations': len(obs) + len(viol) + len(kn) + len(und), 'discharged': len(obs),
              'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier),
              'trusted_base': ['rustc nightly MIR construction', '/verif/driver MIR export', 'abstract semantics in /verif/analyzer (engine, std models)'],
              'explanation': note,
              'rules': [{'rule': r['rule'], 'what': r['doc'], 'discharged': len(r['obligations']), 'violated': len(r['violations']),
                         'undecided': len(r['undecided']), 'functions': len(r['functions']), 'blocks_interpreted': r['blocks'],
                         'unmodelled': r['unmodelled'][:12], 'seconds': r['seconds'],
                         'sample': r['obligations'][:4]} for r in res],
              'functions_analysed': len(fns), 'function_names': fns if os.environ.get('CBM_COVER') else fns[:80],
              'undecided': und[:40], 'violations': viol[:40], 'known_findings': kn}}
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    with open(rep, 'w') as f:
        json.dump(ev, f, indent=1)
    if '-v' in sys.argv:
        for r in res:
            print('%-40s ok %3d bad %d und %d  %6.1fs %d blocks %s' % (r['rule'], len(r['obligations']), len(r['violations']), len(r['undecided']), r['seconds'], r['blocks'], r['unmodelled'][:3]))
    for u in und[:12 if '-v' in sys.argv else 5]:
        print('undecided:', u[:700])
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for v in list(dict.fromkeys(viol))[:8]:
        print('violation:', v[:400])
    print('%s: %d obligations discharged, %d violated, %d known, %d undecided, %d functions, %.1fs (extraction %.1fs)' % (
        prop, len(obs), len(viol), len(kn), len(und), len(fns), time.time() - t0, t1 - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
