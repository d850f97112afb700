#!/usr/bin/env python3
"""probe.py FILE.. [--each] [--tests]: FILE defines PROBES = [(id, props, edits)].
Equivalence probes (id starting with 'r') are applied together (unless --each) and all checks must stay quiet;
bug probes (id starting with 'b') are applied one by one and the named checks must report."""
import json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = ['C%02d' % i for i in range(1, 60)]


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, **k)


def claimed():
    return [c['property'] if 'property' in c else c['id'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]


def tree(w, edits):
    repo = tempfile.mkdtemp(dir=w)
    sh('git -C /repo archive HEAD | tar x -C %s; cp /repo/Cargo.lock %s/ 2>/dev/null' % (repo, repo))
    for f, a, b in edits:
        s = open(repo + '/' + f).read()
        if s.count(a) != 1:
            return None, 'EDIT does not apply %s %d: %s' % (f, s.count(a), a[:60])
        open(repo + '/' + f, 'w').write(s.replace(a, b))
    facts = repo + '/facts'
    p = sh([HERE + '/extract.sh', facts], env=dict(os.environ, CBM_REPO=repo))
    if p.returncode:
        return None, 'does not compile\n' + '\n'.join(l for l in p.stderr.splitlines() if 'error' in l or '-->' in l)[:1500]
    return repo, facts


def check(a):
    prop, facts = a
    p = sh([sys.executable, 'check.py', prop, '--facts', facts], HERE)
    ls = [l for l in p.stdout.splitlines() if l.startswith(('violation', 'undecided', 'VIOLATION', 'Traceback'))]
    return prop, p.returncode, ls, p.stdout.splitlines()[-1:] + p.stderr.splitlines()[-2:]


def tests(w, repo):
    t = open('/opt/vp/test.sh').read().replace('/repo', repo).replace('. /opt/vp/env.sh', '. %s/env.sh' % repo)
    open(repo + '/test.sh', 'w').write(t)
    open(repo + '/env.sh', 'w').write(open('/opt/vp/env.sh').read().replace('/repo', repo))
    sh('cp -a /repo/target %s/target' % repo)
    sh('bash %s/test.sh %s/out.json' % (repo, repo))
    try:
        o = json.load(open(repo + '/out.json'))
    except Exception:
        return 'build failed'
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(o.get('passed', o if isinstance(o, list) else []))
    miss = [b for b in base if b not in passed]
    return 'tests pass' if not miss else 'BREAKS TESTS %s' % [m.split('::')[-1] for m in miss]


def main():
    each, dt = '--each' in sys.argv, '--tests' in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith('-k')]
    props = [a[2:] for a in sys.argv if a.startswith('-p')]
    w = tempfile.mkdtemp(prefix='probe.')
    try:
        ps = []
        for f in sys.argv[1:]:
            if not f.startswith('-'):
                d = {}
                exec(open(f).read(), d)
                ps += [p for p in d['PROBES'] if not only or p[0] in only]
        refs = [p for p in ps if p[0].startswith('r')]
        bugs = [p for p in ps if p[0].startswith('b')]
        groups = [[p] for p in refs] if each else ([refs] if refs else [])
        for g in groups:
            repo, facts = tree(w, [e for p in g for e in p[2]])
            nm = ','.join(p[0] for p in g)
            if repo is None:
                print('REF', nm, facts)
                continue
            pr = props or (sorted({c for p in g for c in p[1]}) if each and all(p[1] for p in g) else claimed())
            print('REF', nm, tests(w, repo) if dt else '')
            with ThreadPoolExecutor(3) as ex:
                for prop, rc, ls, last in ex.map(check, [(c, facts) for c in pr]):
                    bad = rc != 0 or ls
                    if bad:
                        print('  %s rc=%d %s' % (prop, rc, last if rc not in (0, 1) else ''))
                        for l in ls[:12]:
                            print('     ', l[:330])
            shutil.rmtree(repo)
            sys.stdout.flush()

        def bug(p):
            repo, facts = tree(w, p[2])
            if repo is None:
                return p, facts, None, ''
            out = [check((c, facts)) for c in (props or p[1])]
            t = tests(w, repo) if dt else ''
            shutil.rmtree(repo)
            return p, None, out, t
        with ThreadPoolExecutor(4) as ex:
            for p, err, out, t in ex.map(bug, bugs):
                if err:
                    print('BUG', p[0], err)
                    continue
                print('BUG', p[0], t, ' '.join('%s:%s' % (c, {0: 'MISSED', 1: 'caught'}.get(rc, 'rc%d' % rc)) for c, rc, _, _ in out))
                for c, rc, ls, last in out:
                    if rc != 1 or '-v' in sys.argv:
                        for l in ls[:4]:
                            print('     ', c, l[:300])
                sys.stdout.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    main()
