#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (rust test body module text)
or DEMO_SH.  Builds seeded/<ID>, verifying it in a scratch copy of /repo; then runs check.py PROP against it."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Unit-style demonstration: copies ./src to a scratch crate, adds demo.rs as a test module, runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
S="$(mktemp -d)"; trap 'rm -rf "$S"' EXIT
cp -r src "$S/src"; rm -rf "$S/src/bin"
cp "$HERE/demo.rs" "$S/src/disk/vdemo.rs"
printf '\\n#[cfg(test)]\\nmod vdemo;\\n' >> "$S/src/disk/mod.rs"
cat > "$S/Cargo.toml" <<'T'
[package]
name = "cbm"
version = "0.1.0"
edition = "2021"
[dependencies]
memmap = "0.6.2"
[dev-dependencies]
rand = "0.5.2"
[profile.dev]
opt-level = 1
[workspace]
T
if [ -f Cargo.lock ]; then cp Cargo.lock "$S/Cargo.lock"; else cp /opt/vp/Cargo.lock "$S/Cargo.lock"; fi
cd "$S" || exit 2
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$S/t" TMPDIR="$S" timeout 250 cargo test --offline --lib vdemo -q 2>&1 | tail -25
exit "${PIPESTATUS[0]}"
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, capture_output=True, text=True, **k)


def main(path, fast):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(HERE, 'seeded', d['ID'])
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        repo = w + '/repo'
        sh(['git', 'clone', '-q', '/repo', repo])
        sh('cp /repo/Cargo.lock %s/ 2>/dev/null; cp -a /repo/target %s/target' % (repo, repo))
        for f, a, b in d['EDITS']:
            s = open(repo + '/' + f).read()
            if s.count(a) != 1:
                print(d['ID'], 'EDIT does not apply', f, s.count(a))
                return
            open(repo + '/' + f, 'w').write(s.replace(a, b))
        diff = sh(['git', 'diff'], repo).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(d.get('DEMO_SH') or SH)
        os.chmod(out + '/demo.sh', 0o755)
        if 'DEMO' in d:
            open(out + '/demo.rs', 'w').write(d['DEMO'])
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        env = dict(os.environ, CARGO_TARGET_DIR=repo + '/target')
        if not fast:
            t = open('/opt/vp/test.sh').read().replace('/repo', repo).replace('. /opt/vp/env.sh', '. %s/env.sh' % w)
            open(w + '/test.sh', 'w').write(t)
            open(w + '/env.sh', 'w').write(open('/opt/vp/env.sh').read().replace('/repo', repo))
            p = sh('bash %s/test.sh %s/out.json' % (w, w))
            try:
                o = json.load(open(w + '/out.json'))
            except Exception:
                print(d['ID'], 'build/test failed', p.stdout[-1500:], p.stderr[-500:])
                return
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(o.get('passed', o if isinstance(o, list) else []))
            miss = [b for b in base if b not in passed]
            if miss:
                print(d['ID'], 'BREAKS TESTS', [m.split('::')[-1] for m in miss])
                print(sh('grep -h -A2 "panicked" %s/target/vp-logs/*.log | cut -c1-200 | head -9' % repo).stdout)
                return
        p = sh(['bash', out + '/demo.sh'], repo)
        if p.returncode == 0:
            print(d['ID'], 'DEMO PASSES WITH PATCH', p.stdout[-800:])
            return
        why = p.stdout
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        if 'DEMO_SH' in d:
            sh('bash -c "sed s,/repo,%s,g /opt/vp/env.sh > %s/env.sh; . %s/env.sh; cargo test --workspace --no-run --offline"' % (repo, w, w))
        p = sh(['bash', out + '/demo.sh'], repo)
        if p.returncode != 0:
            print(d['ID'], 'DEMO FAILS WITHOUT PATCH', p.stdout[-1500:], p.stderr[-500:])
            return
        # our check
        sh(['git', 'apply', out + '/patch.diff'], repo)
        env = dict(os.environ, CBM_REPO=repo)
        res = []
        for pr in [d['PROP']] + list(d.get('ALSO', ())):
            p = sh([sys.executable, 'check.py', pr], HERE, env=env)
            res.append('%s:%s' % (pr, {0: 'MISSED', 1: 'caught'}.get(p.returncode, 'rc%d' % p.returncode)))
            det = '\n'.join(l[:300] for l in p.stdout.splitlines() if l.startswith(('violation', 'undecided')))[:900]
        print(d['ID'], 'valid;', ' '.join(res))
        print(det)
        if '-v' in sys.argv:
            print(why[-700:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


for a in sys.argv[1:]:
    if not a.startswith('-'):
        main(a, '--fast' in sys.argv)
