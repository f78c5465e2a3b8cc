#!/usr/bin/env python3
"""plant.py ID [--check]: build and confirm one planted bug.

The description is a python file tools-side scratch: argv[2] = file defining
 prop, needs, breaks, edits=[(file, old, new)], main (rust source of the demo), feats (crate features)."""
import json, os, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plant/repo'


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$d/main.rs" "$t/src/main.rs"
cp Cargo.lock "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
parquet2 = { path = "$PWD", default-features = false, features = [%s] }
parquet-format-safe = "0.2"
futures = "0.3"
[workspace]
EOF
cd "$t"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never
RUSTUP_TOOLCHAIN=stable cargo build --offline -q 2>"$t/log" || { tail -30 "$t/log"; exit 9; }
timeout 120 "$t/target/debug/demo"
'''


def main():
    bid, spec = sys.argv[1], runpy.run_path(sys.argv[2])
    d = os.path.join(V, 'seeded', bid)
    if not os.path.exists(W):
        os.makedirs('/tmp/plant', exist_ok=True)
        sh('cp -a /repo ' + W)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=W)
    for f, a, b in spec['edits']:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(a) != 1:
            print('edit does not match once:', f, s.count(a)); return 1
        open(p, 'w').write(s.replace(a, b))
    os.makedirs(d, exist_ok=True)
    rc, diff = sh('git diff', cwd=W)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    feats = spec.get('feats', ['full'])
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % ', '.join('"%s"' % x for x in feats))
    open(os.path.join(d, 'main.rs'), 'w').write(spec['main'])
    json.dump(dict(property=spec['prop'], needs=spec['needs'], what_it_breaks=spec['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    rc0, o0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    rc1, o1 = sh('bash %s/demo.sh' % d, cwd=W)
    print('demo unchanged rc', rc0, '| patched rc', rc1, '|', o1.strip()[-160:].replace('\n', ' / '))
    if rc0 != 0:
        print(o0[-900:])
    if rc1 == 9:
        print('patched does not build', o1[-300:])
    if '--notest' not in sys.argv:
        sh("mkdir -p /tmp/plant/vp && for f in build.sh env.sh test.sh; do sed 's#/repo#%s#g; s#/opt/vp/env.sh#/tmp/plant/vp/env.sh#g' /opt/vp/$f > /tmp/plant/vp/$f; done" % W)
        rb, ob = sh('bash /tmp/plant/vp/build.sh')
        rt, ot = sh('bash /tmp/plant/vp/test.sh /tmp/plant/o.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        o = json.load(open('/tmp/plant/o.json'))
        lost = base - set(o['passed'])
        print('build rc', rb, 'stable tests lost', sorted(lost)[:5])
    env = {'PQ_REPO': W}
    for p in spec.get('checks', [spec['prop']]):
        rc, o = sh('python3 check.py ' + p, cwd=V, env=env)
        print('check', p, 'rc', rc, '|', '\n   '.join(x[:260] for x in o.splitlines() if not x.startswith('KNOWN'))[:900])
    return 0


sys.exit(main())
