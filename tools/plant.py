#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id>/ from tools/bugs/*.py and confirms each planted bug.

usage: plant.py make ID...      write the folder, confirm build + stable tests + demo on both trees
       plant.py check ID [PROP] apply, run the quick check, undo
Every change is made in /repo's working tree and undone straight afterwards.
"""
import json, os, subprocess, sys, shutil, glob
B = os.path.dirname(os.path.abspath(__file__)) + '/bugs'
S = os.environ.get('PLANT_OUT', '/verif/seeded')
R = os.environ.get('PLANT_REPO', '/repo')
DEMO = '''#!/bin/bash
# exit 0 if the property holds for this demonstration, 1 if not; cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/scratch"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
@DEPS@
[profile.dev]
@PROFILE@
debug = 0
[workspace]
END
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTUP_TOOLCHAIN=stable
unset RUSTC_WRAPPER RUSTFLAGS
(cd "$d" && cargo build --offline -q) || exit 3
@RUN@
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def load(i):
    g = {}
    exec(open(f'{B}/_common.py').read(), g)
    exec(open(f'{B}/{i}.py').read(), g)
    return g
def clean():
    sh(f'git -C {R} checkout -- .')
def make(i):
    g = load(i)
    d = f'{S}/{i}'
    os.makedirs(d, exist_ok=True)
    assert sh(f'git -C {R} status --porcelain --untracked-files=no').stdout == ''
    try:
        for f, a, b in g['EDITS']:
            p = R + '/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
    finally:
        clean()
    deps = '\n'.join(g.get('DEPS', VFS_DEPS := 'vfs = { path = "$repo/crates/vfs" }\nutils = { path = "$repo/crates/utils" }\nnotify = "*"').splitlines())
    run = g.get('RUN', 'timeout 120 "$d/target/debug/demo" "$d/scratch"\nrc=$?\n[ $rc = 0 ] && exit 0\necho "demo: exit $rc"\nexit 1')
    open(d + '/demo.sh', 'w').write(DEMO.replace('@DEPS@', deps).replace('@PROFILE@', g.get('PROFILE', 'opt-level = 0')).replace('@RUN@', run))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(g['MAIN'])
    for n, t in g.get('FILES', {}).items():
        open(f'{d}/{n}', 'w').write(t)
    json.dump({'property': g['PROPERTY'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh(f'bash {d}/demo.sh', cwd=R)
    print(i, 'demo unchanged:', r.returncode, r.stdout[-600:] if r.returncode else '')
    ok = r.returncode == 0
    try:
        a = sh(f'git -C {R} apply {d}/patch.diff')
        assert a.returncode == 0, a.stdout
        if R != '/repo':
            r = sh(f'bash {d}/demo.sh', cwd=R)
            print(i, 'demo patched:', r.returncode, r.stdout[-300:])
            return
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if 'tests' in json.load(open('/opt/vp/BASELINE.json')) else None
        o = json.load(open('/tmp/plant.json'))
        r = sh(f'bash {d}/demo.sh', cwd=R)
        print(i, 'build', b.returncode, 'tests', {k: len(v) if hasattr(v, '__len__') else v for k, v in o.items()}, 'demo patched:', r.returncode, r.stdout[-300:])
        ok &= b.returncode == 0 and r.returncode != 0
    finally:
        clean()
    return ok
def check(i, prop=None):
    g = load(i)
    prop = prop or g['PROPERTY']
    try:
        a = sh(f'git -C {R} apply {S}/{i}/patch.diff')
        assert a.returncode == 0, a.stdout
        r = sh(f'/verif/check.sh {prop} quick', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        lines = r.stdout.strip().splitlines()
        print(i, prop, 'exit', r.returncode)
        for l in lines[:1] + lines[-6:]:
            print('   ', l[:400])
    finally:
        clean()
cmd, rest = sys.argv[1], sys.argv[2:]
if cmd == 'make':
    for i in rest:
        make(i)
else:
    for i in rest[:1]:
        check(i, rest[1] if len(rest) > 1 else None)
