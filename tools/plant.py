#!/usr/bin/env python3
"""plant.py ID [--keep-going]: validates /verif/seeded/ID (patch, build, tests, demo) in a scratch copy of /repo.
seeded/ID/edit.py-style input is not kept: write patch.diff first (tools/mkpatch.py)."""
import subprocess, sys, json, os, shutil, tempfile
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(i):
    src = f'/verif/seeded/{i}'
    w = '/tmp/plant/repo'
    if not os.path.exists(w):
        os.makedirs('/tmp/plant', exist_ok=True)
        sh(f'cp -a /repo {w}')
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=w)
    env = '''export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never;'''
    d = '/tmp/plant/demo'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    r = sh(f'bash {d}/demo.sh', cwd=w)
    print('demo on the unchanged tree:', r.returncode, r.stdout[-800:] if r.returncode else '')
    ok = r.returncode == 0
    r = sh(f'git apply {src}/patch.diff', cwd=w)
    if r.returncode: print('patch does not apply', r.stderr); return 1
    r = sh(env + 'cargo build --workspace --locked --offline 2>&1 | tail -30; exit ${PIPESTATUS[0]}', cwd=w, executable='/bin/bash')
    print('build:', r.returncode, r.stdout[-1500:] if r.returncode else '')
    ok &= r.returncode == 0
    r = sh(env + 'cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --locked --offline 2>&1 | grep -E "^test |error|panicked" ; exit 0', cwd=w, executable='/bin/bash')
    res = {l.split()[1]: l.split()[-1] for l in r.stdout.splitlines() if l.startswith('test ') and not l.startswith('test result')}
    bad = [k for k, v in res.items() if v != 'ok']
    base = json.load(open('/opt/vp/BASELINE.json'))
    print('tests:', len(res), 'failed:', bad)
    ok &= not bad and len(res) >= 50
    r = sh(f'bash {d}/demo.sh', cwd=w)
    print('demo with the change:', r.returncode, [l for l in (r.stdout+r.stderr).splitlines() if l.strip()][:3])
    ok &= r.returncode not in (0, 8, 9)
    sh('git checkout -q -- .', cwd=w)
    print(i, 'OK' if ok else 'NOT OK')
    return 0 if ok else 1
sys.exit(max(main(i) for i in sys.argv[1:]))
