#!/usr/bin/env python3
"""quick.py FILE [NAME...]: FILE defines L, a list of (name, property, [[file, old, new], ...]); says for each change
whether it builds, passes the stable tests, what the explorer finds in 22 s and (NOVERUS unset) what the proof layer says"""
import sys, os, re, json, subprocess, shutil
V = '/verif'; W = os.environ.get('QDIR', '/tmp/quick')
SECS = os.environ.get('QSECS', '22')
ENV = f'export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR={W}/target;'
def sh(c, cwd=None, t=1500):
    try: return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, executable='/bin/bash')
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, '', 'timeout')
if not os.path.exists(W):
    os.makedirs(W)
    sh(f'git clone -q /repo {W}/repo; cp -a {V}/harness {W}/harness; rm -rf {W}/harness/target; sed -i "s#/repo/#{W}/repo/#" {W}/harness/Cargo.toml')
props = json.load(open(V + '/vlib/props.json'))
g = {}; exec(open(sys.argv[1]).read(), g)
for name, prop, edits in g['L']:
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', f'{W}/repo'); sh(f'cp {V}/harness/src/* {W}/harness/src/')
    bad = None
    for f, o, n in edits:
        p = f'{W}/repo/{f}'; s = open(p).read()
        # blank lines in the original text need not be spelled out
        rx = r'\n(?:[ \t]*\n)*'.join(re.escape(x) for i, x in enumerate(o.split('\n')) if x.strip() or i == o.count('\n'))
        k = list(re.finditer(rx, s))
        if len(k) != 1: bad = (f, o[:60], len(k)); break
        open(p, 'w').write(s[:k[0].start()] + n + s[k[0].end():])
    if bad: print(name, 'BAD EDIT', bad, flush=True); continue
    r = sh(ENV + 'cargo build --offline -q --bin vh', f'{W}/harness')
    if r.returncode: print(name, 'NOBUILD', r.stderr[-1500:], flush=True); continue
    vs = []
    for s in ((SECS, 1), (str(int(SECS) * 3), 7)):
        r = sh(f'timeout 400 {W}/target/debug/vh run {prop} {s[1]} {s[0]} 1000000000 {W}/out.json', None, 500)
        try: j = json.load(open(f'{W}/out.json')); v = j.get('violation') or j.get('found')
        except Exception as x: v, j = None, dict(err=str(x))
        vs.append(r.returncode)
        if r.returncode == 1: break
    print(name, prop, 'EXPL', 'found@' + s[0] if r.returncode == 1 else f'missed rc={r.returncode}', str(json.dumps(j))[:220] if r.returncode == 1 else '', flush=True)
    r = sh(ENV + "cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --no-fail-fast --locked --offline -- --test-threads 8 2>&1 | grep -E 'FAILED|^error' | head -5", f'{W}/repo')
    print('    tests', 'pass' if not r.stdout.strip() else r.stdout.strip(), flush=True)
    if os.environ.get('NOVERUS'): continue
    code = f"""
import os, sys
os.environ['VX_REPO'] = {W + '/repo'!r}
sys.path.insert(0, {V + '/vlib'!r})
import vrun
for u in {props[prop]['units']!r}:
    r = vrun.run_unit(u, {W!r} + '/vx_' + u, False, None)
    m = r.get('map') or dict(fns=dict(), missing=[], unknown=[])
    known = set(vrun.load_unit(u)['known'])
    new = [x for x in m['unknown'] if x not in known]
    lost = [f for f, i in m['fns'].items() if i.get('lost')]
    hit = [f for f in r['fails'] if {prop!r} in f['props'] or '*' in f['props'] or (f['clause'] is None and {prop!r} in str(m['fns'].get(f['fn'] or '', dict())))]
    clean = not (new or r['degraded'] or m['missing'] or r['fatal'])
    hard = [f for f in hit if f['fn'] and f['fn'] not in lost and clean]
    print('    VERUS', u, 'CAUGHT' if hard else 'soft' if hit else 'missed', '| fatal', (r['fatal'] or '')[:200], '| degraded', dict((k, v[:160]) for k, v in r['degraded'].items()), '| new', new, '| lost', lost, '| fails', [(f['fn'].split('::')[-1], f['props'], (f['clause'] or '')[:50]) for f in r['fails'] if f['fn']][:3], '| limits', [f['fn'] for f in r['limits']])
"""
    r = sh(f'{sys.executable} -c "$C"' if False else f"{sys.executable} - <<'X'\n{code}\nX")
    print(r.stdout, r.stderr[-300:], sep='', flush=True)
