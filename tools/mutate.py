#!/usr/bin/env python3
"""mutate.py OUT.jsonl WORKERS [PATTERN]: line mutants of /repo's non-test sources; keeps those that build and pass the
stable tests, and asks the explorers (prop ALL) about them. A development aid, not part of any check."""
import re, sys, os, json, subprocess, random, shutil, threading, queue
OUT, W = sys.argv[1], int(sys.argv[2])
PAT = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
SECS = os.environ.get('MSECS', '16')
def sh(c, cwd=None, t=900):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, executable='/bin/bash')
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(c, 124, '', 'timeout')
ENV = 'export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never;'
def files():
    fs = sh("git ls-files | grep '\\.rs$' | grep -v -E 'test|bin/schema|error.rs|stable.rs'", '/repo').stdout.split()
    return [f for f in fs if PAT.search(f) and (f.startswith('contracts') or f.startswith('packages'))]
SWAPS = [(' > ', ' >= '), (' >= ', ' > '), (' < ', ' <= '), (' <= ', ' < '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
 (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), ('checked_add', 'checked_sub'), ('checked_sub', 'checked_add'), ('mul_floor', 'mul_ceil'), ('mul_ceil', 'mul_floor'),
 ('checked_mul_floor', 'checked_mul_ceil'), ('checked_mul_ceil', 'checked_mul_floor'), ('to_uint_floor', 'to_uint_ceil'), ('to_uint_ceil', 'to_uint_floor'),
 ('true', 'false'), ('false', 'true'), ('.rev()', ''), ('.min(', '.max('), ('.max(', '.min('), ('is_some()', 'is_none()'), ('is_none()', 'is_some()'),
 ('is_zero()', 'is_zero() == false'), ('if !', 'if '), ('.sort()', '.len()'), ('Order::Ascending', 'Order::Descending'), ('Ascending', 'Descending'),
 ('token_in', 'token_out'), ('token_out', 'token_in'), ('max_amount', 'min_amount'), ('.first()', '.last()'), ('.last()', '.first()'), ('.filter(|', '.filter(|_| true).filter(|'),
 ('?;', '.ok();'), ('inflation', 'deflation'), ('deflation', 'inflation'), ('.any(', '.all(') , ('.all(', '.any('), ('unwrap_or_default()', 'unwrap()'),
 ('info.sender', 'env.contract.address'), ('mint_fee', 'burn_fee'), ('fee.mint', 'fee.burn'), ('fee.burn', 'fee.mint'), ('Decimal::one()', 'Decimal::zero()'), ('Decimal::zero()', 'Decimal::one()'), ('Uint128::zero()', 'Uint128::one()'), ('Uint128::one()', 'Uint128::zero()'), ('to_ascii', 'to_ascii'),
 ('.is_empty()', '.len() == 1'), ('saturating_sub', 'saturating_add'), ('starts_with', 'ends_with'), ('.skip(1)', '.skip(0)'), ('ceil', 'floor'), ('floor', 'ceil')]
def mutants():
    for f in files():
        s = open('/repo/' + f).read()
        cut = s.find('#[cfg(test)]')
        body = s if cut < 0 else s[:cut]
        lines = body.split('\n')
        off = 0
        for i, l in enumerate(lines):
            st = l.strip()
            code = not (st.startswith('//') or st.startswith('use ') or st.startswith('#') or not st or 'attribute' in st or 'StdError::generic' in st or 'println' in st)
            if code:
                for a, b in SWAPS:
                    k = 0
                    while True:
                        k = l.find(a, k)
                        if k < 0: break
                        if not (a[0].isalpha() and k and (l[k-1].isalnum() or l[k-1] == '_')) and '->' not in l[k:k+3] and not (a == ' < ' ) or a == ' < ':
                            yield f, i + 1, s[:off + k] + b + s[off + k + len(a):], f'{a}=>{b}'
                        k += len(a)
                m = re.match(r'^(\s*)(?!let |return|use |pub |mod |const |type |\}|\)|\.)(\w[^;]*);\s*$', l)
                if m and lines[i-1].rstrip().endswith((';', '{', '}', '')):
                    yield f, i + 1, s[:off] + m.group(1) + '' + s[off + len(l):], 'drop statement'
                m = re.match(r'^(\s*(?:\} else )?if )(?!let)(.*) \{$', l)
                if m:
                    yield f, i + 1, s[:off] + m.group(1) + f'({m.group(2)}) && false {{' + s[off + len(l):], 'if never'
                    yield f, i + 1, s[:off] + m.group(1) + f'({m.group(2)}) || true {{' + s[off + len(l):], 'if always'
                for m in re.finditer(r'(?<![\w."])(\d+)(?![\w."])', l):
                    if 'Uint' in st and '::from' in st or True:
                        yield f, i + 1, s[:off + m.start()] + str(int(m.group(1)) + 1) + s[off + m.end():], f'{m.group(1)}+1'
                for m in re.finditer(r'\b(\w+), (\w+)\)', l):
                    if m.group(1) != m.group(2) and 'fn ' not in l:
                        yield f, i + 1, s[:off + m.start()] + f'{m.group(2)}, {m.group(1)})' + s[off + m.end():], 'swap args'
            off += len(l) + 1
def main():
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            j = json.loads(l); done.add((j['f'], j['line'], j['op']))
    ms = [m for m in mutants() if (m[0], m[1], m[3]) not in done]
    random.Random(5).shuffle(ms)
    print(len(ms), 'mutants', flush=True)
    if os.environ.get('DRY'): return
    q = queue.Queue()
    for m in ms: q.put(m)
    lock = threading.Lock()
    def work(k):
        w = f'/tmp/mut/{k}'
        if not os.path.exists(w):
            os.makedirs(w)
            sh(f'git clone -q /repo {w}/repo; cp -a /verif/harness {w}/harness; rm -rf {w}/harness/target; sed -i "s#/repo/#{w}/repo/#" {w}/harness/Cargo.toml')
        sh(f'git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', f'{w}/repo')
        sh(f'cp /verif/harness/src/* {w}/harness/src/')
        e = ENV + f'export CARGO_TARGET_DIR={w}/target;'
        while True:
            try: f, line, new, op = q.get_nowait()
            except queue.Empty: return
            p = f'{w}/repo/{f}'
            old = open(p).read()
            open(p, 'w').write(new)
            try:
                r = sh(e + 'cargo build --offline -q --bin vh', f'{w}/harness')
                if r.returncode: v = 'nobuild'
                else:
                    if True:
                        r = sh(f'timeout 150 {w}/target/debug/vh run ALL 1 {SECS} 1000000000 {w}/out.json', None, 200)
                        try:
                            j = json.load(open(f'{w}/out.json'))
                            fd = j.get('found')
                            v = 'found ' + fd['property'] + ': ' + str(fd.get('what'))[:150] if fd else 'SURVIVED'
                        except Exception as x:
                            v = 'harness ' + str(r.returncode)
                        if v == 'SURVIVED':
                            r = sh(e + 'cargo test --workspace --exclude ibcx-pool --exclude ibcx-tests --lib --bins --tests --locked --offline -q 2>&1 | tail -3; exit ${PIPESTATUS[0]}', f'{w}/repo', 300)
                            if r.returncode: v = 'killed by tests'
                        if os.path.exists(f'{w}/out.json'): os.remove(f'{w}/out.json')
            finally:
                open(p, 'w').write(old)
            with lock:
                open(OUT, 'a').write(json.dumps(dict(f=f, line=line, op=op, v=v, text=old.split('\n')[line-1].strip())) + '\n')
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
