"""what the proof layer alone says about planted bugs: python3 tools/verusbug.py ID... (all without arguments)"""
import json, os, subprocess, sys, shutil, tempfile, re
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
props = json.load(open(V + "/vlib/props.json"))
for i in ids:
    d = tempfile.mkdtemp(prefix="vb_")
    try:
        subprocess.run(f"cd /repo && git archive HEAD | tar x -C {d} && cd {d} && git init -q . && git apply {V}/seeded/{i}/patch.diff", shell=True, check=True)
        p = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
        code = f"""
import os, sys, json
os.environ['VX_REPO'] = {d!r}
sys.path.insert(0, {V + '/vlib'!r})
import vrun
for u in {props[p]['units']!r}:
    r = vrun.run_unit(u, {d!r} + '/vx_' + u, False, None)
    m = r.get('map') or dict(fns=dict(), missing=[], unknown=[])
    known = set(vrun.load_unit(u)['known'])
    new = [x for x in m['unknown'] if x not in known]
    lost = [f for f, i in m['fns'].items() if i.get('lost')]
    hit = [f for f in r['fails'] if {p!r} in f['props'] or '*' in f['props'] or (f['clause'] is None and {p!r} in str(m['fns'].get(f['fn'] or '', dict())))]
    clean = not (new or r['degraded'] or m['missing'] or r['fatal'])
    hard = [f for f in hit if f['fn'] and f['fn'] not in lost and clean]
    print('   ', u, 'CAUGHT' if hard else 'soft' if hit else 'missed', '| fatal', (r['fatal'] or '')[:300], '| degraded', dict((k, v[:200]) for k, v in r['degraded'].items()), '| new', new, '| lost', lost, '| fails', [(f['fn'], f['props'], (f['clause'] or '')[:60]) for f in r['fails']][:4], '| limits', [f['fn'] for f in r['limits']])
"""
        print(i, p, flush=True)
        subprocess.run([sys.executable, "-c", code])
    finally:
        shutil.rmtree(d, ignore_errors=True)
