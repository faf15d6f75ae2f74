#!/usr/bin/env python3
"""mkpatch.py ID < JSON {"property","needs","what_it_breaks","edits":[[file,old,new],...]} : makes seeded/ID from edits (once each)"""
import sys, json, subprocess, os, shutil
i = sys.argv[1]
j = json.load(sys.stdin) if False else eval(sys.stdin.read())
d = f'/verif/seeded/{i}'
os.makedirs(d, exist_ok=True)
files = {}
for f, old, new in j['edits']:
    p = f'/repo/{f}'
    s = files.get(f) or open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    files[f] = s.replace(old, new)
out = ''
for f, s in files.items():
    os.makedirs('/tmp/mkp/a', exist_ok=True)
    open('/tmp/mkp/new', 'w').write(s)
    r = subprocess.run(['git', 'diff', '--no-index', '--no-color', f'/repo/{f}', '/tmp/mkp/new'], capture_output=True, text=True).stdout
    body = r[r.index('@@'):]
    out += f'diff --git a/{f} b/{f}\n--- a/{f}\n+++ b/{f}\n' + body
open(f'{d}/patch.diff', 'w').write(out)
json.dump({k: j[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{d}/meta.json', 'w'), indent=1)
for n in ('demo.sh', 'kit.rs', 'manifest.txt'):
    shutil.copy(f'/verif/tools/demokit/{n}', d)
open(f'{d}/main.rs', 'w').write('mod kit;\nuse kit::*;\n' + j['demo'])
