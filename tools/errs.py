#!/usr/bin/env python3
# prints the verifier's errors of the last run of a unit, one line each
import json,sys
u=sys.argv[1]; k=0
for l in open(f'/tmp/vx_{u}/{u}.stderr',errors='ignore'):
    try:d=json.loads(l)
    except Exception: continue
    if d.get('level')!='error': continue
    k+=1
    if k>int(sys.argv[2] if len(sys.argv)>2 else 15): break
    print('*',d['message'][:300])
    for s in d['spans'][:3]:
        print('    ',s['line_start'],(s.get('label') or '')[:60],'|',(s['text'][0]['text'].strip()[:230] if s['text'] else ''))
