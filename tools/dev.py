#!/usr/bin/env python3
"""Development aid: validate a trace and show the smallest rejected cases."""
import json, os, re, subprocess, sys
trace, cfg, mod = sys.argv[1], sys.argv[2], sys.argv[3]
env = dict(os.environ, JDK_JAVA_OPTIONS='-Xss256m', TRACE=os.path.abspath(trace))
spec = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
p = subprocess.run(['tlc', '-workers', '8', '-continue', '-noGenerateSpecTE', '-metadir', '/tmp/tlc-dev', '-config', cfg, mod],
                   cwd=spec, env=env, capture_output=True, text=True)
out = p.stdout
lines = open(trace).read().splitlines()
rej = []
for m in re.finditer(r'<<\s*"REJECT",\s*"(.*?)"\s*>>\s*\n', out, re.S):
    j = json.loads(m.group(1).replace('\\"', '"').replace('\\\\', '\\'))
    rej.append(j)
seen = set(); res = []
for j in rej:
    k = (j['line'], j['run'])
    if k in seen: continue
    seen.add(k)
    x = json.loads(lines[j['line'] - 1])
    res.append((len(json.dumps(x.get('g', x))), x, j))
res.sort(key=lambda t: t[0])
print(len(lines), 'lines;', len(res), 'rejected')
for n, x, j in res[:int(sys.argv[4]) if len(sys.argv) > 4 else 6]:
    print(json.dumps(x.get('g')), ''.join(x.get('i', '')), json.dumps(x.get('st', ''))[:1600], x.get('api',''))
    y = (x.get('rs') or x.get('st') or [x]*99)[j['run'] - 1]
    print('   real ', json.dumps(y)); print('   model', json.dumps({**j, 'line':0}))
print('\n'.join(l for l in out.splitlines() if 'states generated' in l or 'Error' in l and 'Invariant' not in l)[:1500])
