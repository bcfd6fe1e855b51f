#!/usr/bin/env python3
"""seed.py ID PROP FILE  (reads OLD===NEW===NEEDS===BREAKS===DEMO from stdin, separated by lines of '=====')"""
import sys, subprocess, os, json
sid, prop, f = sys.argv[1:4]
parts = sys.stdin.read().split('\n=====\n')
n = (len(parts) - 3)
old_new = parts[:n]; needs, breaks, demo = parts[n:]
d = '/verif/seeded/' + sid; os.makedirs(d, exist_ok=True)
files = f.split(',')
assert len(old_new) == 2 * len(files), len(old_new)
for i, ff in enumerate(files):
    p = '/repo/' + ff; s = open(p).read(); o, w = old_new[2*i].strip('\n'), old_new[2*i+1].strip('\n')
    assert s.count(o) == 1, (s.count(o), o)
    open(p, 'w').write(s.replace(o, w))
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.cpp', 'w').write(demo.strip('\n') + '\n')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: property holds on the built tree (cwd = repository root)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
g++ -std=c++11 -O1 -fopenmp -I include -I include/third -I src -DTS_SOLUTION_DIR="\\"\\"" "$D/demo.cpp" -o "$T/demo" -L lib -ltennis -pthread -Wl,-rpath,"$PWD/lib" || exit 3
cd "$T" && timeout 120 ./demo
''')
json.dump(dict(property=prop, needs=needs.strip(), what_it_breaks=breaks.strip()), open(d + '/meta.json', 'w'), indent=1)
# confirm: build with patch, run demo
def build(): 
    r = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True, cwd='/repo'); return r.returncode
rc = build(); r1 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
rc0 = build(); r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
print(sid, 'build', rc, 'patched demo', r1.returncode, 'clean demo', r0.returncode, (r1.stdout + r1.stderr)[-300:] if r1.returncode in (0, 3) else '', (r0.stdout+r0.stderr)[-500:] if r0.returncode else '')
