#!/opt/veriftools/pyvenv/bin/python
"""Rewrites the generated part of DESIGN.md (contracts per property, planted changes, repairs) from the files it describes."""
import json, os, sys, re, importlib.util, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/contracts'); sys.path.insert(0, H + '/engine')
out = ['## Properties\n', 'Generated from `contracts/Cxx.py` by `tools/mkdesign.py`. "unbounded" contracts are proved for every input of their stated '
       'precondition; "bounded" contracts are decided exhaustively inside the stated bound only (labelled bounded in the evidence, not counted as proved).\n']
def one(s): return re.sub(r'\s+', ' ', s).strip()
for l in open(H + '/properties.jsonl'):
    p = json.loads(l); f = H + '/contracts/%s.py' % p['id']
    out.append('### %s %s' % (p['id'], p['title']))
    if not os.path.exists(f):
        na = [x for x in json.load(open(H + '/MANIFEST.json'))['not_applicable'] if x['property'] == p['id']]
        out.append('Not applicable: ' + na[0]['reason'] + '\n'); continue
    s = importlib.util.spec_from_file_location(p['id'], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    out.append(one(m.EXPLANATION) + '\n')
    out.append('* Level: %s. %s' % (getattr(m, 'LEVEL', 'proof'), one(m.LEVEL_NOTE)))
    un, bd, th = [], {}, []
    for u in m.UNITS:
        hs = set(re.findall(r'VC_HARNESS\((\w+)\)', open(H + '/contracts/' + u['cpp']).read()))
        cf = u.get('harness', {})
        for n in sorted(hs | set(cf)):
            c = dict(u.get('defaults', {})); c.update(cf.get(n, {}))
            if c.get('tier') == 'thorough': th.append(n)
            if c.get('bounded'): bd.setdefault(one(c['bounded']), []).append(n)
            elif not c.get('native_only'): un.append(n)
    if un: out.append('* Unbounded contracts (%d): %s' % (len(un), ', '.join(un)))
    for b, ns in bd.items(): out.append('* Bounded (%s): %s' % (b, ', '.join(ns)))
    if th: out.append('* Thorough tier only: ' + ', '.join(th))
    out.append('* Assumed: ' + '; '.join(one(a) for a in list(m.ASSUMPTIONS) + list(getattr(m, 'TRUSTED', []))) + '\n')
out += ['## Planted changes', '', 'Each is in `seeded/<id>`; the check of its property is run against it with `tools/catch.sh`. Last run:', '', '| change | needs | caught by |', '|---|---|---|']
res = {}
f = H + '/tools/catch.log'
if os.path.exists(f):
    for l in open(f):
        w = l.split(); res[w[0]] = ('%s%s' % (w[1], ' (no failing input found)' if 'no-failing-input-found' in l else '')) if 'exit 1' in l else 'not caught'
for d in sorted(glob.glob(H + '/seeded/*/')):
    n = os.path.basename(d[:-1]); m = json.load(open(d + 'meta.json'))
    out.append('| %s | %s | %s |' % (n, one(m['needs']).replace('|', '/'), res.get(n, 'not run yet')))
k = json.load(open(H + '/known_findings.json'))
out += ['', '## Defects found and repaired', '', 'One "fix:" commit each in /repo (`known_findings.json`); no listed finding is left open.' if not k['findings'] else '', '']
out += ['* ' + one(x.replace('fixed: property=', '')) for x in k['fixed']]
t = open(H + '/DESIGN.md').read(); mark = '<!-- generated below by tools/mkdesign.py -->'
open(H + '/DESIGN.md', 'w').write(t.split(mark)[0].rstrip() + '\n\n' + mark + '\n\n' + '\n'.join(out) + '\n')
