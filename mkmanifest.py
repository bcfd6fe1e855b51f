#!/opt/veriftools/pyvenv/bin/python
"""Regenerates MANIFEST.json from properties.jsonl and the contract files present (run by hand after adding a property)."""
import json, os, sys, importlib.util
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'contracts')); sys.path.insert(0, os.path.join(H, 'engine'))
NA = {
 'C22': 'Thread interleavings are outside contract-based deductive verification as available here: the VC generator is single-threaded and no concurrent separation logic is installed for C++.',
 'C23': 'Rounding-error bounds over sums of symbolic length need a floating-point error logic; the contracts here treat float arithmetic as uninterpreted (exact order) or bit-precise IEEE on loop-free code, neither of which expresses an accumulated error bound.',
}
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l); f = os.path.join(H, 'contracts', p['id'] + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NA.get(p['id'], 'no contract check has been built for this property yet; not claimed'))); continue
    s = importlib.util.spec_from_file_location(p['id'], f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    checks.append(dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'], thorough_cmd='./check.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification of the real code: VC generation over its LLVM IR, discharged by z3/cvc5; counterexamples replayed natively'),
        level=getattr(m, 'LEVEL', 'proof'), level_note=m.LEVEL_NOTE))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='See DESIGN.md. No hooks are compiled into /repo: harnesses call the real code from /verif/contracts.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open(os.path.join(H, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
