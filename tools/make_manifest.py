"""Write /verif/MANIFEST.json from the check modules (metadata is read without importing the code under test)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ('ID', 'TECHNIQUE', 'LEVEL_NOTE'):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


checks = []
for path in sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))):
    c = constants(path)
    checks.append(dict(
        property=c['ID'], quick_cmd='./check.sh %s' % c['ID'],
        thorough_cmd='./check.sh %s --tier thorough' % c['ID'],
        evidence_file='evidence/%s.json' % c['ID'],
        technique='runtime monitoring: ' + c['TECHNIQUE'], level='exploration',
        level_note=c['LEVEL_NOTE']))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
assert props == [c['property'] for c in checks], (props, [c['property'] for c in checks])
manifest = dict(
    version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
    notes='Checks import /repo/src/reor from the working tree of /repo; no hooks were added to /repo. '
          'VERIF_SEED selects the workload, ./check.sh <ID> --replay FILE repeats a reported case. '
          'known-findings.txt lists recorded and repaired defects.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks))
