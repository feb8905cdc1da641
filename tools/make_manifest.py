"""writes MANIFEST.json from the checks present"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NOT = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        mod = importlib.import_module('checks.' + i.lower())
        checks.append(dict(
            property=i,
            quick_cmd=f'python3-vt -W ignore check.py {i} --tier quick',
            thorough_cmd=f'python3-vt -W ignore check.py {i} '
                         f'--tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='symbolic execution of the real Python source, path '
                      'obligations decided by z3 (NRA/FP), replay of '
                      'counterexamples on the real package',
            level='model_checking',
            level_note='Every obligation holds for all inputs within: '
                       + mod.BOUNDS + '. Assumes: '
                       + '; '.join(mod.ASSUMPTIONS)
                       + '. Not covered: ' + '; '.join(mod.OUTSIDE) + '.'))
    else:
        na.append(dict(property=i, reason=NOT.get(
            i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3-vt -W ignore tools/selftest.py',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the symbolic environment is supplied when '
               'the sources are loaded. See DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
