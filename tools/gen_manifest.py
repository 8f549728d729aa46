"""Write MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks, notes
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in checks.CHECKS:
        t, n = notes.NOTES[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 run.py check {i}', thorough_cmd=f'python3 run.py check {i}',
                                evidence_file=f'evidence/{i}.json', technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason=notes.NA.get(i, 'check not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
