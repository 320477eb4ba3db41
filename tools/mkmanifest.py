"""Writes MANIFEST.json from properties.jsonl and the scenarios that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C24': 'pure function of its input: text rendering',
}
NOTE = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sim', 'scen', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'bin/check {i} --tier quick', thorough_cmd=f'bin/check {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json',
                           technique='deterministic simulation with fault injection: ' + NOTE[i]['technique'],
                           level='exploration', level_note=NOTE[i]['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'its simulation scenario is not built yet')))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='no hooks in /repo are needed: the checks import the unmodified working tree', source_commits=[]),
         notes='Every check runs /repo\'s current working tree under the simulator in /verif/sim; see DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
