#!/usr/bin/env python3
"""writes MANIFEST.json from the registered properties"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get('PYOA_REPO', '/repo'), HERE]
from sim import props, engine           # noqa

NA = {
    'C20': 'a pure function of one object: no schedule, clock, fault, I/O or history takes part in converting a loaded 2.0 object; input generation alone would decide it',
    'C21': 'a pure function of one loaded document; what depends on histories of edits is claimed as C18',
    'C22': 'a pure function of two objects, without I/O, time, schedule or faults',
    'C23': 'pure string functions, without I/O, time, schedule or faults',
    'C24': 'a pure lookup in a dictionary given once, without I/O, time, schedule, faults or history',
}
props_ = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props_:
    pid = p['id']
    if pid in props.REG:
        r = props.REG[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py %s' % pid,
            'thorough_cmd': 'python3 check.py %s --thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'deterministic simulation with fault injection: ' + r.technique,
            'level': 'exploration',
            'level_note': 'Seeded search over %s. Real: %s. Simulated: %s. Samples, does not enumerate; '
                          'trusts CPython, the standard library, PyYAML and the reference model in sim/.'
                          % (r.searched, r.real_parts, r.stubs),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'its check is not built yet')})
out = {
    'version': 1,
    'setup_cmd': 'python3 check.py --selftest',
    'hooks': {'guard': 'PYOA_SIM',
              'enable': 'nothing to enable: the seams are Python-level (getter, url_load_hook, urlopen\'s '
                        'sockets, io.open, sys.settrace) and are put in place by sim/world.py at run time; '
                        'no hook was added to /repo',
              'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'python3 check.py --replay FILE runs a reported violation again. VERIF_SEED decides everything. '
             'known_findings.json lists recorded and repaired defects. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
