"""Regenerates MANIFEST.json from the list of implemented checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python -m symdfo'
TECH = 'symbolic execution of the real dfols modules (source interpreted on symbolic values) with z3 deciding every branch and obligation'
WS = ('Bounded: every obligation on every explored path of whole solve() runs is decided by z3 for all residual values; the evidence lists the tasks '
      'whose path trees were exhausted and those cut by the time budget. Trusts the step-solver contract stub (checked by C12/C13), the numpy facade and z3; '
      'violations are reported only after replay on the unmodified code.')
NOTES = {}
NA = {}


def add(p, note, tech=TECH):
    NOTES[p] = (note, tech)


exec(open(os.path.join(HERE, 'manifest_data.py')).read())
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    if p in NOTES:
        note, tech = NOTES[p]
        checks.append(dict(property=p, quick_cmd='%s %s' % (PY, p), thorough_cmd='VERIF_TIER=thorough %s %s' % (PY, p),
                           evidence_file='evidence/%s.json' % p, technique=tech, level='other', level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='All checks import the code from /repo at run time; no hooks are needed in /repo.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
