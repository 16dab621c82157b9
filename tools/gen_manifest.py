#!/usr/bin/env python3
"""writes MANIFEST.json from the tables below"""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
ENERGY = ('Model checking of an explicit TLA+ transition system of the energy system (spec/EnergySystem.tla) with TLC, bound to the code in two directions: '
          'every behaviour TLC enumerates (legal and forbidden) is replayed into the optimisation model flixOpt builds, and results of real solves are '
          'checked as traces against the same specification.')
NOTE = ('Exhaustive over the candidate moves of each generated system (2-4 steps), sampled over systems; traces of real solves with up to 10 steps. '
        'Trusted: TLC, HiGHS on small pinned problems, pyomo, fixed point comparison (deviations below 0.02 not judged).')
TECH, LEVEL_NOTE = {}, {}
for i in range(1, 18):
    TECH['C%02d' % i] = 'TLA+ specification, TLC exploration replayed into the code, trace validation of real solves'
    LEVEL_NOTE['C%02d' % i] = ENERGY + ' ' + NOTE
OPEN = {p: 'not yet built' for p in ids if p not in TECH}
try:
    import manifest_more
    TECH.update(manifest_more.TECH)
    LEVEL_NOTE.update(manifest_more.LEVEL_NOTE)
    OPEN = {p: r for p, r in OPEN.items() if p not in TECH}
except ImportError:
    pass
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[
    dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='env VERIF_TIER=thorough python3 check.py ' + p, evidence_file='evidence/%s.json' % p,
         technique=TECH[p], level='model_checking', level_note=LEVEL_NOTE[p]) for p in ids if p in TECH],
    not_applicable=[dict(property=p, reason=r) for p, r in OPEN.items()],
    notes='No hooks: everything the specification needs is visible through the public API, the model flixOpt builds and its results.')
if not m['not_applicable']:
    m['not_applicable'] = []
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
