#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMT = 'TLA+ contract specification of the controller manager (CM.tla) model checked with TLC; recordings of the real class under a controlled scheduler validated against it'
CMN = 'TLC exhausts the design for small constants (2-3 threads, 2-3 controllers); every recorded execution of the real code (random, preemption-bounded and model-enumerated request histories and schedules) must be a behaviour of the specification. Trusts the ROS stubs and the serialising scheduler; weak-memory effects are not explored.'
CHECKS = {p: ('model_checking', CMT, CMN) for p in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10')}
import importlib, sys
sys.path.insert(0, os.path.join(V, 'lib')); sys.dont_write_bytecode = True
for k in range(1, 30):
    p = 'C%02d' % k
    if p in CHECKS: continue
    try: m = importlib.import_module('p_' + p.lower())
    except ImportError: continue
    CHECKS[p] = (m.LEVEL, m.TECHNIQUE, m.NOTE)
NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        l, t, n = CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 bin/check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py ' + p,
                            'technique': t, 'level': l, 'level_note': n})
    else: m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check under construction: no verdict is claimed yet')})
m['notes'] = 'See DESIGN.md. KNOWN_FINDINGS.txt lists repaired and known defects.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
