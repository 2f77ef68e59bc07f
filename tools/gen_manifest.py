#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'runtime monitoring: '
CHECKS = {
 'C05': (T+'online comparison with a reference client model (call sequences and client sessions)', 'random call sequences and session histories; every accepted/refused root, every root request and the cached root compared with the model'),
 'C06': (T+'online comparison with a reference client model (call sequences and client sessions)', 'random histories with replayed, rolled back, withdrawn and re-signed metadata; every decision and the trusted state compared with the model'),
 'C07': (T+'online comparison with a reference client model (call sequences and client sessions)', 'random histories with mixed and mislisted files; every decision and the trusted state compared with the model'),
 'C08': (T+'online comparison with a reference client model (call sequences and client sessions)', 'random expiries around the reference time on every role; every decision compared with the model'),
 'C09': (T+'trace checker of the trusted metadata set against a state-machine model', 'random call sequences with disorder; trusted objects deep-compared around every refused call'),
}
try:
    import importlib.util
    p = os.path.join(V, 'tools', 'checks.py')
    if os.path.exists(p):
        s = importlib.util.spec_from_file_location('checks', p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        CHECKS.update(m.CHECKS)
except FileNotFoundError:
    pass
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, note = CHECKS[i][:2]
        level = CHECKS[i][2] if len(CHECKS[i]) > 2 else 'exploration'
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
     'notes': 'check.sh builds the monitors in harness/ against /repo\'s working tree and runs one of them; see DESIGN.md'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
