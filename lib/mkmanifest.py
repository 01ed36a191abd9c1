#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the modules in checks/ and known_findings.json."""
import glob, json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
TECH = {
    'P01': 'AddressSanitizer+UBSan monitoring of jbofihe under hostile texts, options and dictionaries',
    'P02': 'AddressSanitizer+UBSan monitoring of the companion tools under hostile inputs',
    'P03': 'MemorySanitizer monitoring plus differential monitor over repeated runs with perturbed memory, environment and input delivery',
}
DEFAULT = 'runtime monitor: independent reference model as oracle over observed runs of the real programs'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    ms = glob.glob(os.path.join(V, 'checks', p.lower() + '_*.py'))
    if not ms:
        na.append({'property': p, 'reason': 'no check built for it'})
        continue
    m = importlib.import_module(os.path.basename(ms[0])[:-3])
    checks.append({'property': p, 'quick_cmd': 'python3 /verif/check.py %s quick' % p,
                   'thorough_cmd': 'python3 /verif/check.py %s thorough' % p,
                   'technique': getattr(m, 'TECHNIQUE', TECH.get(p, DEFAULT)), 'level': 'exploration',
                   'level_note': 'held on the executions observed: ' + m.RULE,
                   'evidence_file': 'evidence/%s.json' % p})
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup',
           'hooks': {'guard': 'EXPOSE_SIGNALS', 'enable': '-DEXPOSE_SIGNALS=1 (a switch the code already had; no hook commits were needed)',
                     'source_commits': []},
           'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
