"""Writes MANIFEST.json from the table below."""
import json, os, importlib, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    try:
        m = importlib.import_module('contracts.' + i.lower())
        level, tech, note = getattr(m, 'LEVEL', 'proof'), m.TECHNIQUE, m.NOTE
    except ModuleNotFoundError:
        level, tech = 'exploration', 'bounded run-time check of the contract on the real code (stand-in; no discharged obligations)'
        note = 'Bounded: the property is evaluated as a contract on generated inputs against a reference; nothing is proved.'
    checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} quick', thorough_cmd=f'python3-vt check.py {i} thorough',
                       technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='python3-vt selftest.py', checks=checks, not_applicable=[],
               notes='See DESIGN.md. No hooks in /repo; fixes are listed in known-findings.txt.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
