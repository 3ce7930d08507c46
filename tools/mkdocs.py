#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/table.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from table import P

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        rec = {'id': p['pid'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': list(p['observe']), 'hook_needed': None}}
        f.write(json.dumps(rec) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"', 'checks': [], 'not_applicable': [],
       'notes': 'The checks are pure static analyses of the files in /repo/pydtmc; nothing of /repo is built, imported or run, and no hooks are needed.'}
for p in P:
    if p['na']:
        man['not_applicable'].append({'property': p['pid'], 'reason': p['na']})
    else:
        man['checks'].append({'property': p['pid'], 'quick_cmd': f'python3 check.py {p["pid"]}', 'thorough_cmd': f'python3 check.py {p["pid"]} --tier thorough',
                              'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
