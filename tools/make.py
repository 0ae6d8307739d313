#!/usr/bin/env python3
""" Writes properties.jsonl and MANIFEST.json from tools/props.py (the checks that exist). """
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quantifier']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p['observe']},
        }, ensure_ascii=False) + '\n')

na = {x['property'] for x in NOT_APPLICABLE}
checks = [{
    'property': p['id'],
    'quick_cmd': f'./check {p["id"]} --tier quick',
    'thorough_cmd': f'./check {p["id"]} --tier thorough',
    'evidence_file': f'evidence/{p["id"]}.json',
    'technique': p['technique'], 'level': p['level'], 'level_note': p['note'],
} for p in PROPS if p['id'] not in na]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks in /repo: the checks observe the public interface. Every check enumerates a '
                 'bounded space of executions completely (no sampling) and compares the real code with '
                 'an explicit reference model.',
    }, f, indent=1)
    f.write('\n')
