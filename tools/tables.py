#!/usr/bin/env python3
""" Fill the tables of DESIGN.md from evidence/ (after quick runs of all checks) and seeded/. """
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'S05', 'S08', 'S14', 'S21', 'S31', 'S36', 'S43', 'S55', 'S57', 'S58', 'S59', 'S60'}


def fill(text, mark, rows):
    return re.sub(f'(<!-- {mark} -->\n).*?(<!-- /{mark} -->)', lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], text, flags=re.S)


def main():
    cost = ['| property | s | cases | executions | model states | transitions |', '|---|---|---|---|---|---|']
    for f in sorted(glob.glob(ROOT + '/evidence/C*.json')):
        e = json.load(open(f, encoding='utf-8'))
        c = e['coverage']
        cost.append(f"| {e['property']} | {e['wall_s']:.0f} | {c['evaluations']} | {c.get('implementation_executions', '-')} | {c.get('states', '-')} | {c.get('transitions', '-')} |")
    seeds = ['| bug | property | needs | |', '|---|---|---|---|']
    for d in sorted(glob.glob(ROOT + '/seeded/S*')):
        m = json.load(open(d + '/meta.json', encoding='utf-8'))
        n = os.path.basename(d)
        seeds.append(f"| {n} | {m['property']} | {m['needs']} | caught{', missed first' if n in MISSED else ''} |")
    path = ROOT + '/DESIGN.md'
    with open(path, encoding='utf-8') as f:
        text = f.read()
    with open(path, 'w', encoding='utf-8') as f:
        f.write(fill(fill(text, 'cost', cost), 'seeds', seeds))


main()
