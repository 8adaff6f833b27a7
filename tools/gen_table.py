#!/usr/bin/env python3
"""Writes the table of planted bugs of DESIGN.md from seeded/*/meta.json (development only)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'p20': 'restarts with infinite values while maximizing were too rare',
    'p39': 'the target had to be reached in a generation with several reasons',
    'p26': 'dimensions above 16 and the independence of coordinates were not looked at',
    'p29': 'scales that sum to their number', 'p37': 'very many improvements in one run',
    'p45': '100000 generations with a tolerance that spans the history',
    'p49': 'dimensions above 64', 'p57': 'bounds of another length under the sanitizers',
    'p58': 'memory with constraints that reject', 'p62': 'state shared by all optimizers of a process (now C03 process)',
    'p63': 'runs of ten million evaluations', 'p64': 'more than 2^24 evaluations', 'p65': 'zeros of both signs',
    'p87': 'time limits of seconds with a fraction', 'p89': 'dimensions above 40',
    'p90': 'more than a million evaluations of one optimizer', 'p91': 'thousands of generations in many dimensions',
    'p92': 'more than 50000 points of a plot', 'p95': 'many dimensions on several threads',
    'p98': 'populations above 2000', 'p99': 'pools of more than 16 threads', 'p102': 'more than ten thousand runs',
}
extra = os.path.join(V, 'tools', 'missed.json')
if os.path.exists(extra):
    MISSED.update(json.load(open(extra)))
rows = {}
for p in sorted(os.listdir(V + '/seeded'), key=lambda s: int(s[1:])):
    rows.setdefault(json.load(open(f'{V}/seeded/{p}/meta.json'))['property'], []).append(p)
out = '| Property | Bugs | Missed at first, because these were lacking |\n|---|---|---|\n'
for c in sorted(rows):
    out += f"| {c} | {' '.join(rows[c])} | {'; '.join(p + ': ' + MISSED[p] for p in rows[c] if p in MISSED)} |\n"
f = V + '/DESIGN.md'
s = open(f).read()
i = s.index('| Property | Bugs |')
j = s.find('\n\n', i)
s = s[:i] + out + (s[j + 1:] if j >= 0 else '')
open(f, 'w').write(s)
