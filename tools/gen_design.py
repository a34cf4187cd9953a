#!/usr/bin/env python3
"""Writes DESIGN.md: hand-written parts from tools/design/*.md and NOTES below, the enumerated spaces from the check modules,
the detection table from tools/caught.json (written by tools/sweep.py).  Run with /opt/venv/bin/python."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from design_notes import NOTES


def consts(path):
    out = {}
    for node in ast.parse(open(path, encoding='utf-8').read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            out[getattr(node.targets[0], 'id', '')] = ast.literal_eval(node.value)
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'SECTIONS':
            secs = []
            for c in node.value.elts:
                args = [ast.literal_eval(a) for a in (c.args[0], c.args[4])]
                secs.append(args)
            out['SECTIONS'] = secs
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
    o = [open(os.path.join(V, 'tools/design/head.md'), encoding='utf-8').read().rstrip(), '']
    for p in props:
        i = p['id']
        c = consts(os.path.join(V, 'mc/props/%s.py' % i.lower()))
        n = NOTES[i]
        o += ['### %s %s' % (i, p['title']), '', '*Decided by:* ' + n['how'], '', '*Oracle:* ' + n['oracle'], '',
              '*Beyond the tests:* ' + n['why'], '', '*A case:* ' + c['RULE'] + '.', '', 'Spaces (each enumerated completely):', '']
        o += ['- `%s`: %s' % (s[0], s[1]) for s in c['SECTIONS']]
        if c.get('ASSUMPTIONS'):
            o += ['', '*Assumptions:* ' + '; '.join(a.strip() for a in c['ASSUMPTIONS']) + '.']
        o += ['', '*Cost (quick):* ' + n['cost'], '']
    o += [open(os.path.join(V, 'tools/design/tail.md'), encoding='utf-8').read().rstrip(), '']
    caught = json.load(open(os.path.join(V, 'tools/caught.json'), encoding='utf-8'))
    o += ['## Planted bugs and what catches them', '',
          'Every bug in `seeded/` passes the 134 tests and has a demonstration; `tools/sweep.py` applies each to a scratch copy of /repo and runs the check of its property '
          '(quick tier). The section named is the one that reported it.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(V, 'seeded/*'))):
        m = json.load(open(d + '/meta.json', encoding='utf-8'))
        b = os.path.basename(d)
        o.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|'), caught.get(b, 'not run')))
    open(os.path.join(V, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(o) + '\n')


main()
