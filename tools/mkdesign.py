#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the properties, the claims, the last evidence and the seeded changes."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + '/tools/design_notes.py').read())
man = json.load(open(V + '/MANIFEST.json'))
ck = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = [json.loads(l) for l in open(V + '/known_findings.jsonl')]
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## Properties decided', '']
for p in props:
    i = p['id']
    if i not in ck:
        continue
    try:
        ev = json.load(open(V + '/evidence/%s.json' % i))
        cov = ev['coverage']
        expl, cost = cov['explanation'], '%d obligations over %d functions, about %d s' % (cov['obligations'], cov['functions_analysed'], round(ev['wall_s']) or 1)
    except OSError:
        expl, cost = '', 'not measured'
    out += ['### %s %s' % (i, p['title']), '', '- *Method*: %s.' % ck[i]['technique'], '- *Analysed, and against what*: %s.' % expl,
            '- *Bounds*: %s.' % ck[i]['level_note'], '- *Cost (quick)*: %s.' % cost]
    if i in NOTES:
        out.append('- *Notes*: ' + NOTES[i])
    out.append('')
out += ['## Not decided by this family', '', '| property | why |', '|---|---|']
out += ['| %s %s | %s |' % (p['id'], p['title'], na[p['id']]) for p in props if p['id'] in na]
out += ['', '## Genuine defects found', '', 'Repaired in /repo with `fix:` commits (the check reports each again if it returns):', '']
out += ['- ' + k['what'].replace('fixed: property=', '') for k in kf if k['status'] == 'fixed']
rec = [k for k in kf if k['status'] != 'fixed']
out += ['', 'Recorded, not repaired (known findings):', ''] + (['- %s: %s' % (k['property'], k['what']) for k in rec] or ['none.'])
out += ['', '## Planted changes', '', 'Each is kept under `seeded/` with a demonstration; the check of its property reports it. Six more (c01-flush-tail, i04-denied-reserve, l04-waiting-exit, l06-abort-parent-failed, l07-keep-first, s03-remove-middle), also caught, are in commit 794ada1; they were left out of the tree to keep a full vcheck short.', '', '| change | property | needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    out.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], str(d['needs']).replace('\n', ' ').replace('|', '/')))
out.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(out), 'lines')
