#!/usr/bin/env python3
"""Assembles DESIGN.md."""
import json, os, subprocess, glob
t = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(t)
titles = {}
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)
    titles[p['id']] = p['title']
d = open(os.path.join(t, 'design.md')).read()
notes = open(os.path.join(t, 'design_notes.md')).read().strip()
hs = subprocess.run(['python3', os.path.join(t, 'harnesstable.py')], capture_output=True, text=True).stdout.strip()
for i, x in titles.items():
    hs = hs.replace('**%s**' % i, '**%s** %s' % (i, x))
rows = []
for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    rows.append('- `%s` (%s): %s Needs: %s' % (os.path.basename(os.path.dirname(m)), j['property'], j['what_it_breaks'], j['needs']))
rust = os.path.join(t, 'design_rust.md')
d = d.replace('NOTES\n', notes + '\n').replace('HARNESSES\n', hs + '\n').replace('SEEDS\n', '\n'.join(rows) + '\n')
d = d.replace('RUST\n', open(rust).read() if os.path.exists(rust) else '')
open(os.path.join(root, 'DESIGN.md'), 'w').write(d)
