#!/usr/bin/env python3
"""Lists the harnesses with their comments and bounds, per property: the table in DESIGN.md."""
import os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
for d, _, fs in os.walk(os.path.join(root, 'harness', 'overlay', 'internal', 'verifh')):
    for f in sorted(fs):
        if not f.endswith('.go'):
            continue
        ls = open(os.path.join(d, f)).read().split('\n')
        for i, l in enumerate(ls):
            m = re.match(r'//verif:harness\s+(C\d+)\s*(.*)', l)
            if not m:
                continue
            j, doc = i - 1, []
            while j >= 0 and ls[j].startswith('//') and not ls[j].startswith('//verif'):
                doc.insert(0, ls[j][2:].strip())
                j -= 1
            k = i + 1
            while not ls[k].startswith('func '):
                k += 1
            name = re.match(r'func (\w+)', ls[k]).group(1)
            opts = ' '.join(o for o in m.group(2).split() if not re.match(r'(t\.)?budget=', o))
            rows[m.group(1)].append((os.path.basename(d), name, opts, ' '.join(doc).strip()))
for p in sorted(rows):
    print('**%s**\n' % p)
    for pk, n, o, doc in sorted(rows[p]):
        print('- `%s.%s`%s%s' % (pk, n, ' [%s]' % o.replace('internal/verifh/', '') if o else '', ': ' + doc if doc else ''))
    print()
RUST = os.path.join(root, 'rust', 'harness')
rows = collections.defaultdict(list)
for f in sorted(os.listdir(RUST)):
    ls = open(os.path.join(RUST, f)).read().split('\n')
    doc = ''
    for i, l in enumerate(ls):
        if l.startswith('// '):
            doc = (doc + ' ' + l[3:]).strip() if i and ls[i - 1].startswith('// ') else l[3:].strip()
        m = re.match(r'pub fn (c(\d+)([tb]?)_\w+)\(\)', l)
        if m:
            un = [re.search(r'unwind\((\d+)\)', x) for x in ls[max(0, i - 8):i]]
            un = [x.group(1) for x in un if x]
            what = {'t': 'thorough only, ', 'b': 'long buffers, '}.get(m.group(3), '')
            rows['C' + m.group(2)].append((f[:-3], m.group(1), '%sunwind %s' % (what, un[-1] if un else '-'), doc))
for p in sorted(rows):
    print('**%s**\n' % p)
    last = ''
    for f, n, o, doc in rows[p]:
        print('- `%s.%s` [%s]%s' % (f, n, o, ': ' + doc if doc and doc != last else ''))
        last = doc
    print()
