#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the harness sources and the notes below."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
have = {}
for d, _, fs in os.walk(os.path.join(root, 'harness', 'overlay')):
    for f in fs:
        if f.endswith('.go'):
            for m in re.finditer(r'^//verif:harness\s+(C\d+)', open(os.path.join(d, f)).read(), re.M):
                have[m.group(1)] = have.get(m.group(1), 0) + 1
rust = {}
for f in os.listdir(os.path.join(root, 'rust', 'harness')):
    for m in re.finditer(r'^pub fn c(\d+)[tb]?_', open(os.path.join(root, 'rust', 'harness', f)).read(), re.M):
        rust['C' + m.group(1)] = True
        have['C' + m.group(1)] = 1
KANI = 'bounded model checking of the Rust source of the current tree: Kani encodes the MIR, CBMC turns every assertion, panic, index and arithmetic overflow within stated sizes into SAT queries (CaDiCaL); counterexamples replayed natively against the real crates'
notes = {}
np = os.path.join(root, 'tools', 'level_notes.json')
if os.path.exists(np):
    notes = json.load(open(np))
na = notes.get('not_applicable', {})
checks, napp = [], []
for p in props:
    i = p['id']
    if i in have and i not in na:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': KANI if i in rust else 'symbolic execution of the Go SSA of the current tree (own engine, /verif/engine) with every branch, index, panic and assertion decided by an SMT solver (z3, cvc5) within stated bounds; counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': notes.get('notes', {}).get(i, 'bounded: holds for every input and schedule within the bounds listed per harness in the evidence'),
            'evidence_file': 'evidence/%s.json' % i,
        })
    else:
        napp.append({'property': i, 'reason': na.get(i, 'no harness built yet')})
m = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'hooks': {'guard': 'none: harnesses and instrumentation enter through go build -overlay, /repo carries no hooks', 'enable': 'none', 'source_commits': []},
    'not_applicable': napp,
    'notes': 'Every check loads the current /repo tree, executes its SSA (Go) or MIR (Rust) symbolically, and replays counterexamples natively. See DESIGN.md.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(napp), 'not applicable')
