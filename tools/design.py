#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, design_notes.py, known_findings.txt and seeded/."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(root, 'tools')
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append((id, title, statement, text, why, files, observe))
exec(open(os.path.join(T, 'props.py')).read())
exec(open(os.path.join(T, 'design_notes.py')).read())
P.sort()
out = open(os.path.join(T, 'design_head.md')).read()
bounds = {}
for fn in sorted(os.listdir(os.path.join(root, 'mc'))):
    if fn.startswith('c') and fn.endswith('.go'):
        src = open(os.path.join(root, 'mc', fn)).read()
        for m in re.finditer(r'ID:\s+"(C\d+)",\s*(?:Title:[^\n]*\n\s*)?Bound:\s*((?:"(?:[^"\\]|\\.)*"\s*\+?\s*)+)', src):
            bounds[m[1]] = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', m[2])).replace('\\"', '"')
src = open(os.path.join(root, 'mc', 'scale.go')).read()
for m in re.finditer(r'^\t"(C\d+)": \{\n(.*?)^\t\},', src, re.M | re.S):
    names = re.findall(r'^\t\t\{"([^"]*)", func', m[2], re.M)
    bounds[m[1]] = bounds.get(m[1], '') + "; with up to 129 (thorough 513) of: " + ', '.join(names)
seeded = {}
d = os.path.join(root, 'seeded')
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    seeded.setdefault(m['property'], []).append((i, m))
for id, title, st, text, why, files, obs in P:
    o, more = N.get(id, ('', ''))
    out += f"### {id} {title}\n\n{st}\n\n"
    if o: out += f"* *Oracle*: {o}\n"
    if id in bounds: out += f"* *Enumerated*: {bounds[id]}.\n"
    else: out += f"* *Enumerated*: {text}.\n"
    if more: out += f"* {more}\n"
    out += f"* *Compared*: {', '.join(obs)}. *Why tests cannot*: {why}.\n"
    out += f"* *Anchors*: {', '.join(files)}\n"
    if id in seeded: out += f"* *Planted bugs caught*: {', '.join(i for i, m in seeded[id] if not m.get('missed'))}\n"
    out += "\n"
out += "## Planted bugs\n\nEach was written from the text of its property, in a scratch copy; the last column says which check catches it.\n\n| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for ms in seeded.values():
    for i, m in ms:
        out += f"| {i} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])}{', strengthened after it missed it' if m.get('missed_at_first') else ''} |\n"
out += "\n## Defects found\n\nEach was found by a check reporting a violation on the tree as it was, reproduced by the replay, and either repaired or recorded.\n\n"
for l in open(os.path.join(root, 'known_findings.txt')):
    l = l.strip()
    if l.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        out += f"* repaired ({m[1]}, {m[2]}): {m[3]}\n"
    elif l.startswith('KNOWN-FINDING'):
        out += f"* recorded: {l[15:]}\n"
out += "\n" + open(os.path.join(T, 'design_tail.md')).read()
open(os.path.join(root, 'DESIGN.md'), 'w').write(out)
