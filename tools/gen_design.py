#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md: the harnesses with their bounds, from their doc comments, and the planted bugs."""
import glob, json, os, re

ROOT = '/verif'


def harnesses():
    out = {}
    for f in sorted(glob.glob(ROOT + '/harness/props/*.go')):
        for doc, name in re.findall(r'((?:^//[^\n]*\n)*)^func (C\d\d_\w+)\(\) \{', open(f).read(), re.M):
            out[name] = ' '.join(l[2:].strip() for l in doc.splitlines())
    rows = []
    for n in sorted(out):
        d = out[n]
        d = d[len(n) + 1:].strip() if d.startswith(n) else d
        d = re.sub(r'^[:,]\s*', '', d)
        rows.append(f'| {n} | {d.replace("|", chr(92) + "|")} |')
    return '| harness | what is arbitrary, and within what bounds |\n|---|---|\n' + '\n'.join(rows) + '\n'


def seeds():
    caught = json.load(open(ROOT + '/tools/seeds_caught.json')) if os.path.exists(ROOT + '/tools/seeds_caught.json') else {}
    rows = []
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m, i = json.load(open(f)), f.split('/')[-2]
        rows.append(f'| {i} | {m["property"]} | {m["needs"]} | {caught.get(i, "not run yet")} |')
    return '| planted bug | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'


p = ROOT + '/DESIGN.md'
s = open(p).read()
for tag, text in (('harnesses', harnesses()), ('seeds', seeds())):
    a, b = f'<!-- {tag}: generated by tools/gen_design.py -->\n', f'<!-- end {tag} -->'
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + text + s[j:]
open(p, 'w').write(s)
