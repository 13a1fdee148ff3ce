#!/usr/bin/env python3
"""Writes harness/replay/registry.go: the harnesses by name, for native replay."""
import glob, re
names = []
for f in glob.glob('/verif/harness/props/*.go'):
    names += re.findall(r'^func (C\d\d_\w+)\(\) \{', open(f).read(), re.M)
width = max(len(n) for n in names)
with open('/verif/harness/replay/registry.go', 'w') as o:
    o.write('package main\n\nimport "nsverif/props"\n\nvar registry = map[string]func(){\n')
    for n in sorted(names):
        o.write(f'\t"{n}":{" " * (width - len(n) + 1)}props.{n},\n')
    o.write('}\n')
