#!/usr/bin/env python3
"""Rewrites the list of seeded changes in DESIGN.md."""
import glob, json, os, re
by = {}
for d in sorted(glob.glob('/verif/seeded/*/')):
    i = os.path.basename(d[:-1])
    by.setdefault(json.load(open(d + 'meta.json'))['property'], []).append(i.split('-', 1)[1])
n = sum(map(len, by.values()))
t = open('/verif/DESIGN.md').read()
t = re.sub(r"holds \d+ changes", "holds %d changes" % n, t)
lines = "\n".join("* %s: %s" % (p, ", ".join(sorted(x))) for p, x in sorted(by.items()))
a = t.index("quick check of its own property:\n\n") + len("quick check of its own property:\n\n")
b = t.index("\n\n", a)
open('/verif/DESIGN.md', 'w').write(t[:a] + lines + t[b:])
print(n)
