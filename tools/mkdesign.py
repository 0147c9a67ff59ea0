#!/usr/bin/env python3
"""Rewrites the generated end of DESIGN.md: the seeded changes and the list of harnesses."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mark = "<!-- generated by tools/mkdesign.py -->\n"
p = os.path.join(root, "DESIGN.md")
head = open(p).read().split(mark)[0]
out = [mark]
caught = {}
cf = os.path.join(root, "tools", "caught.txt")
if os.path.exists(cf):
    for l in open(cf):
        f = l.split()
        if len(f) >= 2:
            caught[f[0]] = " ".join(f[2:])
out.append("| change | needs | caught by |\n|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s |\n" % (i, m["needs"].replace("|", "/"), caught.get(i, "?").replace("VF_", "")))
out.append("\n## Harnesses\n\n`seq`: one order of goroutines; `preempt=N`: N preemptions (thorough: `tpreempt`); `nofree`: goroutines change only where the running one blocks, in a canonical order; `delays=N`: N deviations from it.\n\n")
hs = {}
for f in sorted(glob.glob(os.path.join(root, "harness", "**", "*.go"), recursive=True)):
    ls = open(f).read().split("\n")
    for i, l in enumerate(ls):
        m = re.match(r"func (VF_(C\d+)_\w+)\(\)", l)
        if not m:
            continue
        j, what, d = i - 1, [], ""
        while j >= 0 and ls[j].startswith("//"):
            t = ls[j][2:].strip()
            if t.startswith("vf:"):
                d = t[3:].strip()
            else:
                what.insert(0, t)
            j -= 1
        w = re.sub(r"^VF_\w+:?\s*", "", " ".join(what))
        hs.setdefault(m.group(2), []).append((m.group(1)[3:], d, w, os.path.relpath(f, os.path.join(root, "harness"))))
for c in sorted(hs):
    out.append("**%s**\n\n" % c)
    for n, d, w, f in hs[c]:
        out.append("* `%s` (%s; %s)%s\n" % (n, f, d or "default", ": " + w if w else ""))
    out.append("\n")
open(p, "w").write(head + "".join(out))
