"""Rewrites section 5 of DESIGN.md: the planted bugs and the check that catches each."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
i = s.find("## 5. Planted bugs")
s = (s if i < 0 else s[:i]).rstrip() + "\n\n"
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
rows.sort()
MISSED = {l.split(" ", 1)[0]: l.strip().split(" ", 1)[1] for l in open(V + "/tools/missed.txt") if l.strip()}
s += """## 5. Planted bugs

Every bug below was confirmed in a scratch copy (compiles, stable tests pass, its demonstration fails
with it and passes without) and is caught by the quick check of its own property (`tools/catch.sh`);
where that was not so at first, the last column says what was added to the check.

| property | bug | breaks | needs | missed at first; added |
|---|---|---|---|---|
"""
for prop, name, needs, breaks in rows:
    s += "| %s | %s | %s | %s | %s |\n" % (prop, name, breaks.replace("|", "/"), needs.replace("|", "/"), MISSED.get(name, ""))
open(p, "w").write(s)
print(len(rows))
