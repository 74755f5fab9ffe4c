"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import collections, glob, json, os, re
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    d[m["property"]].append((f.split("/")[-2], m["what_it_breaks"]))
rows = []
for k in sorted(d):
    rows.append("* **%s**: " % k + "; ".join(
        "`%s` (%s)" % (n, w.rstrip(".")) for n, w in d[k]))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(sum(len(x) for x in d.values()), "planted bugs")
