# Rewrites section 7 of DESIGN.md (planted bugs) from seeded/*/meta.json and tools/caught.json.
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + "/tools/caught.json"))
rows = []
for d in sorted(glob.glob(root + "/seeded/*/")):
    i = os.path.basename(d[:-1]); m = json.load(open(d + "meta.json"))
    rows.append(f"| `{i}` | {m['needs'].rstrip('.; ')} | {caught.get(i, m['property'])} |")
p = root + "/DESIGN.md"; s = open(p).read()
s = re.split(r"\n## 7\. ", s)[0].rstrip("\n") + "\n\n" + f"""## 7. Planted bugs

{len(rows)} changes in `seeded/`, each written from a property and the code.  Every one is reported by the quick check of the property it was written against; the last column names the run
that reports it first, where it was recorded.  (`tools/mkcatch.py` writes this table.)

| change | needs | caught by |
|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
