"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| Bug | Needs | Breaks |", "| --- | --- | --- |"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| `%s` | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"]))
p = root + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(\n<!-- /planted -->)", lambda g: g.group(1) + "\n".join(rows) + g.group(2), s, flags=re.S)
open(p, "w").write(s)
