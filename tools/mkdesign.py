"""Fills the table of planted bugs into DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, d)))
    rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
p = ROOT + "/DESIGN.md"
s = open(p).read()
table = "| planted (caught by the check of the property in its name) | breaks | needs |\n|---|---|---|\n" + "\n".join(rows)
s = re.sub(r"holds (@COUNT@|\d+) changes", "holds %d changes" % len(rows), s)
if "@TABLE@" in s:
    s = s.replace("@TABLE@", table)
else:
    s = re.sub(r"\| planted \(caught.*", lambda _: table + "\n", s, flags=re.S)
open(p, "w").write(s)
