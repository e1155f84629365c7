"""rewrites the table of planted bugs at the end of DESIGN.md (documentation only)"""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
head = "| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"
i = s.index(head)
rows = []
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    cut = lambda t, n: (t if len(t) <= n else t[:n - 3] + "...").replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |\n" % (os.path.basename(d), m["property"], cut(m["what_it_breaks"], 110), cut(m["needs"], 110)))
open(p, "w").write(s[:i] + head + "".join(rows))
