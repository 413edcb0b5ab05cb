"""Rewrites the table of planted bugs in DESIGN.md out of seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "/"), m["property"]))
p = here + "/DESIGN.md"
s = open(p).read()
head = "| planted bug (`seeded/`) | needs | caught by |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = re.compile(r"^(?!\|)", re.M).search(s, i).start()
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
print(len(rows))
