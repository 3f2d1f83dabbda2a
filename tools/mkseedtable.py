"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(here + "/seeded")):
    meta = json.load(open("%s/seeded/%s/meta.json" % (here, name)))
    rows.append("| %s | %s | %s |" % (name, meta["property"], " ".join(str(meta["needs"]).split())))
path = here + "/DESIGN.md"
text = open(path).read().split("\n## 5. Planted bugs")[0]
open(path, "w").write(text.rstrip("\n") + """

## 5. Planted bugs

Each one is caught by the quick check of the property in its second column (`tools/trybug.sh` also verifies that the patch
passes the tests and that its demonstration fails with it only). First missed, then caught after a stronger check: lock-timeout
(slaves slower than any timeout in virtual time), reset-stays (the sockets given to the hooks are kept by the application).
`tools/mutants.py` tries mechanical mutants of the whole library against the checks.

| planted bug | caught by | needs |
|---|---|---|
""" + "\n".join(rows) + "\n")
