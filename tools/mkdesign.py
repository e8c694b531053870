"""Regenerate the table of planted bugs in DESIGN.md (between the markers)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {"zero-resistance-dropped": "C03, C01",
        "top-stratum-from-model-height": "C22, C01, C13",
        "udl-cut-at-limit": "C02, C01"}
MISSED = json.load(open(os.path.join(ROOT, "tools", "missed.json")))

rows = ["| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    by = MISSED.get(i, ALSO.get(i, m["property"]))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {by} |")
p = os.path.join(ROOT, "DESIGN.md")
t = open(p).read()
a, b = "<!-- planted -->", "<!-- /planted -->"
h, _, rest = t.partition(a)
_, _, tail = rest.partition(b)
open(p, "w").write(h + a + "\n" + "\n".join(rows) + "\n" + b + tail)
