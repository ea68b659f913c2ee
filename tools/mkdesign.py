#!/usr/bin/env python3
"""DESIGN.in.md + seeded/*/meta.json -> DESIGN.md (development only)"""
import json, os
V = "/verif"
missed = set("""stale-write-after-cancel closed-pipe-is-eof final-data-dropped completed-is-clean
register-check-then-act write-split wait-misses-end accept-stops-on-reset pipe-send-when-gone
output-cache decode-aliases-large echo-sends-before-half-close mock-override-ignored""".split()) | set(
    open(V + "/tools/missed.txt").read().split())
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append((m["property"], i, m["what_it_breaks"], m["needs"], i in missed))
rows.sort()
t = "| property | planted bug | what it breaks | manifests when | caught by the quick check |\n|---|---|---|---|---|\n"
t += "\n".join("| %s | %s | %s | %s | %s |" % (p, i, b, n, "yes (first missed)" if x else "yes") for p, i, b, n, x in rows)
open(V + "/DESIGN.md", "w").write(open(V + "/DESIGN.in.md").read().replace("@@TABLE@@", t))
