#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property, findings, and the table of
planted bugs with what seedrun.sh last said about them (tools/seedresults.txt)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(V, *p), encoding="utf-8").read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines()]
notes = json.loads(rd("tools", "level_notes.json"))
out = [rd("tools", "design_head.md").rstrip(), ""]
for p in props:
    n = notes[p["id"]]
    out += ["### %s %s" % (p["id"], p["title"]), ""]
    out += ["- **Specified:** %s" % n["spec"], "- **Run against it:** %s" % n["run"],
            "- **Bounds:** %s" % n["bounds"], "- **Beyond the tests:** %s" % n["beyond"], ""]
out += [rd("tools", "design_foot.md").rstrip(), "", "| planted bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
for l in rd("tools", "seedresults.txt").splitlines():
    f = l.split()
    if len(f) >= 3:
        res[f[0]] = "%s, quick (%s)" % (f[1], f[3]) if f[2] == "rc=1" else "**missed** (%s)" % f[2]
sd = os.path.join(V, "seeded")
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.loads(rd("seeded", i, "meta.json"))
    out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "not run yet")))
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out) + "\n")
