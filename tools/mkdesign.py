#!/usr/bin/env python3
"""Writes DESIGN.md from the specifications, the findings file, the seeded bugs and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from specs import SPECS
P = {x["id"]: x for x in map(json.loads, open(os.path.join(V, "properties.jsonl")))}
K = json.load(open(os.path.join(V, "known_findings.json")))

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
# id -> (oracle / domain, why beyond the tests, what is left out and why)
NOTES = {}
exec(open(os.path.join(V, "tools", "design_notes.py")).read())

out = [HEAD.rstrip(), "", "## The properties", ""]
for pid in sorted(SPECS):
    s, p = SPECS[pid], P[pid]
    oracle, reach, left = NOTES.get(pid, ("", "", ""))
    cfg = {}
    for v in s["variants"]:
        cxx = v.get("cxx", "g++"); cfg.setdefault("%s/%s/%s" % (cxx, v.get("std", "c++20"), v.get("san", "asan")), []).append(v["name"].split("-", 1)[1] if "-" in v["name"] else v["name"])
    out += ["### %s %s" % (pid, p["title"]), "", p["statement"], "",
            "*Method.* %s: %s" % (s["technique"][0].upper() + s["technique"][1:], s["level_note"]), ""]
    if oracle: out += ["*Oracle and domain.* " + oracle, ""]
    out += ["*Space.* %s" % s.get("rule", p["quantifier"]["text"]), ""]
    if reach: out += ["*Beyond the tests.* " + reach, ""]
    if left: out += ["*Not judged.* " + left, ""]
    out += ["*Builds.* " + "; ".join("%s: %s" % (k, ", ".join(v)) for k, v in cfg.items()) + ".", ""]
    fx = [f.split(" ", 2)[2] for f in K["fixed"] if "property=%s " % pid in f]
    kn = [f["key"] for f in K["known"] if f["property"] == pid]
    if fx or kn: out += ["*Defects found.* " + "; ".join(["fixed in " + f.replace(" ", ": ", 1) for f in fx] + ["known: " + k for k in kn]) + ".", ""]

out += ["## Findings that are not repaired", "", "Each is identified by a key the harness gives to exactly that failure (`known_findings.json`); other failures of the same property are reported.", ""]
seen = {}
for f in K["known"]: seen.setdefault((f["key"], f["what"]), []).append(f["property"])
for (k, w), ps in seen.items(): out += ["* **%s** (%s): %s." % (k, ", ".join(ps), w)]
out += ["", "## Planted bugs", "", "Each is in `seeded/<id>/` with a demonstration; the existing tests pass with it. \"Caught by\" is the check named; all are caught in the quick tier.", "", "| change | caught by | needs | breaks |", "|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, "meta.json")))
    out.append("| %s | %s%s | %s | %s |" % (d, m["property"], MISSED.get(d, ""), m["needs"].replace("|", "\\|").replace("\n", " "), m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
out += ["", TAIL.strip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
