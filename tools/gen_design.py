#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the hand-written parts, properties.jsonl, manifest_data.py,
seeded/*/meta.json and known_findings.txt."""
import glob, json, os
base = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rd = lambda p: open(os.path.join(base, p)).read()
exec(rd("tools/manifest_data.py"))
props = [json.loads(l) for l in open(os.path.join(base, "properties.jsonl"))]
man = json.loads(rd("MANIFEST.json"))
claimed = {c["property"] for c in man["checks"]}
na = {c["property"]: c["reason"] for c in man["not_applicable"]}
out = [rd("tools/design_head.md"), "## Properties and how each is decided\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in claimed:
        t, n = CLAIM[i]
        out.append(f"*Method*: {t}. *Reach and bounds*: {n}\n" + (f"\n{EXTRA[i]}\n" if i in EXTRA else ""))
    else:
        out.append(f"*Not applicable*: {na[i]}\n")
out.append("## Planted bugs\n\nEach was confirmed by `tools/plant.py` (applies, builds, existing tests pass, the demonstration\nfails with it and passes without). `caught by` is the check that reports it.\n\n| bug | caught by | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(base, "seeded/*/meta.json"))):
    m = json.load(open(f))
    out.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
fixed = [l.split(":", 1)[1].strip() for l in rd("known_findings.txt").splitlines() if l.startswith("fixed:")]
known = [l.split(":", 1)[1].strip() for l in rd("known_findings.txt").splitlines() if l.startswith("known:")]
out.append("\n## Genuine defects found\n\nRepaired (one `fix:` commit each in /repo):\n")
out += ["- " + l for l in fixed]
out.append("\nRecorded, not repaired: " + ("none." if not known else ""))
out += ["- " + l for l in known]
out.append(rd("tools/design_tail.md"))
open(os.path.join(base, "DESIGN.md"), "w").write("\n".join(out))
