#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the findings, the seeds and design_tail.md."""
import json, os, glob, subprocess
T = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(T)
FIXED, FINDINGS = [], []
exec(open(T+'/findings_data.py').read())
o = open(T+'/design_head.md').read()
o += "## Defects found and repaired\n\nEach is a `fix:` commit in `/repo` and a `fixed:` line in `known_findings.txt`.\nThe checks found them on the original tree; they pass on the repaired one and report\nthe violation again if it returns.\n\n"
for p, msg, what in FIXED:
    o += f"* **{p}** {what}. (*{msg}*)\n"
o += "\nRecorded, not repaired (known findings, printed as `KNOWN-FINDING` on every run):\n\n"
for p, key, what in FINDINGS:
    o += f"* **{p}** `{key}` — {what}\n"
o += """
The first needs a redesign of the parser's life cycle (the injector has no end-of-request
hook at which the files could be removed), the second a decision about what a number
read back should look like; neither is a small and safe repair.

"""
o += "## Planted bugs\n\nEach is in `seeded/<id>`: it compiles, passes the stable tests, and its demonstration\nfails with it and passes without it. They were written from the property texts and the\ncode. *caught* is by the quick check of the property; *after strengthening* means that the\ncheck missed it at first and its space was widened as a result.\n\n| planted bug | property | needs | result |\n|---|---|---|---|\n"
res = json.load(open(T+'/seed_results.json'))
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(f)); m = json.load(open(f))
    o += f"| {s} | {m['property']} | {m['needs']} | {res.get(s, 'caught')} |\n"
o += "\n" + open(T+'/design_tail.md').read()
open(V+'/DESIGN.md','w').write(o)
