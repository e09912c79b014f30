#!/usr/bin/env python3
"""Writes known_findings.txt; commit ids of repairs are looked up by subject."""
import subprocess, os
log = subprocess.run(['git','-C','/repo','log','--format=%h%x09%s'],capture_output=True,text=True).stdout
ids = {l.split('\t')[1]: l.split('\t')[0] for l in log.splitlines()}
here = os.path.dirname(os.path.abspath(__file__))
FIXED, FINDINGS = [], []
exec(open(os.path.join(here,'findings_data.py')).read())
out = ["# Findings on the tree as it is, and repaired defects. Read by the checks, never written by them.",
       "# finding: property=<id> key=<key> <what fails>", "# fixed: property=<id> <commit> <what failed>"]
for p,k,w in FINDINGS: out.append("finding: property=%s key=%s %s" % (p,k,w))
used=set()
for p,s,w in FIXED:
    s='fix: '+s
    out.append("fixed: property=%s %s %s" % (p, ids[s], w)); used.add(s)
for s in ids:
    if s.startswith('fix:') and s not in used: print('not recorded:', s)
open(os.path.join(here,'..','known_findings.txt'),'w').write('\n'.join(out)+'\n')
