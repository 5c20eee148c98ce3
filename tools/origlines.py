#!/usr/bin/env python3
"""Lists planted bugs that do not change a line of the original repository."""
import re, subprocess, sys, os
BASE = "2759c16"
def blame(f):
    out = subprocess.run(["git","-C","/repo","blame","-s","-l",f"{BASE}..HEAD","--",f],capture_output=True,text=True).stdout.splitlines()
    return [l.startswith("^") for l in out]
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
cache={}
for d in sorted(os.listdir("seeded")):
    p=f"seeded/{d}/patch.diff"
    if not os.path.exists(p): continue
    ok=[];f=None;n=0
    for l in open(p):
        if l.startswith("--- a/"): f=l[6:].strip(); cache.setdefault(f,blame(f))
        elif l.startswith("@@"): n=int(re.match(r"@@ -(\d+)",l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            ok.append(cache[f][n-1]); n+=1
        elif l.startswith(" "): n+=1
    if not any(ok): print(d, "removes", len(ok), "lines, none original")
