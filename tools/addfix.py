#!/usr/bin/env python3
"""addfix.py PROPERTY 'part of the commit subject' 'what failed' -> a line in known_findings.jsonl"""
import subprocess
import sys

pid, part, text = sys.argv[1:4]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
hits = [l.split(" ", 1)[0] for l in log if part in l]
assert len(hits) == 1, hits
with open("/verif/known_findings.jsonl", "a") as f:
    f.write(f"fixed: property={pid} {hits[0]} {text}\n")
