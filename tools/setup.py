#!/usr/bin/env python3
"""Checks that the tools are there and that specifications and harness are in order."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

bad = 0
os.makedirs(lib.EVID, exist_ok=True)
for f in sorted(glob.glob(os.path.join(lib.SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", lib.JARS, "tla2sany.SANY", os.path.basename(f)], cwd=lib.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-2000:])
        bad = 1
for d in sorted(os.listdir(lib.HARNESS)):
    if glob.glob(os.path.join(lib.HARNESS, d, "main.go")):
        lib.build(d)
print("setup:", "failed" if bad else "ok")
sys.exit(bad)
