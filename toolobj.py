#!/usr/bin/env python3
"""Compiles a program's main source file into an object whose only strong global is its (renamed) main."""
import subprocess, sys
out, mainname, redef = sys.argv[1:4]
cmd = sys.argv[4:]
if subprocess.run(cmd).returncode:
    sys.exit(1)
syms = subprocess.run(["nm", "--defined-only", out], stdout=subprocess.PIPE, text=True, check=True).stdout
local = []
for l in syms.splitlines():
    p = l.split()
    if len(p) == 3 and p[1] in "TDBRGSC" and mainname not in p[2]:
        local.append(p[2])
args = ["objcopy", "--redefine-syms=" + redef]
for s in local:
    args.append("--localize-symbol=" + s)
sys.exit(subprocess.run(args + [out]).returncode)
