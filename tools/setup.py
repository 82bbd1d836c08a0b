#!/usr/bin/env python3
"""Checks that everything the checks need is there: the driver compiles
against /repo and the specifications parse."""
import os
import subprocess
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common  # noqa: E402

ctx = common.Ctx("setup")
try:
    common.build(ctx)
except common.Broken as e:
    print(e)
    sys.exit(1)
for m in sorted(os.listdir(ctx.spec)):
    if m.endswith(".tla"):
        p = subprocess.run(["java", "-cp", common.JARS, "tla2sany.SANY", m], cwd=ctx.spec, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or b"*** Errors" in p.stdout:
            print(p.stdout.decode())
            sys.exit(1)
print("ready")
