#!/usr/bin/env python3
"""setup_cmd: compiles the simulator and every scenario once (cached by content)."""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import vbuild
from plan import PLAN
os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
work = tempfile.mkdtemp(prefix="setup-", dir=os.path.join(HERE, "build"))
try:
    groups = sorted({g for p in PLAN.values() for g in p[0]})
    exe, _ = vbuild.build(work, groups)
    print("built the simulator with scenarios %s" % ", ".join(groups))
except vbuild.BuildError as e:
    print(e)
    sys.exit(1)
finally:
    shutil.rmtree(work, ignore_errors=True)
