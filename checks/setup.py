#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the specifications parse; builds nothing that is kept."""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import SPECS, TLA  # noqa: E402

for tool in ("java", "clang", "python3"):
    if not shutil.which(tool):
        sys.exit("missing: " + tool)
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    for f in os.listdir(SPECS):
        shutil.copy(os.path.join(SPECS, f), d)
    names = sorted(f for f in os.listdir(d) if f.endswith(".tla"))
    r = subprocess.run(["java", "-cp", TLA, "tla2sany.SANY", *names], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    if r.returncode or "*** Errors" in r.stdout or "Parse Error" in r.stdout:
        sys.exit(r.stdout[-3000:])
    print("specifications: %s" % " ".join(names))
finally:
    shutil.rmtree(d, ignore_errors=True)
