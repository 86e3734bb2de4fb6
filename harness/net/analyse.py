"""Runs read_values of the real analyzer.py on folders, with stand-ins for what only plots and tables need.

analyse.py ANALYZER FOLDERS OUT: FOLDERS [path]; OUT: [{stats, error}].
"""
import json
import os
import runpy
import sys
from unittest.mock import MagicMock

analyzer, folders, out = sys.argv[1], json.load(open(sys.argv[2])), sys.argv[3]
for name in ("matplotlib", "matplotlib.pyplot", "pandas", "seaborn"):
    try:
        __import__(name)
    except ImportError:
        sys.modules[name] = MagicMock()
sys.dont_write_bytecode = True
g = runpy.run_path(analyzer, run_name="analyzer")
answers = []
for f in folders:
    try:
        s = g["read_values"](f)
        answers.append({"stats": {k: sorted([a, b] for a, b in v.items()) if isinstance(v, dict) else v for k, v in s.items()}, "error": ""})
    except (Exception, SystemExit) as e:
        answers.append({"stats": None, "error": "%s: %s" % (type(e).__name__, e)})
with open(out, "w") as o:
    json.dump(answers, o)
