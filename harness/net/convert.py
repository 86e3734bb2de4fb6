"""Runs the real converter in a folder; the libraries it does not need for coordinate files are stand-ins.
convert.py SCRIPT FOLDER MODE: MODE euclidean or library (the reading is then done by the stand-in)."""
import math
import os
import runpy
import sys
import types

import numpy as np

script, folder, mode = sys.argv[1:4]


class Problem:
    def __init__(self, path):
        self.path = path

    def get_graph(self, *a, **k):
        return self

    def matrix(self):
        xy, inside = [], False
        for line in open(self.path):
            w = line.split()
            if inside and len(w) == 3:
                xy.append((float(w[1]), float(w[2])))
            inside = inside or line.strip() == "NODE_COORD_SECTION"
        return np.array([[math.hypot(a[0] - b[0], a[1] - b[1]) for b in xy] for a in xy])


t = types.ModuleType("tsplib95")
t.load = Problem
n = types.ModuleType("networkx")
n.to_numpy_matrix = lambda g, *a, **k: np.asmatrix(g.matrix())
n.to_numpy_array = lambda g, *a, **k: g.matrix()
sys.modules["tsplib95"], sys.modules["networkx"] = t, n
os.chdir(folder)
sys.argv = [script] + (["euclidean"] if mode == "euclidean" else [])
sys.stdout = open(os.devnull, "w")
runpy.run_path(script, run_name="__main__")
