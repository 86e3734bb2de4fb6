"""Stand-in of the neural network (main.py): notes the call with a copy of the network's file, and writes a matrix."""
import math
import os
import shutil
import sys
import time

pipe = os.environ["PIPE"]
start = int(time.time() * 1e6)
log = open(pipe + "/log").read()
k = log.count(" nn ") + 1
plan = open(pipe + "/plan").read().split("\n")
path, n, model = sys.argv[1], sys.argv[2], sys.argv[3]
temp = "data/hyb_tsp/test_" + n + "_nodes_temp.txt"
shutil.copy(temp, "%s/temp_%d" % (pipe, k))
how = 1 if "nn %d" % k in plan else 2 if "nnlate %d" % k in plan else 0
if how != 1:
    text = open(temp).read().split("\n")[0].split(" output")[0].split()
    xy = [(float(text[i]), float(text[i + 1])) for i in range(0, len(text), 2)]
    if int(n) > int(model):
        xy = xy[::2] + xy[1::2]                         # the network groups the cities
    with open(path, "w") as f:
        f.write(";".join("(%r, %r)" % v for v in xy) + "\n")
        for i, a in enumerate(xy):
            f.write("".join("(%r, %r);" % (math.hypot(a[0] - b[0], a[1] - b[1]), 0.25 if i != j else 0.0) for j, b in enumerate(xy)) + "\n")
    # as the real one does, the file of the network is changed
    open(temp, "a").write(" ")
with open(pipe + "/log", "a") as f:
    f.write("%d nn %d %d %s %s %s\n" % (start, how, int(time.time() * 1e6), n, model, path))
sys.exit(1 if how else 0)
