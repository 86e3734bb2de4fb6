"""C22: runs of the real driver with stand-ins for the build, the network and the solver, generated by TLC and followed by TLC."""
import json
import math
import os
import random
import re
import shutil
import time
import sys

from lib import HARNESS, REPO, VERIF, Broken, follow, parallel, run, spread
from structures import generate

PY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(PY):
    PY = shutil.which("python3-vt") or sys.executable
PIPE = os.path.join(HARNESS, "pipe")
SRC = os.path.join(REPO, "src", "HybridSolver")


def instance_lines(rnd, n, count):
    """Coordinates in the unit square, and the lines of the instance file."""
    xys, lines = [], []
    for _ in range(count):
        seen = set()
        while len(seen) < n:
            seen.add((rnd.choice([rnd.random(), round(rnd.random(), 12), round(rnd.random(), 3)]), rnd.random()))
        xy = sorted(seen, key=lambda v: rnd.random())
        xys.append(xy)
        tour = list(range(1, n + 1))
        lines.append(" ".join("%r %r" % v for v in xy) + (" output " + " ".join(map(str, tour + [1])) if rnd.randrange(4) else "") +
                     rnd.choice(["", " "]))
    return xys, "\n".join(lines) + "\n"


def numbers(text):
    return [tuple(float(x) for x in w) for w in re.findall(r"\(\s*([^,()]+?)\s*,\s*([^,()]+?)\s*\)", text)]


def matrix_of(path, xys):
    """The instance that a matrix file describes, how, and its cities in order."""
    try:
        lines = open(path).read().strip().split("\n")
        head, rows = numbers(lines[0]), [numbers(x) for x in lines[1:]]
    except (OSError, ValueError, IndexError):
        return -1, "none", []
    if lines[0].startswith("older"):
        return 0, lines[0].split()[1], []
    for k, xy in enumerate(xys):
        if sorted(head) == sorted(xy):
            n = len(xy)
            if len(rows) != n or any(len(r) != n for r in rows):
                return k + 1, "torn", head
            if any(abs(rows[a][b][0] - math.hypot(head[a][0] - head[b][0], head[a][1] - head[b][1])) > 1e-12 for a in range(n) for b in range(n) if a != b):
                return k + 1, "wrong distances", head
            probs = {rows[a][b][1] for a in range(n) for b in range(n) if a != b}
            if probs == {0.0}:
                return k + 1, "plain" if head == xy else "shuffled", head
            return k + 1, "net" if probs == {0.25} else "wrong probabilities", head
    return -1, "foreign", head


def index_of(path, pattern):
    m = re.fullmatch(re.escape(pattern).replace("\\#", r"(\d+)"), os.path.realpath(path))
    return int(m.group(1)) if m else 0


def drive(check, name, conf, plan, rng, seed, real=False):
    """One run of the driver; returns the item for TLC."""
    rnd = random.Random(seed)
    top = check.path("drive_" + name)
    pipe, main = os.path.join(top, "pipe"), os.path.join(top, "HybridSolver", "main")
    os.makedirs(pipe)
    shutil.copytree(os.path.join(SRC, "main"), main, ignore=lambda d, fs: [
        f for f in fs if f in ("graph-convnet-tsp", "__pycache__") or (not real and f.endswith((".c", ".h")))])
    if real:
        shutil.copytree(os.path.join(SRC, "test"), os.path.join(top, "HybridSolver", "test"))
        shutil.copy(os.path.join(SRC, "CMakeLists.txt"), os.path.join(top, "HybridSolver"))
        open(os.path.join(pipe, "real"), "w").close()
    data = os.path.join(main, "graph-convnet-tsp", "data", "hyb_tsp")
    os.makedirs(data)
    shutil.copy(os.path.join(PIPE, "nn.py"), os.path.join(main, "graph-convnet-tsp", "main.py"))
    n, hyb = conf["n"], conf["hyb"]
    xys, text = instance_lines(rnd, n, conf["count"])
    with open(os.path.join(data, "test_%d_nodes.txt" % n), "w") as f:
        f.write(text)
    mode = "hybrid" if hyb else "classic"
    root = os.path.realpath(os.path.join(top, "HybridSolver"))
    mat = os.path.join(root, "data", "AdjacencyMatrix", "tsp_%d_nodes" % n, "tsp_test_#.csv")
    res = os.path.join(root, "results", "AdjacencyMatrix", "tsp_%d_nodes_%s" % (n, mode), "tsp_result_#.txt")
    if conf["stale"]:
        os.makedirs(os.path.dirname(mat)), os.makedirs(os.path.dirname(res))
        for i in range(conf["count"]):
            open(mat.replace("#", str(i + 1)), "w").write("older %s\n" % ("net" if hyb else "plain"))
            open(res.replace("#", str(i + 1)), "w").write("older\n")
        open(os.path.join(data, "test_%d_nodes_temp.txt" % n), "w").write("0.5 0.5 output 1 1\n")
    solves = nets = 0
    with open(os.path.join(pipe, "plan"), "w") as f:
        for s in plan:
            solves, nets = solves + s.startswith("solve"), nets + s.startswith("nn")
            f.write({"cmake fails": "cmake\n", "make fails": "make\n", "nn early": "nn %d\n" % nets, "nn late": "nnlate %d\n" % nets,
                     "solve fails": "solve %d\n" % solves, "solve killed": "killed %d\n" % solves}.get(s, ""))
    log = os.path.join(pipe, "log")
    open(log, "w").close()
    env = dict(os.environ, PIPE=pipe, PATH=PIPE + ":" + os.environ.get("PATH", "/usr/bin:/bin"), PYTHONDONTWRITEBYTECODE="1",
               REAL_CMAKE=shutil.which("cmake") or "cmake", REAL_MAKE=shutil.which("make") or "make", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    r = run([PY, "HybridSolver.py", "--range_instances", rng, "--num_nodes", str(n)] + (["--hybrid"] if hyb else []), cwd=main, env=env, timeout=300)
    over = int(time.time() * 1e6)
    ev, heads, t0, last = [], [], None, 0
    kc = kn = 0
    for line in open(log):
        w = line.split()
        t0 = t0 or int(w[0])
        b = int(w[0]) - t0
        if w[1] == "cmake":
            ev.append({"k": "cmake", "b": b, "e": b, "n": int(w[2]) if w[2].isdigit() else -1, "hyb": int(w[3]) if w[3].isdigit() else -1, "ok": w[4] == "0"})
        elif w[1] == "make":
            ev.append({"k": "make", "b": b, "e": b, "ok": w[2] == "0"})
        elif w[1] == "nn":
            kn += 1
            try:
                given = open(os.path.join(pipe, "temp_%d" % kn)).read().split("\n")[0].split(" output")
                nums, tour = [float(x) for x in given[0].split()], " ".join(given[1:]).split()
            except (OSError, ValueError):
                nums, tour = [], []
            # the network's reader needs the tour of the line as well
            temp = [k + 1 for k, xy in enumerate(xys) if [q for v in xy for q in v] == nums and
                    tour == " ".join(text.split("\n")[k].split(" output")[1:]).split()]
            ev.append({"k": "nn", "b": b, "e": int(w[3]) - t0, "temp": (temp + [0])[0], "n": int(w[4]), "model": int(w[5]), "path": index_of(w[6], mat),
                       "how": ["ok", "early", "late"][int(w[2])]})
        else:
            kc += 1
            of, kind, head = matrix_of(os.path.join(pipe, "matrix_%d" % kc), xys)
            heads.append(head)
            ev.append({"k": "solve", "b": b, "e": int(w[3]) - t0, "exe": [int(w[4]), int(w[5])], "path": index_of(w[6], mat), "out": index_of(w[7], res),
                       "of": of, "kind": kind, "ok": w[2] == "0"})
        last = ev[-1]["e"]
    results = []
    for i in range(1, conf["count"] + 1):
        d = {"call": -1, "cities": 0, "order": 0, "t": 0}
        try:
            said = open(res.replace("#", str(i))).read()
        except OSError:
            results.append(d)
            continue
        m = re.match(r"solved in call (\d+)\n", said)
        d["call"] = int(m.group(1)) if m else 0
        if real and not said.startswith("older"):
            own = [k for k, e in enumerate(e for e in ev if e["k"] == "solve") if e["out"] == i]
            d["call"] = own[-1] + 1 if own else 0
        listed = re.findall(r"^\s*(\d+)\s*:\s*(\S+)\s+(\S+)\s*$", said, re.M)
        try:
            cities = [(float(a), float(b)) for _, a, b in listed]
        except ValueError:
            cities = []
        if [int(k) for k, _, _ in listed] == list(range(n)) and said.count("Nodes:") == 1:
            d["cities"] = ([k + 1 for k, xy in enumerate(xys) if sorted(xy) == sorted(cities)] + [0])[0]
            d["order"] = int(0 < d["call"] <= len(heads) and heads[d["call"] - 1] == cities)
        times = re.findall(r"Time taken: ([0-9.e+-]+)s", said)
        d["t"] = min(int(float(times[0]) * 1e6), 2000000000) if len(times) == 1 else -1000000
        results.append(d)
    temp = os.path.exists(os.path.join(data, "test_%d_nodes_temp.txt" % n))
    stop = max(last, over - (t0 or 0)) if t0 else 0            # the run went on until here
    extra = left_over(root, n, mode, conf["count"]) if r.returncode == 0 else []
    ev.append({"k": "end", "b": stop, "e": stop, "ok": r.returncode == 0, "temp": int((temp and not (conf["stale"] and not hyb)) or bool(extra)), "results": results})
    item = {"conf": conf, "ev": ev, "range": rng, "plan": plan, "said": r.stdout[-600:]}
    if real:
        item["reports"] = [open(res.replace("#", str(i))).read() if os.path.exists(res.replace("#", str(i))) else "" for i in range(1, conf["count"] + 1)]
        item["heads"] = heads
    shutil.rmtree(top)
    return item


def left_over(root, n, mode, count):
    """Files that a successful run has no reason to leave."""
    fine = {"tsp_test_%d.csv" % (i + 1) for i in range(count)} | {"tsp_result_%d.txt" % (i + 1) for i in range(count)} | {"test_%d_nodes.txt" % n}
    out = []
    for d in ("data", "results", os.path.join("main", "graph-convnet-tsp", "data")):
        for _, _, fs in os.walk(os.path.join(root, d)):
            out += [f for f in fs if f not in fine and f != "test_%d_nodes_temp.txt" % n]
    return out


def text(item, event):
    c = item["conf"]
    return "range %s of %d instances of %d cities, %s mode, %s, steps %s: event %d %s" % (
        item["range"], c["count"], c["n"], "hybrid" if c["hyb"] else "classic", "after other runs" if c["stale"] else "first run",
        item["plan"], event, json.dumps(item["ev"][event - 1])[:260] if 0 < event <= len(item["ev"]) else item["said"][-200:])


def ranges(c):
    a, b = c["first"], c["last"]
    return ["%d-%d" % (a, b)] + (["%d" % b, "0-%d" % b] if a == 1 else [])


def check_pipeline(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    sizes = "{2, 5, 20, 21, 50, 51, 100, 101, 120}"
    jobs = [dict(Sizes=sizes, Count=3, Hyb=h) for h in (0, 1)]
    got = parallel([lambda g=g, k=k: generate(check, "PipelineGen", g, "pipe%d" % k, ["Coherent"]) for k, g in enumerate(jobs)])
    work = {}
    for conf, steps, _ in got[0] + got[1]:
        for r in ranges(conf):
            work.setdefault(conf["n"] == 5, []).append((conf, steps, r))
    for v in work.values():
        rnd.shuffle(v)
    todo = work[True][:1500 if big else 170] + [w for w in work[False] if w[0]["n"] <= 100 or not w[0]["hyb"] or w[1].count("nn")][:900 if big else 60]
    todo += [w for w in work[False] if w[0]["n"] > 100 and w[0]["hyb"] and w[2] == "1-2" and len(w[1]) == 6 and w[1][-1] == "solve"][:2]
    items = parallel([lambda w=w, k=k: drive(check, "%d" % k, w[0], w[1], w[2], check.seed * 100000 + k) for k, w in enumerate(todo)])
    whole = [dict(n=6, hyb=h, first=1, last=2, count=2, stale=0) for h in (0, 1)]
    real = parallel([lambda c=c, k=k: drive(check, "real%d" % k, c, [], "1-2", check.seed + k, True) for k, c in enumerate(whole)])
    check.evaluations = len(items) + len(real)
    check.note(runs=len(items) + len(real), failing_steps=sum(any(" " in s for s in i["plan"]) for i in items),
               distinct_nontrivial=len(items), hybrid_runs=sum(i["conf"]["hyb"] for i in items), complete_builds=len(real),
               rule="ranges, sizes about those of the models, every failure of a step, clean and used folders, generated by TLC (all for the "
                    "model, a selection is run); two runs with the real build and solver")
    for i in items[:3]:
        check.sample(text(i, len(i["ev"])))
    for i in real:
        if not i["ev"][-1]["ok"]:
            raise Broken("the driver did not finish with the real build: " + i["said"])
        for head, report in zip(i["heads"], i["reports"]):
            best = shortest(head)
            m = re.search(r"SUBPROBLEM with cost = ([0-9.]+)", report)
            if not m or abs(float(m.group(1)) - best) > 1.3 * math.sqrt(len(head)) * 0.00127:
                check.violation("real build, %s mode: the result of the solver is not that of its instance (cost %.6f): %s" % (
                    "hybrid" if i["conf"]["hyb"] else "classic", best, report[:300]), i)
    follow(check, "PipelineTrace", items + real, [check.prop], text)
    return "model_checking"


def shortest(xy):
    from itertools import permutations
    d = lambda a, b: math.hypot(xy[a][0] - xy[b][0], xy[a][1] - xy[b][1])  # noqa: E731
    return min(sum(d(a, b) for a, b in zip((0,) + p, p + (0,))) for p in permutations(range(1, len(xy))))
