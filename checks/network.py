"""C23, C28: the real program around the network writes matrix files for answers generated by TLC and random ones; TLC judges them."""
import json
import math
import os
import random
import shutil

from lib import HARNESS, REPO, Broken, follow, parallel, run, spread
from pipeline import PY, numbers
from structures import generate

LEVELS = [0.0, 3e-9, 2e-5, 0.00012, 0.05, 0.5, 0.9, 0.99999]
NET = os.path.join(REPO, "src", "HybridSolver", "main", "graph-convnet-tsp")


def level(x):
    for k, v in enumerate(LEVELS):
        if abs(x - v) <= (0.02 * v if v < 0.9 else 5e-6):
            return k
    return -1


def coordinates(rnd, n):
    seen = []
    while len(seen) < n:
        v = [rnd.randrange(1, 1000), rnd.randrange(1, 1000)]
        if v not in seen:
            seen.append(v)
    return seen


def place(v, xy):
    best = min(range(len(xy)), key=lambda k: abs(xy[k][0] - 1000 * v[0]) + abs(xy[k][1] - 1000 * v[1]))
    return best if abs(xy[best][0] - 1000 * v[0]) + abs(xy[best][1] - 1000 * v[1]) < 1e-3 else -1


def item_of(job, a):
    n, m, xy = job["n"], job["m"], job["xy"]
    it = {"n": n, "m": m, "p": job["levels"], "xy": xy, "ok": 0, "input": [], "cities": [], "rows": [], "error": a["error"], "what": job["what"]}
    try:
        lines = a["text"].strip("\n").split("\n")
        it["cities"] = [place(v, xy) for v in numbers(lines[0])]
        rows = []
        for a0, line in enumerate(lines[1:]):
            row = []
            for b0, w in enumerate(numbers(line)):
                d = w[0]                                # in single precision, from coordinates in single precision
                if a0 < len(it["cities"]) and b0 < len(it["cities"]):
                    u, v = xy[it["cities"][a0]], xy[it["cities"][b0]]
                    d = math.hypot(u[0] - v[0], u[1] - v[1]) / 1000
                row.append([int(round(w[0] * 10000)) if 0 <= w[0] < 100 and abs(d - w[0]) <= 1e-6 else -1, level(w[1])])
            rows.append(row)
        it["rows"] = rows
        it["input"] = [place(v, xy) for v in a["seen"]]
        it["ok"] = int(not a["error"] and bool(rows))
    except (ValueError, IndexError, TypeError):
        pass
    return it


def plausible(it):
    n, m = it["n"], it["m"]
    if not it["ok"] or sorted(it["cities"]) != list(range(n)) or len(it["rows"]) != n or any(len(r) != n for r in it["rows"]) or len(it["input"]) != m:
        return False
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            ca, cb = it["cities"][a], it["cities"][b]
            ia = [k for k in range(min(n, m)) if it["input"][k] == ca]
            ib = [k for k in range(m) if it["input"][k] == cb]
            want = max([it["p"][ia[0]][k] for k in ib]) if ia and ib else 0
            d = math.hypot(it["xy"][ca][0] - it["xy"][cb][0], it["xy"][ca][1] - it["xy"][cb][1]) * 10
            if it["rows"][a][b][1] != want or abs(it["rows"][a][b][0] - d) > 1:
                return False
    return True


def text(it, event):
    return "%s: %d cities, model for %d, cities of the file %s, %s" % (it["what"], it["n"], it["m"], it["cities"][:24], it["error"] or
                                                                   "first row %s" % it["rows"][:1])


def execute(check, jobs):
    """Runs the jobs; pairs of a job and what came out."""
    def work(g, part):
        top = check.path("net_%d" % g)
        shutil.copytree(NET, top, ignore=lambda d, fs: [f for f in fs if f in ("data", "logs", "__pycache__") or f.endswith(".md")])
        src, dst = os.path.join(top, "in.json"), os.path.join(top, "out.json")
        with open(src, "w") as f:
            json.dump([{"n": j["n"], "m": j["m"], "xy": [[a / 1000, b / 1000] for a, b in j["xy"]], "med": j["med"], "tail": j["tail"],
                        "near": j.get("near", -1), "calls": "near" in j, "p": [[LEVELS[c] for c in r] for r in j["levels"]]} for j in part], f)
        r = run([PY, os.path.join(HARNESS, "net", "run.py"), top, src, dst], timeout=800,
                env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode or not os.path.exists(dst):
            raise Broken("the program of the network did not run: " + r.stdout[-1500:])
        a = json.load(open(dst))
        shutil.rmtree(top)
        return list(zip(part, a))
    parts = [jobs[k::8] for k in range(8)]
    return [i for part in parallel([lambda g=g, p=p: work(g, p) for g, p in enumerate(parts)]) for i in part]


def finish_jobs(jobs, rnd):
    for j in jobs:
        j.setdefault("xy", None)
        j["xy"] = j["xy"] or coordinates(rnd, j["n"])
        j["med"] = rnd.sample(range(j["n"]), min(j["m"], j["n"]))
        tour = " output " + " ".join(map(str, list(range(1, j["n"] + 1)) + [1]))
        j["tail"] = tour + rnd.choice(["", " ", "\n", " \n"])


def check_network(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    proofs = [dict(N=2, M=5, Levels="{0, 1}", Order=0), dict(N=3, M=5 if big else 4, Levels="{0, 1}" if big else "{0, 1, 2}", Order=0),
              dict(N=4, M=2, Levels="{0, 1, 2}", Order=0), dict(N=5, M=3, Levels="{0, 1}", Order=0)]
    gens = [dict(N=2, M=3, Levels="{1, 4, 6}", Order=1), dict(N=2, M=4, Levels="{1, 3, 6}", Order=1),
            dict(N=2, M=5, Levels="{2, 5}", Order=1), dict(N=3, M=3, Levels="{1, 5}", Order=1), dict(N=3, M=4, Levels="{1, 6}", Order=1),
            dict(N=2, M=6, Levels="{1, 5}", Order=1)]
    if big:
        gens += [dict(N=3, M=5, Levels="{1, 6}", Order=1), dict(N=4, M=4, Levels="{3, 4}", Order=1)]
    got = parallel([lambda g=g, k=k: generate(check, "NetGen", g, "net%d" % k, ["FileRight"], some=g["Order"] == 1) for k, g in enumerate(proofs + gens)])
    jobs = []
    for n, m, p, _ in (x for part in got[len(proofs):] for x in part):
        jobs.append({"n": n, "m": m, "levels": p, "what": "generated answer"})
    if not big and len(jobs) > 9000:
        jobs = rnd.sample(jobs, 9000)
    for k in range(500 if big else 90):
        m = rnd.choice([20, 50, 100]) if k % 3 == 0 else rnd.choice([6, 9, 20])
        n = rnd.choice([m, m - 1, m // 2 + 1, m // 2, max(2, m // 3), rnd.randrange(2, m + 1)])
        if k % 15 == 14:
            m, n = 100, rnd.randrange(101, 110)
        few = rnd.sample(range(8), rnd.choice([2, 4, 8]))
        sym = rnd.randrange(3) == 0
        p = [[rnd.choice(few) if rnd.randrange(3) else few[0] for _ in range(m)] for _ in range(m)]
        for a in range(m):
            p[a][a] = 0
            for b in range(a):
                p[a][b] = p[b][a] if sym else p[a][b]
        jobs.append({"n": n, "m": m, "levels": p, "what": "random answer"})
    finish_jobs(jobs, rnd)
    items = [item_of(j, x) for j, x in execute(check, jobs)]
    bad = [i for i in items if not plausible(i)]
    good = [i for i in items if plausible(i)]
    if len(bad) == len(items) and all(i["error"] for i in bad):
        raise Broken("the program of the network fails on everything: " + bad[0]["error"])
    gen, ran = [i for i in good if i["what"][0] == "g"], [i for i in good if i["what"][0] == "r"]
    check.evaluations = len(items)
    check.note(files=len(items), suspicious=len(bad), distinct_nontrivial=len(items), larger_than_model=sum(i["n"] > i["m"] for i in items),
               smaller_than_model=sum(i["n"] < i["m"] for i in items), rule="all answers of small models over few levels, random answers "
               "for models up to 100 with fewer and more cities; probabilities from 3e-9 to 0.99999")
    for i in ran[:3]:
        check.sample(text(i, 1)[:300])
    follow(check, "NetTrace", bad[:16] + spread(gen, 4000 if big else 1500) + spread(ran, 300 if big else 60), [check.prop], text)
    return "model_checking"


def question_of(job, a):
    """What the model was asked: cities by number, distances in ten thousandths."""
    n, m, xy = job["n"], job["m"], job["xy"]
    it = {"n": n, "m": m, "near": job["near"], "xy": xy, "ok": int(not a["error"] and bool(a["text"])), "calls": [], "error": a["error"], "what": job["what"]}
    for name, x in a["calls"]:
        if name == "ask":
            at = [place(v, xy) for v in x["coords"]]
            c = x["coords"]
            d = [[math.hypot(u[0] - v[0], u[1] - v[1]) for v in c] for u in c]
            x = {"input": at, "nodes": x["nodes"], "kinds": x["kinds"],
                 "values": [[int(round(v * 10000)) if k < len(c) and l < len(c) and abs(v - d[k][l]) <= 1e-6 else -1 for l, v in enumerate(row)]
                            for k, row in enumerate(x["values"])]}
        it["calls"].append([name, x])
    return it


def question_text(it, event):
    shown = [c[0] if c[0] == "ask" else "%s %s" % tuple(c) for c in it["calls"]]
    return "%s: %d cities, model for %d with %d neighbours, calls %s, %s" % (it["what"], it["n"], it["m"], it["near"], shown, it["error"])


def check_question(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    got = parallel([lambda g=g, k=k: generate(check, "AskedGen", g, "asked%d" % k, ["Trusted", "Consistent"], some=g["Calls"] == 0) for k, g in enumerate(
        [dict(N=2, M=2, Side=2, Calls=8 if big else 6), dict(N=2, M=4, Side=3, Calls=0), dict(N=3, M=3, Side=3, Calls=0), dict(N=3, M=5, Side=3, Calls=0),
         dict(N=4, M=4, Side=3, Calls=0), dict(N=4, M=5, Side=3, Calls=0), dict(N=5, M=5, Side=3, Calls=0)] + ([dict(N=6, M=6, Side=3, Calls=0),
         dict(N=5, M=7, Side=3, Calls=0), dict(N=4, M=4, Side=4, Calls=0)] if big else []))])
    jobs = []
    for k, part in enumerate(got):
        for places, near in part:
            m = (2, 4, 3, 5, 4, 5, 5, 6, 7, 4)[k]
            jobs.append({"n": len(places), "m": m, "near": near, "xy": [[1 + 100 * x, 1 + 100 * y] for x, y in places], "what": "generated instance"})
    if not big and len(jobs) > 3000:
        jobs = rnd.sample(jobs, 3000)
    for k in range(400 if big else 80):
        m = rnd.choice([20, 50, 100]) if k % 3 == 0 else rnd.choice([6, 9, 20])
        n = rnd.choice([m, m - 1, m // 2 + 1, m // 2, max(2, m // 3), rnd.randrange(2, m + 1)])
        if k % 12 == 11:
            m, n = 100, rnd.randrange(101, 110)
        near = rnd.choice([-1, 20, 20, rnd.randrange(2, m - 1)]) if m >= 50 else rnd.choice([-1, 1, m - 1, rnd.randrange(1, m)])
        jobs.append({"n": n, "m": m, "near": near, "what": "random instance"})
    for j in jobs:
        j["levels"] = [[(a * b + a) % len(LEVELS) for b in range(j["m"])] for a in range(j["m"])]
    finish_jobs(jobs, rnd)
    items = [question_of(j, x) for j, x in execute(check, jobs)]
    if all(i["error"] for i in items):
        raise Broken("the program of the network fails on everything: " + items[0]["error"])
    gen, ran = [i for i in items if i["what"][0] == "g"], [i for i in items if i["what"][0] == "r"]
    check.evaluations = len(items)
    check.note(questions=len(items), distinct_nontrivial=len(items), with_neighbours=sum(i["near"] > 0 for i in items),
               larger_than_model=sum(i["n"] > i["m"] for i in items), smaller_than_model=sum(i["n"] < i["m"] for i in items),
               rule="all instances of up to 5 places of a 3 x 3 grid with every number of neighbours, random ones for models up to 100")
    for i in ran[:3]:
        check.sample(question_text(i, 1)[:300])
    follow(check, "AskedTrace", gen + ran, [check.prop], question_text)
    return "model_checking"
