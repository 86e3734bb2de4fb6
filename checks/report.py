"""C24: result files of the real solver, in folders generated by TLC, read by the real analysis; TLC compares."""
import json
import os
import random
import re

from lib import HARNESS, REPO, Broken, follow, parallel, run, spread
from pipeline import PY, drive
from search import build
from structures import generate

ANALYZER = os.path.join(REPO, "src", "HybridSolver", "results", "AdjacencyMatrix", "analyzer.py")
COLUMNS = ("total_time", "time_bb", "time_to_best", "generate_bbnodes", "explored_bbnodes", "bbnodes_before_best", "total_tree_level",
           "best_level", "prob_best", "best_value")
TIMES = COLUMNS[:3]


def chunks(x):
    """A number with six decimals as a list of integers: sign, then groups of six digits."""
    s = x if isinstance(x, str) else "%.6f" % x
    neg, s = s.startswith("-"), s.lstrip("-").replace(".", "")
    s = s.lstrip("0").rjust(6, "0")
    s = "0" * (-len(s) % 6) + s
    return [int(neg and s.strip("0") != "")] + [int(s[k:k + 6]) for k in range(0, len(s), 6)]


def seconds(x):
    """A time as seconds and microseconds."""
    us = int((x if isinstance(x, str) else "%.6f" % x).replace(".", ""))
    return [us // 1000000, us % 1000000]


def made(check, plan, hyb, seed):
    n, profile, count, secs = plan
    name = "%d_%d_%s" % (n, hyb, profile)
    folder, out = check.path("reports_" + name), check.path("reports_%s.json" % name)
    os.makedirs(folder)
    r = run([check.path("bb_%d_%d" % (n, hyb)), out, str(seed), str(count), "0", "0", "0", "report:" + profile, str(secs), folder],
            cwd=check.dir, timeout=860)
    try:
        got = json.load(open(out))
    except (ValueError, OSError):
        raise Broken("the driver failed: " + r.stdout[-2000:])
    fine = []
    for g in got:
        if not g["crash"]:
            g["text"] = open(os.path.join(folder, "%d.txt" % g["k"]), errors="replace").read()
            g["N"] = n
            fine.append(g)
    check.note(unfinished_solves=len(got) - len(fine))
    return fine


def record(g, ident, taken):
    """What the solver knew, as the specification has it."""
    return {"id": ident, "origin": g["origin"], "intr": g["intr"], "cost": chunks(g["cost"]), "prob": chunks(g["prob"]), "lvl": [g["lvl"]], "no": [g["id"]],
            "best": seconds(g["best"]), "elapsed": seconds(g["elapsed"]), "gen": [g["gen"]], "expl": [g["expl"]], "lvls": [g["lvls"]],
            "imp": [[chunks(v), seconds(t)] for v, t in g["imp"]], "taken": seconds(taken)}


def found(a):
    """What the analysis returned, as the specification has it."""
    none = {"ok": 0, "resolved": 0, "closed": {"nn": 0, "pnn": 0, "tree": 0, "ascent": 0}, "unresolved": [], "per": [], "partial": []}
    s = a["stats"]
    if s is None:
        return none
    pc = lambda x: int(round(float(str(x).rstrip("%")) * 100))  # noqa: E731
    try:
        cols = {c: dict(map(tuple, s[c])) for c in COLUMNS}
        ids = set(cols["total_time"])
        if any(set(v) != ids for v in cols.values()):
            return none
        conv = lambda c, v: seconds(v) if c in TIMES else chunks(v) if c in ("prob_best", "best_value") else [int(v) if int(v) == v else -1]  # noqa: E731
        return {"ok": 1, "resolved": pc(s["resolved"]),
                "closed": {"nn": pc(s["num_closed_nn"]), "pnn": pc(s["num_closed_nnHybrid"]), "tree": pc(s["num_closed_1Tree"]),
                           "ascent": pc(s["num_closed_subgradient"])},
                "unresolved": [int(x) for x in s["not_resolved"]],
                "per": [{"id": i, "row": {c: conv(c, cols[c][i]) for c in COLUMNS}} for i in sorted(ids)],
                "partial": [{"id": i, "resolved": int(p[0]), "imp": [[chunks(v), seconds(t)] for v, t in p[1]]} for i, p in s["partial_solutions"]]}
    except (KeyError, TypeError, ValueError, IndexError):
        return none


def kind(g):
    return (g["origin"], g["intr"], min(len(g["imp"]), 2))


def cities_text(n, rnd):
    return "".join("\t%d : %r %r\n" % (k, rnd.random(), rnd.random()) for k in range(n))


def folder_of(check, k, files, rnd):
    top = check.path("folder_%d" % k)
    os.makedirs(top)
    ids = rnd.sample(range(1, rnd.choice([10, 120, 2000]) if len(files) < 8 else 5000), len(files))
    recs = []
    for g, ident in zip(files, ids):
        taken = float(g["elapsed"]) + rnd.choice([0.001, 0.25, 3, 40]) * (1 + rnd.random())
        taken = repr(round(taken, rnd.choice([3, 6, 15])))
        with open(os.path.join(top, "tsp_result_%d.txt" % ident), "w") as f:
            f.write(g["text"] + "\nNodes: \n" + cities_text(g["n"], rnd) + "\nTime taken: " + taken + "s\n")
        recs.append(record(g, ident, "%.6f" % float(taken)))
    if rnd.randrange(3) == 0:
        for name in ("mean_results.txt", "notes.md", "performance_profile.csv"):
            with open(os.path.join(top, name), "w") as f:
                f.write("Resolved Instances\n")
    return top, recs


def text(it, event):
    if it["kind"] == "cycle":
        return it["what"]
    return "folder of %d results (%s): %s" % (len(it["files"]), ", ".join("%d: %s%s, %d improvements" % (
        f["id"], f["origin"], " interrupted" if f["intr"] else "", len(f["imp"])) for f in it["files"][:4]),
        it["error"] or ("the analysis reports " + json.dumps(it["said"])[:700]))


def cycle_item(check, k, hyb, n):
    """A run of the driver with the real build: the cycle of each report over the cities listed in it."""
    item = drive(check, "cycle%d" % k, dict(n=n, hyb=hyb, first=1, last=2, count=2, stale=0), [], "1-2", check.seed * 10 + k, True)
    if not item["ev"][-1]["ok"]:
        raise Broken("the driver did not finish with the real build: " + item["said"])
    out = []
    for rep in item["reports"]:
        c = re.search(r"Cycle with \d+ edges:(.*)", rep)
        walk = [[int(a), int(b)] for a, b in re.findall(r"(\d+) <-> (\d+)", c.group(1) if c else "")]
        xy = {int(a): [int(round(float(b) * 10000)), int(round(float(d) * 10000))] for a, b, d in re.findall(r"^\s*(\d+)\s*:\s*(\S+)\s+(\S+)\s*$", rep, re.M)}
        cost = re.search(r"SUBPROBLEM with cost = ([0-9.]+)", rep)
        ok = sorted(xy) == list(range(n)) and cost is not None
        out.append({"kind": "cycle", "files": [], "n": n, "ok": int(ok), "walk": walk, "xy": [xy[v] for v in range(n)] if ok else [],
                    "cost": int(round(float(cost.group(1)) * 10000)) if cost else 0,
                    "what": "%s mode: the cycle %s of cost %s over the listed cities %s" % ("hybrid" if hyb else "classic", walk, cost and cost.group(1), xy)})
    return out


def check_report(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    jobs = [dict(Size=3, Long=2)] + ([dict(Size=4, Long=1)] if big else [])
    gen = lambda: [x for k, g in enumerate(jobs) for x in generate(check, "ReportGen", g, "rep%d" % k, ["NothingLost"], workers=4)]  # noqa: E731
    plans = [(9, "a", 900, 12), (12, "a", 90, 12), (15, "c", 30, 10), (7, "d", 500, 15), (10, "c", 300, 15)]
    if big:
        plans = [(n, p, c * 6, 120) for n, p, c, _ in plans] + [(14, "a", 300, 120)]
    folders, *_ = parallel([gen] + [lambda n=n, h=h: build(check, n, h) for n in sorted({p[0] for p in plans}) for h in (0, 1)])
    got = parallel([lambda p=p, h=h, k=k: (h, made(check, p, h, check.seed * 50 + k)) for k, p in enumerate(plans) for h in (0, 1)])
    stock = {}
    for h, part in got:
        for g in part:
            stock.setdefault(h, {}).setdefault(kind(g), []).append(g)
    have = {h: {k: len(v) for k, v in stock[h].items()} for h in stock}
    total = sum(sum(v.values()) for v in have.values())
    if total < 500:
        raise Broken("only %d solves finished" % total)
    work = []
    for f in sorted({tuple(map(tuple, x)) for x in folders}):
        for h in (0, 1):
            if all(c in stock[h] for c in f):
                work.append((h, f, [rnd.choice(stock[h][c]) for c in f]))
    missing = sum(1 for h in (0, 1) for o, i, k in {c for f in folders for c in map(tuple, f)} if (o, i, k) not in stock[h] and not (o == "pnn" and h == 0))
    for h in (0, 1):                                         # every report is read at least once
        every = [g for v in stock[h].values() for g in v]
        rnd.shuffle(every)
        work += [(h, (), every[k:k + 25]) for k in range(0, len(every), 25)]
    places = [folder_of(check, k, w[2], rnd) for k, w in enumerate(work)]

    def read(g):
        src, dst = check.path("in_%d.json" % g), check.path("out_%d.json" % g)
        with open(src, "w") as f:
            json.dump([p[0] for p in places[g::8]], f)
        r = run([PY, os.path.join(HARNESS, "net", "analyse.py"), ANALYZER, src, dst], timeout=800, cwd=check.dir,
                env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode or not os.path.exists(dst):
            raise Broken("the analysis did not run: " + r.stdout[-1500:])
        return json.load(open(dst))
    cycles_job = [lambda h=h, k=k: cycle_item(check, k, h, n) for k, (h, n) in enumerate(((0, 6), (1, 6)) if not big else ((0, 6), (1, 6), (0, 8), (1, 8)))]
    done = parallel([lambda g=g: read(g) for g in range(8)] + cycles_job)
    items = []
    for g in range(8):
        for (top, recs), a in zip(places[g::8], done[g]):
            s = a["stats"]
            items.append({"kind": "folder", "files": recs, "got": found(a), "error": a["error"],
                          "said": {k: s[k] for k in s if k not in ("partial_solutions",)} if s and len(recs) < 5 else ""})
    if all(i["error"] for i in items):
        raise Broken("the analysis fails on everything: " + items[0]["error"])
    cycles = [c for part in done[8:] for c in part]
    check.evaluations = len(items) + total
    check.note(result_files=total, folders=len(items), distinct_nontrivial=len(items), kinds_not_met=missing, cycles=len(cycles),
               kinds={("hybrid" if h else "classic"): {"%s%s%s" % (k[0], " interrupted" if k[1] else "", " x%d" % k[2] if k[2] else ""): v for k, v in have[h].items()} for h in have},
               rule="every folder of up to three results by origin, interruption and improvements (TLC), filled with result files of the "
                    "real solver; every result file of the run in folders of 25")
    for i in items[:3]:
        check.sample(text(i, 1)[:300])
    follow(check, "ReportTrace", items + cycles, [check.prop], text)
    return "model_checking"
