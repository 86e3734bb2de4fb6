"""C27: the comparison of the two modes. Histories generated by TLC are given to the real profiles, result files of the real
solver to the real analysis; TLC compares what they write with the results."""
import csv
import io
import json
import math
import os
import random
import re

from lib import HARNESS, Broken, follow, parallel, run, spread
from pipeline import PY
from report import ANALYZER, COLUMNS, cities_text, made
from search import build
from structures import generate

UNIT = 1e-5


def analysed(check, work, tag):
    """What the real analysis writes for each piece of work."""
    def one(g):
        src, dst = check.path("cmp_%s_in_%d.json" % (tag, g)), check.path("cmp_%s_out_%d.json" % (tag, g))
        with open(src, "w") as f:
            json.dump(work[g::8], f)
        r = run([PY, os.path.join(HARNESS, "net", "compare.py"), ANALYZER, src, dst], timeout=800, cwd=check.dir,
                env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode or not os.path.exists(dst):
            raise Broken("the analysis did not run: " + r.stdout[-1500:])
        return json.load(open(dst))
    out = [None] * len(work)
    for g, part in enumerate(parallel([lambda g=g: one(g) for g in range(8)])):
        out[g::8] = part
    for a in out:
        if a["error"].startswith("MISSING"):
            raise Broken("the stand-in for pandas is too small: " + a["error"])
    return out


def points(text, n, by):
    """Rows <<time, hybrid count, classic count>>; shares that are no n-th are -1."""
    rows = list(csv.reader(io.StringIO(text or "")))
    out = []
    if not rows or rows[0] != ["Time", "Hybrid", "Classic"]:
        return None
    for t, h, c in rows[1:]:
        c2 = []
        for x in (float(h), float(c)):
            k = x * n
            c2.append(int(round(k)) if k == k and abs(k - round(k)) < 1e-6 else -1)
        out.append([int(round(float(t) / by))] + c2)
    return out


def as_input(hs, by_time):
    return {str(h["id"]): [h["res"], [[v * UNIT, t * by_time] for v, t in h["imp"]]] for h in hs}


def random_history(rnd, ident, top, spread_):
    k = rnd.choice([1, 1, 2, 3, 6])
    vals = sorted(rnd.sample(range(1000000, 1000000 + spread_), k), reverse=True)
    times = sorted(rnd.randrange(1, top) for _ in range(k))
    return {"id": ident, "imp": [[v, t] for v, t in zip(vals, times)], "res": int(rnd.randrange(4) > 0)}


def clear_of(tol, h, c):
    """No two incumbents of an instance differ by the tolerance, or nearly."""
    for a in h:
        for b in c:
            if a["id"] == b["id"] and any(abs(abs(x[0] - y[0]) - tol) < 2 for x in a["imp"] for y in b["imp"]):
                return False
    return True


def profile_items(check, rnd, big):
    gen = generate(check, "ProfileGen", dict(Vals="{100, 300, 400}", Times="{1, 2}" if not big else "{1, 2, 3}", Vals2="{100, 400}" if not big else "{100}", Tol="254"),
                   "prof", ["Right"], workers=8)
    work, want = [], []
    for h, c, curve, cum in gen:
        hs, cs = ([dict(id=k + 1, imp=x["imp"], res=x["res"]) for k, x in enumerate(y)] for y in (h, c))
        work.append({"kind": "profiles", "n": 4, "hyb": as_input(hs, 0.25), "cla": as_input(cs, 0.25)})
        want.append(("generated histories", 2, hs, cs, 254, curve, cum, 0.25))
    for _ in range(6000 if big else 800):
        n = rnd.choice([4, 9, 16, 25, 49, 100, 20, 35, 150])
        tol = math.sqrt(n) * 127
        if tol != int(tol):
            tol = int(tol) + 1                            # whole units: closer than tol is the same as less than the next whole one
        ids = rnd.sample(range(1, 400), rnd.choice([1, 2, 5, 12]))
        extra = rnd.sample(range(400, 500), 2) if rnd.randrange(4) == 0 else []
        top, sp = rnd.choice([5, 50, 5000]), rnd.choice([600, 4000, 100000])
        hs = [random_history(rnd, k, top, sp) for k in ids + (extra if rnd.randrange(2) else [])]
        cs = [random_history(rnd, k, top, sp) for k in ids + (extra if rnd.randrange(2) else [])]
        rnd.shuffle(cs)
        if not clear_of(tol, hs, cs):
            continue
        work.append({"kind": "profiles", "n": n, "hyb": as_input(hs, 0.015625), "cla": as_input(cs, 0.015625)})
        want.append(("random histories", len(ids) + (len(extra) if {h["id"] for h in hs} & {c["id"] for c in cs} & set(extra) else 0), hs, cs, int(tol), None, None, 0.015625))
    bad, good = [], []
    for (what, n, hs, cs, tol, curve, cum, by), a in zip(want, analysed(check, work, "p")):
        got = [points(a["files"].get(f), n, by) for f in ("performance_profile.csv", "cumulative_profile.csv")]
        it = {"kind": "profile", "what": what, "h": hs, "c": cs, "tol": tol, "curve": got[0], "cum": got[1], "error": a["error"]}
        if got[0] is None or got[1] is None:
            it["curve"], it["cum"] = [[-1, -1, -1]], []
            bad.append(it)
        elif curve is not None and (got[0] != curve or got[1] != cum):
            bad.append(it)
        else:
            good.append(it)
    check.note(generated_histories=len(gen), random_histories=len(work) - len(gen))
    return bad[:30] + spread([g for g in good if g["what"][0] == "g"], 6000 if big else 1500) + [g for g in good if g["what"][0] == "r"], len(work)


# -------------------------------------------------------------------------------------------------------------- tables

LABELS = {"Total time (s)": "total_time", "BB time (s)": "time_bb", "Time to Best (s)": "time_to_best", "BB tree depth": "total_tree_level",
          "Depth of the best": "best_level", "Generated BB nodes": "generate_bbnodes", "Explored BB nodes": "explored_bbnodes",
          "BB nodes before best": "bbnodes_before_best"}
SIZES = [20, 50, 100, 35, 75, 150]


def pair(x):
    us = int(round(float(x) * 1000000))
    return [us // 1000000, us % 1000000]


def put(folder, files, ids, rnd):
    os.makedirs(folder)
    recs = []
    for g, ident in zip(files, ids):
        taken = "%.6f" % (float(g["elapsed"]) + rnd.choice([0.001, 0.25, 3]) * (1 + rnd.random()))
        with open(os.path.join(folder, "tsp_result_%d.txt" % ident), "w") as f:
            f.write(g["text"] + "\nNodes: \n" + cities_text(g["n"], rnd) + "\nTime taken: " + taken + "s\n")
        vals = dict(zip(COLUMNS, (taken, g["elapsed"], g["best"], g["gen"], g["expl"], g["id"], g["lvls"], g["lvl"], g["prob"], g["cost"])))
        recs.append({"id": ident, "intr": g["intr"], "origin": g["origin"], "row": {c: pair(v) for c, v in vals.items()}})
    return recs


def hundredths(x):
    return int(round(float(x) * 100))


def cell(x):
    x = x.strip()
    return {"v": hundredths(re.search(r"-?[0-9.]+(?:e-?[0-9]+)?", x).group(0)), "bold": bool(re.search(r"\\textbf\{", x)), "under": "\\underline{" in x}


def table_of(text, k):
    """The columns of the k-th size of a LaTeX table: the eight rows with two numbers, the shares, the last row."""
    cells, shown, os_ = {}, {"hyb": {}, "cla": {}}, None
    for line in text.split("\n"):
        w = [x.strip() for x in line.strip().rstrip("\\").split("&")]
        pct = lambda x: hundredths(x.replace("\\%", ""))  # noqa: E731
        if w[0] in LABELS:
            a = w[1 + 4 * k:5 + 4 * k]
            half = [hundredths(re.search(r"\\stdf\{([^}]*)\}", x).group(1)) for x in (a[1], a[3])]
            cells[LABELS[w[0]]] = {"cla": dict(cell(a[0]), half=half[0]), "hyb": dict(cell(a[2]), half=half[1])}
        elif w[0] == "Instances solved":
            shown["cla"]["resolved"], shown["hyb"]["resolved"] = pct(w[1 + 4 * k]), pct(w[3 + 4 * k])
        elif w[0].endswith("with NN"):
            shown["cla"]["nn"], shown["hyb"]["nn"] = pct(w[1 + 4 * k]), pct(w[3 + 4 * k])
        elif w[0].endswith("with PNN"):
            shown["hyb"]["pnn"] = pct(w[3 + 4 * k])
        elif "frac" in w[0]:
            os_ = hundredths(w[3 + 4 * k])
    return cells, shown, os_


def read_size(files, size, common):
    top = "mean_results/%d_nodes/" % size
    text = files[top + "mean_results.txt"]
    rows, pct, unres = {}, {"hyb": {}, "cla": {}}, {}
    for line in text.split("\n"):
        w = line.split()
        if w and w[0] in COLUMNS:
            p = float(w[5])
            th = lambda x: int(round(min(float(x), 2000000) * 1000))  # noqa: E731
            rows[w[0]] = {"hyb": {"mean": pair(w[1]), "half": th(w[2])}, "cla": {"mean": pair(w[3]), "half": th(w[4])}, "p": -1 if p != p else int(p * 1000)}
        for label, name in (("Resolved Instances", "resolved"), ("Closed NN", "nn"), ("Closed NN Hybrid", "pnn"), ("Closed 1Tree", "tree")):
            if line.startswith(label) and (name != "nn" or "Hybrid" not in line):
                v = [x for x in w if x.endswith("%")]
                pct["hyb"][name], pct["cla"][name] = hundredths(v[0].rstrip("%")), hundredths(v[1].rstrip("%"))
        m = re.match(r"Not resolved (\d+) instances for (hybrid|classic): \[(.*)\]", line)
        if m:
            unres[m.group(2)[:3]] = [int(x) for x in m.group(3).split(",") if x.strip()]
            if len(unres[m.group(2)[:3]]) != int(m.group(1)):
                raise ValueError("the number of unresolved instances")
    last = {"n": common, "tol": int(round(math.sqrt(size) * 1270)), "curve": [], "cum": []}
    for f, name in (("performance_profile.csv", "curve"), ("cumulative_profile.csv", "cum")):
        p = points(files[top + f], common, 1e-6)
        if p:
            last[name] = p[-1][1:]
    k = SIZES.index(size)
    cells, shown, os_ = table_of(files["mean_results/exact_table.tex" if k < 3 else "mean_results/heur_table.tex"], k % 3)
    if set(cells) != set(LABELS.values()) or set(rows) != set(COLUMNS) or os_ is None:
        raise ValueError("rows are missing")
    return {"rows": rows, "pct": pct, "unresolved": {"hyb": unres["hyb"], "cla": unres["cla"]}, "last": last, "cells": cells, "shown": shown, "os": os_}


BLANK = {"ok": 0, "rows": {}, "pct": {"hyb": {"resolved": -1, "nn": -1, "pnn": -1, "tree": -1}, "cla": {"resolved": -1, "nn": -1, "pnn": -1, "tree": -1}},
         "unresolved": {"hyb": [], "cla": []}, "last": {}, "cells": {}, "shown": {}, "os": 0}


def table_items(check, rnd, big):
    plans = [(9, "a", 900, 12), (7, "d", 500, 12), (12, "a", 90, 10)]
    if big:
        plans = [(n, p, c * 4, 90) for n, p, c, _ in plans]
    parallel([lambda n=n, h=h: build(check, n, h) for n in sorted({p[0] for p in plans}) for h in (0, 1)])
    got = parallel([lambda p=p, h=h, k=k: (h, made(check, p, h, check.seed * 70 + k)) for k, p in enumerate(plans) for h in (0, 1)])
    stock = {h: [g for q, part in got if q == h for g in part if g["origin"] != "none"] for h in (0, 1)}
    if min(len(stock[0]), len(stock[1])) < 100:
        raise Broken("only %d and %d solves finished" % (len(stock[0]), len(stock[1])))
    work, metas = [], []
    for k in range(60 if big else 16):
        top = check.path("tables_%d" % k)
        meta = []
        for size in SIZES:
            n = rnd.choice([5, 8, 15])
            ids = rnd.sample(range(1, 1001), n)
            hi = ids + (rnd.sample(range(1001, 1100), 2) if rnd.randrange(3) == 0 else [])
            ci = ids + (rnd.sample(range(1001, 1100), 2) if rnd.randrange(3) == 0 else [])
            pick = lambda h, m: [rnd.choice([g for g in rnd.sample(stock[h], 12)]) for _ in range(m)]  # noqa: E731
            while True:                                     # enough instances that both modes resolve, or there is nothing to compare
                a, b = pick(1, len(hi)), pick(0, len(ci))
                both = [j for j, i in enumerate(ids) if not a[j]["intr"] and not b[j]["intr"]]
                if len(both) >= 3:
                    break
            if rnd.randrange(3) == 0:                       # the same results in both modes, at least for some
                for j in range(len(ids) // 2):
                    b[j] = a[j]
            h = put(os.path.join(top, "tsp_%d_nodes_hybrid" % size), a, hi, rnd)
            c = put(os.path.join(top, "tsp_%d_nodes_classic" % size), b, ci, rnd)
            meta.append((size, h, c))
        work.append({"kind": "tables", "dir": top, "sizes": SIZES})
        metas.append(meta)
    items = []
    for meta, a in zip(metas, analysed(check, work, "t")):
        for size, h, c in meta:
            it = {"kind": "table", "size": size, "hyb": h, "cla": c, "error": a["error"], "ok": 1}
            try:
                it.update(read_size(a["files"], size, len({x["id"] for x in h} & {x["id"] for x in c})))
            except (KeyError, ValueError, IndexError, AttributeError, TypeError) as e:
                it.update(json.loads(json.dumps(BLANK)), error=a["error"] or "cannot be read: %s %s" % (type(e).__name__, e))
            items.append(it)
    check.note(tables=len(work), folders=2 * len(items))
    return items


def text(it, event):
    if it["kind"] == "profile":
        return "%s, tolerance %d: hybrid %s, classic %s: improvement profile %s, cumulative profile %s %s" % (
            it["what"], it["tol"], [(h["id"], h["res"], h["imp"]) for h in it["h"]][:3], [(h["id"], h["res"], h["imp"]) for h in it["c"]][:3],
            str(it["curve"])[:150], str(it["cum"])[:150], it["error"])
    return "comparison of %d hybrid and %d classic results of size %d: %s" % (len(it["hyb"]), len(it["cla"]), it["size"], it["error"] or
           json.dumps({k: it[k] for k in ("pct", "shown", "last", "os", "cells", "rows", "unresolved")})[:900])


def check_comparison(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    (profiles, count), tables = parallel([lambda: profile_items(check, random.Random(rnd.random()), big),
                                          lambda: table_items(check, random.Random(check.seed + 1), big)])
    check.evaluations = count + len(tables)
    check.note(distinct_nontrivial=count + len(tables),
               rule="every pair of small histories of two instances (TLC), random ones; tables of folders with result files of the real solver")
    for i in profiles[:2] + tables[:2]:
        check.sample(text(i, 1)[:300])
    follow(check, "ProfileTrace", profiles + tables, [check.prop], text)
    check.assumptions.append("pandas and matplotlib are not installed: stand-ins keep the rows of a table and write them; scipy is the real one, its p-values are taken as they are")
    return "model_checking"
