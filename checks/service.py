"""C20, C21: histories of solves generated by TLC are executed in single processes of the real solver; TLC compares the answers."""
import json
import os
import random

from lib import Broken, follow, parallel, run, spread
from search import build
from structures import generate


def serve(check, n, hyb, seed, count, profile, seconds, histories, tag):
    out, h = check.path("s_%s.json" % tag), check.path("h_%s.txt" % tag)
    with open(h, "w") as f:
        for pick, reqs in histories:
            f.write("%d %s\n" % (pick, " ".join(map(str, reqs))))
    r = run([check.path("bb_%s_%d" % (n, hyb)), out, str(seed), str(count), "0", "0", "0", "service:" + profile, str(seconds), h],
            cwd=check.dir, timeout=860, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="abort_on_error=1",
                                                 MSAN_OPTIONS="abort_on_error=1"))
    try:
        stats = json.loads(r.stdout.strip().split("\n")[-1])
        pools = json.load(open(out))
    except (ValueError, OSError):
        raise Broken("the driver failed: " + r.stdout[-2000:])
    os.unlink(out), os.unlink(h)
    check.note(pools=stats["pools"], histories=stats["histories"])
    check.evaluations += stats["answers"]
    return pools


def text(item, event):
    e = item["ev"][event - 1] if 0 < event <= len(item["ev"]) else {}
    q = item["pool"][e["i"]] if e.get("i", -1) >= 0 else {}
    return "pool %d of seed %d, built for %d: request %d (%s mode, instance %s with %s vertices, memory %s): %s" % (
        item["at"][0], item["at"][1], item["at"][2], event, "hybrid" if e.get("hyb") else "classic", e.get("i"), q.get("n"), e.get("m"),
        json.dumps({k: e.get(k) for k in ("cost", "prob", "tour", "intr", "st", "same")}) if e.get("i", -1) >= 0 else "the solver crashed or did not finish")


def items_of(pool, hyb):
    """One item per history, each starting with the answers in fresh processes, which come first."""
    ev = [[dict(a, hyb=hyb) for a in h] for h in pool["hist"]]
    base = [h[0] for h in ev if len(h) == 1]
    insts = [dict(n=q["n"], eps=q["eps"], p=q["p"], wt=0, w=q["w"]) for q in pool["inst"]]
    for k, q in enumerate(insts):
        q["wt"] = next(j for j in range(k + 1) if insts[j]["w"] == q["w"])
    at = (pool["pool"], pool["seed"], pool["N"])
    return [{"at": at, "pool": insts, "ev": base + h} for h in ev if len(h) != 1] if any(len(h) != 1 for h in ev) else \
        [{"at": at, "pool": insts, "ev": base}]


def differs(ev):
    seen = {}
    for e in ev:
        if e["i"] < 0 or not e["same"]:
            return True
        v = {k: e[k] for k in ("cost", "prob", "time", "intr", "st", "tour")}
        if seen.setdefault((e["hyb"], e["i"]), v) != v:
            return True
    return False


def check_memory(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    short = generate(check, "ServiceGen", dict(Instances="{0, 1, 2, 5, 6, 7}", Memories="{0, 1, 2, 3}", Length=2), "hist2")
    long_ = generate(check, "ServiceGen", dict(Instances="{0, 1, 4, 6, 7}", Memories="{1, 2}", Length=4 if big else 3), "hist3")
    alone = [(0, [k]) for k in range(8)]
    sizes = (6, 7, 9, 10, 12) if big else (7, 10)
    extra = ("7k", "9k", "7s", "9s", "8m") if big else ("7k", "8s")
    parallel([lambda n=n, h=h: build(check, n, h) for n in sizes + extra for h in (0, 1)])
    jobs = []
    secs = 120 if big else 12
    for n in extra:                                    # Kruskal in the relaxations; sanitizers, which end a process at the first fault
        for h in (0, 1):
            pick = [(0, x) for x in rnd.sample(long_, 4)] + [(7, x) for x in rnd.sample(short, 20)]
            jobs.append((n, h, check.seed * 10 + 6, 1500, "r", secs, alone + pick, "e%s_%d" % (n, h)))
    for n in sizes:
        for h in (0, 1):
            # every pool runs some of the histories, the first pools all of them
            pick = [(0, x) for x in rnd.sample(short, 6) + rnd.sample(long_, 6)]
            pick += [(rnd.choice([13, 17, 19, 23, 29]), x) for x in rnd.sample(short, min(len(short), 200)) + rnd.sample(long_, min(len(long_), 200))]
            walk = [rnd.randrange(4) * 100 + rnd.randrange(8) for _ in range(25)]
            jobs.append((n, h, check.seed * 10 + 1, 4000, "r", secs, alone + pick + [(0, walk)], "r%d_%d" % (n, h)))
            if n == sizes[0]:
                jobs.append((n, h, check.seed * 10 + 2, 3 if big else 1, "r", secs, alone + [(0, x) for x in short + long_], "a%d_%d" % (n, h)))
    res = parallel([lambda j=j: serve(check, *j) for j in jobs])
    bad, good = [], []
    for j, pools in zip(jobs, res):
        for p in pools:
            for i in items_of(p, j[1]):
                (bad if differs(i["ev"]) else good).append(i)
    for i in good[:3]:
        check.sample("pool %s: requests %s" % (i["at"], [(e["i"], e["m"]) for e in i["ev"]]))
    check.note(suspicious=len(bad), distinct_nontrivial=len(good) + len(bad),
               rule="histories generated by TLC over pools of 8 random instances (with missing edges, without a tour, interrupted) "
                    "and 4 kinds of memory contents; each history in one process")
    for i in good + bad:                               # what C20 does not look at
        for q in i["pool"]:
            q["w"] = q["p"] = 0
    follow(check, "ServiceTrace", bad[:40] + spread(good, 8000 if big else 1500), [check.prop], text)
    check.assumptions.append("the clock is virtual, so the times of a solve are part of the answer that must not change")
    return "model_checking"


def check_probabilities(check):
    big = check.thorough
    sizes = (6, 7, 9, 10, 12) if big else (7, 10)
    parallel([lambda n=n, h=h: build(check, n, h) for n in sizes for h in (0, 1)])
    alone = [(0, [k]) for k in range(8)]
    jobs = [(n, h, check.seed * 10 + 3, 40000, prof, 120 if big else 12, alone, "x%d_%d_%s" % (n, h, prof)) for n in sizes for h in (0, 1) for prof in ("xa", "xd")]
    res = {(j[0], j[4], j[1]): r for j, r in zip(jobs, parallel([lambda j=j: serve(check, *j) for j in jobs]))}
    bad, good = [], []
    for n in sizes:
        for prof in ("xa", "xd"):
            for c, h in zip(res[n, prof, 0], res[n, prof, 1]):
                if c["inst"] != h["inst"]:
                    raise Broken("the two modes were given different instances")
                item = items_of(c, 0)[0]
                item["ev"] += items_of(h, 1)[0]["ev"]
                eps = c["inst"][0]["eps"]
                cl = item["ev"][0]
                sus = any(e["i"] < 0 for e in item["ev"])
                for e in item["ev"] if not sus else []:
                    if e["hyb"] == 0:
                        sus |= e["prob"] != 0 or any(e[k] != cl[k] for k in ("cost", "time", "intr", "st", "tour"))
                    else:
                        if not e["intr"] and not cl["intr"]:
                            sus |= abs(e["cost"] - cl["cost"]) > eps
                        if e["tour"] and e["cost"] < 2000000000:
                            q = item["pool"][e["i"]]
                            sus |= abs(e["prob"] * q["n"] - sum(q["p"][x // 64][x % 64] for x in e["tour"])) > 2 * q["n"]
                item["pool"] = [dict(q, w=0) for q in item["pool"]]
                (bad if sus else good).append(item)
    for i in good[:3]:
        check.sample("pool %s: %s" % (i["at"], [(e["hyb"], e["i"], e["cost"], e["prob"]) for e in i["ev"]]))
    check.note(suspicious=len(bad), distinct_nontrivial=len(good) + len(bad),
               rule="random instances, each with 8 matrices of probabilities (random, all 0, all 1, extreme), in both modes")
    follow(check, "ServiceTrace", bad[:40] + spread(good, 6000 if big else 800), [check.prop], text)
    return "model_checking"
