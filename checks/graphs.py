"""C12 spanning trees, C14 sort of the edges: all small inputs generated by TLC, which also checks the algorithms of the
specification on them, and random large inputs; the results of the real code are judged by TLC."""
import random

from lib import follow, parallel, spread
from structures import build, execute, generate

CRASH = {"o": "crash"}


def line_of(n, edges, bits=-3):
    """edges: (s, d, w in units of 2 to the bits, p in thousandths)"""
    return "%d %d %d %s" % (n, len(edges), bits, " ".join("%d %d %d %d" % e for e in edges))


def unit_of(rnd, n, edges):
    """The unit of the weights, and the edges; now and then weights that are tiny, huge or need all the bits of a double."""
    how = rnd.randrange(6)
    if how == 0:
        return -20, edges
    if how == 1:
        return 15, edges
    if how == 2 and n <= 20:
        return -10, [(i, j, w + 90000000, p) for i, j, w, p in edges]
    return -3, edges


def random_graph(rnd, n, style, sparse):
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    if sparse == 1:                                   # a random tree and some more
        order = list(range(n))
        rnd.shuffle(order)
        tree = {tuple(sorted((order[k], order[rnd.randrange(k)]))) for k in range(1, n)}
        pairs = sorted(tree | set(rnd.sample(pairs, min(len(pairs), rnd.randrange(n)))))
    elif sparse == 2:                                 # any density, often not connected
        k = rnd.randrange(len(pairs) + 1)
        pairs = rnd.sample(pairs, k)
    top = {0: 2, 1: 8, 2: 1000, 3: 4000000, 4: 1, 5: 20}[style]
    edges = []
    for i, j in pairs:
        w = rnd.randrange(-top if style == 5 else 0 if style == 1 else 1, top + 1)
        edges.append((i, j, w, rnd.randrange(0, 1001, rnd.choice([1, 250]))))
    if style == 2 and rnd.randrange(2):               # far from each other and nearly the same
        edges = [(i, j, 1000000 + k % 3, p) for k, (i, j, w, p) in enumerate(edges)]
    how = rnd.randrange(4)
    rnd.shuffle(edges)
    if how == 1:
        edges.sort(key=lambda e: e[2])
    elif how == 2:
        edges.sort(key=lambda e: -e[2])
    elif how == 3:
        edges.sort(key=lambda e: (e[0], e[1]))
    flip = rnd.randrange(3)
    return [(j, i, w, p) if flip == 1 or (flip == 2 and rnd.randrange(2)) else (i, j, w, p) for i, j, w, p in edges]


def norm(i, j, w):
    return [min(i, j), max(i, j), w]


def trees_of(a):
    ev, p = [], 0
    for _ in range(3):
        if a is None or p + 3 > len(a) or None in a[p:p + 3] or a[p + 2] > 64 or p + 3 + 3 * a[p + 2] > len(a) or None in a[p:p + 3 + 3 * a[p + 2]]:
            return ev + [CRASH]
        k = a[p + 2]
        ev.append({"o": "tree", "valid": a[p], "cost": a[p + 1], "n": k,
                   "t": [norm(*a[p + 3 + 3 * j:p + 6 + 3 * j]) for j in range(k)]})
        p += 3 + 3 * k
    return ev


def least(n, edges):
    par = list(range(n))

    def root(x):
        while par[x] != x:
            x = par[x]
        return x
    c = k = 0
    for i, j, w, p in sorted(edges, key=lambda e: e[2]):
        a, b = root(i), root(j)
        if a != b:
            par[a], c, k = b, c + w, k + 1
    return c if k == n - 1 else None


def mst_text(item, event):
    return "%s with %d vertices, %d edges: the tree computed by %s: %s; edges %s" % (
        item["what"], item["n"], len(item["e"]), ("Prim", "Kruskal", "Prim after the sort")[max(0, event - 1)],
        str(item["ev"][max(0, event - 1):event])[:160], str(item["e"])[:160])


def check_mst(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    w8 = 5                                             # weights of the generated graphs, in eighths
    gens = [dict(N=4, Weights="{1, 2, 3, 4}" if big else "{1, 2, 3}", Emit=1), dict(N=3, Weights="{1, 2, 3, 4}", Emit=1),
            dict(N=2, Weights="{1, 2}", Emit=1), dict(N=1, Weights="{1}", Emit=1)]
    work = []
    for k, g in enumerate(gens):
        for e, c in generate(check, "MstDesign", g, "mst%d" % k, ["Right", "ForestSafe", "Criterion"], workers=8 if k == 0 else 1):
            edges = [(i, j, w * w8, 1000 * (w % 2)) for i, j, w in e]
            for r in range(2):
                rnd.shuffle(edges)
                mixed = [(j, i, w, p) if rnd.randrange(2) else (i, j, w, p) for i, j, w, p in edges]
                work.append(("generated graph", g["N"], mixed, None if c < 0 else c * w8, rnd.choice([-3, -20])))
    generated = len(work)
    for k in range(20000 if big else 3000):
        n = rnd.choice([1, 2, 3, 5, 6, 7, 8, 9, 12, 20, 40, 60, 64])
        edges = random_graph(rnd, n, rnd.randrange(6), rnd.choice([0, 1, 1, 2]))
        bits, edges = unit_of(rnd, n, edges)
        work.append(("random graph", n, edges, least(n, edges), bits))
    groups = {}
    for x in work:
        # a build of the exact size for the small ones, so that the arrays are full
        groups.setdefault((max(3, x[1]) if x[1] <= 5 else 64, rnd.randrange(2)), []).append(x)
    exes = dict(zip(groups, parallel([lambda g=g: build(check, g[0], g[1], "gr") for g in groups])))
    bad, gen, ran = [], [], []
    for g, xs in groups.items():
        for (what, n, edges, c, bits), a in zip(xs, execute(check, exes[g], "m", [line_of(n, e, b) for _, n, e, _, b in xs], "m%d_%d" % g)):
            if a is None:
                continue
            item = {"what": "%s%s (weights in units of 2^%d)" % (what, " in hybrid mode" if g[1] else "", bits), "n": n, "e": [norm(i, j, w) for i, j, w, p in edges], "ev": trees_of(a)}
            ok = all(e["o"] == "tree" and (e["valid"] == 1) == (c is not None) and (c is None or (e["cost"] == c and e["n"] == n - 1))
                     for e in item["ev"])
            (bad if not ok else gen if what[0] == "g" else ran).append(item)
    check.evaluations = 3 * len(work)
    check.note(generated_graphs=generated, random_graphs=len(work) - generated, suspicious=len(bad), distinct_nontrivial=len(work),
               rule="all graphs with up to 4 vertices and 3 (thorough: 4) weights, random ones with up to 64 vertices")
    for i in ran[:3]:
        check.sample(mst_text(i, 1))
    follow(check, "MstTrace", bad[:30] + spread(gen, 20000 if big else 2500) + spread(ran, 3000 if big else 400), [check.prop], mst_text)
    return "model_checking"


def sort_text(item, event):
    return "%s of %d edges: %s -> %s" % (item["what"], len(item["e"]), str([e[2:] for e in item["e"]])[:200],
                                        str(item["ev"][0].get("s", "crash"))[:200])


def sort_event(m, a):
    if a is None or None in a or len(a) != 2 + 13 * m or a[0] != m:
        return CRASH
    s = [a[1 + 5 * k:6 + 5 * k] for k in range(m)]
    o = 1 + 5 * m
    return {"o": "sort", "s": [x[:4] for x in s], "pos": [x[4] for x in s], "look": [a[o + 4 * j:o + 4 * j + 4] for j in range(2 * m)],
            "again": a[o + 8 * m]}


def check_sort(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    work = []
    for hyb in (0, 1):
        gens = [dict(M=m, Top=4, Hyb=hyb, Design=1, Emit=1) for m in (1, 2, 3, 4, 5)] + [dict(M=5, Top=0, Hyb=hyb, Design=1, Emit=1)]
        gens += [dict(M=6, Top=4, Hyb=hyb, Design=0, Emit=1), dict(M=7, Top=4 if big else 3, Hyb=hyb, Design=0, Emit=1),
                 dict(M=7 if big else 6, Top=0, Hyb=hyb, Design=0, Emit=1)]
        got = parallel([lambda g=g, k=k: generate(check, "SortGen", g, "sort%d_%d" % (hyb, k), ["Right", "Same"] if g["Design"] else []) for k, g in enumerate(gens)])
        for part in got:
            for keys in part:
                work.append(("sort of a generated sequence", hyb, 9, [(k, k + 1, 8 * (key // 2), 1000 * (key % 2)) for k, key in enumerate(keys)], -3))
        generated = len(work)
        for k in range(8000 if big else 1200):
            n = rnd.choice([1, 2, 3, 5, 8, 9, 12, 20, 40])
            bits, edges = unit_of(rnd, n, random_graph(rnd, n, rnd.randrange(6), rnd.randrange(3)))
            work.append(("sort of random edges", hyb, n, edges, bits))
    groups = {}
    for x in work:
        groups.setdefault((x[2] if x[2] in (3, 5) else 9 if x[2] <= 9 else 40, x[1]), []).append(x)
    exes = dict(zip(groups, parallel([lambda g=g: build(check, g[0], g[1], "gr") for g in groups])))
    bad, gen, ran = [], [], []
    for g, xs in groups.items():
        for (what, hyb, n, edges, bits), a in zip(xs, execute(check, exes[g], "s", [line_of(n, e, b) for _, _, n, e, b in xs], "s%d_%d" % g)):
            if a is None:
                continue
            e = sort_event(len(edges), a)
            item = {"what": "%s%s (weights in units of 2^%d)" % (what, " in hybrid mode" if hyb else "", bits), "hyb": hyb, "e": [list(x) for x in edges], "ev": [e]}
            key = (lambda x: (x[2], -x[3])) if hyb else (lambda x: x[2])
            ok = e["o"] == "sort" and sorted(item["e"]) == sorted(e["s"]) and sorted(e["s"], key=key) == e["s"] and e["again"] == 1 \
                and all(p == q for q, p in enumerate(e["pos"])) \
                and all(x[3] == 1 and 0 <= x[0] < len(e["s"]) and e["s"][x[0]] == item["e"][j // 2] and x[1:3] == item["e"][j // 2][2:]
                        for j, x in enumerate(e["look"]))
            (bad if not ok else gen if "generated" in what else ran).append(item)
    check.evaluations = len(work)
    check.note(sequences=len(work), suspicious=len(bad), distinct_nontrivial=len(work),
               rule="all sequences of up to 6 edges over 4 keys, of 7 over 3, all orders of 6 (thorough: 7) keys, random ones with up to 780 edges")
    for i in ran[:3]:
        check.sample(sort_text(i, 1))
    follow(check, "SortTrace", bad[:30] + spread(gen, 20000 if big else 4000) + spread(ran, 2000 if big else 300), [check.prop], sort_text)
    return "model_checking"
