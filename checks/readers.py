"""C18, C19: instance files, generated by TLC and random ones, read by the real readers; TLC reads them with the machine of
Reader and compares."""
import math
import os
import random
import struct

from lib import HARNESS, Broken, compile_solver, follow, parallel, run, spread
from structures import generate

BAD_TEXTS = ["abc", "(x, 1)", "1.0, 2.0", "()", "(1.0)", "(, 2.0)", "[1.0, 2.0]", "(nope, 0.5)", "(1.0 0.5)", "-"]
OFF = -12345                                            # a number that is in no file


def build(check, n, hyb, san=True):
    flags = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else ["-O2"]
    return compile_solver(check, "rd_%d_%d_%d" % (n, hyb, san), [os.path.join(HARNESS, "rd.c")],
                          ["MAX_VERTEX_NUM=%d" % n, "HYBRID=%d" % hyb], flags)


def read_all(check, exe, kind, texts, name):
    """Lets the reader read each text; returns the lines of the driver as lists of words."""
    def one(g, part):
        d = check.path("files_%s_%d" % (name, g))
        os.makedirs(d)
        with open(os.path.join(d, "list"), "w") as l:
            for k, t in enumerate(part):
                with open(os.path.join(d, "f%d" % k), "w") as f:
                    f.write(t)
                l.write("%d f%d\n" % ((0, 0xa5, 0)[k % 3], k))
        r = run([exe, kind, "list", "out"], cwd=d, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", UBSAN_OPTIONS="abort_on_error=1"))
        lines = open(os.path.join(d, "out")).read().split("\n")[:-1] if r.returncode == 0 else []
        if len(lines) != len(part):
            raise Broken("rd: " + r.stdout[-1000:])
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        return [x.split() for x in lines]
    parts = [texts[k::8] for k in range(8) if texts[k::8]]
    res = parallel([lambda g=g, p=p: one(g, p) for g, p in enumerate(parts)])
    out = [None] * len(texts)
    for g, r in enumerate(res):
        out[g::8] = r
    return out


def graph_of(w):
    """The driver's answer; numbers as floats."""
    if w[0] == "exit":
        return {"o": "rejected" if w[1] != "0" else "crash"}
    if w[0] != "graph":
        return {"o": "crash"}
    n, m, p = int(w[1]), int(w[2]), 4
    g = {"o": "graph", "n": n, "m": m, "cost": float.fromhex(w[3]), "nodes": [], "edges": [], "look": []}
    try:
        for _ in range(n):
            k = int(w[p + 3])
            g["nodes"].append({"pos": int(w[p]), "x": float.fromhex(w[p + 1]), "y": float.fromhex(w[p + 2]),
                               "nb": [int(x) for x in w[p + 4:p + 4 + k]]})
            p += 4 + k

        def edge(p):
            return {"s": int(w[p]), "d": int(w[p + 1]), "w": float.fromhex(w[p + 2]), "p": float.fromhex(w[p + 3]), "pos": int(w[p + 4])}
        g["edges"] = [edge(p + 5 * k) for k in range(m)]
        p += 5 * m
        g["look"] = [edge(p + 5 * k) for k in range(2 * m)]
    except (IndexError, ValueError):
        return {"o": "crash"}
    return g


# ------------------------------------------------------------------------------------------------------ matrix files

class Numbers:
    """Texts of numbers for the codes of a file."""

    def __init__(self, rnd, style):
        self.rnd, self.style, self.text, self.code = rnd, style, {}, {}

    def __call__(self, c):
        if c not in self.text:
            if c == 0:
                t = self.rnd.choice(["0", "0.0", "0.00000000"])
            else:
                while True:
                    r = self.rnd
                    t = [lambda: "%d" % r.randrange(1, 100000), lambda: repr(r.random() * 10 ** r.randrange(-3, 6)),
                         lambda: "%.4f" % (r.randrange(1, 2000000) / 10000), lambda: "%.3e" % (r.random() * 10 ** r.randrange(-4, 9)),
                         lambda: "%.8f" % r.random()][r.randrange(5) if self.style == 5 else self.style]()
                    if float(t) > 0 and float(t) not in self.code and -float(t) not in self.code:
                        break
                if c < 0:
                    t = "-" + t
            self.text[c], self.code[float(t)] = t, c
        return self.text[c]


def render(rnd, rows, style):
    w, p, xy = Numbers(rnd, style), Numbers(rnd, rnd.choice([4, 5])), Numbers(rnd, rnd.choice([1, 2, 5]))
    sep = rnd.choice([", ", ", ", ",", ",  "])
    lines = []
    end = rnd.choice(["", ";"])                         # the writers of the repository end rows differently
    for i, row in enumerate(rows):
        words = []
        for e in row:
            words.append(rnd.choice(BAD_TEXTS) if not e else
                         "(%s%s%s)" % ((xy if i == 0 else w)(e[0]), sep, (xy if i == 0 else p)(e[1])))
        # the trailing separator is written by the tools of the repository after the rows of the matrix
        lines.append(";".join(words) + (";" if i and end else ""))
    return "\n".join(lines) + rnd.choice(["\n", "\n", ""] if not end else ["\n"]), w.code, p.code, xy.code


def coded(g, w, p, xy):
    if g["o"] != "graph":
        return g

    def edge(e):
        return dict(e, w=w.get(e["w"], OFF), p=p.get(e["p"], 0 if e["p"] == 0 else OFF))
    total = sum(e["w"] for e in g["edges"])
    return {"o": "graph", "n": g["n"], "m": g["m"],
            "cost": sum(w.get(e["w"], OFF) for e in g["edges"]) if abs(total - g["cost"]) <= 1e-9 * abs(total) else OFF,
            "nodes": [dict(v, x=xy.get(v["x"], OFF), y=xy.get(v["y"], OFF)) for v in g["nodes"]],
            "edges": [edge(e) for e in g["edges"]], "look": [edge(e) for e in g["look"]]}


def random_rows(rnd, n):
    dens = rnd.choice([100, 100, 80, 50, 10])
    values, probs = rnd.choice([2, 10, 3000]), rnd.choice([1, 3, 3000])
    m = [[[0, 0] for _ in range(n)] for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            c = rnd.randrange(1, values + 1) if rnd.randrange(100) < dens else rnd.choice([0, 0, -1])
            m[i][j] = m[j][i] = [c, rnd.randrange(probs + 1)]
    return [[[2 * k + 1, 2 * k + 2] for k in range(n)]] + m


def expected(rows, top):
    """Only to find the suspicious ones: accepted or rejected."""
    n = len(rows) - 1
    if n > top or any(len(r) > top for r in rows):
        return "rejected"
    return "rejected" if any(not e and j != i - 1 for i, r in enumerate(rows) for j, e in enumerate(r)) else "graph"


def plausible(item):
    g, rows = item["out"], item["file"]
    if g["o"] != expected(rows, item["max"]) or g["o"] == "rejected":
        return g["o"] == expected(rows, item["max"])
    n = len(rows) - 1
    want = {(i, j): rows[i + 1][j] for i in range(n) for j in range(i + 1, n) if rows[i + 1][j][0] > 0}
    got = {(e["s"], e["d"]): [e["w"], e["p"]] for e in g["edges"]}
    return g["n"] == n and g["m"] == len(want) == len(got) and all(got.get(k) == [v[0], v[1] if item["hyb"] else 0] for k, v in want.items()) \
        and all(e["pos"] == k and g["look"][2 * k] == e == g["look"][2 * k + 1] for k, e in enumerate(g["edges"])) \
        and all([v["x"], v["y"]] == rows[0][k] and v["pos"] == k and
                sorted(v["nb"]) == sorted([b for a, b in want if a == k] + [a for a, b in want if b == k]) for k, v in enumerate(g["nodes"])) \
        and g["cost"] == sum(v[0] for v in want.values())


def csv_text(item, event):
    g = item["out"]
    return "%s (%s mode, built for %d): %s: expected %s, the reader %s" % (
        item["what"], "hybrid" if item["hyb"] else "classic", item["max"], repr(item["text"][:120]), expected(item["file"], item["max"]),
        "built a graph with %d vertices, %d edges" % (g["n"], g["m"]) if g["o"] == "graph" else g["o"])


def check_matrix(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    gens = [dict(N=1, Weights="{1}", Probs="{1}", Defects=0, Built=3), dict(N=2, Weights="{0, 1, 2}", Probs="{0, 1}", Defects=0, Built=3),
            dict(N=3, Weights="{0, 1, 2}", Probs="{0, 1}", Defects=0, Built=3), dict(N=3, Weights="{0, 1, 2}", Probs="{0, 1}", Defects=0, Built=5),
            dict(N=4, Weights="{0, 1, 2}" if big else "{0, 1}", Probs="{1}", Defects=0, Built=4), dict(N=3, Weights="{0, 2}", Probs="{1}", Defects=1, Built=3),
            dict(N=4, Weights="{0, 2}" if big else "{2}", Probs="{1}", Defects=1, Built=4), dict(N=4, Weights="{2}", Probs="{1}", Defects=1, Built=3),
            dict(N=4, Weights="{1}", Probs="{0}", Defects=1, Built=5)]
    work = []
    jobs = [dict(g, Hyb=h) for g in gens for h in (0, 1)]
    for g, part in zip(jobs, parallel([lambda g=g, k=k: generate(check, "ReaderGen", g, "read%d" % k, ["Right"]) for k, g in enumerate(jobs)])):
        for rows, verdict in part:
            n = len(rows) - 1
            if verdict == "accepted" and any(len(r) != n for r in rows):
                continue                               # no matrix; what is read from it is not said
            work.append(("generated file", g["Built"], g["Hyb"], rows))
    generated = len(work)
    for _ in range(6000 if big else 1200):
        top = rnd.choice([3, 5, 20, 20])
        n = rnd.choice([top, top, max(1, top - 1), rnd.randrange(1, top + 1)])
        rows = random_rows(rnd, n)
        defect = rnd.randrange(12)
        if defect == 0:
            rows = random_rows(rnd, top + rnd.choice([1, 1, 2, 7]))
        elif defect == 1 and n > 1:
            i, j = rnd.randrange(1, n + 1), rnd.randrange(n)
            if i - 1 != j:
                rows[i][j] = []
        elif defect == 2:
            rows[0][rnd.randrange(n)] = []
        elif defect == 3:
            rows = random_rows(rnd, top) + [[[0, 0]] * top]
        elif defect == 4:
            rows = random_rows(rnd, top)
            rows[rnd.randrange(top + 1)].append([1, 1])
        work.append(("random file", top, rnd.randrange(2), rows))
    groups = {}
    for x in work:
        groups.setdefault((x[1], x[2]), []).append(x)
    exes = dict(zip(groups, parallel([lambda g=g: build(check, *g) for g in groups])))
    bad, gen, ran = [], [], []
    for g, xs in groups.items():
        texts = [render(rnd, x[3], rnd.randrange(6)) for x in xs]
        for x, t, w in zip(xs, texts, read_all(check, exes[g], "c", [t[0] for t in texts], "c%d_%d" % g)):
            item = {"kind": "c", "what": x[0], "max": x[1], "hyb": x[2], "file": x[3], "text": t[0], "out": coded(graph_of(w), *t[1:])}
            (bad if not plausible(item) else gen if x[0][0] == "g" else ran).append(item)
    check.evaluations = len(work)
    check.note(files=len(work), suspicious=len(bad), distinct_nontrivial=len(work),
               rejected=sum(i["out"]["o"] == "rejected" for i in gen + ran),
               rule="all small matrices generated by TLC with and without one defect; random files up to 20 vertices in several formats; "
                    "memory filled with zeros or other bytes before")
    for i in ran[:3]:
        check.sample(csv_text(i, 1))
    follow(check, "ReaderTrace", [dict(i, text=i["text"][:300]) for i in bad[:30] + spread(gen, 6000 if big else 1200) + spread(ran, 2000 if big else 300)], [check.prop], csv_text)
    return "model_checking"


# ------------------------------------------------------------------------------------------------------ TSPLIB files

def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def tsp_file(rnd, n, grid, euc, broken):
    rows, texts = [], []
    seen = set()
    style = rnd.randrange(6)
    for k in range(n):
        while True:
            if grid:
                a, b = rnd.randrange(31), rnd.randrange(31)
                ta, tb = (str(a), str(b)) if style % 2 else ("%d.0" % a, "%d.00" % b)
            else:
                v = [rnd.uniform(-1000, 1000), rnd.uniform(0, 1), rnd.uniform(0, 20000), float(rnd.randrange(-500, 30000))][style % 4]
                u = [rnd.uniform(-1000, 1000), rnd.uniform(0, 1), rnd.uniform(0, 20000), float(rnd.randrange(-500, 30000))][style % 4]
                f = rnd.choice(["%.4f", "%.2f", "%e", "%.10g", "%E"])
                ta, tb = f % v, f % u
                a, b = f32(float(ta)), f32(float(tb))
            if (a, b) not in seen or rnd.randrange(4) == 0 or len(seen) > 900:
                break                                   # cities in the same place are rare
        seen.add((a, b))
        rows.append([a, b])
        texts.append((ta, tb))
    first = rnd.choice([1, 1, 0, 5])
    pad = rnd.choice(["", "", " ", "   "])
    sp = rnd.choice([" ", " ", "  ", "\t"])
    lines = ["%s%d%s%s%s%s" % (pad, first + k, sp, ta, sp, tb) for k, (ta, tb) in enumerate(texts)]
    if broken is not None and n:
        k = rnd.randrange(n)
        lines[k] = rnd.choice(["%d %s" % (first + k, "abc"), "%d %s x" % (first + k, texts[k][0]), "a b c", "%d" % (first + k), "?", "x 1 2"])
        rows[k] = []
    colon = rnd.choice([" : ", ": ", ":"])
    kind = rnd.choice(["CEIL_2D", "GEO", "ATT", "EXPLICIT", "MAN_2D", "EUC_3D", "MAX_2D"]) if not euc else "EUC_2D"
    comment = rnd.choice(["COMMENT%srandom cities" % colon, "COMMENT%sEUC_2D would be another one" % colon] if not euc else
                         ["COMMENT%srandom cities" % colon, "COMMENT%snot a GEO instance" % colon])
    head = ["NAME%sr%d" % (colon, n), comment, "TYPE%sTSP" % colon, "DIMENSION%s%d" % (colon, n), "EDGE_WEIGHT_TYPE%s%s" % (colon, kind)]
    if rnd.randrange(2):
        head.append("DISPLAY_DATA_TYPE%sCOORD_DISPLAY" % colon)
    mid = head[1:]
    rnd.shuffle(mid)
    head = head[:1] + mid
    tail = rnd.choice(["EOF\n", "EOF\n", "EOF", "", "EOF\n"])
    text = "\n".join(head + ["NODE_COORD_SECTION"] + lines) + "\n" + tail
    return {"kind": "t", "what": "TSPLIB file", "type": kind, "grid": int(grid), "hyb": 0, "rows": rows, "text": text}


def tsp_coded(item, g):
    """Coordinates and weights of the graph as the specification sees them."""
    if g["o"] != "graph":
        return g
    rows, code = item["rows"], {}
    for k, r in enumerate(rows):
        for q in r:
            code.setdefault(q, int(q) if item["grid"] else 1 + len(code))
    real = [(v["x"], v["y"]) for v in g["nodes"]]

    def edge(e):
        w = OFF
        if item["grid"]:
            w = int(round(e["w"] * 100)) if abs(e["w"]) < 100 else OFF
        elif e["s"] < len(real) and e["d"] < len(real):
            a, b = real[e["s"]], real[e["d"]]
            d = math.hypot(a[0] - b[0], a[1] - b[1])
            w = 1 if abs(e["w"] - d) <= 2.0 ** -23 * d and f32(e["w"]) == e["w"] else 0
        return dict(e, w=w, p=0 if e["p"] == 0 else OFF)

    def place(x):
        if x in code:
            return code[x]
        for q in code:                                  # read in double precision is as good
            if abs(f32(x) - f32(q)) == 0:
                return code[q]
        return OFF
    total = sum(e["w"] for e in g["edges"])
    out = dict(g, cost=int(abs(total - g["cost"]) <= 1e-6 * total + 1e-9), nodes=[dict(v, x=place(v["x"]), y=place(v["y"])) for v in g["nodes"]],
               edges=[edge(e) for e in g["edges"]], look=[edge(e) for e in g["look"]])
    item["rows"] = [[code[q] for q in r] for r in rows]
    return out


def tsp_plausible(item):
    n, g = len(item["rows"]), item["out"]
    if item["type"] != "EUC_2D" or n > item["max"] or [] in item["rows"]:
        return g["o"] == "rejected"
    return g["o"] == "graph" and g["n"] == n and g["m"] == n * (n - 1) // 2 == len({(e["s"], e["d"]) for e in g["edges"]}) and g["cost"] == 1 \
        and all([v["x"], v["y"]] == item["rows"][k] and sorted(v["nb"]) == [j for j in range(n) if j != k] for k, v in enumerate(g["nodes"])) \
        and all((e["w"] == 1 if not item["grid"] else abs((e["w"] / 100) ** 2 - sum((item["rows"][e["s"]][q] - item["rows"][e["d"]][q]) ** 2 for q in (0, 1))) < 1)
                and e["p"] == 0 and e["pos"] == k and g["look"][2 * k] == e == g["look"][2 * k + 1] for k, e in enumerate(g["edges"]))


def tsp_text(item, event):
    g = item["out"]
    return "TSPLIB file of type %s with %d rows (built for %d) %s: the reader %s" % (
        item["type"], len(item["rows"]), item["max"], repr(item["text"][-100:]), "built a graph with %d vertices, %d edges" % (g["n"], g["m"]) if g["o"] == "graph" else g["o"])


def check_tsplib(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    work = {}
    tops = (3, 6, 20, 50)
    for _ in range(12000 if big else 2000):
        top = rnd.choice(tops)
        n = rnd.choice([top, top, max(1, top - 1), rnd.randrange(1, top + 1), top + 1, top + rnd.randrange(1, 9)] + [rnd.randrange(1, top + 1)] * 4)
        item = tsp_file(rnd, n, rnd.randrange(2) == 0, rnd.randrange(8) > 0, 1 if rnd.randrange(10) == 0 else None)
        item["max"] = top
        work.setdefault((top, rnd.randrange(2)), []).append(item)
    exes = dict(zip(work, parallel([lambda g=g: build(check, *g) for g in work])))
    bad, good = [], []
    for g, items in work.items():
        for item, w in zip(items, read_all(check, exes[g], "t", [i["text"] for i in items], "t%d_%d" % g)):
            item["out"] = tsp_coded(item, graph_of(w))
            if item["out"]["o"] != "graph":
                item["rows"] = [[1, 1] if r else [] for r in item["rows"]]
            (good if tsp_plausible(item) else bad).append(item)
    check.evaluations = len(bad) + len(good)
    check.note(files=len(bad) + len(good), suspicious=len(bad), distinct_nontrivial=len(bad) + len(good), rejected=sum(i["out"]["o"] == "rejected" for i in good),
               rule="random files of up to 50 vertices and more than built for, several layouts, other edge weight types, malformed rows; "
                    "distances judged by TLC on whole coordinates, in single precision by the driver elsewhere")
    for i in good[:3]:
        check.sample(tsp_text(i, 1))
    follow(check, "ReaderTrace", [dict(i, text=i["text"][-300:]) for i in bad[:30] + spread(good, 2500 if big else 500)], [check.prop], tsp_text)
    return "model_checking"
