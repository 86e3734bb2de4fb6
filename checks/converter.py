"""C25: coordinate files generated by TLC and random ones, converted by the real converter; TLC follows the words of the result."""
import math
import os
import random
import re

from lib import HARNESS, REPO, Broken, follow, parallel, run, spread
from pipeline import PY
from structures import generate

SCRIPT = os.path.join(REPO, "src", "CplexSolver", "Data", "TSPLIB", "converter_tsp_to_dat.py")
OTHER = ["NAME : t1", "COMMENT : text", "COMMENT : 3.5 cities", "TYPE : TSP", "EDGE_WEIGHT_TYPE : EUC_2D", "", "DIMENSION: 4", "DIMENSION : 7"]


def render(rnd, lines):
    out, section = [], False
    shift = rnd.choice([0, 0, 0.25, -3, 1000.5])
    k = 0
    for w in lines:
        if w[0] == "section":
            section = True
            out.append(rnd.choice(["NODE_COORD_SECTION", "NODE_COORD_SECTION ", " NODE_COORD_SECTION"]))
        elif w[0] == "row":
            k += 1
            out.append(rnd.choice(["%d %s %s", "  %d  %s %s", "%d\t%s\t%s", "%d %s %s "]) % (k, repr(w[1] + shift), repr(w[2] + shift)))
        else:
            out.append(rnd.choice(["", "EOF", "EOF", "DISPLAY_DATA_SECTION"] if section else OTHER))
    return "\n".join(out) + rnd.choice(["\n", "\n", ""])


WORD = re.compile(r"\s*(?:n\s*=\s*(\d+)\s*;|(Cost\s*=\s*\[)|(\[)|([-+0-9.eE]+|nan|inf)|(,)|(\]\s*;)|(\]))")


def words(text, xy):
    """The words of a data file; numbers with the exact distance beside them."""
    out, pos, r, c = [], 0, -1, -1
    while pos < len(text.rstrip()):
        m = WORD.match(text, pos)
        if not m:
            out.append(["?", text[pos:pos + 20]])
            break
        pos = m.end()
        if m.group(1):
            out.append(["n", int(m.group(1))])
        elif m.group(2):
            out.append(["cost"])
        elif m.group(3):
            out.append(["open"])
            r, c = r + 1, -1
        elif m.group(4):
            c += 1
            try:
                v = float(m.group(4))
            except ValueError:
                v = -1.0
            d = math.hypot(xy[r][0] - xy[c][0], xy[r][1] - xy[c][1]) if r < len(xy) and c < len(xy) and r >= 0 else -2
            out.append(["num", int(round(v * 100)) if 0 <= v < 1e6 else -1, int(abs(v - d) <= 1e-9 * max(1, d))])
        elif m.group(5):
            out.append(["sep"])
        elif m.group(6):
            out.append(["end"])
        else:
            out.append(["close"])
    return out


def cities(lines):
    at = [k for k, w in enumerate(lines) if w[0] == "section"][0]
    return [(w[1], w[2]) for w in lines[at:] if w[0] == "row"]


def plausible(it):
    n = len(cities(it["lines"]))
    want = [["n", n], ["cost"]]
    for _ in range(n):
        want += [["open"]] + ([["num"], ["sep"]] * n)[:-1] + [["close"]]
    want += [["end"]]
    return [w if w[0] == "n" else w[:1] for w in it["words"]] == want and all(w[2] for w in it["words"] if w[0] == "num")


def text(it, event):
    return "%s file %s: word %d of the data file: %s ..." % (it["mode"], repr(it["text"][:200]), event, it["words"][max(0, event - 3):event + 2])


def check_converter(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    gens = [dict(Length=4, Grid="{0, 3}"), dict(Length=5 if big else 3, Grid="{0, 1, 4}" if not big else "{0, 4}")]
    files = [x for part in parallel([lambda g=g, k=k: generate(check, "DatGen", g, "dat%d" % k, ["Whole"]) for k, g in enumerate(gens)]) for x in part]
    generated = len(files)
    for _ in range(3000 if big else 500):
        n = rnd.choice([1, 2, 3, 5, 8, 12, 17, 30])
        rows = [["row", rnd.randrange(200), rnd.randrange(200)] for _ in range(n)]
        for _ in range(rnd.choice([0, 0, 1, 2])):
            rows.insert(rnd.randrange(n + 1), ["other"])
        files.append([["other"]] * rnd.randrange(6) + [["section"]] + rows + [["other"]] * rnd.randrange(2))
    items = [{"lines": f, "mode": "euclidean" if rnd.randrange(5) else "library", "text": render(rnd, f), "gen": int(k < generated)}
             for k, f in enumerate(files)]
    for it in items:
        if it["mode"] == "library" and len(cities(it["lines"])) < 2:
            it["mode"] = "euclidean"                    # nothing to convert with one city; only the conversion of coordinates is exercised

    def work(g, part):
        out = []
        for mode in ("euclidean", "library"):
            d = check.path("dat_%d_%s" % (g, mode))
            os.makedirs(d)
            mine = [it for it in part if it["mode"] == mode]
            for k, it in enumerate(mine):
                with open(os.path.join(d, "f%d%s.tsp" % (k, ".v2" if k % 7 == 0 else "")), "w") as f:
                    f.write(it["text"])
            for other in ("old.tsp.bak", "notes.tsp.txt", "tsp", "x.tsp~"):
                with open(os.path.join(d, other), "w") as f:
                    f.write(mine[0]["text"] if mine else "")
            before = set(os.listdir(d))
            r = run([PY, os.path.join(HARNESS, "net", "convert.py"), SCRIPT, d, mode], timeout=600,
                    env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))
            for k, it in enumerate(mine):
                f = os.path.join(d, "f%d%s.dat" % (k, ".v2" if k % 7 == 0 else ""))
                it["words"] = words(open(f).read(), cities(it["lines"])) if os.path.exists(f) else [["no file: " + r.stdout[-150:]]]
                out.append(it)
            more = set(os.listdir(d)) - before - {"f%d%s.dat" % (k, ".v2" if k % 7 == 0 else "") for k in range(len(mine))}
            if more and mine:
                mine[0]["words"] = [["also made: " + " ".join(sorted(more))]]
        return out
    items = [i for part in parallel([lambda g=g: work(g, items[g::8]) for g in range(8)]) for i in part]
    bad, good = [i for i in items if not plausible(i)], [i for i in items if plausible(i)]
    if not good and all(i["words"][0][0].startswith("no file") for i in bad):
        raise Broken("the converter fails on everything: " + bad[0]["words"][0][0])
    check.evaluations = len(items)
    check.note(files=len(items), suspicious=len(bad), distinct_nontrivial=len(items), rule="all files of up to %d lines from TLC, random ones up to 30 "
               "cities, several layouts and coordinates off the grid; the conversion with the TSPLIB library with a stand-in for its reader" % gens[0]["Length"])
    for i in good[-3:]:
        check.sample(text(i, 4)[:300])
    follow(check, "DatTrace", bad[:16] + spread([i for i in good if i["gen"]], 4000 if big else 1200) +
           spread([i for i in good if not i["gen"]], 1500 if big else 250), [check.prop], text)
    return "model_checking"
