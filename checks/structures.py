"""C15 heap, C16 merge-find, C17 lists: behaviours generated by TLC from the specifications are executed on the real code,
and recorded runs (those and long random ones) are followed by TLC."""
import json
import os
import random

from lib import HARNESS, Broken, compile_solver, follow, parallel, run, spread, tlc

BIG = 1000000000


def build(check, n=20, hyb=0, what="ds"):
    flags = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
    return compile_solver(check, "%s_%d_%d" % (what, n, hyb), [os.path.join(HARNESS, what + ".c")],
                          ["MAX_VERTEX_NUM=%d" % n, "HYBRID=%d" % hyb], flags)


def execute(check, exe, kind, lines, name):
    """One list of answers per line; None at the end of the list when the run crashed there."""
    def one(k, part):
        i, o = check.path("in_%s_%d" % (name, k)), check.path("out_%s_%d" % (name, k))
        open(i, "w").write("\n".join(part) + "\n")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
        r = run([exe, kind, i, o], env=env)
        if r.returncode:
            raise Broken("ds: " + r.stdout[-1000:])
        ans = []
        for line in open(o):
            w = line.split()
            ans.append([int(x) for x in w if x != "crash"] + ([None] if "crash" in w else []))
        os.unlink(i), os.unlink(o)
        return ans + [None] * (len(part) - len(ans))      # not run: too many crashes
    parts = [lines[k::8] for k in range(8) if lines[k::8]]
    res = parallel([lambda k=k, p=p: one(k, p) for k, p in enumerate(parts)])
    out = [None] * len(lines)
    for k, r in enumerate(res):
        out[k::8] = r
    return out


def generate(check, spec, consts, name, invariants=(), workers=1, some=True):
    cfg = "SPECIFICATION Spec\nCONSTANTS\n%s\n%s\nCHECK_DEADLOCK FALSE\n" % (
        "\n".join(" %s = %s" % c for c in consts.items()), "\n".join("INVARIANT " + i for i in invariants))
    r = tlc(check, spec, cfg, name, mem="6g", timeout=800, workers=workers)
    if not r.completed:
        raise Broken("generation with %s failed: %s" % (spec, r.text[-2000:]))
    check.states += r.distinct
    check.transitions += r.generated
    out = [json.loads(json.loads(x)[4:]) for x in r.text.split("\n") if x.startswith('"SEQ ')]
    if not out and some:
        raise Broken("%s generated nothing" % spec)
    check.note(generated_behaviours=len(out))
    return out


# ---------------------------------------------------------------------------------------------------------------- heap

class Fib:
    """A textbook Fibonacci heap; only used to find operation sequences that stress one."""

    def __init__(self):
        self.roots, self.val, self.kids, self.par, self.mark = [], {}, {}, {}, {}

    def ins(self, k, v):
        self.val[k], self.kids[k], self.par[k], self.mark[k] = v, [], None, False
        self.roots.append(k)

    def ext(self):
        m = min(self.roots, key=lambda k: self.val[k])
        self.roots.remove(m)
        for c in self.kids[m]:
            self.par[c], self.mark[c] = None, False
            self.roots.append(c)
        del self.val[m]
        deg = {}
        for r in list(self.roots):
            while len(self.kids[r]) in deg:
                o = deg.pop(len(self.kids[r]))
                if self.val[o] < self.val[r]:
                    r, o = o, r
                self.kids[r].append(o)
                self.par[o] = r
            deg[len(self.kids[r])] = r
        self.roots = list(deg.values())
        return m

    def dec(self, k, v):
        self.val[k] = v
        p = self.par[k]
        if p is not None and v < self.val[p]:
            while p is not None:
                self.kids[p].remove(k)
                self.par[k], self.mark[k] = None, False
                self.roots.append(k)
                if not self.mark[p]:
                    self.mark[p] = self.par[p] is not None
                    break
                k, p = p, self.par[p]


def slim(k, rnd, extra):
    """Few elements under a root of high degree: every element loses its largest child."""
    ops, f = [], Fib()
    n = 2 ** k + 1
    for i in range(n):
        ops.append(("ins", i, 5 if i == 0 else 100000 + i))
        f.ins(i, ops[-1][2])
    ops.append(("ext",))
    f.ext()
    top = min(f.roots, key=lambda x: f.val[x])
    v = 90000
    todo = [x for x in f.kids[top]]
    while todo:
        y = todo.pop()
        c = f.kids[y]
        if c:
            b = max(c, key=lambda x: len(f.kids[x]))
            todo += [x for x in c if x != b]
            gone = [b]
            while gone:
                g = gone.pop()
                gone += f.kids[g]
                ops.append(("dec", g, v))
                f.dec(g, v)
                v -= 1
    low = [x for x in f.val if f.val[x] < 100000 and x != top]
    for _ in low:
        ops.append(("ext",))
    for q in range(extra):
        ops.append(("ins", n + q, rnd.randrange(1, 200000)))
        ops.append(("ext",))
    return ops


def stripped(k, rnd, twice):
    """A root of high degree whose children would be left with next to nothing if cuts did not cascade: all their
    children are taken away one by one, or (twice) taken away by taking two children of each of those."""
    ops, f = [], Fib()
    n = 2 ** k + 1
    for i in range(n):
        ops.append(("ins", i, 5 if i == 0 else 100000 + i))
        f.ins(i, ops[-1][2])
    ops.append(("ext",))
    f.ext()
    top = min(f.roots, key=lambda x: f.val[x])
    v = 90000
    kids = {x: list(c) for x, c in f.kids.items()}

    def dec(x):
        nonlocal v
        ops.append(("dec", x, v))
        v -= 1

    def below(x):
        return [z for y in kids[x] for z in below(y) + [y]]
    for c in list(kids[top]):
        if not twice:
            for x in below(c):
                dec(x)
            continue
        es = kids[c]
        rest = []
        for e in es:
            if len(kids[e]) == 1:
                for x in below(e) + [e]:
                    dec(x)
        for e in es:
            if len(kids[e]) > 1:
                two = rnd.sample(kids[e], 2)
                for x in two:
                    dec(x)
                rest += [x for x in below(e) if x not in two] + [e]
        for x in rest:
            dec(x)
    for _ in range(90000 - v + 3):
        ops.append(("ext",))
    return ops


def heap_random(rnd, size, length, big, ties, with_del):
    ops, val, nxt = [], {}, 0
    style = rnd.randrange(4)
    top = 6 if ties else 100000
    if style == 0:                       # as Prim uses it
        for i in range(size):
            val[i] = BIG if i else 0
            ops.append(("ins", i, val[i]))
        nxt = size
    elif style == 1:
        for i in range(size):
            val[i] = rnd.randrange(top)
            ops.append(("ins", i, val[i]))
        nxt = size
    for _ in range(length):
        c = rnd.randrange(100)
        if c < (15 if style < 2 else 35) and nxt < 4000:
            val[nxt] = rnd.randrange(top) if rnd.randrange(8) else (BIG if big else 0)
            ops.append(("ins", nxt, val[nxt]))
            nxt += 1
        elif c < 75 and val:
            k = rnd.choice(list(val))
            lo = min(val.values())
            v = rnd.choice([val[k], rnd.randrange(val[k] + 1) if val[k] > 0 else val[k], lo - 1, lo, max(lo, val[k] - 1)])
            v = min(v, val[k])
            if val[k] == BIG:
                v = min(v, 200000) if rnd.randrange(5) else BIG
            ops.append(("dec", k, v))
            val[k] = v
        elif c < 80 and val and with_del:
            k = rnd.choice(list(val))
            ops.append(("del", k))
            del val[k]
        elif len(set(val.values())) == len(val) or not val:
            ops.append(("ext",))
            if val:
                del val[min(val, key=lambda k: val[k])]
        else:
            # the element extracted is not known when values tie: only go on with what is certain
            m = min(val.values())
            ms = [k for k in val if val[k] == m]
            for _ in ms:
                ops.append(("ext",))
            for k in ms:
                del val[k]
    return ops + [("ext",)] * (len(val) + 2)


def heap_line(ops, observe):
    w = []
    for k, o in enumerate(ops):
        w.append({"ins": "i %d %d", "dec": "d %d %d", "del": "k %d", "ext": "x"}[o[0]] % o[1:])
        if observe and k % observe == 0:
            w.append("v")
    return " ".join(w)


def heap_events(ops, ans, observe):
    ev, p = [], 0
    for k, o in enumerate(ops):
        if p + 1 >= len(ans) or None in ans[p:p + 2]:
            ev.append({"o": "crash", "k": 0, "v": 0, "r": 0, "n": 0, "x": []})
            return ev
        e = {"o": o[0], "k": o[1] if len(o) > 1 else 0, "v": o[2] if len(o) > 2 else 0, "r": ans[p], "n": ans[p + 1], "x": []}
        p += 2
        if observe and k % observe == 0:
            if p >= len(ans) or ans[p] is None or p + 1 + 2 * ans[p] > len(ans):
                ev.append({"o": "crash", "k": 0, "v": 0, "r": 0, "n": 0, "x": []})
                return ev
            n = ans[p]
            e["x"] = [[ans[p + 1 + 2 * j], ans[p + 2 + 2 * j]] for j in range(n)]
            p += 1 + 2 * n
        ev.append(e)
    return ev


def heap_suspicious(ev):
    q = {}
    for e in ev:
        if e["o"] == "ins" or e["o"] == "dec":
            q[e["k"]] = e["v"]
        elif e["o"] == "del":
            q.pop(e["k"], None)
        elif e["o"] == "ext":
            if q:
                if e["r"] not in q or q[e["r"]] != min(q.values()):
                    return True
                del q[e["r"]]
            elif e["r"] != -1:
                return True
        else:
            return True
        if e["n"] != len(q) or (e["x"] and {x[0]: x[1] for x in e["x"]} != q):
            return True
    return False


def text_of(item, event):
    return "%s: operation %d of %d: %s" % (item["what"], event, len(item["ev"]),
                                           json.dumps(item["ev"][max(0, event - 1):event]))


def check_heap(check):
    exe = build(check)
    big = check.thorough
    rnd = random.Random(check.seed)
    gens = [dict(Fill=0, Drain=0, Keys=3, Values="{5, 8, 30}", Depth=6 if big else 5),
            dict(Fill=4, Drain=1, Keys=1, Values="{5, 35}", Depth=5 if big else 4),
            dict(Fill=9, Drain=1, Keys=1, Values="{5, 35}", Depth=4 if big else 3),
            dict(Fill=17, Drain=1, Keys=0, Values="{5}", Depth=3 if big else 2)]
    seqs = []
    for part in parallel([lambda g=g, k=k: generate(check, "PQGen", g, "gen%d" % k, ["TypeOK"]) for k, g in enumerate(gens)]):
        seqs += part
    items, bad = [], []
    lines, metas = [], []
    for h, end in seqs:
        ops = [(o[0], o[1], o[2]) if o[0] in ("ins", "dec") else (o[0], o[1]) if o[0] == "del" else ("ext",) for o in h]
        more = [("ext",)] * (len(end) + 1)            # drain it, and once more
        lines.append(heap_line(ops, 0) + " v " + heap_line(more, 0))
        metas.append((h, end, ops, more))
    ans = execute(check, exe, "h", lines, "gen")
    followed = 0
    for (h, end, ops, more), a in zip(metas, ans):
        if a is None:
            continue
        full = ops + more
        ok, other, p, x = None not in a, False, 0, []
        for o in h:                                    # the behaviour generated by TLC, step by step
            if p + 1 >= len(a) or None in a[p:p + 2]:
                ok = False
                break
            if o[0] == "ext":
                if a[p] not in o[3]:
                    ok = False
                    break
                if a[p] != o[4]:
                    other = True                       # another behaviour of the specification, also generated
                    break
            p += 2
        if other:
            continue
        followed += 1
        if ok:
            n = a[p]
            x = [[a[p + 1 + 2 * j], a[p + 2 + 2 * j]] for j in range(n)]
            ok = sorted(x) == sorted(end)
            a = a[:p] + a[p + 1 + 2 * n:]
        ev = heap_events(full, a, 0)
        item = {"what": "generated behaviour", "ev": ev}
        if not ok or heap_suspicious(ev):
            if ok is False and not heap_suspicious(ev):
                ev[len(ops) - 1]["x"] = x if x else [[-1, 0]]
            bad.append(item)
        elif followed % (len(seqs) // 400 + 1) == 0:
            items.append(item)
    check.note(behaviours_replayed=followed)
    # long runs
    runs = []
    for k in range(9 if not big else 12):
        runs.append(("slim tree of %d" % (2 ** k), slim(k, rnd, 8)))
    for k in range(3, 12 if big else 11):
        for twice in (False, True):
            runs.append(("stripped tree of %d" % (2 ** k), stripped(k, rnd, twice)))
    for k in range(6000 if big else 800):
        size = rnd.choice([3, 8, 20, 60, 150])
        runs.append(("random run", heap_random(rnd, size, rnd.choice([20, 60, 200]), rnd.randrange(2), rnd.randrange(3) == 0, rnd.randrange(2))))
    obs = [rnd.choice([0, 0, 1, 7]) if len(r[1]) < 400 else 50 for r in runs]
    ans = execute(check, exe, "h", [heap_line(r[1], o) for r, o in zip(runs, obs)], "runs")
    good = []
    for (what, ops), a, o in zip(runs, ans, obs):
        if a is None:
            continue
        item = {"what": what, "ev": heap_events(ops, a, o)}
        (bad if heap_suspicious(item["ev"]) else good).append(item)
    check.evaluations = len(lines) + len(runs)
    check.note(distinct_nontrivial=followed + len(runs), suspicious=len(bad),
               rule="operation sequences generated by TLC (all of them up to a depth after a filling prefix) and random ones")
    for i in good[:2] + items[:2]:
        check.sample("%s: %s" % (i["what"], " ".join("%s(%d,%d)->%d" % (e["o"], e["k"], e["v"], e["r"]) for e in i["ev"][:25])))
    keep = [i for i in good if i["what"] != "random run" and len(i["ev"]) < 3000] + spread([i for i in good if i["what"] == "random run"], 1200 if big else 150)
    follow(check, "PQTrace", bad[:30] + items + keep, [check.prop], text_of)
    check.assumptions.append("keys are distinct and fit an unsigned short, values only decrease: the contract of the interface")
    return "model_checking"


# ---------------------------------------------------------------------------------------------------------------- forest

def forest_events(item, ops, a):
    n, skip = item["n"], item["skip"]
    ev, p = [], 0
    for o in ops:
        if o[0] == "mer":
            ev.append({"o": "mer", "a": o[1], "b": o[2], "r": []})
            continue
        need = 1 if o[0] == "fin" else n
        r = a[p:p + need]
        if len(r) < need or None in r:
            ev.append({"o": "crash", "a": 0, "b": 0, "r": []})
            return ev
        p += need
        ev.append({"o": o[0], "a": o[1] if len(o) > 1 else 0, "b": 0, "r": r})
    if None in a[p:]:
        ev.append({"o": "crash", "a": 0, "b": 0, "r": []})
    return ev


def forest_line(n, skip, ops):
    return "%d %d " % (n, skip) + " ".join({"mer": "m %d %d", "fin": "f %d", "all": "a"}[o[0]] % tuple(o[1:]) for o in ops)


def forest_suspicious(item):
    c = {i: {i} for i in range(item["n"]) if i != item["skip"]}
    for e in item["ev"]:
        if e["o"] == "mer":
            u = c[e["a"]] | c[e["b"]]
            for i in u:
                c[i] = u
        elif e["o"] == "fin":
            if e["r"][0] not in c[e["a"]]:
                return True
        elif e["o"] == "all":
            r = e["r"]
            if any(r[i] not in c[i] or any((r[i] == r[j]) != (c[i] is c[j] or c[i] == c[j]) for j in c) for i in c):
                return True
        else:
            return True
    return False


def check_forest(check):
    exe = build(check, 64)
    big = check.thorough
    rnd = random.Random(check.seed)
    gens = [dict(N=4, Skip=99, Depth=4), dict(N=5, Skip=rnd.randrange(5), Depth=4), dict(N=6, Skip=99, Depth=3)]   # 99: none
    if big:
        gens += [dict(N=4, Skip=99, Depth=5), dict(N=6, Skip=0, Depth=4), dict(N=7, Skip=6, Depth=3)]
    todo = []
    for g, part in zip(gens, parallel([lambda g=g, k=k: (generate(check, "MFGen", g, "gen%d" % k, ["Partition"])) for k, g in enumerate(gens)])):
        for h, end in part:
            ops = [("mer", o[1], o[2]) if o[0] == "mer" else ("fin", o[1]) for o in h]
            todo.append((g["N"], -1 if g["Skip"] == 99 else g["Skip"], ops + [("all",), ("all",)], h, end))
    ans = execute(check, exe, "f", [forest_line(n, s, o) for n, s, o, _, _ in todo], "gen")
    items, bad = [], []
    for k, ((n, skip, ops, h, end), a) in enumerate(zip(todo, ans)):
        if a is None:
            continue
        item = {"what": "generated behaviour", "n": n, "skip": skip}
        item["ev"] = forest_events(item, ops, a)
        ok = item["ev"][-1]["o"] == "all"
        if ok:
            fins = [o for o in h if o[0] == "fin"]
            ok = all(e["r"][0] in o[3] for e, o in zip([e for e in item["ev"] if e["o"] == "fin"], fins))
            for e in item["ev"][-2:]:
                groups = {}
                for i, r in enumerate(e["r"]):
                    if i != skip:
                        groups.setdefault(r, []).append(i)
                ok = ok and sorted(groups.values()) == sorted(sorted(c) for c in end)
        if not ok or forest_suspicious(item):
            bad.append(item)
        elif k % (len(todo) // 500 + 1) == 0:
            items.append(item)
    check.note(behaviours_replayed=len(todo))
    runs = []
    for k in range(5000 if big else 800):
        n = rnd.choice([2, 3, 8, 20, 64])
        skip = rnd.choice([-1, -1, 0, n - 1, rnd.randrange(n)])
        if n == 2:
            skip = -1
        el = [i for i in range(n) if i != skip]
        ops = []
        for _ in range(rnd.choice([5, 30, 120])):
            c = rnd.randrange(10)
            if c < 6:
                x = rnd.choice(el)
                ops.append(("mer", x, rnd.choice(el) if len(el) > 1 else x))
            elif c < 9:
                ops.append(("fin", rnd.choice(el)))
            elif rnd.randrange(3) == 0:
                ops.append(("all",))
        # chains and balanced merges make deep trees
        if rnd.randrange(3) == 0:
            w = 1
            ops = []
            while w < len(el):
                for i in range(0, len(el) - w, 2 * w):
                    ops.append(("mer", el[i + rnd.randrange(w)], el[i + w + rnd.randrange(min(w, len(el) - i - w))]))
                    if rnd.randrange(4) == 0:
                        ops.append(("fin", rnd.choice(el)))
                w *= 2
        runs.append((n, skip, ops + [("all",), ("all",)]))
    ans = execute(check, exe, "f", [forest_line(*r) for r in runs], "runs")
    good = []
    for (n, skip, ops), a in zip(runs, ans):
        if a is None:
            continue
        item = {"what": "random run", "n": n, "skip": skip}
        item["ev"] = forest_events(item, ops, a)
        (bad if forest_suspicious(item) else good).append(item)
    check.evaluations = len(todo) + len(runs)
    check.note(distinct_nontrivial=len(todo) + len(runs), suspicious=len(bad),
               rule="all merge and find sequences up to a depth generated by TLC, and random ones with up to 64 elements")
    for i in good[:2] + items[:2]:
        check.sample("%d elements without %d: %s" % (i["n"], i["skip"], " ".join("%s(%d,%d)%s" % (e["o"], e["a"], e["b"], e["r"]) for e in i["ev"][:20])))
    follow(check, "MFTrace", bad[:30] + items + spread(good, 1500 if big else 200), [check.prop], text_of)
    return "model_checking"


# ---------------------------------------------------------------------------------------------------------------- lists

LETTER = {"addb": "b %d", "addi": "i %d %d", "delb": "t", "deli": "k %d"}


def list_line(ops, observe):
    w = []
    for k, o in enumerate(ops):
        w.append(LETTER[o[0]] % tuple(o[1:]))
        if observe and k % observe == 0:
            w.append("o")
    return " ".join(w) + " o"


def list_events(ops, a, observe):
    ev, p = [], 0
    crash = {"o": "crash", "x": 0, "k": 0, "get": [], "it": [], "n": 0, "e": 0, "skip": 1}
    last = len(ops) - 1
    for k, o in enumerate(ops):
        if p + 1 >= len(a) or None in a[p:p + 2]:
            return ev + [crash]
        x = o[1] if o[0] in ("addb", "addi") else 0
        i = o[2] if o[0] == "addi" else o[1] if o[0] == "deli" else 0
        e = {"o": o[0], "x": x, "k": i, "get": [], "it": [], "n": a[p], "e": a[p + 1], "skip": 1}
        p += 2
        times = (1 if observe and k % observe == 0 else 0) + (1 if k == last else 0)
        for _ in range(times):
            g = a[p:p + e["n"] + 1]
            p += e["n"] + 1
            it = []
            while p < len(a) and a[p] is not None and a[p] != -1:
                it.append(a[p])
                p += 1
            if p >= len(a) or a[p] is None:
                return ev + [crash]
            p += 1
            e.update(get=g, it=it, skip=0)
        ev.append(e)
    if None in a[p:]:
        ev.append(crash)
    return ev


def list_suspicious(ev):
    s = []
    for e in ev:
        if e["o"] == "addb":
            s = s + [e["x"]]
        elif e["o"] == "addi":
            if e["k"] <= len(s):
                s = s[:e["k"]] + [e["x"]] + s[e["k"]:]
        elif e["o"] == "delb":
            s = s[:-1]
        elif e["o"] == "deli":
            if e["k"] < len(s):
                s = s[:e["k"]] + s[e["k"] + 1:]
        else:
            return True
        if e["n"] != len(s) or e["e"] != (not s) or (not e["skip"] and (e["get"] != s + [0] or e["it"] != s)):
            return True
    return False


def check_lists(check):
    exe = build(check, 8)
    big = check.thorough
    rnd = random.Random(check.seed)
    bad, items, total = [], [], 0
    gen = parallel([lambda: generate(check, "SeqGen", dict(Depth=7 if big else 6, Bottoms=1), "genl", ["Distinct"]),
                    lambda: generate(check, "SeqGen", dict(Depth=7 if big else 6, Bottoms=0), "gens", ["Distinct"])])
    for kind, seqs in zip("ls", gen):
        todo = []
        for h, end in seqs:
            ops = [(o[0], o[1]) if o[0] == "addb" else (o[0], o[1], o[2]) if o[0] == "addi" else ("delb",) if o[0] == "delb" else ("deli", o[2]) for o in h]
            todo.append((ops, end))
        # out of thousands of elements, some observed after every operation
        obs = [1 if k % 7 == 0 else 0 for k in range(len(todo))]
        ans = execute(check, exe, kind, [list_line(o, b) for (o, _), b in zip(todo, obs)], "gen" + kind)
        for k, ((ops, end), a, b) in enumerate(zip(todo, ans, obs)):
            if a is None:
                continue
            item = {"what": "generated behaviour of the %s" % ("generic list" if kind == "l" else "list of subproblems"), "ev": list_events(ops, a, b)}
            e = item["ev"][-1]
            if e["skip"] or e["it"] != end or list_suspicious(item["ev"]):
                bad.append(item)
            elif k % (len(todo) // 400 + 1) == 0:
                items.append(item)
        total += len(todo)
        runs = []
        for _ in range(3000 if big else 500):
            ops, n = [], 0
            for x in range(1, rnd.choice([10, 40, 150])):
                c = rnd.randrange(10)
                if c < 3:
                    ops.append(("addb", x))
                    n += 1
                elif c < 6:
                    k = rnd.choice([0, n, n, rnd.randrange(n + 1), n + 1, n + 5])
                    ops.append(("addi", x, k))
                    n += k <= n
                elif c < 7 and kind == "l":
                    ops.append(("delb",))
                    n -= n > 0
                else:
                    k = rnd.choice([0, max(0, n - 1), n, rnd.randrange(n + 1), n + 3])
                    ops.append(("deli", k))
                    n -= k < n
            runs.append(ops)
        obs = [rnd.choice([0, 1, 3]) for _ in runs]
        ans = execute(check, exe, kind, [list_line(o, b) for o, b in zip(runs, obs)], "runs" + kind)
        good = []
        for ops, a, b in zip(runs, ans, obs):
            if a is None:
                continue
            item = {"what": "random run of the %s" % ("generic list" if kind == "l" else "list of subproblems"), "ev": list_events(ops, a, b)}
            (bad if list_suspicious(item["ev"]) else good).append(item)
        total += len(runs)
        items += spread(good, 1000 if big else 120)
        for i in good[:2]:
            check.sample("%s: %s" % (i["what"], " ".join("%s(%d,%d)" % (e["o"], e["x"], e["k"]) for e in i["ev"][:25])))
    check.evaluations = total
    check.note(behaviours_replayed=sum(len(g) for g in gen), distinct_nontrivial=total, suspicious=len(bad),
               rule="all operation sequences up to a depth generated by TLC, and random ones with up to 150 operations")
    follow(check, "SeqTrace", bad[:30] + items, [check.prop], text_of)
    return "model_checking"
