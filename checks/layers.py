"""C29: the layers of the network and the whole network, run on numpy; TLC judges the results."""
import json
import os
import random

from lib import HARNESS, Broken, follow, parallel, run, spread
from network import NET
from pipeline import PY
from structures import generate

ONE = [dict(U=dict(w=[[2]], b=[1]), V=dict(w=[[3]], b=[-1])), dict(U=dict(w=[[-1]], b=[0]), V=dict(w=[[1]], b=[2])),
       dict(U=dict(w=[[1]], b=[0]), V=dict(w=[[-2]], b=[1]))]


def a_map(rnd, i, o, top=2):
    return dict(w=[[rnd.randint(-top, top) for _ in range(i)] for _ in range(o)], b=[rnd.randint(-top, top) for _ in range(o)])


def cube(rnd, shape, low, high):
    return [cube(rnd, shape[1:], low, high) for _ in range(shape[0])] if shape else rnd.randint(low, high)


def random_job(rnd, kind, k):
    b, n, h = rnd.choice([1, 1, 2]), rnd.choice([2, 3, 3, 4]), rnd.choice([1, 2, 3])
    j = dict(kind=kind, h=h, agg=rnd.choice(["sum", "mean"]), training=k % 2, what="random")
    if kind == "edge":
        n = rnd.choice([2, 3, 4, 6])
        j.update(x=cube(rnd, (b, n, h), -3, 3), e=cube(rnd, (b, n, n, h), -3, 3), U=a_map(rnd, h, h, 3), V=a_map(rnd, h, h, 3))
    elif kind == "node":
        n = rnd.choice([2, 3, 4, 6])
        j.update(x=cube(rnd, (b, n, h), -3, 3), g=cube(rnd, (b, n, n, h), 0, rnd.choice([1, 4])), U=a_map(rnd, h, h, 3), V=a_map(rnd, h, h, 3))
    elif kind == "normnode":
        j.update(x=cube(rnd, (b, n, h), -3, 3))
    elif kind == "normedge":
        j.update(x=cube(rnd, (b, n, n, h), -3, 3))
    elif kind == "mlp":
        j.update(x=cube(rnd, (b, n, h), -3, 3), more=[a_map(rnd, h, h) for _ in range(rnd.randrange(3))], last=a_map(rnd, h, 2))
    elif kind == "layer":
        n = rnd.choice([2, 3])
        names = ("edge_feat.U", "edge_feat.V", "node_feat.U", "node_feat.V")
        j.update(x=cube(rnd, (b, n, h), -2, 2), e=cube(rnd, (b, n, n, h), -2, 2), p={q: a_map(rnd, h, h, 1) for q in names})
    elif kind == "head":
        n = rnd.choice([2, 3, 4, 5])
        more = rnd.randrange(3)
        h = rnd.choice([2, 4])
        j.update(n=n, h=h, mlp=more + 1, wval=cube(rnd, (h // 2, 1), -2, 2), wkind=cube(rnd, (3, h // 2), -2, 2), kinds=cube(rnd, (n, n), 0, 2),
                 values=cube(rnd, (n, n), 0, 5), more=[a_map(rnd, h, h) for _ in range(more)], last=a_map(rnd, h, 2))
    else:
        n = rnd.choice([2, 3, 4, 5, 8, 12]) if kind == "chain" else j.get("n") or rnd.choice([3, 5, 7, 10, 16])
        near = rnd.choice([-1, 2, n - 1, n // 2])
        xy = [[rnd.randrange(1000), rnd.randrange(1000)] for _ in range(n)]
        kinds = [[2 if a == c else 1 if near == -1 else 0 for c in range(n)] for a in range(n)]
        for a in range(n if near > 0 else 0):
            for c in sorted(range(n), key=lambda c: (xy[a][0] - xy[c][0]) ** 2 + (xy[a][1] - xy[c][1]) ** 2)[:near + 1]:
                kinds[a][c] = 2 if a == c else 1
        perms = []
        for _ in range(3):
            p = list(range(1, n + 1))
            rnd.shuffle(p)
            perms.append(p)
        j.update(n=n, h=rnd.choice([2, 4, 8]), mlp=rnd.choice([1, 2, 3]), layers=rnd.choice([1, 2, 3, 5]), weights=rnd.randrange(10 ** 6), coords=xy, kinds=kinds,
                 perms=perms if kind == "same" else [])
    return j


def small_jobs(part):
    """The instances that TLC enumerated, for every layer."""
    out = []
    for x, e, m in part:
        p = ONE[m - 1]
        shift = ONE[m % 3]
        base = dict(h=1, x=[x], e=[e], training=(len(out) // 5) % 2, what="generated")
        gates = [[[[max(0, v + 1) + (v > 0)] for v in row for v in v] for row in e]]
        out.append(dict(base, kind="edge", U=p["U"], V=p["V"]))
        for agg in ("sum", "mean"):
            out.append(dict(base, kind="node", g=gates, agg=agg, U=p["U"], V=p["V"]))
            out.append(dict(base, kind="layer", agg=agg, p={"edge_feat.U": p["U"], "edge_feat.V": p["V"], "node_feat.U": shift["U"], "node_feat.V": shift["V"]}))
    return out


def execute(check, jobs):
    def work(g, part):
        src, dst = check.path("in_%d.json" % g), check.path("out_%d.json" % g)
        with open(src, "w") as f:
            json.dump(part, f)
        r = run([PY, os.path.join(HARNESS, "net", "layers.py"), NET, src, dst], timeout=800,
                env=dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1"))
        if r.returncode or not os.path.exists(dst):
            raise Broken("the network did not run: " + r.stdout[-1500:])
        return [dict(j, **a) for j, a in zip(part, json.load(open(dst)))]
    parts = [jobs[k::8] for k in range(8)]
    return [i for part in parallel([lambda g=g, p=p: work(g, p) for g, p in enumerate(parts)]) for i in part]


NAMES = dict(edge="features of edges", node="features of cities", normnode="normalisation of cities", normedge="normalisation of edges", mlp="classifier",
             layer="a whole layer", head="network without layers", same="network, renumbered", chain="network against its layers one by one")


def text(it, event):
    return "%s, %s instance of %s: %s" % (NAMES[it["kind"]], it["what"], json.dumps({k: it[k] for k in ("n", "h", "agg", "training", "layers", "mlp", "x") if k in it})[:200],
                                          it["error"] or "result %s" % json.dumps(it.get("out") or it.get("xout") or it.get("base"))[:120])


def check_layers(check):
    rnd = random.Random(check.seed)
    big = check.thorough
    sets = [dict(N=2, Xs="{0, 1, 3}", Es="{0, 1, 2}", Symmetric="FALSE"), dict(N=3, Xs="{0, 3}", Es="{0, 1}", Symmetric="TRUE")]
    if big:
        sets += [dict(N=3, Xs="{0, 1, 3}", Es="{0, 2}", Symmetric="TRUE"), dict(N=3, Xs="{1, 2}", Es="{0, 1}", Symmetric="FALSE"), dict(N=4, Xs="{1, 2}", Es="{0, 1}", Symmetric="TRUE")]
    got = parallel([lambda g=g, k=k: generate(check, "ConvGen", g, "conv%d" % k, ["Equivariant", "BothWays"])
                    for k, g in enumerate(sets)])
    jobs = []
    for part in got:
        part = rnd.sample(part, min(len(part), 8000 if big else 700))
        jobs += small_jobs([q for q in part if len(q[0]) <= 3])
    for kind in NAMES:
        count = {"same": 60, "chain": 60, "layer": 400}.get(kind, 200) * (10 if big else 1)
        jobs += [random_job(rnd, kind, k) for k in range(count)]
    items = execute(check, jobs)
    if all(i["error"] for i in items):
        raise Broken("the network fails on everything: " + items[0]["error"])
    for i in items:
        for k in ("values", "x", "e", "g"):
            i.setdefault(k, [])
    check.evaluations = len(items)
    check.note(distinct_nontrivial=len(items), results=len(items), renumbered=sum(len(i.get("perms", [])) for i in items),
               rule="all instances of 2 cities and some of 3 with one feature through the single layers, random ones with up to 6 cities, 3 features and 2 instances "
                    "at a time; networks of up to 5 layers with random weights for instances of up to 16 cities, each with 3 renumberings")
    for i in items[-3:]:
        check.sample(text(i, 1)[:300])
    follow(check, "ConvTrace", items, [check.prop], text)
    check.assumptions.append("torch is replaced by its operations on numpy in double precision; the trained weights are not here, the weights are chosen")
    return "model_checking"
