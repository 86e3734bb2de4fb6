"""C01-C11, C13, C26: recorded searches of the solver followed through BBTrace."""
import json
import os

from lib import HARNESS, Broken, compile_solver, follow, kruskal_tree, parallel, run, tlc

SEARCH = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C26")

# property: (plans of the quick tier, plans of the thorough tier); a plan is (built maximum, profile, number of
# instances, traces for TLC per mode, detail of the relaxations); a "k" selects Kruskal (PRIM 0) for the relaxations
QUICK = {
    "C01": [(7, "a", 4000, 24, 0), (10, "a", 1500, 10, 0), (12, "a", 500, 3, 0), (9, "c", 1500, 6, 0), (3, "a", 60, 8, 0), (4, "a", 150, 8, 0), ("7k", "a", 2000, 6, 0)],
    "C02": [(7, "d", 4000, 24, 0), (10, "a", 1500, 10, 0), (8, "j", 300, 12, 0), (9, "d", 2000, 10, 0), (3, "a", 60, 8, 0), (4, "a", 150, 8, 0), ("8k", "d", 1500, 6, 0)],
    "C03": [(7, "a", 4000, 30, 0), (10, "a", 1200, 8, 0), (9, "a", 1500, 8, 0), (6, "d", 3000, 16, 0), ("7k", "a", 2000, 8, 0)],
    "C04": [(7, "a", 4000, 30, 0), (10, "a", 1200, 8, 0), (9, "d", 1500, 8, 0), (6, "d", 3000, 16, 0), ("7k", "a", 2000, 8, 0)],
    "C05": [(7, "a", 4000, 30, 0), (10, "a", 1500, 8, 0), (9, "d", 2000, 8, 0), (8, "j", 200, 8, 0), (5, "d", 2000, 10, 0), ("7k", "a", 2000, 8, 0)],
    "C06": [(7, "a", 4000, 30, 0), (10, "a", 1500, 8, 0), (9, "d", 2000, 8, 0), (5, "d", 2000, 10, 0)],
    "C07": [(7, "a", 4000, 24, 0), (10, "a", 1500, 10, 0), (9, "a", 2500, 10, 0), (12, "a", 400, 3, 0)],
    "C08": [(7, "a", 4000, 24, 0), (10, "a", 1500, 10, 0), (9, "d", 2500, 10, 0), ("8k", "a", 1500, 6, 0)],
    "C09": [(7, "a", 4000, 24, 0), (10, "a", 1200, 8, 0), (9, "d", 2500, 10, 0), (6, "d", 3000, 12, 0)],
    "C10": [(7, "j", 800, 40, 0), (9, "j", 300, 16, 0), (7, "sjJ", 60, 40, 0), (8, "a", 1000, 8, 0)],
    "C11": [(7, "a", 4000, 24, 0), (10, "a", 1500, 10, 0), (9, "j", 300, 12, 0), (6, "d", 2000, 10, 0)],
    "C13": [(7, "a", 2500, 10, 2), (9, "d", 1500, 4, 2), (6, "d", 2500, 10, 2), (10, "a", 600, 2, 2), ("7k", "a", 1500, 4, 2), ("9k", "d", 800, 2, 2)],
    "C26": [(7, "a", 2500, 16, 1), (9, "a", 1500, 8, 1), (10, "a", 800, 4, 1), (6, "d", 2500, 10, 1), ("8k", "a", 1500, 6, 1)],
}


def plans(prop, thorough):
    p = QUICK[prop]
    if not thorough:
        return [(n, prof, cnt, smp, r, 25) for n, prof, cnt, smp, r in p]
    out = [(n, prof, cnt * 12, smp * 4, r, 150) for n, prof, cnt, smp, r in p]
    out.append((15 if prop in ("C01", "C02", "C07", "C11") else 11, "a", 3000, 8, min(p[0][4], 1), 150))
    out.append((8, "c", 20000, 30, p[0][4], 150))
    return out


def describe(s, event):
    ev = s["ev"][event - 1] if 0 < event <= len(s["ev"]) else {}
    what = "the solver crashed or did not finish" if ev.get("k") == "crash" else "step %d (%s)" % (event, ev.get("k", "?"))
    return "%s mode, %d vertices (built for %d), instance %s: %s" % (
        "hybrid" if s["hyb"] else "classic", s["n"], s["N"], s["seed"], what)


def build(check, n, hyb):
    """n: the built maximum; with a "k" appended the solver uses Kruskal, with an "s" or "m" it is built with sanitizers
    and without the hooks."""
    flags = {"s": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], "m": ["-O1", "-fsanitize=memory"]}
    kind, top = str(n)[-1], int(str(n).rstrip("ksm"))
    tree = kruskal_tree(check) if kind == "k" else None
    return compile_solver(check, "bb_%s_%d" % (n, hyb), [os.path.join(HARNESS, "bb.c")],
                          [*([] if kind in flags else ["BB_TRACE"]), "MAX_VERTEX_NUM=%d" % top, "HYBRID=%d" % hyb],
                          flags.get(kind, ["-O2"]), link=["-Wl,--wrap=clock"], tree=tree)


def run_plans(check, prop, todo, keep_traces=True):
    """todo: (n, profile, count, sample, detail, seconds); both modes. Returns the recorded solves."""
    builds = sorted({(p[0], h) for p in todo for h in (0, 1)}, key=str)
    parallel([lambda b=b: build(check, *b) for b in builds])
    number = int(prop[1:])

    def one(k, plan, h):
        n, prof, cnt, smp, detail, secs = plan
        out = check.path("t_%s_%d_%d.json" % (prop, k, h))
        r = run([check.path("bb_%s_%d" % (n, h)), out, str(check.seed * 100 + k), str(cnt), str(smp), "12", str(number),
                 prof, str(secs), str(detail)], cwd=check.dir, timeout=850)
        try:
            stats = json.loads(r.stdout.strip().split("\n")[-1])
            solves = json.load(open(out))
        except (ValueError, OSError):
            raise Broken("the driver failed: " + r.stdout[-2000:])
        os.unlink(out)
        stats["profile"] = prof
        return stats, solves

    res = parallel([lambda k=k, p=p, h=h: one(k, p, h) for k, p in enumerate(todo) for h in (0, 1)])
    solves = []
    for stats, s in res:
        solves += s
        for key in ("instances", "runs", "nontrivial", "nodes", "branchings", "improvements", "forced", "dropped",
                    "interrupted", "notour", "sparse", "suspicious", "crashed"):
            check.note(**{key: stats[key]})
    check.evaluations = check.extra["runs"]
    check.note(distinct_nontrivial=check.extra["nontrivial"],
               rule="instances generated from the seed over sizes, densities, weight families and probability families; "
                    "non-trivial: the search took more than one subproblem",
               built_maxima=sorted({p[0] for p in todo}, key=str))
    return solves


DESIGN = """SPECIFICATION DSpec
CONSTANTS Props = {"C01","C02","C03","C04","C05","C07","C08","C09","C10","C11","C21"}
 Cases = {%s}
 MaxGen = %d
 Forcing = %d
INVARIANTS NothingLost Optimal RealTour Honest Consistency Disjoint Counted EndsWell
PROPERTIES OnlyBetter NotLate
CHECK_DEADLOCK FALSE
"""


def design(check):
    """The global guarantees follow from the demands on the steps: model checking of BBDesign."""
    todo = [("1,2,6,7", 5, 0), ("1,6,7", 3, 1)]
    if check.thorough:
        todo = [("1,2,3,4,5,6,7", 5, 0), ("1,2,6,7", 7, 0), ("1,2,3,4,5,6,7", 3, 1), ("8", 3, 0)]
    for k, (cases, gen, forcing) in enumerate(todo):
        r = tlc(check, "BBDesign", DESIGN % (cases, gen, forcing), "design%d" % k, workers=CORES_DESIGN, mem="8g", timeout=840)
        if not r.completed:
            raise Broken("the design model is broken: " + r.text[-3000:])
        check.states += r.distinct
        check.transitions += r.generated
        check.note(design_states=r.distinct)


CORES_DESIGN = 8

QUEUE = """SPECIFICATION Spec
CONSTANTS MaxVal = 3
 MaxProb = %d
 Eps = 1
 Better = %d
 Hyb = %s
 MaxLen = %d
 MaxIds = %d
INVARIANTS Same NoInversion BestFirst InOrder
CHECK_DEADLOCK FALSE
"""


def queue_design(check):
    """Keeping the open subproblems the way the solver does makes the search best-first."""
    for k, (prob, better, hyb, n) in enumerate([(2, 1, "TRUE", 4), (1, 1, "FALSE", 4)] + ([(3, 2, "TRUE", 5)] if check.thorough else [])):
        r = tlc(check, "OpenQueue", QUEUE % (prob, better, hyb, n, n), "queue%d" % k, workers=CORES_DESIGN, mem="8g", timeout=840)
        if not r.completed:
            raise Broken("the design of the queue is broken: " + r.text[-3000:])
        check.states += r.distinct
        check.transitions += r.generated
        check.note(design_states=r.distinct)


def check_search(check):
    prop = check.prop
    solves = run_plans(check, prop, plans(prop, check.thorough))
    for s in solves[:3]:
        check.sample("%s n=%d %s, %d events" % ("hybrid" if s["hyb"] else "classic", s["n"], s["w"], len(s["ev"])))
    follow(check, "BBTrace", solves, [prop], describe)
    if prop in ("C01", "C03"):
        design(check)
    if prop == "C07":
        queue_design(check)
    check.assumptions += [
        "the events recorded by the hooks (BB_TRACE) are the steps of the search; the final report is read back from the "
        "solver's own output and data",
        "TLC decides on the sampled solves and on every solve the fast monitor objects to",
        "tours: all of them up to 7 vertices; above, the cheapest ones, found by dynamic programming, given as witnesses"]
    return "model_checking"
