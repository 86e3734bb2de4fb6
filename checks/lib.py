"""Shared machinery of the checks: scratch folder, builds, TLC runs, findings, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
SOLVER = os.path.join(REPO, "src", "HybridSolver", "main")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, os.cpu_count() or 2)


class Broken(Exception):
    """The check itself could not do its work."""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.violations = []
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.known = [k for k in read_known() if k["property"] == prop]
        self.known_hit = {}
        self.replays = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(self.replays, f))

    thorough = property(lambda self: self.tier == "thorough")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, data):
        """what: a line of text; data: everything needed to see it again (JSON)."""
        for k in self.known:
            if re.search(k["match"], what):
                self.known_hit.setdefault(k["match"], k["what"])
                return
        n = len(self.violations)
        if n >= 10:
            self.violations.append((what, None))
            return
        f = os.path.join(self.replays, "%s-%d.json" % (self.prop, n))
        with open(f, "w") as o:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "data": data}, o, indent=1, default=str)
        self.violations.append((what, f))
        print("VIOLATION property=%s replay=%s" % (self.prop, f))
        print("  " + what[:600])
        sys.stdout.flush()

    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and isinstance(self.extra.get(k), (int, float)):
                self.extra[k] += v
            else:
                self.extra[k] = v

    def finish(self, level):
        shutil.rmtree(self.dir, ignore_errors=True)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known_hit[k]))
        cov = dict(self.extra)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        if self.evaluations:
            cov["evaluations"] = self.evaluations
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1, default=str)
        print("%s %s: %d violations, %d model states, %d traces, %.1f s" % (
            self.prop, self.tier, len(self.violations), self.states, self.traces, time.time() - self.start))
        return 1 if self.violations else 0


def read_known():
    """Lines 'known: property=<id> match=/<regular expression>/ <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m:
                out.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    return out


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                          universal_newlines=True, errors="replace", **kw)


def solver_sources(with_main=False, without=()):
    src = []
    for root, _, files in os.walk(SOLVER):
        for f in files:
            if f.endswith(".c") and f not in without and (with_main or f != "main.c"):
                src.append(os.path.join(root, f))
    return sorted(src)


def kruskal_tree(check):
    """A copy of the solver's sources as the maintainer's switch PRIM selects Kruskal; None where there is no such switch."""
    tree = check.path("kruskal")
    if not os.path.isdir(tree):
        part, changed = tempfile.mkdtemp(dir=check.dir), 0
        for root, _, files in os.walk(SOLVER):
            for f in files:
                if f.endswith((".c", ".h")) and f != "main.c":
                    to = os.path.join(part, os.path.relpath(os.path.join(root, f), SOLVER))
                    os.makedirs(os.path.dirname(to), exist_ok=True)
                    with open(os.path.join(root, f), errors="replace") as g:
                        text = g.read()
                    text, k = re.subn(r"(?m)^([ \t]*#[ \t]*define[ \t]+PRIM[ \t]+)(?:1|true)\b", r"\g<1>0", text)
                    changed += k
                    with open(to, "w") as g:
                        g.write(text)
        open(os.path.join(part, "switched" if changed == 1 else "not_switched"), "w").close()
        try:
            os.rename(part, tree)
        except OSError:                                # another thread was first
            shutil.rmtree(part)
    return tree if os.path.exists(os.path.join(tree, "switched")) else None


def compile_solver(check, name, sources, defines, flags=("-O2",), with_main=False, cc="clang", link=(), tree=None):
    """Compiles harness sources with the solver's own sources, as they are in the working tree."""
    exe = check.path(name)
    files = solver_sources(with_main) if tree is None else [tree + f[len(SOLVER):] for f in solver_sources(with_main)]
    cmd = [cc, "-g", *flags, *["-D%s" % d for d in defines], "-I" + (tree or SOLVER), *sources, *files, "-lm",
           *link, "-w", "-o", exe]
    r = run(cmd)
    if r.returncode:
        raise Broken("compilation of %s failed:\n%s" % (name, r.stdout[-4000:]))
    return exe


def parallel(jobs, workers=CORES):
    """jobs: list of functions; returns their results in order."""
    with ThreadPoolExecutor(max_workers=workers) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


class TlcResult:
    def __init__(self, text, rc):
        self.text, self.rc = text, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", "")
                       .replace("states generated ", "states generated, "))
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.completed = "Model checking completed. No error has been found." in text
        self.invariant = re.findall(r"(?:Invariant|property) (\w+) is violated", text)
        self.printed = [parse_tuple(x) for x in re.findall(r"^<<.*>>$", text, re.M)]
        self.error = None
        if not self.completed and not self.invariant:
            m = re.search(r"(Error: .*?)(?:\n\n|\nFinished|\Z)", text, re.S)
            self.error = (m.group(1) if m else text)[-1500:]


def parse_tuple(s):
    """A printed TLA+ tuple of strings, numbers, sets as a Python list."""
    s = s.replace("<<", "[").replace(">>", "]").replace("{", "[").replace("}", "]")
    s = s.replace("TRUE", "true").replace("FALSE", "false")
    try:
        return json.loads(s)
    except ValueError:
        return [s]


def tlc(check, spec, cfg, name, env=None, workers=1, mem="2g", timeout=800, args=()):
    """Runs TLC on specs/<spec>.tla with the configuration text cfg."""
    d = check.path("tlc_" + name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), d)
    with open(os.path.join(d, "M.cfg"), "w") as o:
        o.write(cfg)
    e = dict((k, v) for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG"))
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + mem, "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + d, "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-config", "M.cfg", "-metadir", "meta", *args, spec]
    try:
        r = run(cmd, timeout=timeout, cwd=d, env=e)
    except subprocess.TimeoutExpired:
        raise Broken("TLC took more than %d s on %s" % (timeout, name))
    out = TlcResult(r.stdout, r.returncode)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return out


def trace_cfg(props, spec="TraceSpec", more=""):
    return ("SPECIFICATION %s\nCONSTANT Props = {%s}\nCHECK_DEADLOCK FALSE\n%s\n"
            % (spec, ", ".join('"%s"' % p for p in props), more))


def follow(check, spec, items, props, describe, chunks=CORES, more="", batch=None):
    """Lets TLC follow the recorded items (a list of JSON values) through the trace specification; a FAULT line or an
    evaluation error on an item is a violation. describe(item, event number) gives a line of text."""
    if not items:
        return
    n = max(1, min(chunks, len(items)))
    # big items first, spread over the chunks
    order = sorted(range(len(items)), key=lambda k: -len(json.dumps(items[k])))
    groups = [[order[k] for k in range(len(order)) if k % n == g] for g in range(n)]
    cfg = trace_cfg(props, more=more)

    def one(group, name):
        f = check.path("trace_%s.json" % name)
        with open(f, "w") as o:
            json.dump([items[k] for k in group], o)
        r = tlc(check, spec, cfg, name, env={"TRACE": f})
        os.unlink(f)
        return r

    results = parallel([lambda g=g, k=k: one(g, "%s_%d" % (spec, k)) for k, g in enumerate(groups)])
    for g, (group, r) in enumerate(zip(groups, results)):
        if r.error and ("Parsing or semantic" in r.error or "OutOfMemory" in r.text):
            raise Broken("TLC cannot use %s: %s" % (spec, r.text[-1500:]))
        check.states += r.distinct
        check.transitions += max(0, r.generated - 1)
        done = [p for p in r.printed if p and p[0] == "DONE"]
        faults = [p for p in r.printed if p and p[0] == "FAULT"]
        if r.error or not done:
            if len(group) == 1:
                k = group[0]
                check.violation("the recorded behaviour is outside the specification: " +
                                describe(items[k], 0) + ": " + re.sub(r"\s+", " ", r.error or r.text[-500:])[:400], items[k])
                continue
            # find the item, alone
            alone = parallel([lambda k=k: (k, one([k], "%s_alone_%d" % (spec, k))) for k in group[:60]])
            bad = False
            for k, q in alone:
                if q.error:
                    bad = True
                    check.violation("the recorded behaviour is outside the specification: " + describe(items[k], 0) +
                                    ": " + re.sub(r"\s+", " ", q.error)[:400], items[k])
                for p in q.printed:
                    if p and p[0] == "FAULT":
                        bad = True
                        report_fault(check, items[k], p, describe)
            if not bad:
                raise Broken("TLC failed on a batch of %s: %s" % (spec, (r.error or r.text)[-1500:]))
            continue
        if done[-1][2] != len(faults):
            raise Broken("fault lines of %s were not understood: %s" % (spec, r.text[-1500:]))
        check.traces += len(group)
        for p in faults:
            report_fault(check, items[group[p[1] - 1]], p, describe)


def report_fault(check, item, p, describe):
    if check.prop in p[3]:
        check.violation(describe(item, p[2]), {"item": item, "event": p[2], "properties": p[3]})


def spread(items, k):
    """k of the items, spread evenly."""
    if len(items) <= k:
        return items
    return [items[int(i * len(items) / k)] for i in range(k)]
