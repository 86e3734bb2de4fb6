"""Runs the comparison of the real analyzer.py, with stand-ins for what only plots and for the few things it uses of pandas.

compare.py ANALYZER WORK OUT. WORK: [{kind: "profiles", n, hyb, cla (id -> [resolved, [[value, time]]])}] or
[{kind: "tables", dir (with the folders of results), sizes}]; each is run in a folder of its own.
OUT: [{files: {path: text}, error}].
"""
import json
import os
import runpy
import sys
from unittest.mock import MagicMock

analyzer, work, out = os.path.abspath(sys.argv[1]), json.load(open(sys.argv[2])), os.path.abspath(sys.argv[3])


class Missing(Exception):
    """The stand-in for pandas cannot do this."""


class Index(list):
    pass


class Loc:
    def __init__(self, df):
        self.df = df

    def __setitem__(self, key, row):
        df = self.df
        if isinstance(key, tuple):
            key, column = key
            if key not in df.index:
                df.index.append(key)
                df.rows.append([float("nan")] * len(df.columns))
            df.rows[df.index.index(key)][df.columns.index(column)] = row
            return
        if isinstance(row, dict):
            row = [row.get(c) for c in df.columns]
        row = list(row)
        if len(row) != len(df.columns):
            raise ValueError("a row with %d values for %d columns" % (len(row), len(df.columns)))
        if key in df.index:
            df.rows[df.index.index(key)] = row
        else:
            df.index.append(key)
            df.rows.append(row)

    def __getitem__(self, key):
        if key in self.df.index:
            return self.df.rows[self.df.index.index(key)]
        raise Missing("loc")


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        if isinstance(data, dict):
            self.columns = list(data)
            cols = [list(v) for v in data.values()]
            if len({len(c) for c in cols}) > 1:
                raise ValueError("All arrays must be of the same length")
            self.rows = [list(r) for r in zip(*cols)] if cols else []
            if columns is not None:
                order = [self.columns.index(c) for c in columns]
                self.columns, self.rows = list(columns), [[r[k] for k in order] for r in self.rows]
        elif isinstance(data, DataFrame):
            self.columns, self.rows = list(data.columns), [list(r) for r in data.rows]
            index = data.index if index is None else index
        elif data is not None and len(data) and all(isinstance(r, dict) for r in data):
            self.columns = list(columns or dict.fromkeys(c for r in data for c in r))
            self.rows = [[r.get(c, float("nan")) for c in self.columns] for r in data]
        else:
            self.rows = [list(r) for r in data] if data is not None else []
            self.columns = list(columns if columns is not None else range(len(self.rows[0]) if self.rows else 0))
        self.index = Index(index if index is not None else range(len(self.rows)))

    loc = property(lambda self: Loc(self))

    def __len__(self):
        return len(self.rows)

    shape = property(lambda self: (len(self.rows), len(self.columns)))
    empty = property(lambda self: not self.rows)

    def copy(self, deep=True):
        return DataFrame(self)

    def __getitem__(self, column):
        if isinstance(column, list):
            return DataFrame({c: self[c] for c in column}, index=self.index)
        return [r[self.columns.index(column)] for r in self.rows]

    def __setitem__(self, column, values):
        values = list(values) if hasattr(values, "__iter__") and not isinstance(values, str) else [values] * len(self.rows)
        if not self.columns and not self.rows:
            self.rows, self.index = [[] for _ in values], Index(range(len(values)))
        if len(values) != len(self.rows):
            raise ValueError("Length of values does not match length of index")
        if column in self.columns:
            for r, v in zip(self.rows, values):
                r[self.columns.index(column)] = v
        else:
            self.columns.append(column)
            for r, v in zip(self.rows, values):
                r.append(v)

    def rename(self, index=None, columns=None, **kw):
        if kw:
            raise Missing("rename " + " ".join(kw))
        df = DataFrame([list(r) for r in self.rows], [(columns or {}).get(c, c) for c in self.columns])
        df.index = Index((index or {}).get(k, k) for k in self.index)
        return df

    def to_string(self, *a, **kw):
        if a or kw:
            raise Missing("to_string with arguments")
        return "\n".join(["  ".join(self.columns)] + ["%s  %s" % (k, "  ".join("NaN" if v != v else str(v) for v in r))
                                                      for k, r in zip(self.index, self.rows)])

    def to_csv(self, path=None, index=True, **kw):
        if kw:
            raise Missing("to_csv " + " ".join(kw))
        t = "".join(",".join(map(str, ([k] if index else []) + list(r))) + "\n"
                    for k, r in [("", self.columns)] + list(zip(self.index, self.rows)))
        if path is None:
            return t
        with open(path, "w") as f:
            f.write(t)

    def __getattr__(self, name):
        raise Missing(name)


def concat(frames, ignore_index=False, axis=0, **kw):
    frames = [f for f in frames]
    if kw or axis not in (0, "index"):
        raise Missing("concat")
    columns = list(dict.fromkeys(c for f in frames for c in f.columns))
    rows = [dict(zip(f.columns, r)) for f in frames for r in f.rows]
    index = None if ignore_index else [k for f in frames for k in f.index]
    return DataFrame([[r.get(c, float("nan")) for c in columns] for r in rows], columns, index)


try:
    import pandas  # noqa: F401
except ImportError:
    class Pandas(MagicMock):
        pass
    m = type(sys)("pandas")
    m.DataFrame = DataFrame
    m.concat = concat
    sys.modules["pandas"] = m


class Plot:
    """Accepts every call."""
    def __getattr__(self, name):
        return lambda *a, **k: (Plot(), Plot())


plot = Plot()
mpl = type(sys)("matplotlib")
pyplot = type(sys)("matplotlib.pyplot")
for name in ("plot", "title", "xlabel", "ylabel", "legend", "savefig", "close", "grid", "step", "xscale", "yscale", "tight_layout", "clf", "show", "xlim", "ylim"):
    setattr(pyplot, name, lambda *a, **k: None)
for name in ("figure", "subplots", "gca", "gcf"):
    setattr(pyplot, name, lambda *a, **k: (Plot(), Plot()))
mpl.pyplot, mpl.use = pyplot, lambda *a, **k: None
sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = mpl, pyplot

sys.dont_write_bytecode = True
import warnings  # noqa: E402
warnings.simplefilter("ignore")
g = runpy.run_path(analyzer, run_name="analyzer")


def texts(top):
    return {os.path.relpath(os.path.join(r, f), top): open(os.path.join(r, f), errors="replace").read()
            for r, _, fs in os.walk(top) for f in fs if f.endswith((".csv", ".tex")) or f == "mean_results.txt"}


answers = []
scratch = os.path.abspath(out + "_dir")
os.makedirs(scratch)
for w in work:
    top = scratch if w["kind"] == "profiles" else w["dir"]
    os.chdir(top)
    error = ""
    sys.stdout = open(os.devnull, "w")
    try:
        if w["kind"] == "profiles":
            a, b = ({int(k): (v[0], [tuple(x) for x in v[1]]) for k, v in w[m].items()} for m in ("hyb", "cla"))
            g["performance_profiles"](a, b, w["n"], top)
        else:
            for n in w["sizes"]:
                g["analyze"](n, True)
            g["create_tables"]()
    except (Missing, ModuleNotFoundError) as e:
        error = "MISSING %s" % e
    except (Exception, SystemExit) as e:
        error = "%s: %s" % (type(e).__name__, e)
    sys.stdout = sys.__stdout__
    answers.append({"files": texts(top), "error": error})
    if w["kind"] == "profiles":
        for f in os.listdir(top):
            os.unlink(os.path.join(top, f))
with open(out, "w") as o:
    json.dump(answers, o)
