"""Runs the real main.py of the network with stand-ins for torch, the trained model and the clustering.

run.py MAIN_FOLDER JOBS OUT: jobs [{n, m, xy, p, med, tail}]: n cities at xy, a model for m cities whose answer for the
cities k and l of its input is the probability p[k][l], near, its number of neighbours, and med, the cities that the clustering picks; tail: the rest of
the line of the instance. OUT: [{text, seen, error, calls}]: the matrix file, the coordinates that the model was given, and what happened to the model.
"""
import importlib.abc
import importlib.machinery
import json
import os
import runpy
import sys
import types
from unittest.mock import MagicMock

import numpy as np

main_folder, jobs, out = sys.argv[1], json.load(open(sys.argv[2])), sys.argv[3]
job = None
seen = None
calls = []


class Tensor(np.ndarray):
    def type(self, t=None):
        return "Tensor" if t is None else t(self)

    def numpy(self):
        return np.asarray(self)

    def cpu(self):
        return self

    detach = clone = cuda = contiguous = cpu

    def float(self):
        return FloatTensor(self)

    def long(self):
        return LongTensor(self)

    def to(self, *a, **k):
        return self


def tensor(x, dtype=None, **k):
    return np.array(x, dtype=dtype).view(Tensor)


def FloatTensor(x):
    return tensor(x, np.float32)


def LongTensor(x):
    return tensor(x, np.int64)


def DoubleTensor(x):
    return tensor(x, np.float64)


def softmax(x, dim=-1, **k):
    e = np.exp(np.asarray(x, np.float32) - np.max(x, axis=dim, keepdims=True))
    return (e / e.sum(axis=dim, keepdims=True)).astype(np.float32).view(Tensor)


class NoGrad:
    def __call__(self, f=None):
        return self if f is None else f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Net:
    """The trained model."""

    def __init__(self, config, *a, **k):
        calls.append(["make", int(config["num_nodes"])])

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def train(self, mode=True):
        calls.append(["train" if mode else "eval", 0])
        return self

    def eval(self):
        return self.train(False)

    cuda = to = cpu = lambda self, *a, **k: self

    def load_state_dict(self, state, *a, **k):
        path = os.path.relpath(state["from"])
        calls.append(["take", next((m for m in range(1, 200) if path == "logs/tsp%d/best_val_checkpoint.tar" % m), -1)])

    def forward(self, x_edges, x_edges_values, x_nodes, x_nodes_coord, y_edges=None, edge_cw=None):
        global seen
        seen = np.asarray(x_nodes_coord, np.float64)[0].tolist()
        m = len(seen)
        calls.append(["ask", {"coords": seen, "nodes": np.asarray(x_nodes)[0].tolist(), "values": np.asarray(x_edges_values, np.float64)[0].tolist(),
                              "kinds": np.asarray(x_edges)[0].tolist()}])
        p = np.array(job["p"], np.float64)
        y = np.zeros((1, m, m, 2), np.float32)
        with np.errstate(divide="ignore"):
            y[0, :, :, 1] = np.where(p == 0, -300, np.log(np.maximum(p, 1e-30) / (1 - p)))[:m, :m]
        return y.view(Tensor), MagicMock()


class KMedoids:
    def __init__(self, n_clusters=8, *a, **k):
        self.k = n_clusters

    def fit(self, x):
        x = np.asarray(x)
        med = job["med"][:self.k]
        self.medoid_indices_ = np.array(med)
        self.cluster_centers_ = x[med]
        self.labels_ = np.argmin(((x[:, None, :] - self.cluster_centers_[None]) ** 2).sum(2), axis=1)
        return self


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    m.__path__ = []
    sys.modules[name] = m
    return m


F = module("torch.nn.functional", softmax=softmax, sigmoid=lambda x: 1 / (1 + np.exp(-x)))
nn = module("torch.nn", functional=F, DataParallel=lambda net, *a, **k: net, Module=object)
autograd = module("torch.autograd", Variable=lambda x, *a, **k: x)
cuda = module("torch.cuda", is_available=lambda: False, FloatTensor=FloatTensor, LongTensor=LongTensor, manual_seed=lambda s: None)
module("torch", nn=nn, autograd=autograd, cuda=cuda, Tensor=Tensor, FloatTensor=FloatTensor, LongTensor=LongTensor, DoubleTensor=DoubleTensor,
       tensor=tensor, as_tensor=tensor, from_numpy=tensor, no_grad=NoGrad(), inference_mode=NoGrad(), sigmoid=lambda x: 1 / (1 + np.exp(-x)), softmax=softmax, manual_seed=lambda s: None, float32=np.float32,
       float=np.float32, long=np.int64, int64=np.int64, device=lambda *a: "cpu",
       load=lambda f, *a, **k: {"model_state_dict": {"from": f}})
module("models"), module("models.gcn_model", ResidualGatedGCNModel=Net)
module("sklearn"), module("sklearn.utils", shuffle=lambda x, *a, **k: list(x))
module("sklearn.utils.class_weight", compute_class_weight=lambda *a, **k: np.ones(2))
module("sklearn_extra"), module("sklearn_extra.cluster", KMedoids=KMedoids)


class Missing(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Anything else that is not installed here."""

    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("matplotlib", "networkx", "pandas", "tqdm", "seaborn", "fastprogress", "tensorboardX", "torch", "sklearn", "IPython"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = MagicMock()
        m.__path__, m.__name__, m.__spec__, m.__all__ = [], spec.name, spec, []
        return m

    def exec_module(self, m):
        pass


sys.meta_path.append(Missing())
os.chdir(main_folder)
sys.path.insert(0, main_folder)
sys.dont_write_bytecode = True
answers = []
devnull = open(os.devnull, "w")
for job in jobs:
    seen = None
    calls.clear()
    n, m = job["n"], job["m"]
    np.random.seed(job["n"] * 1000 + m)
    config = {"expt_name": "tsp%d" % m, "num_nodes": m, "num_neighbors": job.get("near", -1)}
    os.makedirs("logs/tsp%d" % m, exist_ok=True), os.makedirs("data/hyb_tsp", exist_ok=True)
    json.dump(config, open("logs/tsp%d/config.json" % m, "w"))
    temp = "data/hyb_tsp/test_%d_nodes_temp.txt" % n
    with open(temp, "w") as f:
        f.write(" ".join("%r %r" % tuple(v) for v in job["xy"]) + job["tail"])
    path = os.path.join(os.path.abspath("."), "matrix.csv")
    if os.path.exists(path):
        os.unlink(path)
    sys.argv = ["main.py", path, str(n), str(m)]
    error, stdout = "", sys.stdout
    sys.stdout = devnull
    try:
        runpy.run_path("main.py", run_name="__main__")
    except SystemExit as e:
        error = "exit %s" % e.code if e.code else ""
    except Exception as e:
        error = "%s: %s" % (type(e).__name__, e)
    finally:
        sys.stdout = stdout
    text = open(path).read() if os.path.exists(path) else ""
    answers.append({"text": text, "seen": seen, "error": error, "calls": list(calls) if job.get("calls") else []})
json.dump(answers, open(out, "w"))
