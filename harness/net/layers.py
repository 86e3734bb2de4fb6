"""Runs the layers of the network, and the whole network, on numpy. layers.py NETWORK_FOLDER JOBS OUT.

JOBS: [{kind, ...}], see checks/layers.py; OUT: [{out..., error}].
"""
import importlib.abc
import importlib.machinery
import json
import os
import sys
from unittest.mock import MagicMock

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa: E402
import nptorch as nt  # noqa: E402

folder, jobs, outfile = os.path.abspath(sys.argv[1]), json.load(open(sys.argv[2])), sys.argv[3]


class Others(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("matplotlib", "networkx", "pandas", "tqdm", "seaborn", "sklearn", "sklearn_extra", "tensorboardX", "IPython"):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = MagicMock()
        m.__path__, m.__name__, m.__spec__, m.__all__ = [], spec.name, spec, []
        return m

    def exec_module(self, m):
        pass


sys.meta_path.append(Others())
sys.dont_write_bytecode = True
sys.path.insert(0, folder)
from models import gcn_layers as L  # noqa: E402
from models.gcn_model import ResidualGatedGCNModel  # noqa: E402


class Config(dict):
    def __getattr__(self, k):
        return self[k]


def T(x, scale=1.0):
    return nt.wrap(np.array(x, np.float64) * scale)


def thousandths(x):
    return np.rint(np.clip(np.asarray(x, np.float64), -2e3, 2e3) * 1000).astype(int).tolist() if np.all(np.isfinite(np.asarray(x, np.float64))) else []


def weights(prefix, p, scale=1.0):
    return {prefix + ".weight": np.array(p["w"], np.float64) * scale, prefix + ".bias": np.array(p["b"], np.float64) * scale}


def model_of(j, layers=None, seed=None):
    c = Config(num_nodes=j["n"], node_dim=2, voc_nodes_in=2, voc_nodes_out=2, voc_edges_in=3, voc_edges_out=2, hidden_dim=j["h"],
               num_layers=j["layers"] if layers is None else layers, mlp_layers=j["mlp"], aggregation=j["agg"])
    m = ResidualGatedGCNModel(c, nt.FloatTensor, nt.LongTensor)
    if seed is not None:
        nt.fill(m, seed, 1.5)
    m.eval()
    return m


def ask(m, kinds, values, coords):
    n = len(kinds)
    with np.errstate(all="ignore"):
        y, _ = m(nt.LongTensor([kinds]), T([values]), nt.LongTensor(np.ones((1, n))), T([coords]), nt.LongTensor(np.zeros((1, n, n))), np.ones(2))
    y = np.asarray(y)
    assert y.shape == (1, n, n, 2), "the answer has the shape %s" % (y.shape,)
    return y


def millionths(y):
    p = np.asarray(nt.softmax(y, 3))[0, :, :, 1]
    return np.rint(p * 1e6).astype(int).tolist() if np.all(np.isfinite(p)) else []


def work(j):
    kind = j["kind"]
    if kind == "edge":
        m = L.EdgeFeatures(j["h"])
        m.load_state_dict({**weights("U", j["U"]), **weights("V", j["V"])})
        return {"out": thousandths(m(T(j["x"]), T(j["e"])))}
    if kind == "node":
        m = L.NodeFeatures(j["h"], j["agg"])
        m.load_state_dict({**weights("U", j["U"]), **weights("V", j["V"])})
        return {"out": thousandths(m(T(j["x"]), T(j["g"], 0.25)))}
    if kind in ("normnode", "normedge"):
        m = (L.BatchNormNode if kind == "normnode" else L.BatchNormEdge)(j["h"])
        m.train(bool(j["training"]))
        return {"out": thousandths(m(T(j["x"])))}
    if kind == "mlp":
        m = L.MLP(j["h"], len(j["last"]["b"]), len(j["more"]) + 1)
        d = weights("V", j["last"])
        for k, p in enumerate(j["more"]):
            d.update(weights("U.%d" % k, p))
        m.load_state_dict(d)
        return {"out": thousandths(m(T(j["x"])))}
    if kind == "layer":
        m = L.ResidualGatedGCNLayer(j["h"], j["agg"])
        d = {k: np.array(v) for k, v in m.state_dict().items() if k.startswith("bn_")}
        for k, p in j["p"].items():
            d.update(weights(k, p, 500.0 if k.startswith("edge") else 50.0))
        m.load_state_dict(d)
        m.train(bool(j["training"]))
        x, e = T(j["x"]), T(j["e"])
        xo, eo = m(nt.wrap(np.array(x)), nt.wrap(np.array(e)))
        return {"xout": thousandths(np.asarray(xo) - np.asarray(x)), "eout": thousandths(np.asarray(eo) - np.asarray(e))}
    if kind == "head":
        m = model_of(j, layers=0)
        d = {"nodes_coord_embedding.weight": np.zeros((j["h"], 2)), "edges_values_embedding.weight": np.array(j["wval"], np.float64),
             "edges_embedding.weight": np.array(j["wkind"], np.float64), **weights("mlp_edges.V", j["last"])}
        for k, p in enumerate(j["more"]):
            d.update(weights("mlp_edges.U.%d" % k, p))
        m.load_state_dict(d)
        return {"out": thousandths(ask(m, j["kinds"], j["values"], np.zeros((j["n"], 2))))[0]}
    coords = np.array(j["coords"], np.float64) / 1000
    values = np.sqrt(((coords[:, None] - coords[None]) ** 2).sum(2))
    kinds = np.array(j["kinds"])
    m = model_of(j, seed=j["weights"])
    whole = ask(m, kinds, values, coords)
    if kind == "same":
        outs = []
        for p in j["perms"]:
            p = np.array(p) - 1
            outs.append(millionths(ask(m, kinds[np.ix_(p, p)], values[np.ix_(p, p)], coords[p])))
        return {"base": millionths(whole), "outs": outs}
    if kind == "chain":
        state = {k: np.array(v) for k, v in m.state_dict().items()}
        x = nt.linear(T([coords]), state["nodes_coord_embedding.weight"])
        e = nt.cat((nt.linear(T([values]).unsqueeze(3), state["edges_values_embedding.weight"]), nt.wrap(state["edges_embedding.weight"][kinds[None]])), 3)
        part = {p: {k[len(p) + 1:]: v for k, v in state.items() if k.startswith(p + ".")} for p in ["mlp_edges"] + ["gcn_layers.%d" % k for k in range(j["layers"])]}
        assert len(state) == 3 + sum(map(len, part.values())), "parameters %s" % sorted(state)
        for k in range(j["layers"]):
            layer = L.ResidualGatedGCNLayer(j["h"], j["agg"])
            layer.load_state_dict(part["gcn_layers.%d" % k])
            x, e = layer(x, e)
        mlp = L.MLP(j["h"], 2, j["mlp"])
        mlp.load_state_dict(part["mlp_edges"])
        return {"base": millionths(whole), "outs": [millionths(mlp(e))]}


res = []
for j in jobs:
    try:
        with np.errstate(all="ignore"):
            r = work(j)
        r["error"] = ""
    except nt.Missing as x:
        print("the stand-in for torch lacks %s" % x)
        sys.exit(3)
    except Exception as x:
        r = {"error": "%s: %s" % (type(x).__name__, x)}
    res.append(r)
json.dump(res, open(outfile, "w"))
