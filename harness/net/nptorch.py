"""The part of torch that the model needs, on numpy in double precision. What is not here raises Missing."""
import sys
import types
import zlib

import numpy as np


class Missing(Exception):
    pass


def raw(x):
    return np.asarray(x)


def wrap(x):
    return np.asarray(x).view(Tensor)


class Size(tuple):
    def numel(self):
        return int(np.prod(self))


def shape_of(a):
    return tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else a


def reduced(f):
    def g(self, dim=None, keepdim=False, axis=None, dtype=None, out=None, keepdims=False, **k):
        d = axis if dim is None else dim
        d = tuple(d) if isinstance(d, list) else d
        r = f(raw(self), d, keepdim or keepdims)
        return wrap(r if dtype is None else r.astype(dtype))
    return g


class Tensor(np.ndarray):
    def __new__(cls, x=0.0, *more):
        return wrap(np.zeros((x, *more))) if isinstance(x, int) and not isinstance(x, bool) else wrap(np.array(x, np.float64))

    def __array_finalize__(self, o):
        pass

    def __getattr__(self, name):
        raise Missing("Tensor." + name) if not name.startswith("__") else AttributeError(name)

    def size(self, dim=None):
        return Size(self.shape) if dim is None else self.shape[dim]

    @property
    def T(self):
        return wrap(raw(self).T)

    def dim(self):
        return self.ndim

    def numel(self):
        return int(np.prod(self.shape))

    def unsqueeze(self, d):
        return wrap(np.expand_dims(raw(self), d))

    def squeeze(self, d=None):
        a = raw(self)
        return wrap(np.squeeze(a) if d is None else np.squeeze(a, d) if a.shape[d] == 1 else a)

    def transpose(self, a, b):
        return wrap(np.swapaxes(raw(self), a, b))

    swapaxes = transpose

    def t(self):
        return wrap(raw(self).T)

    def permute(self, *a):
        return wrap(np.transpose(raw(self), shape_of(a)))

    def view(self, *a):
        if len(a) == 1 and isinstance(a[0], type):
            return np.ndarray.view(self, a[0])
        return wrap(np.reshape(raw(self), shape_of(a)))

    def reshape(self, *a, **k):
        return wrap(np.reshape(raw(self), shape_of(a)))

    def flatten(self, start_dim=0, end_dim=-1):
        s = self.shape
        e = end_dim % len(s)
        return wrap(np.reshape(raw(self), s[:start_dim] + (-1,) + s[e + 1:]))

    def expand(self, *a):
        a = shape_of(a)
        s = (1,) * (len(a) - self.ndim) + self.shape
        return wrap(np.broadcast_to(np.reshape(raw(self), s), tuple(y if x == -1 else x for x, y in zip(a, s))))

    def expand_as(self, o):
        return self.expand(*o.shape)

    def repeat(self, *a):
        return wrap(np.tile(raw(self), shape_of(a)))

    def contiguous(self, *a, **k):
        return self

    cpu = cuda = detach = contiguous
    requires_grad_ = contiguous

    def clone(self, *a, **k):
        return wrap(np.array(raw(self)))

    def to(self, *a, **k):
        for x in list(a) + list(k.values()):
            if x in (np.float32, np.float64, np.int64, np.int32, bool):
                return wrap(raw(self).astype(np.float64 if x == np.float32 else x))
        return self

    def type(self, t=None):
        return "torch.DoubleTensor" if t is None else t(self) if callable(t) else self.to(t)

    def float(self):
        return wrap(raw(self).astype(np.float64))

    double = float

    def long(self):
        return wrap(raw(self).astype(np.int64))

    int = long

    def bool(self):
        return wrap(raw(self).astype(bool))

    def numpy(self):
        return raw(self)

    sum = reduced(lambda a, d, k: a.sum(axis=d, keepdims=k))
    mean = reduced(lambda a, d, k: a.mean(axis=d, keepdims=k))
    prod = reduced(lambda a, d, k: a.prod(axis=d, keepdims=k))
    argmax = reduced(lambda a, d, k: a.argmax(axis=d, keepdims=k))
    argmin = reduced(lambda a, d, k: a.argmin(axis=d, keepdims=k))

    def var(self, dim=None, unbiased=True, keepdim=False, **k):
        return wrap(raw(self).var(axis=dim, ddof=1 if unbiased else 0, keepdims=keepdim))

    def std(self, dim=None, unbiased=True, keepdim=False, **k):
        return wrap(raw(self).std(axis=dim, ddof=1 if unbiased else 0, keepdims=keepdim))

    def gather(self, dim, index):
        return wrap(np.take_along_axis(raw(self), raw(index), dim))

    def clamp(self, min=None, max=None):
        return wrap(np.clip(raw(self), min, max))

    clip = clamp

    def masked_fill(self, m, v):
        return wrap(np.where(raw(m), v, raw(self)))

    def select(self, dim, k):
        return wrap(np.take(raw(self), k, dim))

    def matmul(self, o):
        return matmul(self, o)

    mm = bmm = matmul

    def add(self, o, alpha=1):
        return self + alpha * o

    def sub(self, o, alpha=1):
        return self - alpha * o

    def mul(self, o):
        return self * o

    def div(self, o):
        return self / o

    def pow(self, o):
        return self ** o

    def exp(self):
        return wrap(np.exp(raw(self)))

    def log(self):
        return wrap(np.log(raw(self)))

    def sqrt(self):
        return wrap(np.sqrt(raw(self)))

    def abs(self):
        return wrap(np.abs(raw(self)))

    def relu(self):
        return relu(self)

    def sigmoid(self):
        return sigmoid(self)

    def softmax(self, dim):
        return softmax(self, dim)

    def log_softmax(self, dim):
        return log_softmax(self, dim)

    def eq(self, o):
        return self == o

    def add_(self, o, alpha=1):
        raw(self)[...] += alpha * raw(o)
        return self

    def mul_(self, o):
        raw(self)[...] *= raw(o)
        return self

    def relu_(self):
        np.maximum(raw(self), 0, out=raw(self))
        return self


def relu(x, inplace=False):
    return wrap(np.maximum(raw(x), 0))


def sigmoid(x):
    with np.errstate(over="ignore"):
        return wrap(1 / (1 + np.exp(-raw(x))))


def softmax(x, dim=-1, **k):
    x = raw(x)
    e = np.exp(x - x.max(axis=dim, keepdims=True))
    return wrap(e / e.sum(axis=dim, keepdims=True))


def log_softmax(x, dim=-1, **k):
    x = raw(x)
    x = x - x.max(axis=dim, keepdims=True)
    return wrap(x - np.log(np.exp(x).sum(axis=dim, keepdims=True)))


def matmul(a, b):
    return wrap(np.matmul(raw(a), raw(b)))


def linear(x, w, b=None):
    y = np.matmul(raw(x), raw(w).T)
    return wrap(y if b is None else y + raw(b))


def cat(xs, dim=0, axis=None):
    return wrap(np.concatenate([raw(x) for x in xs], axis=dim if axis is None else axis))


def stack(xs, dim=0):
    return wrap(np.stack([raw(x) for x in xs], axis=dim))


def new(x, dtype=None, **k):
    return wrap(np.array(x, np.float64 if dtype in (np.float32, None) and np.asarray(x).dtype.kind == "f" else dtype))


def LongTensor(x=0, *a):
    return wrap(np.array(x).astype(np.int64))


def FloatTensor(x=0.0, *a):
    return wrap(np.array(x).astype(np.float64))


def sized(f):
    return lambda *a, dtype=None, device=None, requires_grad=False, **k: wrap(f(shape_of(a)).astype(np.float64 if dtype in (None, np.float32) else dtype))


class Parameter(Tensor):
    def __new__(cls, x, requires_grad=True):
        return np.asarray(x).view(cls)


class Module:
    training = True

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def children_(self):
        for k, v in list(self.__dict__.items()):
            if isinstance(v, Module):
                yield k, v

    def register_parameter(self, name, v):
        setattr(self, name, v)

    def register_buffer(self, name, v, persistent=True):
        setattr(self, name, v)

    def add_module(self, name, v):
        setattr(self, name, v)

    register_module = add_module

    def named_parameters(self, prefix=""):
        for k, v in self.__dict__.items():
            if isinstance(v, Parameter):
                yield prefix + k, v
        for k, v in self.children_():
            yield from v.named_parameters(prefix + k + ".")

    def parameters(self):
        return (v for _, v in self.named_parameters())

    def modules(self):
        yield self
        for _, v in self.children_():
            yield from v.modules()

    def named_modules(self, prefix=""):
        yield prefix, self
        for k, v in self.children_():
            yield from v.named_modules(prefix + ("." if prefix else "") + k)

    def children(self):
        return (v for _, v in self.children_())

    def apply(self, f):
        for m in self.modules():
            f(m)
        return self

    def train(self, mode=True):
        for m in self.modules():
            m.__dict__["training"] = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *a, **k):
        return self

    cuda = cpu = float = double = to

    def state_dict(self):
        return dict(self.named_parameters())

    def load_state_dict(self, d, strict=True):
        mine = dict(self.named_parameters())
        if strict and set(d) != set(mine):
            raise RuntimeError("state_dict: missing %s, unexpected %s" % (sorted(set(mine) - set(d)), sorted(set(d) - set(mine))))
        for k, v in d.items():
            if raw(mine[k]).shape != np.shape(v):
                raise RuntimeError("state_dict: size of %s" % k)
            raw(mine[k])[...] = v


class Linear(Module):
    def __init__(self, i, o, bias=True, **k):
        self.in_features, self.out_features = i, o
        self.weight = Parameter(np.zeros((o, i)))
        self.bias = Parameter(np.zeros(o)) if bias else None

    def forward(self, x):
        return linear(x, self.weight, self.bias)


class Embedding(Module):
    def __init__(self, n, d, padding_idx=None, **k):
        self.weight = Parameter(np.zeros((n, d)))

    def forward(self, x):
        x = raw(x)
        if x.dtype.kind not in "iu":
            raise RuntimeError("indices of an embedding must be integers")
        if x.size and (x.min() < 0 or x.max() >= raw(self.weight).shape[0]):
            raise IndexError("index out of range in self")
        return wrap(raw(self.weight)[x])


class BatchNorm(Module):
    dims = ()

    def __init__(self, c, eps=1e-5, momentum=0.1, affine=True, track_running_stats=True, **k):
        self.eps, self.momentum, self.track = eps, momentum, track_running_stats
        self.weight = Parameter(np.ones(c)) if affine else None
        self.bias = Parameter(np.zeros(c)) if affine else None
        self.running_mean, self.running_var = (wrap(np.zeros(c)), wrap(np.ones(c))) if track_running_stats else (None, None)

    def forward(self, x):
        x = raw(x)
        if x.ndim not in self.dims:
            raise ValueError("expected %s input, got %dD" % (self.dims, x.ndim))
        c = x.shape[1]
        if self.weight is not None and raw(self.weight).shape[0] != c:
            raise RuntimeError("the number of channels is %d" % c)
        axes = tuple(k for k in range(x.ndim) if k != 1)
        s = (1, c) + (1,) * (x.ndim - 2)
        if self.training or not self.track:
            m, v = x.mean(axis=axes), x.var(axis=axes)
            if self.track:
                n = x.size // c
                f = self.momentum
                self.running_mean, self.running_var = (1 - f) * self.running_mean + f * wrap(m), (1 - f) * self.running_var + f * wrap(v * n / max(1, n - 1))
        else:
            m, v = raw(self.running_mean), raw(self.running_var)
        y = (x - m.reshape(s)) / np.sqrt(v.reshape(s) + self.eps)
        return wrap(y if self.weight is None else y * raw(self.weight).reshape(s) + raw(self.bias).reshape(s))


class BatchNorm1d(BatchNorm):
    dims = (2, 3)


class BatchNorm2d(BatchNorm):
    dims = (4,)


class ModuleList(Module):
    def __init__(self, ms=()):
        self.items_ = []
        for m in ms:
            self.append(m)

    def append(self, m):
        setattr(self, str(len(self.items_)), m)
        self.items_.append(m)
        return self

    def extend(self, ms):
        for m in ms:
            self.append(m)
        return self

    def __len__(self):
        return len(self.items_)

    def __iter__(self):
        return iter(self.items_)

    def __getitem__(self, k):
        return self.items_[k]


class Sequential(ModuleList):
    def __init__(self, *ms):
        ModuleList.__init__(self, ms)

    def forward(self, x):
        for m in self.items_:
            x = m(x)
        return x


class ReLU(Module):
    def forward(self, x):
        return relu(x)


class Sigmoid(Module):
    def forward(self, x):
        return sigmoid(x)


class Identity(Module):
    def forward(self, x):
        return x


class Softmax(Module):
    def __init__(self, dim=None):
        self.d = dim

    def forward(self, x):
        return softmax(x, self.d)


class Dropout(Module):
    def __init__(self, p=0.5, inplace=False):
        self.p = p

    def forward(self, x):
        if self.training and self.p:
            raise Missing("dropout in training")
        return x


def nll_loss(y, t, weight=None, **k):
    y, t = raw(y), raw(t).astype(np.int64)
    p = -np.take_along_axis(y, np.expand_dims(t, 1), 1)[:, 0]
    w = np.ones_like(p) if weight is None else raw(weight)[t]
    return wrap((p * w).sum() / w.sum())


class NLLLoss(Module):
    def __init__(self, weight=None, **k):
        self.w = weight

    def forward(self, y, t):
        return nll_loss(y, t, self.w)


class CrossEntropyLoss(NLLLoss):
    def forward(self, y, t):
        return nll_loss(log_softmax(y, 1), t, self.w)


class NoGrad:
    def __call__(self, f=None):
        return self if f is None else f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def module(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    m.__path__ = []

    def missing(a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Missing(name + "." + a)
    m.__getattr__ = missing
    sys.modules[name] = m
    return m


F = module("torch.nn.functional", relu=relu, sigmoid=sigmoid, softmax=softmax, log_softmax=log_softmax, linear=linear, nll_loss=nll_loss,
           relu_=lambda x: x.relu_(), cross_entropy=lambda y, t, weight=None, **k: nll_loss(log_softmax(y, 1), t, weight),
           embedding=lambda x, w: wrap(raw(w)[raw(x)]))
nn = module("torch.nn", functional=F, Module=Module, Linear=Linear, Embedding=Embedding, BatchNorm1d=BatchNorm1d, BatchNorm2d=BatchNorm2d, ModuleList=ModuleList,
            Sequential=Sequential, ReLU=ReLU, Sigmoid=Sigmoid, Identity=Identity, Softmax=Softmax, Dropout=Dropout, NLLLoss=NLLLoss,
            CrossEntropyLoss=CrossEntropyLoss, Parameter=Parameter, DataParallel=lambda m, *a, **k: m)
cuda = module("torch.cuda", is_available=lambda: False, FloatTensor=FloatTensor, LongTensor=LongTensor)
module("torch.autograd", Variable=lambda x, *a, **k: x)
module("torch", nn=nn, cuda=cuda, Tensor=Tensor, FloatTensor=FloatTensor, LongTensor=LongTensor, DoubleTensor=FloatTensor, tensor=new, as_tensor=new, from_numpy=wrap,
       sum=lambda x, dim=None, keepdim=False, **k: wrap(x).sum(dim, keepdim), mean=lambda x, dim=None, keepdim=False, **k: wrap(x).mean(dim, keepdim),
       relu=relu, sigmoid=sigmoid, softmax=softmax, log_softmax=log_softmax, matmul=matmul, mm=matmul, bmm=matmul, cat=cat, concat=cat, stack=stack,
       einsum=lambda s, *a: wrap(np.einsum(s, *[raw(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)])),
       zeros=sized(np.zeros), ones=sized(np.ones), zeros_like=lambda x, **k: wrap(np.zeros_like(raw(x))), ones_like=lambda x, **k: wrap(np.ones_like(raw(x))),
       full=lambda s, v, **k: wrap(np.full(s, v)), arange=lambda *a, **k: wrap(np.arange(*a)), eye=lambda n, *a, **k: wrap(np.eye(n)),
       exp=lambda x: wrap(np.exp(raw(x))), log=lambda x: wrap(np.log(raw(x))), sqrt=lambda x: wrap(np.sqrt(raw(x))), abs=lambda x: wrap(np.abs(raw(x))),
       clamp=lambda x, min=None, max=None: wrap(np.clip(raw(x), min, max)), where=lambda c, a, b: wrap(np.where(raw(c), a, b)),
       mul=lambda a, b: a * b, add=lambda a, b, alpha=1: a + alpha * b, sub=lambda a, b: a - b, div=lambda a, b: a / b, multiply=lambda a, b: a * b,
       transpose=lambda x, a, b: wrap(x).transpose(a, b), permute=lambda x, a: wrap(x).permute(a), unsqueeze=lambda x, d: wrap(x).unsqueeze(d),
       squeeze=lambda x, d=None: wrap(x).squeeze(d), reshape=lambda x, s: wrap(np.reshape(raw(x), s)), flatten=lambda x, *a: wrap(x).flatten(*a),
       maximum=lambda a, b: wrap(np.maximum(raw(a), raw(b))), max=lambda a, b=None: wrap(np.max(raw(a)) if b is None else np.maximum(raw(a), raw(b))),
       eq=lambda a, b: wrap(raw(a) == raw(b)), no_grad=NoGrad(), inference_mode=NoGrad(), manual_seed=lambda s: None,
       float=np.float32, float32=np.float32, float64=np.float64, long=np.int64, int64=np.int64, bool=bool, device=lambda *a: "cpu", Size=Size)


def fill(m, seed, scale=1.0):
    """Reproducible weights for every parameter, from its name."""
    for k, v in m.named_parameters():
        r = np.random.default_rng([seed, zlib.crc32(k.encode())])
        raw(v)[...] = r.normal(0, scale / np.sqrt(v.shape[-1]), v.shape) + (1.0 if "batch_norm" in k and k.endswith("weight") else 0.0)
