"""Semiring operations on tensors: operands, calls and projection of the answers."""
import math

import numpy as np
import torch

import lib
from lib import LN2, NOINT, Bad, as_int, interval, vec, ts

EMPTY = -30000.0          # log-domain values below this are the additive identity


def sizes(sr, k):
    return {"kmax": k, "ent": 2, "ce": 3, "kl": 3}.get(sr, 1)


# ------------------------------------------------------------ operands
def element(rng, sr, k, cls, small, top=0):
    """One random element as (exact value for the spec, components for the library).
    top: sizes are spread evenly over the orders of magnitude up to top."""
    r = rng.random()
    if top and r >= 0.25:
        any_ = lambda: max(1, round(math.exp(rng.uniform(0, math.log(top)))))
        sign = rng.choice([-1, 1])
        if sr in ("std", "log"):
            v = any_()
            return v, [float(v) if sr == "std" else math.log(v)]
        if sr == "max":
            v = sign * min(any_(), 20000)
            return v, [float(v)]
        if sr == "kmax":
            v = sorted([rng.choice([-1, 1]) * min(any_(), 20000) for _ in range(rng.randint(1, k))], reverse=True)
            return v, [float(x) for x in v] + [zero_of(cls)] * (k - len(v))
        if sr == "ent":
            z, g = any_(), sign * any_()
            return [z, g], [math.log(z), math.log(z) - g * LN2 / z]
        p, q, a = any_(), any_(), sign * any_()
        return [p, q, a], [math.log(p), math.log(q), math.log(q) - (math.log(p) if sr == "kl" else 0.0) - a * LN2 / p]
    zero = [float(x) for x in cls.zero.reshape(-1)]
    one = [float(x) for x in cls.one.reshape(-1)]
    hi = 3 if small else 6
    if sr == "std":
        v = rng.choice([0, 0, 1] + list(range(1, hi + 1)))
        return v, [zero[0] if v == 0 else one[0] if v == 1 else float(v)]
    if sr == "log":
        if r < 0.15:
            return 0, zero
        v = rng.randint(1, hi + 2)
        return v, [math.log(v)] if v > 1 else one
    if sr == "max":
        if r < 0.15:
            return -100000000, zero
        if r < 0.25:
            return 0, one
        v = rng.randint(-9, 9)
        return v, [float(v)]
    if sr == "kmax":
        if r < 0.15:
            return [], zero
        if r < 0.25:
            return [0], one
        v = sorted([rng.randint(-9, 9) for _ in range(rng.randint(1, k))], reverse=True)
        return v, [float(x) for x in v] + [zero[-1]] * (k - len(v))
    if sr == "ent":
        if r < 0.15:
            return [0, 0], zero
        if r < 0.25:
            return [1, 0], one
        z, g = rng.randint(1, hi), rng.randint(-hi, hi)
        return [z, g], [math.log(z), math.log(z) - g * LN2 / z]
    if r < 0.15:
        return [0, 0, 0], zero
    if r < 0.25:
        return [1, 1, 0], one
    p, q, a = rng.randint(1, hi), rng.randint(1, hi), rng.randint(-hi, hi)
    base = math.log(q) - (math.log(p) if sr == "kl" else 0.0)
    return [p, q, a], [math.log(p), math.log(q), base - a * LN2 / p]


def zero_of(cls):
    return float(cls.zero.reshape(-1)[-1])


def operand(rng, sr, k, cls, shape, dtype, small=False, layout=False, top=0):
    n = int(np.prod(shape)) if shape else 1
    els = [element(rng, sr, k, cls, small, top) for _ in range(n)]
    t = torch.tensor([e[1] for e in els], dtype=dtype).t().reshape((sizes(sr, k),) + tuple(shape)).contiguous()
    if layout:
        t = lib.layouted(t, rng.choice(["transposed", "slice", "strided"]))
    return dict(s=list(shape), v=[e[0] for e in els]), t


# ------------------------------------------------------------ answers
def report(sr, k, t, dtype):
    """Every element of an answer, projected for the spec."""
    if not torch.is_tensor(t):
        raise Bad("not a tensor")
    if t.shape[:1] != (sizes(sr, k),):
        raise Bad("semiring size")
    if t.dtype != dtype:
        raise Bad("dtype")
    a = t.detach().double().numpy()
    if np.isnan(a).any():
        raise Bad("nan")
    r = 1e-9 if dtype == torch.float64 else 3e-5
    slack = 1e-3 if dtype == torch.float64 else 2e-2
    flat = a.reshape(a.shape[0], -1).T
    out = []

    def mass(x):
        return 0.0 if x < EMPTY else math.exp(min(x, 21.0))

    for e in flat:
        if sr == "std":
            out.append(list(interval(e[0], r)))
        elif sr == "log":
            out.append(list(interval(mass(e[0]), r)))
        elif sr == "max":
            out.append([-100000000 if e[0] < EMPTY else as_int(e[0])])
        elif sr == "kmax":
            out.append([as_int(x) for x in e if x >= EMPTY])
        elif sr == "ent":
            z = mass(e[0])
            g = z * (e[0] - e[1]) / LN2 if z else 0.0
            out.append(list(interval(z, r)) + around(g, z, r, slack))
        else:
            p, q = mass(e[0]), mass(e[1])
            base = e[1] - (e[0] if sr == "kl" else 0.0)
            g = p * (base - e[2]) / LN2 if p else 0.0
            out.append(list(interval(p, r)) + list(interval(q, r)) + around(g, p, r, slack))
    return dict(s=list(a.shape[1:]), v=out)


def around(g, scale, r, slack):
    w = slack + r * 50 * (abs(g) + scale)
    return [lib.clampi(math.ceil(g - w)), lib.clampi(math.floor(g + w))]


def fix3(t, dtype, scale):
    if t is None:
        raise Bad("no gradient")
    if t.dtype != dtype:
        raise Bad("dtype")
    a = t.detach().double().numpy()
    if not np.isfinite(a).all():
        raise Bad("not finite")
    return dict(s=list(a.shape), v=[lib.clampi(round(float(x) * scale)) for x in a.reshape(-1)])


# ------------------------------------------------------------ user semirings
P = 46337


class _User(ts.Semiring):
    zero = torch.tensor(0.0)
    one = torch.tensor(1.0)


class Mod(_User):
    @staticmethod
    def mul(a, b):
        return torch.remainder(a * b, P)

    @staticmethod
    def sum(xs, dim=-1):
        return torch.remainder(torch.sum(xs, dim=dim), P)


class MinPlus(_User):
    zero = torch.tensor(1e8)
    one = torch.tensor(0.0)

    @staticmethod
    def mul(a, b):
        return torch.clamp(a + b, max=1e8)

    @staticmethod
    def sum(xs, dim=-1):
        return torch.min(xs, dim=dim)[0]


class Bool(_User):
    @staticmethod
    def mul(a, b):
        return torch.minimum(a, b)

    @staticmethod
    def sum(xs, dim=-1):
        return torch.max(xs, dim=dim)[0]


class Bottleneck(Bool):
    zero = torch.tensor(-1e8)
    one = torch.tensor(1e8)


class Dual(ts.Semiring):
    """Pairs (weight, weight times number of marks): two components per element."""

    zero = torch.tensor([0.0, 0.0])
    one = torch.tensor([1.0, 0.0])

    @staticmethod
    def size():
        return 2

    @staticmethod
    def convert(x):
        return torch.stack([x, x])

    @staticmethod
    def unconvert(x):
        return x[1]

    @staticmethod
    def mul(a, b):
        return torch.stack([a[0] * b[0], a[0] * b[1] + a[1] * b[0]])

    @staticmethod
    def sum(xs, dim=-1):
        d = dim - 1 if dim > 0 else dim
        return torch.stack([xs[0].sum(d), xs[1].sum(d)])


USER = dict(mod=Mod, min=MinPlus, bool=Bool, btl=Bottleneck, dual=Dual)
STRUCT = dict(chain="LinearChain", semi="SemiMarkov", dep="DepTree", depl="DepTree", span="CKY_CRF", cfg="CKY")
