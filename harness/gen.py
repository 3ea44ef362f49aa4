"""Session scripts of every property (what is asked of the library; never what it should answer)."""
import copy
import itertools
import json
import os
import random

import numpy as np
import torch

from lib import *

REG = {}


def prop(pid):
    def deco(f):
        REG[pid] = f
        return f

    return deco


def scripts(pid, tier, seed):
    return REG[pid](tier == "thorough", random.Random("%d:%s" % (seed, pid)))


# ---------------------------------------------------------------- shapes
def grid(fam, limit=2 ** 17, maxN=None):
    """Every small shape of a family whose number of structures stays below limit."""
    out = []

    def add(N, **kw):
        if maxN and N > maxN:
            return
        c = Case(fam, N, **kw)
        if c.nstructs() <= limit:
            out.append(dict(N=N, **kw))

    if fam == "chain":
        for N, C in itertools.product(range(2, 11), range(1, 6)):
            add(N, C=C)
    elif fam == "semi":
        for N, K, C in itertools.product(range(2, 10), range(2, 8), range(1, 4)):
            if K <= N + 1:
                add(N, K=K, C=C)
    elif fam == "dep" or fam == "np":
        for N, r in itertools.product(range(1, 8 if fam == "dep" else 6), ("multi", "single")):
            add(N, root=r)
    elif fam == "depl":
        for N, L, r in itertools.product(range(1, 6), range(1, 4), ("multi", "single")):
            add(N, L=L, root=r)
    elif fam == "span":
        for N, C in itertools.product(range(1, 8), range(1, 5)):
            add(N, C=C)
    elif fam == "cfg":
        for N, NT, T in itertools.product(range(2, 7), range(1, 4), range(1, 4)):
            add(N, NT=NT, T=T)
    return out


def some(rng, items, n):
    items = list(items)
    rng.shuffle(items)
    return items[:n]


def cheap(fam, s, limit):
    return Case(fam, **s).nstructs() <= limit


def spread(rng, fam, n, limit=2 ** 17, maxN=None):
    """n shapes of a family, covering every shape once before repeating any."""
    out = []
    while len(out) < n:
        g = grid(fam, limit, maxN)
        rng.shuffle(g)
        out += g
    return out[:n]


def wide_shapes(R, n, marg=False):
    """Shapes far from the small ones in one or two dimensions (potentials from few())."""
    out = []
    kinds = list(TENSOR) + ["cfg"]
    for i in range(n):
        fam = kinds[i % len(kinds)]
        B = R.choice([1, 1, 2, 2, 3])
        many = R.random() < 0.2
        if fam == "chain":
            s = dict(N=R.choice([9, 12, 16, 17, 23, 33] + ([] if marg else [64, 65, 70, 130])), C=R.choice([2, 6, 8, 9, 12, 16, 17] + ([] if marg else [25, 33])))
        elif fam == "semi":
            s = dict(N=R.choice([8, 9, 13, 16, 17] + ([] if marg else [24, 33, 65])), C=R.choice([1, 2, 4, 5] + ([] if marg else [8, 11])), K=R.choice([2, 3, 6, 8, 9, 12, 16]))
            s["K"] = min(s["K"], s["N"] + 2, 64 // s["C"] if s["N"] > 24 else 16)
        elif fam == "dep":
            s = dict(N=R.choice([8, 9, 11, 12] + ([] if marg else [16, 17, 20])), root=R.choice(["multi", "single"]))
        elif fam == "depl":
            s = dict(N=R.choice([5, 8, 9, 11] + ([] if marg else [16])), L=R.choice([3, 5, 8, 11]), root=R.choice(["multi", "single"]))
        elif fam == "span":
            s = dict(N=R.choice([8, 9, 11, 12] + ([] if marg else [16, 17, 20])), C=R.choice([1, 3, 5, 8, 11]))
        else:
            s = dict(N=R.choice([5, 8, 9] + ([] if marg else [10, 12])), NT=R.choice([2, 4, 6]), T=R.choice([2, 4, 7]))
            if s["N"] > 8:
                s.update(NT=R.choice([2, 3]), T=R.choice([2, 4]))
        if many:
            B = R.choice([5, 8, 9, 16, 17, 33])
            s["N"] = min(s["N"], 5)
            if "K" in s:
                s["K"] = min(s["K"], 5)
            for k in ("C", "L", "NT", "T"):
                if k in s:
                    s[k] = min(s[k], 3)
        out.append((fam, s, B))
    return out


def wide(rng, fam, s, B, p=0.4, shift=0.3, **kw):
    """A distribution of such a shape."""
    c = Case(fam, B=B, lens=with_lens(rng, fam, s, B, p), **s)
    few(rng, c, **kw)
    return offset(rng, c, shift)


def offset(rng, c, p=0.3):
    """Sometimes move every structure of an element by the same amount."""
    if rng.random() < p:
        lim = rng.choice([1, 3, 12])
        c.shift = [[rng.randint(-lim, lim) for _ in range(c.N)] for _ in range(c.B)]
        if rng.random() < 0.3:
            c.shift = [[-abs(x) for x in r] for r in c.shift]
    return c


# ---------------------------------------------------------------- C01
@prop("C01")
def c01(deep, R):
    m = 8 if deep else 1
    jobs = []
    for fam, n in (("chain", 45), ("semi", 60), ("dep", 42), ("depl", 36), ("span", 28), ("cfg", 30)):
        for s in spread(R, fam, n * m):
            jobs.append((fam, s, "grid"))
    for fam in ("chain", "semi"):
        for N in (11, 12, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 100):
            for _ in range(m):
                s = dict(N=N, C=R.randint(1, 3))
                if fam == "semi":
                    s["K"] = R.randint(2, 6)
                jobs.append((fam, s, "long"))

    def script(fam, s, kind):
        def run(rng, rec):
            B = rng.choice([1, 1, 2, 3, 4]) if kind == "grid" else rng.choice([1, 2])
            c = Case(fam, B=B, lens=with_lens(rng, fam, s, B, 0.6 if kind == "grid" else 0), **s)
            if kind == "long":
                sparse_long(rng, c, 9)
            else:
                fill(rng, c, "weights", forb=rng.choice([0, 0, 0.3]))
            if rng.random() < 0.2 and c.nstructs() < 2000:
                c.dtype = torch.float32
            offset(rng, c)
            q_partition(rec, c, rec.new(c))

        return run

    def body(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B)
        q_partition(rec, c, rec.new(c))

    return [script(*j) for j in jobs] + run_all(wide_shapes(R, 60 * m), body)


# ---------------------------------------------------------------- helpers
def batch(rng, hi=4):
    return rng.choice([1] + list(range(1, hi + 1)))


def with_lens(rng, fam, s, B, p=0.5, low=None):
    """Lengths for a batch, given explicitly or left out."""
    if rng.random() >= p:
        return None
    if low is None:
        low = 2 if fam == "cfg" else 1
    return mix_lens(rng, s["N"], B, low)


def weights(rng, fam, s, B=None, lens=None, cap=23, forb=None, pad="rand", uneven=0.3):
    c = Case(fam, B=batch(rng) if B is None else B, lens=lens, **s)
    fill(rng, c, "weights", cap=cap, forb=rng.choice([0, 0, 0.3]) if forb is None else forb, pad=pad)
    if fam != "np" and rng.random() < uneven:
        for b in range(c.B):
            raise_some(rng, c, b, cap)
    return c


def scores(rng, fam, s, B=None, lens=None, kind=None, forb=None, pad="rand", far=0.2):
    c = Case(fam, B=batch(rng) if B is None else B, lens=lens, **s)
    return fill(rng, c, kind or rng.choice(["scores", "scores", "ties"]), forb=rng.choice([0, 0, 0.3]) if forb is None else forb, pad=pad, wide=far)


def maybe32(rng, c, p=0.2, limit=400):
    if rng.random() < p and c.nstructs() <= limit:
        c.dtype = torch.float32
    return c


def uneven(rng, c, cap, otherwise, p=0.35):
    """Very uneven weights and finite but negligible ones, or otherwise(c)."""
    if rng.random() >= p:
        return otherwise(rng, c)
    for b in range(c.B):
        raise_some(rng, c, b, cap)
    return lower_some(rng, c, rng.choice([0.1, 0.3]))


def run_all(jobs, body):
    """One script per job."""

    def mk(j):
        return lambda rng, rec: body(rng, rec, *j)

    return [mk(j) for j in jobs]


def big_shapes(R, fam, n):
    out = []
    for _ in range(n):
        if fam == "chain":
            out.append(dict(N=R.choice([9, 13, 16, 17, 24, 32, 33, 40]), C=R.randint(1, 6)))
        elif fam == "semi":
            out.append(dict(N=R.choice([8, 9, 12, 16, 17, 20, 33]), C=R.randint(1, 4), K=R.randint(2, 7)))
        elif fam == "dep":
            out.append(dict(N=R.randint(6, 9), root=R.choice(["multi", "single"])))
        elif fam == "depl":
            out.append(dict(N=R.randint(4, 7), L=R.randint(2, 4), root=R.choice(["multi", "single"])))
        elif fam == "span":
            out.append(dict(N=R.randint(6, 10), C=R.randint(1, 5)))
        else:
            out.append(dict(N=R.randint(4, 7), NT=R.randint(1, 3), T=R.randint(1, 3)))
    return out


# ---------------------------------------------------------------- C02
@prop("C02")
def c02(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 45), ("semi", 60), ("dep", 28), ("depl", 28), ("span", 28), ("cfg", 36)):
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=2 ** 40)]
        jobs += [(fam, s) for s in big_shapes(R, fam, 8 * m)]

    def body(rng, rec, fam, s):
        B = batch(rng)
        ask(rng, rec, maybe32(rng, scores(rng, fam, s, B, with_lens(rng, fam, s, B, 0.3)), 0.2, 10 ** 9))

    def body2(rng, rec, fam, s, B):
        c = Case(fam, B=B, lens=with_lens(rng, fam, s, B, 0.4), **s)
        fill(rng, c, "scores", forb=rng.choice([0, 0.3])) if rng.random() < 0.7 else few(rng, c, hi=5)
        ask(rng, rec, offset(rng, c))

    def ask(rng, rec, c):
        d = rec.new(c)
        qs = [lambda: q_max(rec, c, d), lambda: q_argmax(rec, c, d)]
        if rng.random() < 0.3:
            qs.append(lambda: q_argmax(rec, c, d, "mode"))
        rng.shuffle(qs)
        for q in qs:
            q()

    return run_all(jobs, body) + run_all(wide_shapes(R, 48 * m), body2)


# ---------------------------------------------------------------- C03
MARG_LIMIT = dict(chain=2 ** 13, semi=2 ** 12, dep=273, depl=900, span=4000, cfg=2000)


@prop("C03")
def c03(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 40), ("semi", 60), ("dep", 20), ("depl", 20), ("span", 22), ("cfg", 20)):
        jobs += [(fam, s, "grid") for s in spread(R, fam, n * m, limit=MARG_LIMIT[fam])]
    for fam in ("chain", "semi"):
        for N in (11, 16, 17, 18, 33):
            s = dict(N=N, C=2)
            if fam == "semi":
                s["K"] = R.randint(2, 4)
            jobs += [(fam, s, "long")] * m

    def body(rng, rec, fam, s, kind):
        if kind == "long":
            c = sparse_long(rng, Case(fam, B=1, **s), 8)
        else:
            B = rng.choice([1, 1, 2, 3])
            c = offset(rng, maybe32(rng, weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.3))))
        q_marginals(rec, c, rec.new(c))

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B)
        q_marginals(rec, c, rec.new(c))

    jobs3 = [(fam, R.choice([9, 16, 17, 17, 33])) for fam in list(TENSOR) + ["cfg"] for _ in range(2 * m)]

    def body3(rng, rec, fam, B):
        s = dict(chain=dict(N=3, C=2), semi=dict(N=4, K=3, C=1), dep=dict(N=3, root="multi"), depl=dict(N=2, L=2, root="single"), span=dict(N=3, C=2), cfg=dict(N=3, NT=1, T=2))[fam]
        c = weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.3))
        q_marginals(rec, c, rec.new(c))

    return run_all(jobs, body) + run_all(wide_shapes(R, 96 * m, True), body2) + run_all(jobs3, body3)


# ---------------------------------------------------------------- C04 / C05
SMALL = dict(chain=700, semi=500, dep=60, depl=130, span=260, cfg=400)


def all_queries(rng, rec, c, d, light=False, skip=()):
    """Every deterministic query the family supports, in random order."""
    f = c.fam
    qs = dict(
        partition=lambda: q_partition(rec, c, d),
        max=lambda: q_max(rec, c, d),
        argmax=lambda: q_argmax(rec, c, d),
        marginals=lambda: q_marginals(rec, c, d),
        entropy=lambda: q_entropy(rec, c, d),
    )
    kk = min(c.nstructs(n) for n in c.lens)
    k = rng.randint(1, max(1, min(5, kk)))
    qs["kmax"] = lambda: q_kmax(rec, c, d, k)
    if f != "cfg" or c.T ** c.N <= 1500:
        qs["topk"] = lambda: q_topk(rec, c, d, k)
    qs["count"] = lambda: q_count(rec, c, d)
    if f != "cfg":
        qs["logprob"] = lambda: q_logprob(rec, c, d, [pick_structs(rng, c) for _ in range(2)])
    else:
        qs["logprob"] = lambda: q_logprob_cfg(rec, c, d, pick_structs(rng, c))
    names = [n for n in qs if n not in skip]
    rng.shuffle(names)
    if light:
        names = names[:4]
    for n in names:
        qs[n]()


def pick_structs(rng, c):
    """One structure per element, of positive weight where the potentials came from few()."""
    kept = getattr(c, "kept", None)
    if kept and rng.random() < 0.8:
        return [rng.choice(k) for k in kept]
    return [random_cfg(rng, c, n) if c.fam == "cfg" else random_struct(rng, c, n) for n in c.lens]


def same_support(rng, c):
    """Another distribution that gives weight to the same parts."""
    c2 = copy.copy(c)
    c2.pot = copy.deepcopy(c.pot)
    c2.shift = None
    for x in [y for v in c2.pot for y in v.values()] if c.fam == "cfg" else [c2.pot]:
        on = [i for i in np.ndindex(*x.shape) if x[i] in (0, 1)]
        for i in rng.sample(on, min(len(on), 3)):
            x[i] = 1 - x[i]
    return c2


def q_logprob(rec, c, d, draws, shape=None, via="event", allb=None):
    """draws: list (sample) of list (batch) of 0-based part lists; shape: leading sample dims."""

    def go():
        S = len(draws)
        ev = torch.stack([torch.stack([one_hot(c, x, torch.float64 if via == "event" else torch.long) for x in dr]) for dr in draws])
        if via not in ("event", "long"):
            ev = ev.to(getattr(torch, via))
        if shape is not None:
            ev = ev.view(*shape, *ev.shape[1:])
        lead = tuple(shape) if shape is not None else (S,)
        lp = d.log_prob(ev)
        a = vec(lp, lead + (c.B,), c.dtype).reshape(S, c.B)
        zi = zints(c, d) if c.fam != "np" else None
        items = []
        for i in range(S):
            for b in range(c.B):
                if allb is None or b == allb - 1:
                    items.append(dict(b=b + 1, parts=plus1(draws[i][b]), p=clampi(round(math.exp(min(a[i, b], 5.0)) * 1e6))))
                    if zi:
                        items[-1]["s"] = score_of(c, a[i, b], zi[b])
        out = dict(items=items, tol=600 if c.fam == "np" else mtol(c))
        if zi:
            out["zi"] = zi
        return out

    ev = dict(op="logprob", id=c.ident)
    if allb is not None:
        ev["all"] = allb
    return rec.call(ev, go)


def cfg_tensors(c, trees, dtype):
    S = c.NT + c.T
    tm = torch.zeros(c.B, c.N, c.T, dtype=dtype)
    ru = torch.zeros(c.B, c.NT, S, S, dtype=dtype)
    ro = torch.zeros(c.B, c.NT, dtype=dtype)
    for b, t in enumerate(trees):
        for p in t["terms"]:
            tm[(b,) + tuple(p)] = 1
        for p in t["rules"]:
            ru[(b,) + tuple(p)] += 1
        ro[b, t["roots"][0]] = 1
    return tm, ru, ro


def cfg_ev(t):
    cnt = {}
    for r in t["rules"]:
        cnt[r] = cnt.get(r, 0) + 1
    return dict(terms=plus1(t["terms"]), rules=[[x + 1 for x in r] + [n] for r, n in cnt.items()], roots=[r + 1 for r in t["roots"]],
                spans=plus1(t["spans"]))


def q_logprob_cfg(rec, c, d, trees, allb=None, only=None):
    def go():
        lp = vec(d.log_prob(cfg_tensors(c, trees, c.dtype)), (c.B,), c.dtype)
        zi = zints(c, d)
        return dict(tol=mtol(c), zi=zi, items=[dict(b=b + 1, ev=cfg_ev(trees[b]), p=clampi(round(math.exp(min(lp[b], 5.0)) * 1e6)), s=score_of(c, lp[b], zi[b]))
                                               for b in range(only or c.B)])

    ev = dict(op="logprob", id=c.ident)
    if allb is not None:
        ev["all"] = allb
    return rec.call(ev, go)


@prop("C04")
def c04(deep, R):
    m = 5 if deep else 1
    jobs = []
    for fam, n in (("chain", 26), ("semi", 30), ("dep", 14), ("depl", 12), ("span", 14), ("cfg", 12)):
        for s in spread(R, fam, n * m, limit=SMALL[fam]):
            if s["N"] > 1 and not (fam == "cfg" and s["N"] < 3):
                jobs.append((fam, s))

    def body(rng, rec, fam, s):
        B = rng.randint(2, 4)
        low = 2 if fam == "cfg" else 1
        lens = mix_lens(rng, s["N"], B, low)
        if rng.random() < 0.3:
            lens[[i for i in range(B) if i != lens.index(s["N"])][0]] = low
        pad = rng.choice(["rand", "huge", "wild"])
        c = offset(rng, weights(rng, fam, s, B, lens, cap=18, pad=pad), 0.2)
        d = rec.new(c)
        all_queries(rng, rec, c, d)
        c2 = weights(rng, fam, s, B, lens, cap=18, forb=0, pad=pad)
        d2 = rec.new(c2)
        q_cross(rec, c, d, c2, d2, "ce")
        q_cross(rec, c, d, c2, d2, "kl")
        q_draws(rec, c, d, 12, law=False)
        q_draws(rec, c, d, 3, law=False, gumbel=1.0)
        if fam != "cfg":
            q_grad(rec, c)

    def body_wide(rng, rec, fam, s, B):
        c = wide(rng, fam, s, max(2, B), p=1, pad=rng.choice(["rand", "huge", "wild"]), cap=18)
        d = rec.new(c)
        all_queries(rng, rec, c, d, light=True, skip=("count",))
        q_draws(rec, c, d, 11, law=False)

    jobs2 = [("np", s) for s in spread(R, "np", 10 * m) if s["N"] > 1]

    def body_np(rng, rec, fam, s):
        B = rng.randint(2, 4)
        c = weights(rng, "np", s, B, mix_lens(rng, s["N"], B), cap=12, forb=0, pad=rng.choice(["rand", "wild", "zero"]))
        np_queries(rec, c, rec.new(c))

    return run_all(jobs, body) + run_all(jobs2, body_np) + run_all(wide_shapes(R, 24 * m, True), body_wide)


def np_queries(rec, c, d):
    q_partition(rec, c, d, nprtol=1e-3)
    q_marginals(rec, c, d, tol=400)


def q_grad(rec, c):
    """Gradient of the log-partition with respect to the caller's tensor."""

    def go():
        t = tensors(c).detach().requires_grad_(True)
        g = torch.autograd.grad(construct(c, t).partition.sum(), t)[0]
        return dict(tol=mtol(c), m=fix6(vec(g, (c.B,) + c.shape(), c.dtype)))

    return rec.call(dict(op="marginals", id=c.ident, via="gradient of partition"), go)


class Beside:
    """The distribution of c with one more batch element, of huge, infinite or undefined
    potentials, whose answers are left out."""

    def __init__(self, rng, c, only=()):
        self.c, self.r = c, rng.randint(0, c.B)
        values = [v for k, v in sorted(WILD.items()) if not only or k in only]
        values = values if rng.random() < 0.5 else [rng.choice(values)]
        t = tensors(c)
        ts_ = [self.put(x.detach(), 0, lambda y: torch.tensor([rng.choice(values) for _ in range(y.numel())], dtype=y.dtype).view(y.shape)) for x in (t if c.fam == "cfg" else (t,))]
        e = copy.copy(c)
        e.lens = c.lens[: self.r] + [c.N if not c.given else rng.choice(c.lens)] + c.lens[self.r :]
        self.d = construct(e, tuple(ts_) if c.fam == "cfg" else ts_[0])

    def put(self, x, axis, what):
        """x with one more row on an axis."""
        new = what(x.narrow(axis, 0, 1))
        return torch.cat([x.narrow(axis, 0, self.r), new, x.narrow(axis, self.r, x.shape[axis] - self.r)], axis)

    def cut(self, x, axis):
        if isinstance(x, (tuple, list)):
            return tuple(self.cut(y, axis) for y in x)
        if x.dim() <= axis or x.shape[axis] != self.c.B + 1:
            raise Bad("shape")
        return x.index_select(axis, torch.tensor([i for i in range(self.c.B + 1) if i != self.r]))

    def __getattr__(self, name):
        return self.cut(getattr(self.d, name), 0)

    def kmax(self, k):
        return self.cut(self.d.kmax(k), 1)

    def topk(self, k):
        x = self.d.topk(k)
        # a grammar reports sums over the k trees but for the spans
        return self.cut(x[:3], 0) + (self.cut(x[3], 1),) if self.c.fam == "cfg" else self.cut(x, 1)

    def sample(self, shape):
        return self.cut(self.d.sample(shape), 1)

    def log_prob(self, value):
        if self.c.fam == "cfg":
            x = self.d.log_prob(tuple(self.put(v, 0, torch.zeros_like) for v in value))
            return self.cut(x, 0)
        lead = value.dim() - len(self.c.shape()) - 1
        return self.cut(self.d.log_prob(self.put(value, lead, torch.zeros_like)), lead)


@prop("C05")
def c05(deep, R):
    m = 5 if deep else 1
    jobs = []
    for fam, n in (("chain", 12), ("semi", 14), ("dep", 8), ("depl", 8), ("span", 8), ("cfg", 8)):
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=SMALL[fam])]

    def body(rng, rec, fam, s):
        B = rng.randint(3, 6)
        lens = with_lens(rng, fam, s, B, 0.6)
        c = weights(rng, fam, s, B, lens, cap=18)
        d = rec.new(c)
        all_queries(rng, rec, c, d, light=True)
        # the same elements permuted, duplicated, alone
        idx = list(range(B))
        rng.shuffle(idx)
        sub = idx[: rng.randint(1, B)] + [idx[0]]
        for pick in (idx, sub, [rng.randrange(B)]):
            ls = [c.lens[i] for i in pick]
            if fam in ("chain", "semi") and max(ls) < c.N:
                continue
            e = Case(fam, B=len(pick), lens=ls if c.given else None, **s)
            e.pot = [c.pot[i] for i in pick] if fam == "cfg" else c.pot[pick]
            de = rec.new(e)
            all_queries(rng, rec, e, de, light=True)
            q_draws(rec, e, de, 4, law=False)

    ind = []
    for fam in TENSOR:
        for _ in range(3 * m):
            ind.append((fam, R.choice(law_shapes(fam))))

    def body_ind(rng, rec, fam, s):
        c = Case(fam, B=3, **s)
        fill(rng, c, "weights", cap=math.log2(max(2, c.nstructs())) + 1)
        for b in range(1, c.B):
            if rng.random() < 0.7:
                c.pot[b] = c.pot[0]
        d = rec.new(c)
        q_draws(rec, c, d, 500, law=False, indep=[(1, 2), (2, 3), (1, 3)])
        q_draws(rec, c, d, 150, law=False, gumbel=rng.choice([0.5, 1.0]), indep=[(1, 2), (1, 3)])

    def body_many(rng, rec, fam, s, B):
        """Many elements at once, and some of them again alone."""
        c = wide(rng, fam, s, B, p=0.6, cap=18, shift=0)
        d = rec.new(c)
        all_queries(rng, rec, c, d, light=True, skip=("count",))
        b = rng.randrange(c.B)
        if fam in ("chain", "semi") and c.lens[b] < c.N:
            return
        e = Case(fam, B=1, lens=[c.lens[b]] if c.given else None, **s)
        e.pot = [c.pot[b]] if fam == "cfg" else c.pot[[b]]
        all_queries(rng, rec, e, rec.new(e), light=True, skip=("count",))

    def body_np(rng, rec, s):
        B = rng.randint(3, 6)
        c = weights(rng, "np", s, B, mix_lens(rng, s["N"], B) if rng.random() < 0.5 else None, cap=12, forb=0)
        np_queries(rec, c, rec.new(c))
        pick = [rng.randrange(B) for _ in range(rng.choice([1, 2, B]))]
        e = Case("np", B=len(pick), lens=[c.lens[i] for i in pick] if c.given else None, **s)
        e.pot = c.pot[pick]
        np_queries(rec, e, rec.new(e))

    def body_auto(rng, rec, C, N, emax, norm):
        B = rng.choice([3, 4, 6, 9])
        c = auto.ACase(rng, C, N, B, norm, emax)
        for pick in (range(B), [rng.randrange(B) for _ in range(rng.choice([1, 2, B]))]):
            e = copy.copy(c)
            e.B, e.tab = len(pick), [c.tab[i] for i in pick]
            auto_queries(rng, rec, e, auto.anew(rec, e))
        e = copy.copy(c)
        if norm and C ** N <= 9:
            e.B, e.tab = 3, [c.tab[0]] * 3
            auto.q_seqdraws(rec, e, auto.anew(rec, e), 300, law=False, pairs=[(1, 2), (2, 3), (1, 3)])

    def body_adapted(rng, rec, kind):
        B = rng.choice([3, 4, 8, 9])
        N, C = rng.randint(2, 5), rng.randint(2, 3)
        for B in (B, rng.choice([1, 2])):
            lens = None
            if kind == "hmm":
                lens = mix_lens(rng, N, B, 2) if rng.random() < 0.4 else None
                c = hmm_case(rng, B, N, C, 3, lens)
                args = [tens(c, c.par[k]) for k in ("trans", "em", "init")]
                make = lambda: ts.HMM(*args, torch.tensor(c.obs), **(dict(lengths=torch.tensor(lens)) if lens else {}))
            else:
                N, C = min(N, 4), 2
                lens = mix_lens(rng, N + 1, B) if rng.random() < 0.4 else None
                c = hsmm_case(rng, B, N, C, 3, lens)
                args = [tens(c, c.par[k]) for k in ("init", "trans", "dur", "em")]
                make = lambda: ts.SemiMarkovCRF(ts.SemiMarkov.hsmm(*args), **(dict(lengths=torch.tensor(lens)) if lens else {}))
            d = new_adapted(rec, c, make, kind)
            if d is not None:
                q_partition(rec, c, d)
                q_marginals(rec, c, d)

    def body_wild(rng, rec, fam, s):
        """Elements beside one whose potentials are huge, infinite or undefined."""
        B = rng.randint(1, 4)
        if fam == "np":
            c = weights(rng, fam, s, B, mix_lens(rng, s["N"], B) if rng.random() < 0.5 else None, cap=12, forb=0)
            rec.new(c)
            return np_queries(rec, c, Beside(rng, c, (1000001, 1000002, 1000003)))
        c = weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.6), cap=18)
        rec.new(c)
        all_queries(rng, rec, c, Beside(rng, c))
        q_draws(rec, c, Beside(rng, c, (1000003, 1000004, 1000006)), 4, law=False)

    near = [(f, s) for f in SMALL for s in spread(R, f, 3 * m, limit=min(SMALL[f], 120))] + [("np", s) for s in spread(R, "np", 4 * m) if s["N"] > 1]
    many = [(f, s, max(B, R.choice([5, 8, 9, 17])) if s["N"] <= 9 else B) for f, s, B in wide_shapes(R, 18 * m, True)]
    models = [auto_shape(R, i % 2 == 0) + (i % 2 == 0,) for i in range(12 * m)]
    return (run_all(jobs, body) + run_all(ind, body_ind) + run_all(many, body_many)
            + run_all([(s,) for s in spread(R, "np", 8 * m) if s["N"] > 1], body_np) + run_all(models, body_auto)
            + run_all([(k,) for k in ("hmm", "hsmm")] * (5 * m), body_adapted) + run_all(near, body_wild))


def auto_queries(rng, rec, c, d):
    """Every deterministic query of an autoregressive model, and a few draws."""
    for q in ("greedy", "beam", "logprob", "sample"):
        auto_query(rng, rec, c, d, q)


def auto_query(rng, rec, c, d, q):
    if d is None:
        return
    if q == "greedy":
        auto.q_greedy(rec, c, d)
    elif q == "tempgreedy":
        if c.emax + 1 >= c.C:  # without ties
            auto.q_greedy(rec, c, d, rng.choice([0.1, 0.5]))
    elif q == "beam":
        auto.q_beam(rec, c, d, min(c.C ** c.N, rng.choice([1, 2, 3, 5])))
    elif q == "logprob":
        seqs = [[[rng.randrange(c.C) for _ in range(c.N)] for _ in range(c.B)] for _ in range(rng.choice([1, 3]))]
        auto.q_seqprob(rec, c, d, seqs, rng.random() < 0.5)
    elif q == "sample":
        auto.q_seqdraws(rec, c, d, rng.choice([1, 4]), law=False)
    else:
        auto.q_swor(rec, c, d, min(c.C ** c.N, rng.choice([1, 2, 4])))


def law_shapes(fam):
    """Shapes with few enough structures that every one is drawn often."""
    return {
        "chain": [dict(N=2, C=2), dict(N=2, C=3), dict(N=3, C=2), dict(N=4, C=2), dict(N=3, C=3), dict(N=5, C=2)],
        "semi": [dict(N=3, K=3, C=2), dict(N=4, K=3, C=1), dict(N=4, K=4, C=1), dict(N=3, K=2, C=2), dict(N=5, K=4, C=1), dict(N=4, K=3, C=2)],
        "dep": [dict(N=2, root="multi"), dict(N=3, root="multi"), dict(N=3, root="single"), dict(N=4, root="single")],
        "depl": [dict(N=2, L=2, root="multi"), dict(N=2, L=3, root="single"), dict(N=1, L=4, root="multi"), dict(N=3, L=1, root="multi")],
        "span": [dict(N=2, C=2), dict(N=3, C=1), dict(N=4, C=1), dict(N=5, C=1), dict(N=1, C=3), dict(N=3, C=2)],
        "cfg": [dict(N=2, NT=2, T=2), dict(N=3, NT=1, T=1), dict(N=4, NT=1, T=1), dict(N=3, NT=2, T=1), dict(N=2, NT=1, T=3), dict(N=3, NT=1, T=2)],
    }[fam]


def q_draws_cfg(rec, c, S, via, draw, law):
    """S draws of trees; draw(i) is the i-th draw as a tuple of per-batch arrays."""

    def go():
        hist = [{} for _ in range(c.B)]
        for i in range(S):
            e = draw(i)
            if len(e) != 4:
                raise Bad("shape")
            a = [vec(x, s, c.dtype) for x, s in zip(e, cfg_shapes(c))]
            for b in range(c.B):
                cl, ev = cfg_event(c, a[0][b], a[1][b], a[2][b], a[3][b])
                key = json.dumps(ev) if cl else b"".join(x[b].tobytes() for x in a)
                h = hist[b].setdefault(key, dict(clean=cl, ev=ev, n=0))
                h["n"] += 1
        return dict(S=S, hist=[list(h.values())[:2000] for h in hist], law=law)

    return rec.call(dict(op="draws", id=c.ident, via=via), go)


def q_draws(rec, c, d, S, law=True, gumbel=None, indep=(), marg=False, nograd=False, lags=(), each=None, calls=1):
    """Draw S samples per element (or S Gumbel-CRF draws), in one call or several, and record what was drawn."""
    box = {}
    if c.fam == "cfg":
        if gumbel is not None:
            return q_draws_cfg(rec, c, S, "gumbel", lambda i: d.gumbel_crf(gumbel), law)

        def draw(i):
            if i == 0:
                with torch.no_grad() if nograd else torch.enable_grad():
                    box["x"] = d.sample((S,)) if calls == 1 else [torch.cat(x) for x in zip(*[d.sample((S // calls,)) for _ in range(calls)])]
                if len(box["x"]) != 4 or any(x.shape[0] != S for x in box["x"]):
                    raise Bad("shape")
            return tuple(x[i] for x in box["x"])

        return q_draws_cfg(rec, c, S, "sample", draw, law)

    def go():
        if each is not None:
            a = np.stack([vec(each(i), (c.B,) + c.shape(), c.dtype) for i in range(S)])
        elif gumbel is None:
            ctx = torch.no_grad() if nograd else torch.enable_grad()
            with ctx:
                x = torch.cat([d.sample((S // calls,)) for _ in range(calls)])
            a = vec(x, (S, c.B) + c.shape(), c.dtype)
        else:
            a = np.stack([vec(d.gumbel_crf(gumbel), (c.B,) + c.shape(), c.dtype) for _ in range(S)])
        box["a"] = a
        hist = []
        for b in range(c.B):
            h = {}
            for i in range(S):
                e = a[i, b]
                key = e.tobytes()
                if key in h:
                    h[key]["n"] += 1
                else:
                    cl, ps = parts_of(e)
                    h[key] = dict(clean=cl, parts=ps, n=1)
            hist.append(list(h.values())[:3000])
        return dict(S=S, hist=hist, law=law)

    ok = rec.call(dict(op="draws", id=c.ident, via="sample" if gumbel is None else "gumbel"), go)
    if not ok:
        return
    a = box["a"].reshape(S, c.B, -1)
    for x, y in indep:
        rec.add(dict(op="indep", st="ok", id=c.ident, b=x, c=y, S=S, agree=int((a[:, x - 1] == a[:, y - 1]).all(-1).sum())))
    for b in range(c.B if lags else 0):
        for lag in lags:
            if S > lag:
                rec.add(dict(op="indep", st="ok", id=c.ident, b=b + 1, c=b + 1, S=S - lag, lag=lag,
                             agree=int((a[lag:, b] == a[:-lag, b]).all(-1).sum())))
    if marg:
        rec.add(dict(op="drawmarg", st="ok", id=c.ident, S=S, n=box["a"].sum(0).astype(int).tolist()))


# ---------------------------------------------------------------- C06
@prop("C06")
def c06(deep, R):
    m = 5 if deep else 1
    jobs = []
    for fam, n in (("chain", 40), ("semi", 44), ("dep", 20), ("depl", 20), ("span", 20), ("cfg", 18)):
        lim = dict(cfg=300).get(fam, 2 ** 30)
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=lim)]

    def body(rng, rec, fam, s):
        B = rng.choice([1, 2, 3])
        c = maybe32(rng, scores(rng, fam, s, B, with_lens(rng, fam, s, B, 0.4)), 0.15, 10 ** 9)
        top = min(c.nstructs(n) if not (fam in ("dep", "depl") and c.root == "single") else single_count(c, n) for n in c.lens)
        d = rec.new(c)
        ks = {1, min(top, rng.randint(2, 6))}
        if top <= 24:
            ks.add(top)
        else:
            ks.add(min(top, rng.randint(7, 12)))
        for k in sorted(ks):
            if fam == "cfg" and k > 8:
                continue
            if rng.random() < 0.5:
                q_kmax(rec, c, d, k)
                q_topk(rec, c, d, k)
            else:
                q_topk(rec, c, d, k)
                q_kmax(rec, c, d, k)

    def body2(rng, rec, fam, s, B):
        c = Case(fam, B=min(B, 5), lens=with_lens(rng, fam, s, min(B, 5), 0.4, low=2), **s)
        fill(rng, c, "scores", forb=rng.choice([0, 0.3])) if rng.random() < 0.6 else few(rng, c, hi=5)
        k = rng.choice([2, 3, 4])
        if k > min(single_count(c, n) if fam in ("dep", "depl") else c.nstructs(n) for n in c.lens):
            k = 1
        d = rec.new(c)
        q_kmax(rec, c, d, k)
        if fam != "cfg" or s["T"] ** s["N"] <= 1500:
            q_topk(rec, c, d, k)

    return run_all(jobs, body) + run_all(wide_shapes(R, 24 * m, True), body2)


def single_count(c, n):
    """Number of single-root projective trees (times labellings)."""
    r = math.comb(3 * n - 2, n - 1) // n
    return r * (c.L ** n if c.fam == "depl" else 1)


# ---------------------------------------------------------------- C07
@prop("C07")
def c07(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 40), ("semi", 56), ("dep", 24), ("depl", 24), ("span", 24), ("cfg", 24)):
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=2 ** 14)]

    def body(rng, rec, fam, s):
        B = batch(rng, 3)
        lens = with_lens(rng, fam, s, B, 0.4)
        c = offset(rng, maybe32(rng, weights(rng, fam, s, B, lens, cap=18), 0.15, 60))
        d = rec.new(c)
        q_entropy(rec, c, d)
        c2 = weights(rng, fam, s, B, lens, cap=18, forb=0)
        c2.dtype = c.dtype
        if c.dtype == torch.float64 and rng.random() < 0.35:
            lower_some(rng, c2, rng.choice([0.1, 0.4]))
        if rng.random() < 0.15:
            c2.pot = copy.deepcopy(c.pot)
        d2 = rec.new(c2)
        for kind in ("ce", "kl"):
            q_cross(rec, c, d, c2, d2, kind)
        if c.dtype == torch.float64:
            q_cross(rec, c2, d2, c, d, rng.choice(["ce", "kl"]))

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B, cap=18)
        c2 = offset(rng, same_support(rng, c))
        d, d2 = rec.new(c), rec.new(c2)
        q_entropy(rec, c, d)
        q_cross(rec, c, d, c2, d2, "ce")
        q_cross(rec, c, d, c2, d2, "kl")

    return run_all(jobs, body) + run_all(wide_shapes(R, 36 * m, True), body2)


# ---------------------------------------------------------------- C08
@prop("C08")
def c08(deep, R):
    m = 4 if deep else 1
    jobs = []
    for fam in TENSOR + ["cfg"]:
        for i in range(10 * m):
            ss = law_shapes(fam)
            jobs.append((fam, ss[i % len(ss)], "law"))
            if i % 2:
                jobs.append((fam, ss[(i // 2) % len(ss)], "semiring"))
        jobs += [(fam, s, "valid") for s in spread(R, fam, 24 * m if fam != "cfg" else 16 * m, limit=2 ** 13)]
        if fam != "cfg":
            jobs += [(fam, s, "marg") for s in spread(R, fam, 3 * m, limit=300)]

    def body(rng, rec, fam, s, kind):
        if kind == "law":
            lens = with_lens(rng, fam, s, 2, 0.4)
            c = Case(fam, B=2, lens=lens, **s)
            fill(rng, c, "weights", cap=math.log2(max(2, c.nstructs())) + 2, forb=rng.choice([0, 0.2]))
            if rng.random() < 0.4:
                for b in range(2):
                    raise_some(rng, c, b, 11)
            d = rec.new(c)
            S = 500 if fam in ("dep", "depl") else 250 if fam == "cfg" else 800
            calls = 1
            if rng.random() < 0.5:
                each = rng.choice([1, 2, 3, 4, 9, 10, 25])
                calls = min(S // each, 200)
                S = calls * each
            q_draws(rec, c, d, S, law=True, nograd=rng.random() < 0.5, calls=calls)
            if fam == "cfg":
                return
            small = Case(fam, B=1, **s)
            fill(rng, small, "weights", cap=math.log2(max(2, small.nstructs())) + 0.5)
            if small.nstructs() <= 40:
                q_draws(rec, small, rec.new(small), 500, law=True, lags=(1, 2, 5, 10), calls=rng.choice([1, 1, 50, 125, 250]))
        elif kind == "semiring":
            # the sampling semirings used directly: one draw per evaluation
            s = dict(s, root="multi") if "root" in s else s
            c = Case(fam, B=2, **s)
            fill(rng, c, "weights", cap=math.log2(max(2, c.nstructs())) + 2, forb=rng.choice([0, 0.2]))
            note_case(rec, c)
            t = tensors(c)
            sr = ts.SampledSemiring if rng.random() < 0.6 else ts.GumbelMaxSemiring(rng.choice([0.5, 1.0, 2.0]))
            one = lambda i: getattr(ts, al.STRUCT[fam])(sr).marginals(t)
            if fam == "cfg":
                q_draws_cfg(rec, c, 200, sr.__name__, one, True)
            else:
                q_draws(rec, c, None, 250, law=True, each=one)
        elif kind == "marg":
            c = weights(rng, fam, s, 1, cap=20, forb=rng.choice([0, 0.2]))
            q_draws(rec, c, rec.new(c), 300, law=False, marg=True)
        else:
            B = batch(rng)
            c = maybe32(rng, weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.5)))
            d = rec.new(c)
            for S in rng.sample([1, 2, 9, 10, 11, 12, 16, 17, 20, 21, 25, 31, 33, 64], 2):
                q_draws(rec, c, d, S, law=False, nograd=rng.random() < 0.5)
            if rng.random() < 0.4:
                q_partition(rec, c, d)

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B)
        q_draws(rec, c, rec.new(c), rng.choice([3, 11, 21]) if fam != "cfg" else 4, law=False)

    return run_all(jobs, body) + run_all(wide_shapes(R, 30 * m, True), body2)


# ---------------------------------------------------------------- C18
@prop("C18")
def c18(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 18), ("semi", 18), ("dep", 10), ("depl", 10), ("span", 10)):
        lim = dict(chain=300, semi=300, dep=60, depl=60, span=130)[fam]
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=lim) if not (fam in ("chain", "semi") and s["N"] < 2)]

    def body(rng, rec, fam, s):
        B = rng.choice([1, 2, 2, 3, 5])
        if rng.random() < 0.2 and cheap(fam, s, 20):
            B = rng.choice([8, 9, 16, 17])
        lens = with_lens(rng, fam, s, B, 0.5)
        c = weights(rng, fam, s, B, lens, cap=11, forb=rng.choice([0, 0, 0.2]), pad=rng.choice(["rand", "huge", "wild"]))
        maybe32(rng, c, 0.25, 60)
        rec.new(c)
        shape = (c.B,) + c.shape()

        def leaf():
            return tensors(c).detach().requires_grad_(True)

        def through():
            """The potentials are computed from a parameter: t = 2 p + const."""
            t = tensors(c).detach()
            off = torch.randn(t.shape, dtype=t.dtype)
            p = ((t - off) / 2).requires_grad_(True)
            return p, 2 * p + off

        def part_leaf():
            t = leaf()
            construct(c, t).partition.sum().backward()
            return dict(tol=mtol(c), m=fix6(vec(t.grad, shape, c.dtype)))

        def part_through():
            p, t = through()
            d = construct(c, t)
            w = torch.arange(1, c.B + 1, dtype=c.dtype)
            (d.partition * w).sum().backward()
            g = p.grad / 2 / w.view((-1,) + (1,) * (t.dim() - 1))
            return dict(tol=mtol(c) * 2, m=fix6(vec(g, shape, c.dtype)))

        rec.call(dict(op="marginals", id=c.ident, via="backward"), part_leaf)
        rec.call(dict(op="marginals", id=c.ident, via="backward through computed potentials"), part_through)

        draws = [random_struct(rng, c, n) for n in c.lens]

        def lp():
            p, t = through()
            ev = torch.stack([one_hot(c, x, c.dtype) for x in draws]).unsqueeze(0)
            construct(c, t).log_prob(ev).sum().backward()
            return dict(tol=mtol(c) * 2, parts=[plus1(x) for x in draws], m=fix6(vec(p.grad / 2, shape, c.dtype)))

        rec.call(dict(op="gradlp", id=c.ident), lp)

        inner = [i for i in np.ndindex(*shape) if inner_mask_cached(c, i[0])[i[1:]] and c.pot[i] > -50]
        for pt in some(rng, inner, 2):

            def cov(pt=pt):
                if rng.random() < 0.5:
                    t = leaf()
                    g = torch.autograd.grad(construct(c, t).marginals[pt], t)[0]
                else:
                    p, t = through()
                    g = torch.autograd.grad(construct(c, t).marginals[pt], p)[0] / 2
                return dict(tol=250 + 2 * mtol(c), b=pt[0] + 1, part=[x + 1 for x in pt[1:]], m=fix6(vec(g, shape, c.dtype)))

            rec.call(dict(op="cov", id=c.ident), cov)

        def ent():
            p, t = through()
            construct(c, t).entropy.sum().backward()
            return dict(tol=4000 + 20 * mtol(c), m=fix6(vec(p.grad / 2 / LN2, shape, c.dtype)))

        rec.call(dict(op="gradent", id=c.ident), ent)

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B)
        rec.new(c)
        q_grad(rec, c)

        def far():
            t = tensors(c).detach()
            p = (t / 4).requires_grad_(True)
            construct(c, p * 4).partition.sum().backward()
            return dict(tol=mtol(c) * 2, m=fix6(vec(p.grad / 4, (c.B,) + c.shape(), c.dtype)))

        rec.call(dict(op="marginals", id=c.ident, via="backward through computed potentials"), far)


    def body_np(rng, rec, s):
        B = rng.choice([1, 2, 3])
        c = weights(rng, "np", s, B, mix_lens(rng, s["N"], B) if rng.random() < 0.5 else None, cap=10, forb=0)
        rec.new(c)
        shape = (c.B,) + c.shape()

        def grads(f, k):
            t = tensors(c).detach()
            p = (t / k).requires_grad_(True)
            g, = torch.autograd.grad(f(construct(c, p * k if k > 1 else p)), p)
            return fix6(vec(g / k, shape, c.dtype))

        for k in (1, 2):
            rec.call(dict(op="marginals", id=c.ident, via="backward"), lambda: dict(tol=400, m=grads(lambda d: d.partition.sum(), k)))
        inner = [i for i in np.ndindex(*shape) if inner_mask_cached(c, i[0])[i[1:]]]
        for pt in some(rng, inner, 2):
            rec.call(dict(op="cov", id=c.ident), lambda: dict(tol=1500, b=pt[0] + 1, part=[x + 1 for x in pt[1:]], m=grads(lambda d: d.marginals[pt], rng.choice([1, 2]))))
        draws = [random_struct(rng, c, n) for n in c.lens]
        ev = torch.stack([one_hot(c, x, c.dtype) for x in draws]).unsqueeze(0)
        rec.call(dict(op="gradlp", id=c.ident), lambda: dict(tol=400, parts=[plus1(x) for x in draws], m=grads(lambda d: d.log_prob(ev).sum(), 2)))

    def body_cfg(rng, rec, s):
        B = rng.choice([1, 2, 3])
        c = maybe32(rng, weights(rng, "cfg", s, B, with_lens(rng, "cfg", s, B, 0.5), cap=6 if few_trees(s) else 12, forb=rng.choice([0, 0, 0.2])), 0.25, 60)
        rec.new(c)
        for through in (False, True):
            q_slope_marginals(rec, c, rng, through)
        if few_trees(s):
            rec.call(dict(op="gradent", id=c.ident),
                     lambda: dict(tol=4000 + 20 * mtol(c), m=tables(c, [g / LN2 for g in slopes(rng, c, lambda d: d.entropy, rng.random() < 0.5)])))

    few_trees = lambda s: Case("cfg", B=1, **s).nstructs() <= 40
    jobs4 = [(s,) for s in spread(R, "cfg", 14 * m, limit=400)]
    jobs2 = [w for w in wide_shapes(R, 30 * m, True) if w[0] != "cfg"]
    jobs2 += [("chain", dict(N=R.choice([40, 65, 130]), C=2), R.choice([1, 2])) for _ in range(2 * m)]
    jobs3 = [(s,) for s in spread(R, "np", 8 * m) if 1 < s["N"] < 6]
    return run_all(jobs, body) + run_all(jobs2, body2) + run_all(jobs3, body_np) + run_all(jobs4, body_cfg)


_IM = {}


def inner_mask_cached(c, b):
    key = (c.fam, c.N, c.C, c.K, c.L, c.lens[b])
    if key not in _IM:
        _IM[key] = inner_mask(c, c.lens[b])
    return _IM[key]


# ---------------------------------------------------------------- C20
@prop("C20")
def c20(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 45), ("semi", 60), ("dep", 28), ("depl", 30), ("span", 28), ("cfg", 30)):
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=2 ** 29)]

    def body(rng, rec, fam, s):
        B = batch(rng)
        lens = with_lens(rng, fam, s, B, 0.4)
        c = Case(fam, B=B, lens=lens, **s)
        fill(rng, c, rng.choice(["scores", "ties"]), forb=0, pad=rng.choice(["rand", "huge"]))
        p = rng.choice([0, 0.1, 0.3, 0.6])
        # finite potentials of any size are not forbidden
        far = rng.choice([0, 0.15, 0.5])
        size = lambda: rng.choice([-1, -1, 1]) * rng.choice([150, 1700, 20000, 160000, 2000000, 2 * 10 ** 9])
        if fam == "cfg":
            for v in c.pot:
                for k in v:
                    for i in np.ndindex(*v[k].shape):
                        if rng.random() < far:
                            v[k][i] = size()
                        if rng.random() < p:
                            v[k][i] = NINF
            q_count(rec, c, rec.new(c))
            return
        for i in np.ndindex(*c.pot.shape):
            if c.pot[i] == NINF:
                c.pot[i] = 0
            if rng.random() < far:
                c.pot[i] = size()
            if rng.random() < p:
                c.pot[i] = NINF
        if c.nstructs() <= 2 ** 22 and rng.random() < 0.2:
            c.dtype = torch.float32
        q_count(rec, c, rec.new(c))

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B, shift=0)
        for x in [y for v in c.pot for y in v.values()] if fam == "cfg" else [c.pot]:
            x[x == FORB] = NINF
        q_count(rec, c, rec.new(c))

    return run_all(jobs, body) + run_all(wide_shapes(R, 36 * m), body2)


# ---------------------------------------------------------------- C21
@prop("C21")
def c21(deep, R):
    m = 4 if deep else 1
    jobs = []
    for fam in TENSOR + ["cfg"]:
        for i in range(6 * m):
            ss = law_shapes(fam)
            jobs.append((fam, ss[i % len(ss)], "law"))
        jobs += [(fam, s, "valid") for s in spread(R, fam, 10 * m, limit=2 ** 10)]

    def body(rng, rec, fam, s, kind):
        temp = rng.choice([0.05, 0.3, 1.0, 2.0, 7.0])
        if kind == "law":
            c = Case(fam, B=2, lens=with_lens(rng, fam, s, 2, 0.3), **s)
            fill(rng, c, "weights", cap=math.log2(max(2, c.nstructs())) + 2, forb=rng.choice([0, 0.2]))
            if rng.random() < 0.4:
                for b in range(2):
                    raise_some(rng, c, b, 11)
            d = rec.new(c)
            q_draws(rec, c, d, 300 if fam != "cfg" else 200, law=True, gumbel=temp)
            if c.nstructs() <= 40 and fam != "cfg":
                c = Case(fam, B=3, **s)
                fill(rng, c, "weights", cap=math.log2(max(2, c.nstructs())) + 0.5)
                q_draws(rec, c, rec.new(c), 250, law=True, gumbel=temp, indep=[(1, 2), (2, 3)], lags=(1,))
        else:
            B = batch(rng)
            c = maybe32(rng, weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.5)))
            d = rec.new(c)
            q_draws(rec, c, d, 4, law=False, gumbel=temp)

            def go():
                t = tensors(c)
                t = [x.detach().requires_grad_(True) for x in (t if fam == "cfg" else (t,))]
                xs = construct(c, tuple(t) if fam == "cfg" else t[0]).gumbel_crf(temp)
                xs = xs if fam == "cfg" else (xs,)
                if not all(x.requires_grad for x in xs):
                    raise Bad("no gradient")
                gs = torch.autograd.grad(sum((x * torch.randn(x.shape, dtype=x.dtype)).sum() for x in xs), t)
                for g, x in zip(gs, t):
                    vec(g, x.shape, c.dtype)
                return dict(ok=True)

            rec.call(dict(op="holds", id=c.ident, what="finite gradient"), go)

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B)
        q_draws(rec, c, rec.new(c), 2, law=False, gumbel=rng.choice([0.05, 1.0, 7.0]))

    return run_all(jobs, body) + run_all(wide_shapes(R, 24 * m, True), body2)


# ---------------------------------------------------------------- C22
@prop("C22")
def c22(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 24), ("semi", 26), ("dep", 14), ("depl", 12), ("span", 14), ("cfg", 18)):
        jobs += [(fam, s, LAYOUTS[i % len(LAYOUTS)]) for i, s in enumerate(spread(R, fam, n * m, limit=min(200, SMALL[fam])))]

    def body(rng, rec, fam, s, layout):
        B = batch(rng, 3)
        lens = with_lens(rng, fam, s, B, 0.3)
        c = weights(rng, fam, s, B, lens, cap=12, forb=rng.choice([0, 0, 0.2]))
        single = rng.random() < 0.4
        c.dtype = torch.float32 if single else torch.float64
        lim = 60 if single else rng.choice([100, 1000, 3000])
        lim = max(1, min(lim, 20000 // c.N))
        if rng.random() < 0.75:
            kind = rng.choice(["one", "all", "mixed"])
            c.shift = []
            for b in range(B):
                v = [0] * c.N
                if kind == "one":
                    v[rng.randrange(c.N)] = rng.choice([-lim, lim])
                elif kind == "all":
                    v = [rng.choice([-lim, lim])] * c.N
                else:
                    v = [rng.randint(-lim, lim) for _ in range(c.N)]
                c.shift.append(v)
        c.layout = layout
        c.grad = rng.random() < 0.4
        if c.layout == "expanded":
            same_everywhere(c)
        t = tensors(c)
        if c.grad and fam != "cfg" and c.layout != "plain":
            t = layouted(t.detach(), c.layout).requires_grad_(True)
        d = rec.new(c, t)
        skip = ("kmax", "topk", "count")
        all_queries(rng, rec, c, d, skip=skip)
        if rng.random() < 0.5:
            q_draws(rec, c, d, 11, law=False)
        if c.shift is None and not single:
            q_kmax(rec, c, d, 1)
            q_topk(rec, c, d, 1)

    def body2(rng, rec, fam, s, B, layout):
        c = wide(rng, fam, s, B, shift=0)
        lim = max(1, min(rng.choice([100, 1000, 3000]), 20000 // c.N))
        c.shift = [[rng.randint(-lim, lim) for _ in range(c.N)] for _ in range(B)]
        c.layout = layout
        d = rec.new(c)
        q_partition(rec, c, d)
        q_max(rec, c, d)
        q_argmax(rec, c, d)
        rng.choice([q_entropy, q_marginals])(rec, c, d)
        if fam == "cfg":
            q_logprob_cfg(rec, c, d, pick_structs(rng, c))
        else:
            q_logprob(rec, c, d, [pick_structs(rng, c) for _ in range(2)])

    return run_all(jobs, body) + run_all([w + (LAYOUTS[i // 6 % 5],) for i, w in enumerate(wide_shapes(R, 30 * m, True))], body2)


LAYOUTS = ["plain", "transposed", "batchlast", "slice", "strided", "expanded"]


def same_everywhere(c):
    """Potentials and offsets of the longest element for all."""
    k = max(range(c.B), key=lambda b: c.lens[b])
    for b in range(c.B):
        if b != k:
            c.pot[b] = copy.deepcopy(c.pot[k])
            if c.shift is not None:
                c.shift[b] = c.shift[k]


# ---------------------------------------------------------------- structures enumerated by spec/Gen.tla
def enumerated():
    with open(os.environ["STRUCTS"]) as f:
        return [json.loads(x) for x in f]


def case_of(line, N=None, B=1, lens=None):
    d = line["d"]
    return Case(d["fam"], N or line["len"], B=B, C=d["C"], K=d["K"], L=d["L"], NT=d["NT"], T=d["T"], root=d["root"], lens=lens)


def minus1(parts):
    return [tuple(x - 1 for x in p) for p in parts]


def tree_of(c, tree):
    """Terminal, rule and root uses of a tree given as 1-based labelled spans."""
    at = {(i, j): a for i, j, a in tree}
    terms = [(i - 1, a - 1 - c.NT) for (i, j), a in at.items() if i == j]
    rules, spans = [], []
    for (i, j), a in at.items():
        if i < j:
            k = [k for k in range(i, j) if (i, k) in at and (k + 1, j) in at][0]
            rules.append((a - 1, at[i, k] - 1, at[k + 1, j] - 1))
            spans.append((i - 1, j - 1, a - 1))
    n = max(j for _, j in at)
    return dict(terms=terms, rules=rules, roots=[at[1, n] - 1], spans=spans)


# ---------------------------------------------------------------- C09
@prop("C09")
def c09(deep, R):
    m = 3 if deep else 1
    jobs = []
    for line in enumerated():
        f = line["d"]["fam"]
        n = len(line["items"])
        if f in ("chain", "semi") and line["len"] < 2:
            continue
        if n > (900 if deep else 330) or (f == "cfg" and n > (140 if deep else 70)) or (f == "np" and n > 130):
            continue
        jobs += [(line, i) for i in range(2 * m)]

    def body(rng, rec, line, i):
        c = case_of(line)
        items = line["items"]
        if c.fam == "cfg":
            k = len(items)
            pad = rng.random() < 0.5
            c = case_of(line, N=line["len"] + pad, B=k + pad, lens=[line["len"]] * k + [line["len"] + 1] * pad if pad else None)
            fill(rng, c, "weights", cap=16, forb=rng.choice([0, 0, 0.2]))
            if rng.random() < 0.3:
                raise_some(rng, c, 0, 16)
            far = rng.random() < 0.3
            if far:
                lower_some(rng, c, 0.25)
            for b in range(1, k):
                c.pot[b] = c.pot[0]
            maybe32(rng, c, 0 if far else 0.15)
            d = rec.new(c)
            trees = [tree_of(c, x["tree"]) for x in items] + [random_cfg(rng, c, c.N)] * pad
            q_logprob_cfg(rec, c, d, trees, allb=1, only=k)
            return
        B = rng.choice([1, 1, 2, 3])
        if B > 1:
            b = rng.randrange(B)
            N = line["len"] + rng.choice([0, 0, 1])
            lens = mix_lens(rng, N, B)
            if N > line["len"] and lens.index(N) == b and lens.count(N) == 1:
                lens[(b + 1) % B] = N
            lens[b] = line["len"]
            if N == line["len"] and rng.random() < 0.4:
                lens = None
            c = case_of(line, N=N, B=B, lens=lens)
        else:
            b = 0
        fill(rng, c, "weights", cap=12 if c.fam == "np" else 18, forb=0 if c.fam == "np" else rng.choice([0, 0, 0.2]))
        if c.fam != "np":
            uneven(rng, c, 18, maybe32)
        d = rec.new(c)
        draws = []
        for x in items:
            row = [random_struct(rng, c, n) for n in c.lens]
            row[b] = minus1(x["parts"])
            draws.append(row)
        S = len(draws)
        shapes = [None, (S, 1), (1, S)]
        for q in (2, 3, 4, 5):
            if S % q == 0:
                shapes += [(q, S // q), (S // q, q)]
        if S % 4 == 0:
            shapes.append((2, 2, S // 4))
        q_logprob(rec, c, d, draws, shape=rng.choice(shapes), allb=b + 1, via=rng.choice(["event", "event", "long", "float32", "bool", "int32", "uint8"]))
        q_logprob(rec, c, d, [rng.choice(draws)], shape=())
        q_logprob(rec, c, d, [rng.choice(draws) for _ in range(6)], shape=rng.choice([(6,), (2, 3), (3, 2), (1, 6), (3, 1, 2)]))

    jobs2 = []
    for fam in TENSOR:
        jobs2 += [(fam, s) for s in spread(R, fam, 10 * m, limit=2 ** 17)]

    def body2(rng, rec, fam, s):
        B = batch(rng)
        c = uneven(rng, weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.5), forb=0, uneven=0), 23, maybe32)
        d = rec.new(c)
        k = rng.choice([1, 2, 6])
        q_logprob(rec, c, d, [[random_struct(rng, c, n) for n in c.lens] for _ in range(k)], shape=rng.choice([(k,), (k, 1), (1, k)] + ([()] if k == 1 else [])))

    jobs3 = spread(R, "cfg", 12 * m, limit=5000)

    def body3(rng, rec, s):
        B = batch(rng)
        c = uneven(rng, weights(rng, "cfg", s, B, with_lens(rng, "cfg", s, B, 0.5), forb=0, uneven=0), 23, maybe32)
        d = rec.new(c)
        q_logprob_cfg(rec, c, d, [random_cfg(rng, c, n) for n in c.lens])
        lead = rng.choice([(3,), (1,), (2, 2), (1, 3)])
        S = int(np.prod(lead))
        draws = [[random_cfg(rng, c, n) for n in c.lens] for _ in range(S)]

        def go():
            parts = zip(*[cfg_tensors(c, x, c.dtype) for x in draws])
            ev = tuple(torch.stack(x).view(*lead, *x[0].shape) for x in parts)
            lp = vec(d.log_prob(ev), lead + (B,), c.dtype).reshape(S, B)
            zi = zints(c, d)
            return dict(tol=mtol(c), zi=zi, items=[dict(b=b + 1, ev=cfg_ev(draws[i][b]), p=clampi(round(math.exp(min(lp[i, b], 5.0)) * 1e6)),
                                                        s=score_of(c, lp[i, b], zi[b])) for i in range(S) for b in range(B)])

        rec.call(dict(op="logprob", id=c.ident), go)

    def body4(rng, rec, fam, s, B):
        c = wide(rng, fam, s, B)
        d = rec.new(c)
        if fam == "cfg":
            q_logprob_cfg(rec, c, d, pick_structs(rng, c))
        else:
            q_logprob(rec, c, d, [pick_structs(rng, c) for _ in range(6)], shape=rng.choice([(6,), (2, 3), (3, 1, 2)]))

    return run_all(jobs, body) + run_all(jobs2, body2) + run_all([(s,) for s in jobs3], body3) + run_all(wide_shapes(R, 36 * m), body4)


# ---------------------------------------------------------------- C10
def compact_tensor(rng, c, rows, lens, layout=False):
    """Rows padded to c.N with arbitrary labels."""
    out = []
    for r, n in zip(rows, lens):
        r = list(r[:n])
        while len(r) < c.N:
            r.append({"chain": rng.randrange(c.C), "semi": rng.randint(-1, c.C - 1)}.get(c.fam, rng.randint(0, c.N)))
        out.append(r)
    t = torch.tensor(out)
    if layout and rng.random() < 0.3:
        t = t.t().contiguous().t()
    return t, out


def extra_of(c):
    return {"chain": c.C, "semi": (c.C, c.K)}.get(c.fam)


def q_encode(rec, c, d, t, rows, lens=None):
    def go():
        kw = {} if lens is None else dict(lengths=torch.tensor(lens))
        e = d.to_event(t, extra_of(c), **kw)
        a = vec(e, (len(rows),) + c.shape())
        r = [parts_of(a[b]) for b in range(len(rows))]
        return dict(clean=[x[0] for x in r], parts=[x[1] for x in r], c=rows, lens=lens or [c.N] * len(rows))

    return rec.call(dict(op="encode", id=c.ident), go)


def q_decode(rec, c, d, e, parts, lens):
    def go():
        y, extra = d.from_event(e)
        ex = [] if extra is None else [int(extra)] if not isinstance(extra, (tuple, list, torch.Size)) else [int(x) for x in extra]
        if c.fam == "span":
            a = vec(y, (len(parts),) + c.shape())
            return dict(c=[parts_of(a[b])[1] for b in range(len(parts))], parts=parts, lens=lens, extra=ex)
        a = vec(y, (len(parts), c.N))
        return dict(c=a.astype(int).tolist(), parts=parts, lens=lens, extra=ex)

    return rec.call(dict(op="decode", id=c.ident), go)


def q_roundtrip(rec, rng, c, d, e):
    """Decode an event the library produced and encode it again."""
    a = e.detach().double().numpy()
    parts = [parts_of(a[b])[1] for b in range(a.shape[0])]
    q_decode(rec, c, d, e, parts, c.lens)

    def go():
        y, extra = d.from_event(e)
        kw = dict(lengths=torch.tensor(c.lens)) if c.given else {}
        e2 = d.to_event(y, extra, **kw)
        a2 = vec(e2, tuple(e.shape))
        ok = True
        for b in range(c.B):
            ok = ok and bool((a2[b] == a[b]).all())
        return dict(ok=ok)

    rec.call(dict(op="holds", id=c.ident, what="round trip"), go)


def q_table(rec, c, d, get):
    """A tree the library produced, converted to a span table and back."""

    def go():
        e = get()
        a = [vec(x, s, c.dtype) for x, s in zip(e, cfg_shapes(c))]
        r = [cfg_event(c, a[0][b], a[1][b], a[2][b], a[3][b]) for b in range(c.B)]
        tab, extra = d.from_event(e)
        t = vec(tab, (c.B, c.N, c.N, c.NT + c.T))
        cells = [parts_of(t[b]) for b in range(c.B)]
        kw = dict(lengths=torch.tensor(c.lens)) if c.given else {}
        back = d.to_event(tab, extra, **kw)
        b3 = [vec(x, s) for x, s in zip(back, cfg_shapes(c)[:3])]
        r2 = [cfg_event(c, b3[0][b], b3[1][b], b3[2][b], np.zeros((1, 1, 1))) for b in range(c.B)]
        return dict(extra=[int(x) for x in extra], clean=[x[0] and y[0] and z[0] for x, y, z in zip(r, cells, r2)],
                    ev=[x[1] for x in r], tree=[x[1] for x in cells], back=[x[1] for x in r2])

    return rec.call(dict(op="table", id=c.ident), go)


@prop("C10")
def c10(deep, R):
    m = 3 if deep else 1
    groups = {}
    for line in enumerated():
        d = line["d"]
        if d["fam"] in ("depl", "np"):
            continue
        groups.setdefault(json.dumps(d, sort_keys=True), []).append(line)
    jobs = []
    for g in groups.values():
        fam = g[0]["d"]["fam"]
        pool = [(line["len"], x) for line in g for x in line["items"]]
        R.shuffle(pool)
        for size in (5, 7) if not deep else (3, 5, 7, 11):
            for i in range(0, len(pool), size):
                jobs.append((g[0], pool[i : i + size], True))
        for line in g:
            for i in range(0, len(line["items"]), 6):
                jobs.append((g[0], [(line["len"], x) for x in line["items"][i : i + 6]], False))

    def body(rng, rec, line, items, given):
        N = max(n for n, _ in items)
        if given and rng.random() < 0.3:
            N += 1
        lens = [n for n, _ in items]
        fam = line["d"]["fam"]
        given = given or N != min(lens)
        # the distribution converting them (its own potentials play no part)
        c = case_of(line, N=max(N, 2) if fam in ("chain", "semi", "cfg") else N, B=len(items))
        if c.N != N:
            given = True
        if fam == "cfg":
            fill(rng, c, "ties")
            d = rec.new(c)
            tab = torch.zeros(len(items), c.N, c.N, c.NT + c.T, dtype=rng.choice([torch.float32, torch.float64]))
            for b, (n, x) in enumerate(items):
                for i, j, a in x["tree"]:
                    tab[b, i - 1, j - 1, a - 1] = 1

            def go():
                kw = dict(lengths=torch.tensor(lens)) if given else {}
                tm, ru, ro = d.to_event(tab, (c.NT, c.T), **kw)
                S = c.NT + c.T
                a = [vec(tm, (c.B, c.N, c.T)), vec(ru, (c.B, c.NT, S, S)), vec(ro, (c.B, c.NT))]
                r = [cfg_event(c, a[0][b], a[1][b], a[2][b], np.zeros((1, 1, 1))) for b in range(c.B)]
                return dict(lens=lens if given else [c.N] * c.B, clean=[x[0] for x in r], ev=[x[1] for x in r], tree=[x["tree"] for _, x in items])

            rec.call(dict(op="tree", id=c.ident), go)
            return
        fill(rng, c, "ties")
        d = rec.new(c)
        if fam == "span":
            t = torch.stack([one_hot(c, minus1(x["parts"]), rng.choice([torch.long, torch.float64])).to(torch.float64) for _, x in items])
            rows = [x["parts"] for _, x in items]
        else:
            t, rows = compact_tensor(rng, c, [x["c"] for _, x in items], lens, True)
        q_encode(rec, c, d, t, rows, lens if given else None)
        e = torch.stack([one_hot(c, minus1(x["parts"]), torch.float64) for _, x in items]).to(rng.choice([torch.long, torch.float64, torch.float32]))
        q_decode(rec, c, d, e, [x["parts"] for _, x in items], lens)

    jobs2 = []
    for fam in ("chain", "semi", "dep", "span", "cfg"):
        jobs2 += [(fam, s) for s in spread(R, fam, 14 * m, limit=2 ** 17)]

    def body2(rng, rec, fam, s):
        B = batch(rng)
        c = weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.6))
        d = rec.new(c)
        q_argmax(rec, c, d)
        if fam == "cfg":
            q_table(rec, c, d, lambda: d.argmax)
            q_table(rec, c, d, lambda: tuple(x[0] for x in d.sample((1,))))
            return

        def get(what):
            try:
                return d.argmax if what == "argmax" else d.sample((2,))
            except Exception:
                return None

        e = get("argmax")
        if e is not None:
            q_roundtrip(rec, rng, c, d, e)
        s2 = get("sample")
        if s2 is not None:
            for x in s2:
                q_roundtrip(rec, rng, c, d, x)

    def body3(rng, rec, fam, s, B):
        c = Case(fam, B=B, lens=with_lens(rng, fam, s, B, 0.7), **s)
        few(rng, c)
        d = rec.new(c)
        if fam == "cfg":
            trees = [random_cfg(rng, c, n) for n in c.lens]
            tab = torch.zeros(B, c.N, c.N, c.NT + c.T, dtype=torch.float64)
            for b, t in enumerate(trees):
                for i, j, a in t["spans"]:
                    tab[b, i, j, a] = 1
                for i, a in t["terms"]:
                    tab[b, i, i, c.NT + a] = 1
            cells = [parts_of(tab[b].numpy())[1] for b in range(B)]

            def go():
                kw = dict(lengths=torch.tensor(c.lens)) if c.given else {}
                S = c.NT + c.T
                a = [vec(x, y) for x, y in zip(d.to_event(tab, (c.NT, c.T), **kw), ((B, c.N, c.T), (B, c.NT, S, S), (B, c.NT)))]
                r = [cfg_event(c, a[0][b], a[1][b], a[2][b], np.zeros((1, 1, 1))) for b in range(B)]
                return dict(lens=c.lens, clean=[x[0] for x in r], ev=[x[1] for x in r], tree=cells)

            rec.call(dict(op="tree", id=c.ident), go)
            q_table(rec, c, d, lambda: d.argmax)
            return
        if fam == "depl":
            return
        structs = [random_struct(rng, c, n) for n in c.lens]
        e = torch.stack([one_hot(c, x, torch.float64) for x in structs])
        q_decode(rec, c, d, e.to(rng.choice([torch.long, torch.float64, torch.float32])), [plus1(x) for x in structs], c.lens)
        if fam == "span":
            q_encode(rec, c, d, e, [plus1(x) for x in structs], c.lens if c.given else None)
            return
        t, rows = compact_tensor(rng, c, [compact_of(rng, c, x, n) for x, n in zip(structs, c.lens)], c.lens, True)
        q_encode(rec, c, d, t, rows, c.lens if c.given else None)

    # indices beyond what a byte holds
    far = [("dep", dict(N=R.choice([129, 140, 257]), root=R.choice(["multi", "single"]))), ("chain", dict(N=4, C=R.choice([129, 140]))),
           ("chain", dict(N=R.choice([140, 260]), C=2)), ("semi", dict(N=140, K=R.choice([5, 131]), C=1)), ("semi", dict(N=3, K=2, C=130)),
           ("span", dict(N=3, C=R.choice([140, 260]))), ("span", dict(N=R.choice([60, 130]), C=1))]
    return run_all(jobs, body) + run_all(jobs2, body2) + run_all(wide_shapes(R, 42 * m) + [(f, s, 1) for f, s in far * (2 if deep else 1)], body3)


# ---------------------------------------------------------------- C27
def q_graph(rec, tab, cells):
    """Graph of the trees of a batch; cells lists their labelled spans from 1."""

    def go():
        (n, a, b, label), left, top = ts.CKY.to_networkx(tab)
        up = lambda xs: [int(x) + 1 for x in xs]
        if len(top) != tab.shape[1]:
            raise Bad("shape")
        return dict(n=int(n), a=up(a), b=up(b), label=up(label), top=[up(x) for x in top], tree=cells,
                    starts=[[k[0] + 1, k[1] + 1, int(v[0]) + 1, int(v[1])] for k, v in sorted(left.items())])

    return rec.call(dict(op="graph", id=0), go)


@prop("C27")
def c27(deep, R):
    m = 4 if deep else 1
    pool = [(line["len"], line["d"], x) for line in enumerated() if line["d"]["fam"] in ("cfg", "span") for x in line["items"]]
    R.shuffle(pool)
    jobs = []
    for kind in ("cfg", "span"):
        own = [x for x in pool if x[1]["fam"] == kind]
        size = (1, 3, 6) if deep else (4,)
        jobs += [(kind, own[i : i + k]) for k in size for i in range(0, len(own), k)]

    def table(rng, N, S, cells):
        t = torch.zeros(len(cells), N, N, S, dtype=rng.choice([torch.float32, torch.float64, torch.long]))
        for b, ps in enumerate(cells):
            for i, j, a in ps:
                t[b, i - 1, j - 1, a - 1] = 1
        return layouted(t, rng.choice(["plain", "plain", "transposed", "batchlast", "slice"])) if t.dtype != torch.long else t

    def body(rng, rec, kind, items):
        cells = [x["tree" if kind == "cfg" else "parts"] for _, _, x in items]
        N = max(n for n, _, _ in items) + rng.choice([0, 0, 1])
        q_graph(rec, table(rng, N, max(p[2] for ps in cells for p in ps) + rng.choice([0, 2]), cells), cells)

    jobs2 = [(fam, R.choice([2, 3, 5, 8, 9, 16, 17, 24]), R.choice([1, 2, 3, 5, 8, 17])) for fam in ("cfg", "span") for _ in range(30 * m)]

    def body2(rng, rec, fam, N, B):
        lens = [rng.choice([N, rng.randint(2, N)]) for _ in range(B)]
        s = dict(NT=rng.choice([1, 2, 3, 9, 20]), T=rng.choice([1, 2, 5, 13])) if fam == "cfg" else dict(C=rng.choice([1, 2, 5, 30]))
        c = Case(fam, N, B=B, lens=None if max(lens) < N else lens, **s)
        cells = []
        for n in c.lens:
            if fam == "cfg":
                t = random_cfg(rng, c, n)
                cells.append([[i + 1, j + 1, a + 1] for i, j, a in t["spans"]] + [[i + 1, i + 1, c.NT + a + 1] for i, a in t["terms"]])
            else:
                cells.append([[x + 1 for x in p] for p in random_struct(rng, c, n)])
        q_graph(rec, table(rng, N, c.NT + c.T if fam == "cfg" else c.C, cells), cells)

    jobs3 = [("cfg", s) for s in spread(R, "cfg", 14 * m, limit=2 ** 17)] + [("span", s) for s in spread(R, "span", 10 * m, limit=2 ** 17)]

    def body3(rng, rec, fam, s):
        """The trees that the distribution itself finds."""
        B = batch(rng)
        c = weights(rng, fam, s, B, with_lens(rng, fam, s, B, 0.6))
        d = rec.new(c)
        q_argmax(rec, c, d)
        try:
            tab = d.from_event(d.argmax)[0].detach()
        except Exception:
            return          # judged elsewhere
        cells = [parts_of(tab[b].double().numpy())[1] for b in range(B)]
        q_graph(rec, tab, cells)

    return run_all(jobs, body) + run_all(jobs2, body2) + run_all(jobs3, body3)


def compact_of(rng, c, parts, n):
    """Compact form of the parts of a structure (the specification encodes it again)."""
    if c.fam == "dep":
        row = [0] * n
        for h, m in parts:
            row[m] = 0 if h == m else h + 1
        return row
    if not parts:
        return [rng.randrange(c.C)] + [-1] * (n - 1)
    row = [-1] * n
    for p in parts:
        row[p[0]], row[p[0] + (1 if c.fam == "chain" else p[1])] = p[-1], p[-2]
    return row


# ---------------------------------------------------------------- C11
def hmm_case(rng, B, N, C, V, lens, purpose="weights"):
    c = Case("chain", N, B=B, C=C, lens=lens)
    hi = 1 if N <= 4 else 0
    val = (lambda: rng.randint(-6, 6)) if purpose == "scores" else (lambda: FORB if rng.random() < 0.06 else rng.choice([0, 0, 1]) if N <= 4 else rng.choice([0] * 5 + [1]))
    obs = [[rng.randrange(V) for _ in range(N)] for _ in range(B)]
    par = dict(init=[val() for _ in range(C)], trans=[[val() for _ in range(C)] for _ in range(C)], em=[[val() for _ in range(C)] for _ in range(V)],
               obs=[[x + 1 for x in r] for r in obs])
    # one path stays possible
    par["init"][0] = max(0, par["init"][0])
    par["trans"][0][0] = max(0, par["trans"][0][0])
    for v in range(V):
        par["em"][v][0] = max(0, par["em"][v][0])
    c.par = par
    c.obs = obs
    return c


def hsmm_case(rng, B, N, C, K, lens, purpose="weights"):
    c = Case("semi", N + 1, B=B, C=C, K=K, lens=lens)
    if purpose == "scores":
        val = lambda: rng.randint(-6, 6)
    else:
        val = lambda: FORB if rng.random() < 0.04 else rng.choice([0] * (1 + N) + [1])
    shared = rng.random() < 0.5
    par = dict(shared=shared, init=[val() for _ in range(C)] if shared else [[val() for _ in range(C)] for _ in range(B)],
               trans=[[val() for _ in range(C)] for _ in range(C)], dur=[[val() for _ in range(K)] for _ in range(C)],
               em=[[[[val() for _ in range(C)] for _ in range(K)] for _ in range(N)] for _ in range(B)])
    for r in [par["init"]] if shared else par["init"]:
        r[0] = max(0, r[0])
    par["trans"][0][0] = max(0, par["trans"][0][0])
    par["dur"][0][1] = max(0, par["dur"][0][1])
    for x in par["em"]:
        for y in x:
            y[1][0] = max(0, y[1][0])
    c.par = par
    return c


def sparse_hmm(rng, c, V, lens):
    """Parameters of a large model that leave few paths."""
    N, C, B = c.N, c.C, c.B
    w = lambda e: 0 if e < -50 else 2 ** e
    while True:
        hot = rng.choice([0.1, 0.3, 0.6])
        val = lambda p: FORB if rng.random() > p else 1 if rng.random() < 0.08 else 0
        init = [val(hot) for _ in range(C)]
        trans = [[val(hot) for _ in range(C)] for _ in range(C)]
        em = [[val(rng.choice([0.5, 0.9])) for _ in range(C)] for _ in range(V)]
        obs = [[rng.randrange(V) for _ in range(N)] for _ in range(B)]
        z = []
        for b in range(B):
            a = [w(init[i]) * w(em[obs[b][0]][i]) for i in range(C)]
            for n in range(1, N):
                if n < c.lens[b]:
                    a = [sum(a[j] * w(trans[i][j]) for j in range(C)) * w(em[obs[b][n]][i]) for i in range(C)]
            z.append(sum(a))
        if min(z) > 0 and max(z) < 2 ** 22:
            break
    c.par = dict(init=init, trans=trans, em=em, obs=[[x + 1 for x in r] for r in obs])
    c.obs = obs
    return c


def sparse_hsmm(rng, c):
    """The same for segments."""
    N, C, K, B = c.N - 1, c.C, c.K, c.B
    w = lambda e: 0 if e < -50 else 2 ** e
    while True:
        hot, warm = rng.choice([0.2, 0.5, 0.8]), rng.choice([0.1, 0.2, 0.4, 0.7])
        val = lambda p: FORB if rng.random() > p else 1 if rng.random() < 0.08 else 0
        shared = rng.random() < 0.5
        par = dict(shared=shared, init=[val(0.6) for _ in range(C)] if shared else [[val(0.6) for _ in range(C)] for _ in range(B)],
                   trans=[[val(hot) for _ in range(C)] for _ in range(C)], dur=[[val(0.8) for _ in range(K)] for _ in range(C)],
                   em=[[[[val(warm) for _ in range(C)] for _ in range(K)] for _ in range(N)] for _ in range(B)])
        z = []
        for b in range(B):
            init = par["init"] if shared else par["init"][b]
            beta = [[w(x) for x in init]]
            for n in range(1, c.lens[b]):
                beta.append([sum(beta[n - k][j] * w(par["trans"][j][i]) * w(par["dur"][i][k]) * w(par["em"][b][n - k][k][i])
                                 for k in range(1, min(K, n + 1)) for j in range(C)) for i in range(C)])
            z.append(sum(beta[-1]))
        if min(z) > 0 and max(z) < 2 ** 22:
            break
    c.par = par
    return c


def tens(c, a):
    return layouted(torch.tensor(np.asarray(a, dtype=float) * LN2, dtype=c.dtype), c.layout)


def new_adapted(rec, c, make, note):
    rec.n += 1
    c.ident = rec.n
    c.pot = np.zeros((c.B,) + c.shape(), dtype=int) + (25 if c.dtype == torch.float64 else 25)
    ev = dict(op="new", id=rec.n, d=c.d(), B=c.B, N=c.N, lens=c.lens, par=c.par, opt=[str(c.dtype), c.layout, c.given], note=note)
    box = {}

    def go():
        box["d"] = make()
        return {}

    rec.call(ev, go)
    return box.get("d")


@prop("C11")
def c11(deep, R):
    m = 5 if deep else 1
    jobs = []
    for _ in range(60 * m):
        jobs.append(("hmm", dict(N=R.randint(2, 6), C=R.randint(1, 4), V=R.randint(1, 4)), R.choice(["weights", "weights", "scores"])))
        jobs.append(("hsmm", dict(N=R.randint(1, 5), C=R.randint(1, 3), K=R.randint(2, 4)), R.choice(["weights", "weights", "scores"])))
    big = []
    for i in range(8 * m):
        big.append(("hmm", dict(N=R.choice([9, 12, 16, 17, 33]), C=R.choice([2, 5, 8, 9]), V=R.choice([2, 5, 9, 17])), R.choice([1, 2, 3, 5])))
        big.append(("hsmm", dict(N=R.choice([8, 9, 12, 16]), C=R.choice([1, 2, 4, 5]), K=R.choice([2, 3, 6, 9])), R.choice([1, 2, 3])))
        if i % 4 == 3:
            big.append(("hmm", dict(N=R.randint(2, 5), C=R.randint(2, 3), V=3), R.choice([8, 9, 17])))
            big.append(("hsmm", dict(N=R.randint(2, 5), C=2, K=3), R.choice([8, 9, 17])))

    def queries(rng, rec, c, d, purpose):
        if d is None:
            return
        if purpose == "scores":
            q_max(rec, c, d)
            q_argmax(rec, c, d)
            return
        qs = [lambda: q_partition(rec, c, d), lambda: q_marginals(rec, c, d), lambda: q_entropy(rec, c, d),
              lambda: q_logprob(rec, c, d, [[random_struct(rng, c, n) for n in c.lens] for _ in range(3)]),
              lambda: q_max(rec, c, d), lambda: q_argmax(rec, c, d), lambda: q_draws(rec, c, d, 5, law=False)]
        rng.shuffle(qs)
        qs[0]()
        for q in qs[1:4]:
            q()
        q_partition(rec, c, d)

    def body(rng, rec, kind, s, purpose):
        B = batch(rng, 3)
        if kind == "hmm":
            V = s["V"]
            lens = mix_lens(rng, s["N"], B, 2) if rng.random() < 0.4 else None
            c = hmm_case(rng, B, s["N"], s["C"], V, lens, purpose)
            c.layout = rng.choice(["plain", "plain", "transposed", "slice"])
            if rng.random() < 0.2 and purpose == "weights" and c.nstructs() <= 64:
                c.dtype = torch.float32
            tr, em, it = tens(c, c.par["trans"]), tens(c, c.par["em"]), tens(c, c.par["init"])
            obs = torch.tensor(c.obs)
            if rng.random() < 0.3:
                obs = obs.t().contiguous().t()
            if rng.random() < 0.6:
                make = lambda: ts.HMM(tr, em, it, obs, **(dict(lengths=torch.tensor(lens)) if lens else {}))
            else:
                make = lambda: ts.LinearChainCRF(ts.LinearChain.hmm(tr, em, it, obs), **(dict(lengths=torch.tensor(lens)) if lens else {}))
            queries(rng, rec, c, new_adapted(rec, c, make, "hmm"), purpose)
            return
        N, C, K = s["N"], s["C"], s["K"]
        lens = mix_lens(rng, N + 1, B) if rng.random() < 0.4 else None
        c = hsmm_case(rng, B, N, C, K, lens, purpose)
        par = c.par
        c.layout = rng.choice(["plain", "plain", "transposed", "slice"])
        if rng.random() < 0.2 and purpose == "weights" and c.nstructs() <= 64:
            c.dtype = torch.float32
        args = [tens(c, par[k]) for k in ("init", "trans", "dur", "em")]
        make = lambda: ts.SemiMarkovCRF(ts.SemiMarkov.hsmm(*args), **(dict(lengths=torch.tensor(lens)) if lens else {}))
        queries(rng, rec, c, new_adapted(rec, c, make, "hsmm"), purpose)

    def body2(rng, rec, kind, s, B):
        extra = lambda c: dict(lengths=torch.tensor(c.lens)) if c.given else {}
        if kind == "hmm":
            c = Case("chain", s["N"], B=B, C=s["C"], lens=mix_lens(rng, s["N"], B, 2) if rng.random() < 0.4 else None)
            sparse_hmm(rng, c, s["V"], c.lens)
        else:
            c = Case("semi", s["N"] + 1, B=B, C=s["C"], K=s["K"], lens=mix_lens(rng, s["N"] + 1, B, 2) if rng.random() < 0.4 else None)
            sparse_hsmm(rng, c)
        c.layout = rng.choice(["plain", "transposed", "slice", "strided"])
        args = [tens(c, c.par[k]) for k in (("trans", "em", "init") if kind == "hmm" else ("init", "trans", "dur", "em"))]
        if kind == "hmm":
            make = lambda: ts.HMM(*args, torch.tensor(c.obs), **extra(c))
        else:
            make = lambda: ts.SemiMarkovCRF(ts.SemiMarkov.hsmm(*args), **extra(c))
        d = new_adapted(rec, c, make, kind)
        if d is not None:
            q_partition(rec, c, d)
            q_marginals(rec, c, d)
            q_entropy(rec, c, d)
            q_max(rec, c, d)
            q_draws(rec, c, d, 3, law=False)

    return run_all(jobs, body) + run_all(big, body2)


# ---------------------------------------------------------------- C12
@prop("C12")
def c12(deep, R):
    m = 5 if deep else 1
    jobs = []
    for i in range(64 * m):
        jobs.append((R.randint(1, 6 if i % 4 else 8), ["multi", "single"][i % 2], 0.5 if i % 3 else 0.0, 0))
    for i in range(8 * m):
        jobs.append((R.randint(2, 4), ["multi", "single"][i % 2], 0.5, R.choice([5, 8, 9, 16, 17, 33])))

    def body(rng, rec, N, root, pl, B):
        B = B or batch(rng, 3)
        lens = mix_lens(rng, N, B) if rng.random() < pl else None
        c = Case("np", N, B=B, root=root, lens=lens)
        pots = []
        for b in range(B):
            n = c.lens[b]
            a = np.zeros((N, N), dtype=int)
            # weights 2^e with the product of the column sums below 2^28
            room = 26 - n * math.log2(max(1, n))
            for _ in range(3 * N * N):
                i, j = rng.randrange(N), rng.randrange(N)
                old = a[i, j]
                a[i, j] = rng.choice([1, 2, 3])
                if sum(math.log2(sum(2.0 ** a[k, j] for k in range(n))) for j in range(n)) > 26:
                    a[i, j] = old
            for i in range(N):
                for j in range(N):
                    if i >= n or j >= n:
                        a[i, j] = rng.randint(-5, 5)
            pots.append(a)
        c.pot = np.stack(pots)
        c.layout = rng.choice(["plain", "plain", "transposed", "slice"])
        if N <= 4 and rng.random() < 0.2:
            c.dtype = torch.float32
        d = rec.new(c)
        qs = [lambda: q_partition(rec, c, d, nprtol=2e-3), lambda: q_marginals(rec, c, d, tol=900)]
        if rng.random() < 0.5:
            # the functions behind the distribution, without smoothing
            ls = lambda: c.lens if rng.random() < 0.5 else torch.tensor(c.lens)
            kw = lambda: dict(eps=0.0, **(dict(lengths=ls()) if c.given else {}))
            one = c.dtype == torch.float32
            qs.append(lambda: q_partition(rec, c, d, nprtol=1e-3 if one else 1e-8, fn=lambda: ts.deptree_part(tensors(c), root == "multi", **kw())))
            qs.append(lambda: q_marginals(rec, c, d, tol=300 if one else 3, fn=lambda: ts.deptree_nonproj(tensors(c), root == "multi", **kw()), via="function"))
        if rng.random() < 0.4:
            qs.append(lambda: q_logprob(rec, c, d, [[random_struct(rng, c, n) for n in c.lens] for _ in range(2)]))
        rng.shuffle(qs)
        for q in qs:
            q()

    jobs2 = [(R.choice([9, 10, 11, 12, 13, 16, 17, 20, 24]), ["multi", "single"][i % 2]) for i in range(24 * m)]

    def body2(rng, rec, N, root):
        """Many words, few possible heads, no smoothing."""
        B = rng.choice([1, 2, 3])
        lens = [N] + [rng.choice([N, rng.randint(7, N)]) for _ in range(B - 1)]
        rng.shuffle(lens)
        c = Case("np", N, B=B, root=root, lens=lens if rng.random() < 0.5 else None)
        pots = []
        for n in c.lens:
            a = np.full((N, N), FORB)
            name = rng.sample(range(n), n)  # words renamed, so that arcs cross
            arc = lambda h, x: (name[h], name[x])
            for h, x in random_struct(rng, c, n):
                a[arc(h, x)] = rng.choice([0, 0, 1])
            for _ in range(rng.randint(1, 7)):
                x = rng.randrange(n)
                h = rng.randrange(n)
                if a[h, x] < -50:
                    a[h, x] = rng.choice([0, 1, 2])
                    if math.prod(int((a[:n, j] > -50).sum()) for j in range(n)) > 256 or bound(c, a, n) > 2 ** 26:
                        a[h, x] = FORB
            padding(rng, c, a, n, rng.choice(["rand", "huge", "wild"]))
            pots.append(a)
        c.pot = np.stack(pots)
        d = rec.new(c)
        kw = dict(eps=0.0, **(dict(lengths=torch.tensor(c.lens)) if c.given else {}))
        q_partition(rec, c, d, nprtol=1e-8, fn=lambda: ts.deptree_part(tensors(c), root == "multi", **kw))
        q_marginals(rec, c, d, tol=3, fn=lambda: ts.deptree_nonproj(tensors(c), root == "multi", **kw), via="function")

    return run_all(jobs, body) + run_all(jobs2, body2)


# ---------------------------------------------------------------- C13
SESS = dict(
    chain=[dict(N=3, C=2), dict(N=4, C=2), dict(N=2, C=3), dict(N=5, C=2), dict(N=9, C=2)],
    semi=[dict(N=4, K=3, C=2), dict(N=3, K=2, C=2), dict(N=5, K=4, C=1), dict(N=5, K=4, C=2), dict(N=6, K=5, C=2)],
    arcs=[dict(N=3), dict(N=4), dict(N=2), dict(N=5)],
    labelled=[dict(N=2, L=2), dict(N=3, L=2), dict(N=2, L=3)],
    cfg=[dict(N=3, NT=2, T=2), dict(N=4, NT=1, T=2), dict(N=2, NT=2, T=1)],
)


def other_lens(rng, fam, o):
    """Lengths for the same shape: those of o in another order, or drawn again."""
    if rng.random() < 0.5:
        return rng.sample(list(o.lens), o.B)
    return with_lens(rng, fam, dict(N=o.N), o.B, 1)


def group_of(fam):
    return {"dep": "arcs", "np": "arcs", "depl": "labelled", "span": "labelled"}.get(fam, fam)


@prop("C13")
def c13(deep, R):
    walks = []
    for k in ("HISTORIES", "KINDRED", "SEQUENCES"):
        with open(os.environ[k]) as f:
            walks += [json.loads(x) for x in f]

    def body(rng, rec, walk):
        slots = {}
        seen = []
        grad = True
        for a in walk:
            if a["a"] == "new":
                fam, _, root = a["k"].partition(":")
                ten = None
                if fam == "auto":
                    o = slots[a["of"]][0] if a["of"] else None
                    norm, shape = (o.norm, (o.C, o.N, o.emax)) if o else (rng.random() < 0.5, None)
                    shape = shape or auto_shape(rng, norm)
                    c = auto.ACase(rng, shape[0], shape[1], o.B if o else rng.choice([1, 2, 3]), norm, shape[2],
                                   start=o.start if o and rng.random() < 0.7 else None, distinct=shape[2] + 1 >= shape[0])
                    c.emax = shape[2]
                    if o:
                        c.kinds = o.kinds
                    if a["how"] == "kin":
                        c.B = rng.choice([1, 2, 3])
                        c.tab = [c.tab[i % len(c.tab)] for i in range(c.B)]
                    with torch.set_grad_enabled(grad):
                        slots[a["s"]] = (c, auto.anew(rec, c), None, None)
                    continue
                if a["how"] == "fresh":
                    s = dict(rng.choice(SESS[group_of(fam)]))
                    B = rng.choice([1, 2, 2, 3])
                    lens = with_lens(rng, fam, s, B, 0.5)
                else:
                    o = slots[a["of"]][0]
                    s = dict(N=o.N, C=o.C, K=o.K, L=o.L, NT=o.NT, T=o.T)
                    B, lens = o.B, o.lens if o.given else None
                    if a["how"] in ("kin", "cut"):
                        lens = other_lens(rng, fam, o)
                if group_of(fam) == "labelled":
                    s["C"] = s["L"] = s.get("L", s.get("C"))
                c = Case(fam, B=B, lens=lens, **{k: v for k, v in s.items()}, **(dict(root=root) if root else {}))
                if a["how"] in ("tensor", "cut"):
                    c.pot, ten = slots[a["of"]][0].pot, slots[a["of"]][2]
                else:
                    fill(rng, c, "weights", cap=10, forb=0, pad="zero")
                    ten = tensors(c)
                copy = [t.detach().clone() for t in (ten if isinstance(ten, tuple) else (ten,))]
                with torch.set_grad_enabled(grad):
                    d = rec.new(c, ten, a["how"])
                slots[a["s"]] = (c, d, ten, copy)
                seen.append((c, ten, copy))
                if d is None:
                    return
            elif a["a"] == "grad":
                grad = a["k"] == "on"
            elif a["a"] == "drop":
                del slots[a["s"]]
            else:
                c, d, ten, _ = slots[a["s"]]
                if isinstance(c, auto.ACase):
                    with torch.set_grad_enabled(grad):
                        auto_query(rng, rec, c, d, a["k"])
                    continue
                with torch.set_grad_enabled(grad):
                    if a["a"] == "cross":
                        c2, d2 = slots[a["of"]][:2]
                        if c2.lens != c.lens or c2.given != c.given or (c2.N, c2.C, c2.K, c2.L, c2.NT, c2.T) != (c.N, c.C, c.K, c.L, c.NT, c.T):
                            continue
                        q_cross(rec, c, d, c2, d2, a["k"])
                    else:
                        one_query(rng, rec, c, d, a["k"])
        for c, ten, copy in seen:
            now = ten if isinstance(ten, tuple) else (ten,)
            rec.add(dict(op="holds", st="ok", id=c.ident, what="inputs unchanged", ok=all(bool((x.detach() == y).all()) for x, y in zip(now, copy))))

    return run_all([(w,) for w in walks], body)


def one_query(rng, rec, c, d, q):
    np_ = c.fam == "np"
    k = rng.randint(1, max(1, min(4, min(single_count(c, n) if c.root == "single" and c.fam in ("dep", "depl") else c.nstructs(n) for n in c.lens))))
    if q == "partition":
        q_partition(rec, c, d, nprtol=1e-3 if np_ else None)
    elif q == "marginals":
        q_marginals(rec, c, d, tol=400 if np_ else None)
    elif q == "max":
        q_max(rec, c, d)
    elif q in ("argmax", "mode"):
        q_argmax(rec, c, d, q)
    elif q == "entropy":
        q_entropy(rec, c, d)
    elif q == "kmax":
        q_kmax(rec, c, d, k)
    elif q == "topk":
        q_topk(rec, c, d, k)
    elif q == "count":
        q_count(rec, c, d)
    elif q == "logprob":
        if c.fam == "cfg":
            q_logprob_cfg(rec, c, d, [random_cfg(rng, c, n) for n in c.lens])
        else:
            q_logprob(rec, c, d, [[random_struct(rng, c, n) for n in c.lens] for _ in range(2)])
    elif q == "sample":
        q_draws(rec, c, d, rng.choice([1, 3, 11]), law=False, nograd=not torch.is_grad_enabled())
    elif q == "gumbel":
        q_draws(rec, c, d, 2, law=False, gumbel=rng.choice([0.5, 1.0]))
    elif q == "grad":
        with torch.enable_grad():
            q_grad(rec, c)
    elif q == "convert" and c.fam in ("chain", "semi", "dep"):
        n = c.lens
        try:
            e = d.argmax
        except Exception:
            return
        q_roundtrip(rec, rng, c, d, e)


# ---------------------------------------------------------------- C14 / C15
import auto


def auto_shape(R, norm):
    """(C, N, emax) with scores that stay inside exact 32-bit rationals."""
    if norm:
        return R.choice([(2, 2, 3), (2, 3, 3), (2, 4, 2), (3, 2, 3), (3, 3, 3), (4, 2, 3), (4, 3, 2), (5, 2, 2), (1, 3, 2), (3, 4, 1), (2, 1, 3), (5, 1, 4)])
    return R.choice([(2, 2, 6), (2, 3, 6), (2, 4, 9), (2, 5, 9), (3, 2, 6), (3, 3, 9), (3, 4, 9), (4, 3, 6), (5, 2, 9), (1, 3, 3), (6, 2, 9)])


@prop("C14")
def c14(deep, R):
    m = 6 if deep else 1
    jobs = []
    for i in range(110 * m):
        norm = i % 2 == 0
        jobs.append((norm,) + auto_shape(R, norm))

    def body(rng, rec, norm, C, N, emax):
        c = auto.ACase(rng, C, N, rng.choice([1, 2, 3, 4]), norm, emax)
        d = auto.anew(rec, c)
        auto.q_greedy(rec, c, d)
        top = C ** N
        ks = {1, min(top, rng.randint(2, 4))}
        if top <= 9:
            ks.add(top)
        for K in sorted(ks):
            auto.q_beam(rec, c, d, K)
        if rng.random() < 0.5 and emax + 1 >= C:
            t = auto.ACase(rng, C, N, rng.choice([1, 2, 3]), norm, emax, distinct=True)
            auto.q_greedy(rec, t, auto.anew(rec, t), alpha=rng.choice([0.01, 0.2, 1, 2, 3] if emax < 6 else [0.2, 1, 2]))

    def body2(rng, rec, C, N, B, norm):
        c = auto.WCase(rng, C, N, B, norm)
        d = auto.anew(rec, c)
        auto.q_greedy(rec, c, d)
        for K in {1, 2, rng.choice([3, 5, 8, 9, 12])}:
            if K <= C ** N and B * N * (K * C) ** 2 <= (400000 if deep else 80000):
                auto.q_beam(rec, c, d, K)

    return run_all(jobs, body) + run_all(wide_models(R, 40 * m), body2)


def wide_models(R, n):
    """(C, N, B, norm) far from the small models."""
    return [(R.choice([2, 4, 7, 8, 9, 12, 17, 33]), R.choice([2, 5, 6, 8, 9, 12, 17, 24, 33, 40]), R.choice([1, 1, 2, 3, 5, 8, 9]), i % 2 == 0) for i in range(n)]


@prop("C15")
def c15(deep, R):
    m = 5 if deep else 1
    jobs = []
    for i in range(70 * m):
        norm = i % 3 != 0
        jobs.append(("prob", norm) + auto_shape(R, norm))
    for i in range(24 * m):
        jobs.append(("draw", True) + R.choice([(2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 1, 2), (3, 1, 2), (4, 1, 1), (2, 1, 6), (2, 2, 4), (3, 1, 6)]))
    for i in range(30 * m):
        jobs.append(("sure", i % 3 != 0) + R.choice([(2, 3, 3), (3, 3, 3), (4, 2, 3), (2, 5, 3), (5, 3, 3), (3, 4, 3)]))
    for i in range(24 * m):
        jobs.append(("swor", R.random() < 0.5) + R.choice([(2, 3, 2), (3, 2, 2), (4, 2, 2), (2, 4, 2), (3, 3, 2)]))

    def body(rng, rec, kind, norm, C, N, emax):
        B = rng.choice([1, 2, 3] if kind != "sure" else [2, 3, 4, 7])
        c = auto.ACase(rng, C, N, B, norm, emax)
        if kind == "sure":
            # one class of every row is all but certain, so that each draw shows which row was read
            for lv in c.tab:
                for rows in lv:
                    for r in rows:
                        r[rng.randrange(C)] = 60
            d = auto.anew(rec, c)
            for S in (1, rng.choice([2, 3, 5]), rng.choice([8, 11, 17])):
                auto.q_seqdraws(rec, c, d, S, law=False)
            return
        if kind == "prob" and rng.random() < 0.2:
            c.dtype = torch.float32
        d = auto.anew(rec, c)
        if kind == "prob":
            seqs = [list(x) for x in itertools.product(range(C), repeat=N)]
            b = rng.randrange(B)
            if len(seqs) <= 82:
                rows = [[s if i == b else [rng.randrange(C) for _ in range(N)] for i in range(B)] for s in seqs]
                auto.q_seqprob(rec, c, d, rows, rng.random() < 0.5, b + 1)
            some_ = [[[rng.randrange(C) for _ in range(N)] for _ in range(B)] for _ in range(rng.choice([1, 2, 5]))]
            for sparse in (True, False):
                auto.q_seqprob(rec, c, d, some_, sparse, dtype=rng.choice([torch.long, torch.float32]) if not sparse else torch.long)
            auto.q_seqdraws(rec, c, d, rng.choice([1, 2, 7]), law=False)
        elif kind == "draw":
            auto.q_seqdraws(rec, c, d, 600, law=True, lags=(1, 2), pairs=[(1, 2), (2, 3), (1, 3)][: B * (B - 1) // 2])
        else:
            for K in {1, 2, min(C ** N, rng.randint(3, 6)), min(C ** N, 9)}:
                auto.q_swor(rec, c, d, K)

    def body2(rng, rec, C, N, B, norm):
        c = auto.WCase(rng, C, N, B, norm)
        d = auto.anew(rec, c)
        seqs = [[[rng.randrange(C) for _ in range(N)] for _ in range(B)] for _ in range(rng.choice([1, 4, 11, 17]))]
        auto.q_seqprob(rec, c, d, seqs, True)
        auto.q_seqprob(rec, c, d, seqs, False, dtype=rng.choice([torch.long, torch.float32, torch.float64]))
        auto.q_seqdraws(rec, c, d, rng.choice([1, 3, 12]), law=False)
        auto.q_swor(rec, c, d, min(C ** N, rng.choice([2, 5, 9, 17])))

    return run_all(jobs, body) + run_all(wide_models(R, 40 * m), body2)


# ---------------------------------------------------------------- C24
@prop("C24")
def c24(deep, R):
    m = 6 if deep else 1
    jobs = []
    for i in range(90 * m):
        norm = i % 3 != 0
        jobs.append((norm,) + auto_shape(R, norm))

    def ask(rng, rec, c):
        auto.anew(rec, c)
        S = rng.choice([1, 2, 5, 11])
        seqs = [[[rng.randrange(c.C) for _ in range(c.N)] for _ in range(c.B)] for _ in range(S)]
        for how in ("sparse", "dense", "greedy"):
            auto.q_seqslope(rec, c, seqs, how, rng.random() < 0.5)

    def body(rng, rec, norm, C, N, emax):
        c = auto.ACase(rng, C, N, rng.choice([1, 2, 3]), norm, emax)
        if rng.random() < 0.2:
            c.dtype = torch.float32
        ask(rng, rec, c)

    def body2(rng, rec, C, N, B, norm):
        ask(rng, rec, auto.WCase(rng, C, N, B, False))

    return run_all(jobs, body) + run_all(wide_models(R, 24 * m), body2)


# ---------------------------------------------------------------- C25
def leaves(rng, c, through):
    """The caller's tensors, themselves parameters or computed from parameters: (params, tensors, factor)."""
    t = tensors(c)
    one = not isinstance(t, (tuple, list))
    k = rng.choice([2, 4]) if through else 1
    ps = [(x.detach() / k).requires_grad_(True) for x in ([t] if one else t)]
    ts_ = [p * k if through else p for p in ps]
    return ps, ts_[0] if one else tuple(ts_), k


def slopes(rng, c, f, through, extra=None):
    """Gradient of the weighted sum over the batch of f(distribution), per element."""
    ps, t, k = leaves(rng, c, through)
    w = torch.tensor([rng.choice([1, 2, -3]) for _ in range(c.B)], dtype=c.dtype)
    v = f(construct(c, t))
    if tuple(v.shape) != (c.B,):
        raise Bad("shape")
    gs = torch.autograd.grad((v * w).sum(), ps)
    return [g / k / w.view((-1,) + (1,) * (g.dim() - 1)) for g in gs]


def q_slope_marginals(rec, c, rng, through):
    """Gradient of the partition of a grammar with respect to its three tables."""

    def go():
        a = [vec(x, s, c.dtype) for x, s in zip(slopes(rng, c, lambda d: d.partition, through), cfg_shapes(c))]
        return dict(tol=mtol(c) * 6, m=[dict(terms=fix6(a[0][b]), rules=fix6(a[1][b]), roots=fix6(a[2][b])) for b in range(c.B)])

    return rec.call(dict(op="marginals", id=c.ident, via="gradient"), go)


def tables(c, gs):
    """Reported gradients in the layout of the potentials."""
    if c.fam == "cfg":
        a = [vec(x, s, c.dtype) for x, s in zip(gs, cfg_shapes(c))]
        return [dict(terms=fix6(a[0][b]), rules=fix6(a[1][b]), roots=fix6(a[2][b])) for b in range(c.B)]
    return fix6(vec(gs[0], (c.B,) + c.shape(), c.dtype))


def q_gradbest(rec, c, rng, k, through):
    """Gradients of max (k = 0) or of the k best scores."""

    def go():
        def rank(i):
            gs = slopes(rng, c, (lambda d: d.kmax(k)[i]) if k else (lambda d: d.max), through)
            if c.fam == "cfg":
                a = [vec(x, s, c.dtype) for x, s in zip(gs, cfg_shapes(c))]
                r = [cfg_event(c, a[0][b], a[1][b], a[2][b], np.zeros((1, 1, 1))) for b in range(c.B)]
                return [x[0] for x in r], [dict(terms=x[1]["terms"], rules=x[1]["rules"], roots=x[1]["roots"]) for x in r]
            a = vec(gs[0], (c.B,) + c.shape(), c.dtype)
            r = [parts_of(a[b]) for b in range(c.B)]
            return [x[0] for x in r], [x[1] for x in r]

        rs = [rank(i) for i in range(max(k, 1))]
        what = "ev" if c.fam == "cfg" else "parts"
        if k or c.fam == "cfg":
            return {"k": max(k, 1), "clean": [r[0] for r in rs], what: [r[1] for r in rs]}
        return {"clean": rs[0][0], what: rs[0][1]}

    op = "bestuses" if c.fam == "cfg" else "topk" if k else "argmax"
    return rec.call(dict(op=op, id=c.ident, via="gradient"), go)


@prop("C25")
def c25(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 30), ("semi", 30), ("dep", 16), ("depl", 16), ("span", 16), ("cfg", 14)):
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=dict(cfg=140).get(fam, 2 ** 20))]

    def body(rng, rec, fam, s):
        B = rng.choice([1, 2, 3])
        c = maybe32(rng, scores(rng, fam, s, B, with_lens(rng, fam, s, B, 0.4)), 0.2, 10 ** 9)
        top = min(c.nstructs(n) if not (fam in ("dep", "depl") and c.root == "single") else single_count(c, n) for n in c.lens)
        rec.new(c)
        if fam in ("chain", "semi") and s["N"] < 2:
            return
        for through in (False, True):
            q_gradbest(rec, c, rng, 0, through)
        q_gradbest(rec, c, rng, min(top, rng.randint(2, 5)), rng.random() < 0.5)

    def body2(rng, rec, fam, s, B):
        c = Case(fam, B=min(B, 9), lens=with_lens(rng, fam, s, min(B, 9), 0.4, low=2), **s)
        fill(rng, c, "scores", forb=rng.choice([0, 0.3])) if rng.random() < 0.6 else few(rng, c, hi=5)
        rec.new(c)
        q_gradbest(rec, c, rng, 0, rng.random() < 0.5)
        k = rng.choice([2, 3])
        if k <= min(single_count(c, n) if fam in ("dep", "depl") else c.nstructs(n) for n in c.lens):
            q_gradbest(rec, c, rng, k, rng.random() < 0.5)

    return run_all(jobs, body) + run_all([w for w in wide_shapes(R, 24 * m, True) if w[0] != "cfg"], body2)


# ---------------------------------------------------------------- C26
def q_gradcross(rec, c, c2, kind, rng):
    """Gradients of cross-entropy or divergence into both distributions."""

    def go(side):
        def value():
            through = rng.random() < 0.5
            ps, t, k = leaves(rng, c, through)
            ps2, t2, k2 = leaves(rng, c2, through)
            d, d2 = construct(c, t), construct(c2, t2)
            w = torch.tensor([rng.choice([1, 2, -3]) for _ in range(c.B)], dtype=c.dtype)
            v = d.cross_entropy(d2) if kind == "ce" else d.kl(d2)
            if tuple(v.shape) != (c.B,):
                raise Bad("shape")
            gs = torch.autograd.grad((v * w).sum(), ps if side == "own" else ps2)
            f = k * LN2 if side == "own" else k2
            tol = 4000 + 20 * mtol(c) if side == "own" else 4 * mtol(c)
            return dict(tol=tol, m=tables(c, [g / f / w.view((-1,) + (1,) * (g.dim() - 1)) for g in gs]))

        rec.call(dict(op="gradcross", id=c.ident, id2=c2.ident, kind=kind, side=side), value)

    return go


@prop("C26")
def c26(deep, R):
    m = 6 if deep else 1
    jobs = []
    for fam, n in (("chain", 18), ("semi", 18), ("dep", 12), ("depl", 10), ("span", 10), ("cfg", 12)):
        lim = dict(chain=300, semi=300, dep=60, depl=60, span=130, cfg=40)[fam]
        jobs += [(fam, s) for s in spread(R, fam, n * m, limit=lim) if not (fam in ("chain", "semi") and s["N"] < 2)]

    def body(rng, rec, fam, s):
        B = rng.choice([1, 2, 2, 3])
        lens = with_lens(rng, fam, s, B, 0.5)
        cap = 6 if fam == "cfg" else 10
        c = maybe32(rng, weights(rng, fam, s, B, lens, cap=cap, forb=rng.choice([0, 0, 0.2]), pad=rng.choice(["rand", "huge", "wild"])), 0.2, 60)
        c2 = weights(rng, fam, s, B, lens, cap=cap, forb=0)
        c2.dtype = c.dtype
        if rng.random() < 0.15:
            c2.pot = copy.deepcopy(c.pot)
        rec.new(c)
        rec.new(c2)
        for kind in ("ce", "kl"):
            go = q_gradcross(rec, c, c2, kind, rng)
            go("own")
            go("other")

    def body2(rng, rec, fam, s, B):
        c = wide(rng, fam, s, min(B, 9), cap=14)
        c2 = same_support(rng, c)
        rec.new(c)
        rec.new(c2)
        q_gradcross(rec, c, c2, rng.choice(["ce", "kl"]), rng)("other")

    return run_all(jobs, body) + run_all([w for w in wide_shapes(R, 20 * m, True) if w[0] != "cfg"], body2)


# ---------------------------------------------------------------- C16
import algebra as al


def library(rng, sr):
    """An exported semiring behaving like sr: (class, k)."""
    if sr == "kmax":
        k = rng.randint(1, 4)
        return ts.KMaxSemiring(k), k
    one = dict(std=[ts.StdSemiring], max=[ts.MaxSemiring], ent=[ts.EntropySemiring],
               ce=[ts.CrossEntropySemiring], kl=[ts.KLDivergenceSemiring],
               log=[ts.LogSemiring, ts.LogSemiring, ts.LogSemiring, ts.SampledSemiring, ts.MultiSampledSemiring,
                    ts.GumbelMaxSemiring(1.0), ts.GumbelCRFSemiring(0.5)])[sr]
    return rng.choice(one), 0


def dims(rng, rank, hi=4):
    return [rng.choice([1, 2, 3, hi]) if rng.random() < 0.9 else rng.randint(1, 5) for _ in range(rank)]


def stretch(rng, shape):
    """A shape that broadcasts with the given one."""
    return [1 if rng.random() < 0.35 else s for s in shape]


LONG = [7, 8, 9, 15, 16, 17, 32, 33, 64, 65]


def tensor_call(rng, rec, sr, fn, cls, k, dtype, small=False, layout=False):
    rank = rng.randint(1, 3)
    ev = dict(op="tensor", sr=sr, k=k, fn=fn)
    top = {"sum": 10 ** 6, "plus": 10 ** 6, "mul": 20000, "dot": 2000, "matmul": 2000}.get(fn, 0) if rng.random() < 0.35 else 0
    if top and dtype != torch.float64:
        top = 300
    mk = lambda s, sm=small: al.operand(rng, sr, k, cls, s, dtype, sm, layout and rng.random() < 0.5, top)
    long = rng.random() < 0.15
    if long:
        rank = min(rank, 2)
    if fn in ("sum", "prod"):
        s = dims(rng, rank)
        if long and fn == "sum":
            s[rng.randrange(rank)] = rng.choice(LONG)
        ax = rank if (sr == "kmax" or (fn == "prod" and sr not in ("std", "log", "max"))) else rng.randint(1, rank)
        ev["a"], a = mk(s, fn == "prod" or small)
        ev["ax"] = ax
        dim = ax - 1 - rank if sr == "kmax" or rng.random() < 0.5 else ax
        if dim == -1 and rng.random() < 0.5:
            go = lambda: getattr(cls, fn)(a)
        else:
            go = lambda: getattr(cls, fn)(a, dim=dim)
    elif fn in ("mul", "plus", "times"):
        full = dims(rng, rank)
        s1, s2 = (full, full) if fn == "plus" else (stretch(rng, full), stretch(rng, full))
        ev["a"], a = mk(s1)
        ev["b"], b = mk(s2)
        if fn == "times":
            ev["c"], c3 = mk(stretch(rng, full))
            go = lambda: cls.times(a, b, c3)
        else:
            go = lambda: getattr(cls, fn)(a, b)
    elif fn == "dot":
        full = dims(rng, rank - 1, 3)
        K = rng.choice(LONG) if long else rng.randint(1, 5)
        ev["a"], a = mk(stretch(rng, full) + [K])
        ev["b"], b = mk(stretch(rng, full) + [K])
        go = lambda: cls.dot(a, b)
    else:
        full = dims(rng, rank - 1, 3)
        K = rng.randint(1, 5)
        left, right = rng.randint(1, 4), rng.randint(1, 4)
        if long:
            which = rng.randrange(3)
            left, K, right = [rng.choice([x for x in LONG if x <= 33]) if i == which else y for i, y in enumerate((left, K, right))]
        ev["a"], a = mk(stretch(rng, full) + [left, K])
        ev["b"], b = mk(stretch(rng, full) + [K, right])
        go = lambda: cls.matmul(a, b)
    rec.call(ev, lambda: dict(r=al.report(sr, k, go(), dtype)))


def user_case(rng, fam, s, name, B, lens):
    c = Case(fam, B=B, lens=lens, **s)
    val = {"mod": lambda: rng.randint(0, al.P - 1), "min": lambda: rng.randint(-9, 9), "bool": lambda: rng.choice([0, 1, 1]),
           "btl": lambda: rng.randint(-50, 50), "dual": lambda: rng.choice([0, 1, 1, 2])}[name]
    if fam == "cfg":
        S = c.NT + c.T
        arr = lambda *shp: np.array([val() for _ in range(int(np.prod(shp)))]).reshape(shp)
        c.pot = [dict(terms=arr(c.N, c.T), rules=arr(c.NT, S, S), roots=arr(c.NT)) for _ in range(B)]
    else:
        shp = (B,) + c.shape()
        c.pot = np.array([val() for _ in range(int(np.prod(shp)))]).reshape(shp)
        if name == "dual":          # weights must stay small
            room = 18 - max(math.log2(max(1, c.nstructs(n))) for n in c.lens)
            if room < c.nparts():
                c.pot = np.minimum(c.pot, 1)
    return c


def raw_tensors(c):
    f = lambda a: torch.tensor(np.asarray(a), dtype=torch.float64)
    if c.fam == "cfg":
        return tuple(f(np.stack([v[k] for v in c.pot])) for k in ("terms", "rules", "roots"))
    return f(c.pot)


def note_case(rec, c):
    """Record a case without building a distribution."""
    rec.n += 1
    c.ident = rec.n
    pot = [{k: v[k].tolist() for k in ("terms", "rules", "roots")} for v in c.pot] if c.fam == "cfg" else c.pot.tolist()
    rec.add(dict(op="new", id=c.ident, d=c.d(), B=c.B, N=c.N, lens=c.lens, pot=pot, opt=[c.given], st="ok"))


def q_user(rec, c, name):
    def go():
        alg = getattr(ts, al.STRUCT[c.fam])(al.USER[name])
        lens = torch.tensor(c.lens) if c.given else None
        x = vec(alg.sum(raw_tensors(c), lens), (c.B,))
        return dict(x=[as_int(v) for v in x])

    return rec.call(dict(op="usersum", id=c.ident, sr=name), go)


@prop("C16")
def c16(deep, R):
    m = 8 if deep else 1
    jobs = []
    for sr in ("std", "log", "max", "kmax", "ent", "ce", "kl"):
        for fn, n in (("sum", 8), ("prod", 3), ("mul", 6), ("times", 4), ("plus", 4), ("dot", 6), ("matmul", 9)):
            if fn == "prod" and sr == "kmax":
                continue
            jobs += [("t", sr, fn)] * (n * m)
    for fam, n in (("chain", 30), ("semi", 35), ("dep", 20), ("depl", 20), ("span", 20), ("cfg", 25)):
        for i, s in enumerate(spread(R, fam, n * m, limit=2 ** 40, maxN=9)):
            s = dict(s, root="multi") if "root" in s else s
            jobs.append(("u", fam, s, ["mod", "mod", "min", "bool", "btl", "dual"][R.randrange(6)]))
    for fam in ("chain", "semi"):
        for N in (16, 17, 18, 31, 33, 40, 64, 65, 66, 90):
            s = dict(N=N, C=R.randint(1, 4))
            if fam == "semi":
                s["K"] = R.randint(2, 7)
            jobs.append(("u", fam, s, R.choice(["mod", "mod", "min", "btl"])))
    for fam, s, B in wide_shapes(R, 24 * m, True):
        s = dict(s, root="multi") if "root" in s else s
        if fam == "cfg":
            s = dict(s, N=min(s["N"], 6), NT=min(s["NT"], 3), T=min(s["T"], 4))
        jobs.append(("u", fam, s, R.choice(["mod", "mod", "min", "btl"]), B))

    def body(rng, rec, kind, *j):
        if kind == "t":
            sr, fn = j
            cls, k = library(rng, sr)
            tensor_call(rng, rec, sr, fn, cls, k, torch.float32 if rng.random() < 0.15 else torch.float64,
                        small=fn == "times", layout=rng.random() < 0.3)
            return
        fam, s, name = j[:3]
        B = j[3] if len(j) > 3 else batch(rng, 3)
        if name == "dual" and not cheap(fam, s, 2 ** 14):
            name = "mod"
        c = user_case(rng, fam, s, name, B, with_lens(rng, fam, s, B, 0.4))
        note_case(rec, c)
        q_user(rec, c, name)

    return run_all(jobs, body)


# ---------------------------------------------------------------- C17
def wrapped(rng, base, shard):
    thr = rng.choice([0, 0, 0, 1, 5, 12, 20, 40, 10 ** 6])
    if shard:
        return ts.CheckpointShardSemiring(base, rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 100, 1000]), thr)
    return ts.CheckpointSemiring(base, thr)


SCALAR = dict(std="StdSemiring", log="LogSemiring", max="MaxSemiring")


def mat_grad(rng, rec, sr, shard):
    cls = wrapped(rng, getattr(ts, SCALAR[sr]), shard)
    rank = rng.randint(1, 4)
    full = dims(rng, rank - 1, 3)
    K = rng.randint(1, 4)
    dtype = torch.float64
    left, right = rng.randint(1, 4), rng.randint(1, 4)
    if rng.random() < 0.25:               # one long dimension
        which = rng.randrange(4)
        if which == 3 and full:
            full = [1] * len(full)
            full[rng.randrange(len(full))] = rng.choice(LONG)
        else:
            full = full[:1]
            left, K, right = [rng.choice([7, 8, 9, 16, 17]) if i == which else min(y, 3) for i, y in enumerate((left, K, right))]
    sa, sb = stretch(rng, full) + [left, K], stretch(rng, full) + [K, right]
    isdot = rng.random() < 0.25
    if isdot:
        sa[-2] = sb[-1] = 1
    va, a = al.operand(rng, sr, 0, ts.LogSemiring if sr == "log" else getattr(ts, SCALAR[sr]), sa, dtype)
    vb, b = al.operand(rng, sr, 0, ts.LogSemiring if sr == "log" else getattr(ts, SCALAR[sr]), sb, dtype)
    if sr == "max":           # untied scores
        def spreadout(t):
            return torch.tensor(rng.sample(range(-9000, 9000), t.numel()), dtype=dtype).reshape(t.shape)
        a, b = spreadout(a), spreadout(b)
        va["v"], vb["v"] = [int(x) for x in a.reshape(-1)], [int(x) for x in b.reshape(-1)]
    a, b = a.clone().requires_grad_(True), b.clone().requires_grad_(True)
    how = rng.choice(["plain", "plain", "transposed", "turned", "flat"])
    box = {}

    def value():
        if isdot:
            out = cls.dot(a.squeeze(-2), b.squeeze(-1)).unsqueeze(-1).unsqueeze(-1)
        else:
            out = cls.matmul(a, b)
        box["out"] = out
        return dict(r=al.report(sr, 0, out, dtype))

    if not rec.call(dict(op="tensor", sr=sr, k=0, fn="matmul", a=va, b=vb), value):
        return
    out = box["out"]
    n = out.numel()
    g = [1] * n if how == "flat" else [rng.randint(0, 3) for _ in range(n)]
    if sr == "log":           # outputs that are the additive identity have no gradient to speak of
        full_ = out.detach().reshape(-1) > al.EMPTY
        how = "plain" if not bool(full_.all()) else how
        g = [x if bool(y) else 0 for x, y in zip(g, full_)]

    def grad():
        gt = torch.tensor(g, dtype=dtype).reshape(out.shape)
        if how == "flat":
            obj = out.sum()
        elif how == "transposed":
            obj = (out.transpose(-1, -2) * gt.transpose(-1, -2).contiguous()).sum()
        elif how == "turned":
            order = rng.sample(range(out.dim()), out.dim())
            obj = (out.permute(order) * gt.permute(order).contiguous()).sum()
        else:
            obj = (out * gt).sum()
        ga, gb = torch.autograd.grad(obj, (a, b))
        scale = 1000 if sr == "std" else 10 ** 6
        fa, fb = al.fix3(ga, dtype, scale), al.fix3(gb, dtype, scale)
        fa["s"], fb["s"] = fa["s"][1:], fb["s"][1:]
        return dict(ga=fa, gb=fb)

    rec.call(dict(op="matgrad", sr=sr, k=0, a=va, b=vb, g=g, tol=200), grad)


@prop("C17")
def c17(deep, R):
    m = 8 if deep else 1
    jobs = []
    for sr in ("std", "log", "max"):
        jobs += [("g", sr, True)] * (36 * m) + [("g", sr, False)] * (14 * m)
    for sr in ("kmax", "ent", "ce", "kl"):
        jobs += [("t", sr, fn) for fn in ("matmul", "dot", "matmul")] * (2 * m)
    for fam, n in (("chain", 20), ("semi", 20), ("dep", 12), ("depl", 8), ("span", 12), ("cfg", 14)):
        jobs += [("s", fam, s) for s in spread(R, fam, n * m, limit=MARG_LIMIT[fam])]

    def body(rng, rec, kind, *j):
        if kind == "g":
            mat_grad(rng, rec, *j)
            return
        if kind == "t":
            sr, fn = j
            base, k = library(rng, sr)
            tensor_call(rng, rec, sr, fn, wrapped(rng, base, False), k, torch.float64)
            return
        fam, s = j
        B = batch(rng, 3)
        lens = with_lens(rng, fam, s, B, 0.4)
        alg = lambda sr: getattr(ts, al.STRUCT[fam])(sr)
        ln = lambda c: torch.tensor(c.lens) if c.given else None
        single = "root" in s
        if single:
            s = dict(s, root="multi")
        shard = rng.random() < 0.6
        layout = rng.choice(["plain", "transposed", "batchlast", "slice", "strided"])
        if rng.random() < 0.65:
            c = weights(rng, fam, s, B, lens)
            c.layout = layout
            note_case(rec, c)
            cls = wrapped(rng, ts.LogSemiring, shard)
            q_partition(rec, c, None, fn=lambda: alg(cls).sum(tensors(c), ln(c)))
            q_marginals(rec, c, None, fn=lambda: alg(cls).marginals(tensors(c), ln(c)))
        else:
            c = scores(rng, fam, s, B, lens)
            c.layout = layout
            note_case(rec, c)
            cls = wrapped(rng, ts.MaxSemiring, shard)
            q_max(rec, c, None, fn=lambda: alg(cls).sum(tensors(c), ln(c)))
            q_argmax(rec, c, None, fn=lambda: alg(cls).marginals(tensors(c), ln(c)))

    return run_all(jobs, body)


# ---------------------------------------------------------------- C19
def q_simplex(rng, rec):
    rank = rng.randint(1, 3)
    shape = dims(rng, rank - 1) + [rng.choice([1, 2, 3, 4, 5, 6, 9])]
    if rng.random() < 0.2:
        shape = shape[-2:-1] + [rng.choice([12, 16, 17, 33])]
        rank = len(shape)
    den = rng.choice([4, 8, 10])
    spread_ = rng.choice([2, 6, 15, 60])
    n = int(np.prod(shape))
    v = np.array([rng.randint(-spread_, spread_) for _ in range(n)]).reshape(shape)
    if shape[-1] > 5 and rng.random() < 0.4:     # many alternatives share the weight
        v = np.array([int(rng.random() < 0.1) for _ in range(n)]).reshape(shape)
    if rng.random() < 0.2:
        v = v + rng.choice([-1000, 1000])
    mask = None
    if rng.random() < 0.3:                 # impossible alternatives
        mask = np.array([rng.random() < 0.3 for _ in range(n)]).reshape(shape)
        mask[..., 0] = False
    x = torch.tensor(v / den, dtype=torch.float64)
    if mask is not None:
        x = torch.where(torch.tensor(mask), torch.tensor(-1e5, dtype=x.dtype), x)
    g = np.array([rng.randint(1, 4) for _ in range(int(np.prod(shape[:-1])) or 1)]).reshape(shape[:-1])
    dim = rng.choice([-1, rank])
    axis = rng.randrange(rank) + 1         # which axis carries the alternatives
    x = x.movedim(-1, axis - 1).contiguous()
    gt = torch.tensor(g, dtype=x.dtype)
    dim = axis if rng.random() < 0.5 else axis - 1 - rank
    x = x.unsqueeze(0).requires_grad_(True)

    def go():
        y = ts.SparseMaxSemiring.sum(x, dim=dim) if dim != -1 or rng.random() < 0.5 else ts.SparseMaxSemiring.sum(x)
        w = torch.autograd.grad((y[0] * gt).sum(), x)[0][0].movedim(axis - 1, -1)
        w = vec(w, shape) / g[..., None]
        rows, vs = w.reshape(-1, shape[-1]), v.reshape(-1, shape[-1])
        ms = mask.reshape(-1, shape[-1]) if mask is not None else np.zeros_like(rows, dtype=bool)
        return dict(v=[[(-2000 if mm else int(a)) for a, mm in zip(r, mr)] for r, mr in zip(vs, ms)],
                    w=[[clampi(round(a * 10 ** 6)) for a in r] for r in rows])

    rec.call(dict(op="simplex", den=den, tol=30), go)
    if mask is not None:
        return

    def slope():
        u = np.array([rng.randint(-3, 3) for _ in range(n)]).reshape(shape)
        y = ts.SparseMaxSemiring.sum(x, dim=dim)
        w = torch.autograd.grad((y[0] * gt).sum(), x, create_graph=True)[0][0].movedim(axis - 1, -1)
        s = torch.autograd.grad((w * torch.tensor(u, dtype=x.dtype)).sum(), x)[0][0].movedim(axis - 1, -1)
        s = vec(s, shape) / g[..., None]
        flat = lambda a: a.reshape(-1, shape[-1])
        return dict(v=[[int(a) for a in r] for r in flat(v)], u=[[int(a) for a in r] for r in flat(u)],
                    s=[[clampi(round(a * 10 ** 6)) for a in r] for r in flat(s)])

    rec.call(dict(op="slope", den=den, tol=30), slope)


def q_sparse(rec, c, star=None):
    def go():
        alg = getattr(ts, al.STRUCT[c.fam])(ts.SparseMaxSemiring)
        x = alg.marginals(tensors(c), torch.tensor(c.lens) if c.given else None)
        return dict(m=fix6(vec(x, (c.B,) + c.shape())))

    ev = dict(op="sparse", id=c.ident, tol=100)
    if star is not None:
        ev["star"] = [plus1(p) for p in star]
    rec.call(ev, go)


@prop("C19")
def c19(deep, R):
    m = 8 if deep else 1
    jobs = [("p",)] * (150 * m)
    for fam, n in (("chain", 40), ("semi", 40), ("dep", 24), ("depl", 16), ("span", 24)):
        jobs += [("s", fam, s) for s in spread(R, fam, n * m, limit={"dep": 60, "depl": 200, "span": 200}.get(fam, 2 ** 40))]

    def body(rng, rec, kind, *j):
        if kind == "p":
            q_simplex(rng, rec)
            return
        fam, s = j
        if "root" in s:
            s = dict(s, root="multi")
        B = batch(rng, 3)
        lens = with_lens(rng, fam, s, B, 0.4)
        known = rng.random() < 0.4
        c = scores(rng, fam, s, B, lens, forb=0, far=0 if known else 0.2)
        star = None
        if known:
            star = [random_struct(rng, c, c.lens[b]) for b in range(B)]
            for b in range(B):
                for p in star[b]:
                    c.pot[b][tuple(p)] += 60
        elif rng.random() < 0.5:
            c.pot = np.clip(c.pot, -1, 1)
        note_case(rec, c)
        q_sparse(rec, c, star)

    def body2(rng, rec, fam, s, B):
        s = dict(s, root="multi") if "root" in s else s
        c = scores(rng, fam, s, B, with_lens(rng, fam, s, B, 0.4), forb=0, far=0)
        star = [random_struct(rng, c, c.lens[b]) for b in range(B)] if rng.random() < 0.5 else None
        for b in range(B if star else 0):
            for p in star[b]:
                c.pot[b][tuple(p)] += 60
        note_case(rec, c)
        q_sparse(rec, c, star)

    return run_all(jobs, body) + run_all([w for w in wide_shapes(R, 36 * m, True) if w[0] != "cfg"], body2)


# ---------------------------------------------------------------- C23
FAMILY = dict(chain="LinearChainCRF", semi="SemiMarkovCRF", dep="DependencyCRF", span="TreeCRF", cfg="SentCFG")


def shapes_of(x):
    return [list(t.shape) for t in x] if isinstance(x, (tuple, list)) else [list(x.shape)]


def q_args(rng, rec, r, query):
    fam, shape, lens = r["fam"], list(r["shape"]), list(r["lens"])
    root = rng.choice([True, False])
    about = []

    def potentials():
        if fam == "cfg":
            T = shape[-1]
            t = torch.randn(*shape), torch.randn(shape[0], 2, 2 + T, 2 + T), torch.randn(shape[0], 2)
        else:
            t = torch.randn(*shape)
        if r["values"] == "nan":
            x = rng.choice(t) if fam == "cfg" else t
            x.view(-1)[rng.randrange(x.numel())] = float("nan")
        return t

    def ask():
        t = potentials()
        kw = dict(multiroot=root) if fam == "dep" else {}
        if r["validate"]:
            kw["validate_args"] = True
        if lens:
            n = list(lens)
            if r["values"] == "minus":
                n[-1] = -n[-1]
            kw["lengths"] = torch.tensor(n)
        d = getattr(ts, FAMILY[fam])(t, **kw)
        about[:] = [list(d.batch_shape), list(d.event_shape)]
        if query == "kmax":
            return d.kmax(2)
        if query == "topk":
            return d.topk(2)
        if query == "sample":
            return d.sample((3,))
        if query == "gumbel":
            return d.gumbel_crf(1.0)
        if query == "logprob":
            return d.log_prob(tuple(torch.zeros_like(x) for x in t) if fam == "cfg" else torch.zeros([2] + shape))
        return getattr(d, query)

    def go():
        try:
            x = ask()
        except Hang:
            raise
        except Exception:
            return dict(out="refuses", got=[])
        return dict(out="answers", got=shapes_of(x), about=about)

    rec.call(dict(r, op="args", query=query), go)


def q_model(rng, rec, kind, dev, rank):
    """A search or score whose model returns scores (or states) of another shape."""
    B, C, N, K = rng.randint(1, 3), rng.randint(2, 4), rng.randint(1, 3), rng.randint(1, 2)
    S = rng.randint(1, 3)
    rows = dict(beam=K * B, greedy=B).get(kind, S * B)
    want = [rows, 1 if kind in ("beam", "greedy") else N + 1, C]
    got = [max(1, a + b) for a, b in zip(want, dev[:3])][:rank]
    back = rows + dev[3]
    nstates = rng.randint(1, 3)
    odd = rng.randrange(nstates)

    class Odd(ts.AutoregressiveModel):
        def forward(self, inputs, state=None):
            return torch.randn(*got), tuple(torch.zeros(max(1, back) if i == odd else rows, 2) for i in range(nstates))

    def go():
        d = ts.Autoregressive(Odd(), (torch.zeros(B, 2),) * nstates, C, N)
        try:
            if kind == "beam":
                d.beam_topk(K)
            elif kind == "greedy":
                d.greedy_max()
            else:
                v = torch.randint(C, (S, B, N))
                d.log_prob(v if kind == "sparse" else torch.nn.functional.one_hot(v, C), sparse=kind == "sparse")
        except Hang:
            raise
        except Exception:
            return dict(out="refuses")
        return dict(out="answers", about=[list(d.batch_shape), list(d.event_shape)])

    rec.call(dict(op="model", kind=kind, size=[[B], [N, C]], want=want, got=got, rows=max(1, back) if kind in ("beam", "greedy") else rows), go)


@prop("C23")
def c23(deep, R):
    with open(os.environ["REQUESTS"]) as f:
        reqs = [json.loads(x) for x in f]
    every = ["partition", "max", "argmax", "marginals", "entropy", "count", "kmax", "topk", "sample", "gumbel", "logprob"]
    R.shuffle(reqs)
    jobs = []
    for r in reqs:
        qs = [q for q in every if r["fam"] != "cfg" or q not in ("topk", "gumbel")]
        jobs += [(r, q) for q in (qs if deep else R.sample(qs, 1))]
    chunks = [("a", jobs[i : i + 40]) for i in range(0, len(jobs), 40)]
    devs = [(k, d, 3) for k in ("log_prob", "sparse", "beam", "greedy") for d in itertools.product((-1, 0, 1), repeat=4)]
    devs += [(k, (0, 0, 0, 0), rank) for k in ("log_prob", "sparse", "beam", "greedy") for rank in (1, 2, 3, 3, 3)]
    devs += [(k, (0, 0, 0, x), 3) for k in ("beam", "greedy") for x in (-1, 1, -1, 1, 2, 3)]
    R.shuffle(devs)
    chunks += [("m", devs[i : i + 40]) for i in range(0, len(devs), 40)]

    def body(rng, rec, kind, part):
        for x in part:
            (q_args if kind == "a" else q_model)(rng, rec, *x)

    return run_all(chunks, body)
