"""Recorder: runs the library through its public API and writes what it answers,
projected to integers, as session events for spec/Trace.tla."""
import copy
import math
import os
import random
import signal
import sys
import warnings

warnings.filterwarnings("ignore")
import numpy as np
import torch

torch.set_num_threads(1)
import torch_struct as ts

LN2 = math.log(2.0)
FORB = -100
NINF = -99
NOINT = 1999999999
CALL_LIMIT = 150
MAX_HANGS = 3


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, _alarm)


class Enough(Exception):
    """Too many calls did not return; stop recording."""


class Bad(Exception):
    """An answer that cannot be projected; the message is the clause."""


def catalan(n):
    return math.comb(2 * n, n) // (n + 1)


# ---------------------------------------------------------------- cases
FAMS = ["chain", "semi", "dep", "depl", "span", "cfg", "np"]
TENSOR = ["chain", "semi", "dep", "depl", "span"]


class Case:
    """One batch of problems of one family (integer potentials)."""

    def __init__(self, fam, N, B=1, C=2, K=2, L=1, NT=1, T=1, root="multi", lens=None):
        self.fam, self.N, self.B = fam, N, B
        self.C, self.K, self.L, self.NT, self.T, self.root = C, K, L, NT, T, root
        self.lens = list(lens) if lens is not None else [N] * B
        self.given = lens is not None
        self.dtype = torch.float64
        self.layout = "plain"
        self.grad = False
        self.shift = None
        self.pot = None
        self.ident = None
        self.live = {}  # a structure of each element that keeps its weight

    def d(self):
        return dict(fam=self.fam, C=self.C, K=self.K, L=self.L, NT=self.NT, T=self.T, root=self.root)

    def shape(self):
        N, C = self.N, self.C
        return {
            "chain": (N - 1, C, C),
            "semi": (N - 1, self.K, C, C),
            "dep": (N, N),
            "np": (N, N),
            "depl": (N, N, self.L),
            "span": (N, N, C),
        }[self.fam]

    def nstructs(self, n=None):
        n = self.N if n is None else n
        f = self.fam
        if f == "chain":
            return self.C ** n
        if f == "semi":
            a = [self.C]
            for m in range(1, n):
                a.append(sum(a[m - w] for w in range(1, min(self.K - 1, m) + 1)) * self.C)
            return a[n - 1]
        if f in ("dep", "depl"):
            return math.comb(3 * n, n) // (2 * n + 1) * (self.L ** n if f == "depl" else 1)
        if f == "np":
            return (n + 1) ** (n - 1)
        if f == "span":
            return catalan(n - 1) * self.C ** (2 * n - 1)
        return catalan(n - 1) * self.NT ** (n - 1) * self.T ** n

    def nparts(self, n=None):
        n = self.N if n is None else n
        return {"chain": n - 1, "semi": n - 1, "dep": n, "np": n, "depl": n, "span": 2 * n - 1, "cfg": 2 * n}[self.fam]


# ---------------------------------------------------------------- structures
def random_struct(rng, c, n):
    """One valid structure of length n as a list of 0-based parts (generator only)."""
    f = c.fam
    if f == "chain":
        y = [rng.randrange(c.C) for _ in range(n)]
        return [(t, y[t + 1], y[t]) for t in range(n - 1)]
    if f == "semi":
        p, out, y = 0, [], rng.randrange(c.C)
        while p < n - 1:
            w = rng.randint(1, min(c.K - 1, n - 1 - p))
            z = rng.randrange(c.C)
            out.append((p, w, z, y))
            p, y = p + w, z
        return out
    if f in ("dep", "depl", "np"):
        heads = {}

        def tree(i, j, h):  # attach words i..j under h with one child
            if i > j:
                return
            r = rng.randint(i, j)
            heads[r] = h
            side(i, r - 1, r)
            side(r + 1, j, r)

        def side(i, j, h):
            while i <= j:
                k = rng.randint(i, j)
                tree(i, k, h)
                i = k + 1

        if c.root == "single":
            tree(0, n - 1, -1)
        else:
            side(0, n - 1, -1)
        out = []
        for ch, h in heads.items():
            p = (ch if h < 0 else h, ch)
            out.append(p + (rng.randrange(c.L),) if f == "depl" else p)
        return out
    if f == "span":
        out = []

        def br(i, j):
            out.append((i, j, rng.randrange(c.C)))
            if i < j:
                k = rng.randint(i, j - 1)
                br(i, k)
                br(k + 1, j)

        br(0, n - 1)
        return out
    raise KeyError(f)


def random_cfg(rng, c, n):
    terms, rules, spans = [], [], []

    def rec(i, j):
        if i == j:
            t = rng.randrange(c.T)
            terms.append((i, t))
            return c.NT + t
        k = rng.randint(i, j - 1)
        a = rng.randrange(c.NT)
        rules.append((a, rec(i, k), rec(k + 1, j)))
        spans.append((i, j, a))
        return a

    r = rec(0, n - 1)
    return dict(terms=terms, rules=rules, roots=[r], spans=spans)


# ---------------------------------------------------------------- potentials
def bits_room(c, cap):
    return cap - math.log2(max(1, max(c.nstructs(n) for n in set(c.lens))))


def fill(rng, c, purpose, cap=23, forb=0.0, pad="rand", wide=0.2):
    """Random integer potentials.  purpose: weights (Z must stay below 2^cap) or scores."""
    if c.fam == "cfg":
        return fill_cfg(rng, c, purpose, cap, forb, pad, wide)
    shp = c.shape()
    pots = []
    for b in range(c.B):
        n = c.lens[b]
        if purpose == "scores":
            far = rng.random() < wide
            a = np.array([rng.randint(-9, 9) * (rng.choice([1, 12, 70]) if far else 1) for _ in range(int(np.prod(shp)))]).reshape(shp)
        elif purpose == "ties":
            a = np.array([rng.choice([0, 0, 1]) for _ in range(int(np.prod(shp)))]).reshape(shp)
        else:
            room = cap - math.log2(max(1, c.nstructs(n)))
            np_ = max(1, c.nparts(n))
            a = np.zeros(shp, dtype=int)
            if room >= 2 * np_:
                a = np.array([rng.choice([0, 0, 1, 1, 2]) for _ in range(a.size)]).reshape(shp)
            elif room >= np_:
                a = np.array([rng.choice([0, 1]) for _ in range(a.size)]).reshape(shp)
            elif room >= 1:
                for _ in range(int(room)):
                    a.flat[rng.randrange(a.size)] = 1
        if forb > 0:
            c.live[b] = random_struct(rng, c, n)
            keep = set(c.live[b])
            for i in np.ndindex(*shp):
                if i not in keep and rng.random() < forb:
                    a[i] = FORB
        padding(rng, c, a, n, pad)
        pots.append(a)
    c.pot = np.stack(pots) if c.B else None
    return c


def seen(c, a):
    """The potentials of one element with nothing excluded."""
    if c.fam == "cfg":
        return {k: np.where(v < -50, 0, v) for k, v in a.items()}
    return np.where(a < -50, 0, a)


def raise_some(rng, c, b, cap, tries=14):
    """Raise single entries of one element as far as its total weight allows (very uneven weights)."""
    n = c.lens[b]
    a = c.pot[b]
    if c.fam == "cfg":
        at = [(a[k], i) for k in ("terms", "rules", "roots") for i in np.ndindex(*a[k].shape) if (k != "terms" or i[0] < n)]
    else:
        m = inner_mask(c, n)
        at = [(a, i) for i in np.ndindex(*c.shape()) if m[i]]
    at = [(x, i) for x, i in at if x[i] > -50]
    for x, i in rng.sample(at, min(len(at), tries)):
        old = x[i]
        x[i] = rng.randint(2, 24)
        while x[i] > old and bound(c, seen(c, a), n) > 2 ** cap:
            x[i] -= 1


def lower_some(rng, c, p):
    """Give some parts a finite potential so low that their weight cannot be seen (score still exact)."""
    for b in range(c.B):
        n = c.lens[b]
        if c.fam == "cfg":
            t = c.live[b] if b in c.live else random_cfg(rng, c, n)
            for k in ("terms", "rules", "roots"):
                on = {x if isinstance(x, tuple) else (x,) for x in t[k]}
                for i in np.ndindex(*c.pot[b][k].shape):
                    if i not in on and rng.random() < p and (k != "terms" or i[0] < n):
                        c.pot[b][k][i] = -rng.randint(101, 700)
        else:
            on = set(c.live[b] if b in c.live else random_struct(rng, c, n))
            m = inner_mask(c, n)
            for i in np.ndindex(*c.shape()):
                if m[i] and i not in on and rng.random() < p:
                    c.pot[b][i] = -rng.randint(101, 700)
    return c


def inner_mask(c, n):
    """Entries that can belong to a structure of length n."""
    m = np.zeros(c.shape(), dtype=bool)
    for i in np.ndindex(*c.shape()):
        if c.fam == "chain":
            m[i] = i[0] < n - 1
        elif c.fam == "semi":
            m[i] = i[1] >= 1 and i[0] + i[1] <= n - 1
        elif c.fam in ("dep", "depl", "np"):
            m[i] = i[0] < n and i[1] < n
        else:
            m[i] = i[0] <= i[1] < n
    return m


# Content of the padding that no arithmetic survives; recorded by its code, which no answer reads.
WILD = {1000001: float("inf"), 1000002: float("nan"), 1000003: 1e30, 1000004: -1e30, 1000005: -float("inf"), 1000006: 3e6}


def tame(raw, x):
    """Put the real values of the codes into x."""
    for code, v in WILD.items():
        x[raw == code] = v
    return x


def beyond(c, n, i):
    """Entry i lies past the length (unlike one that belongs to no structure of any length)."""
    if c.fam == "chain":
        return i[0] >= n - 1
    if c.fam == "semi":
        return i[0] >= n - 1 or i[0] + i[1] > n - 1
    return i[0] >= n or i[1] >= n


def padding(rng, c, a, n, pad):
    if pad == "keep":
        return
    m = inner_mask(c, n)
    some = rng.sample(sorted(WILD), rng.choice([1, 1, len(WILD)])) if pad == "wild" else None
    for i in np.ndindex(*c.shape()):
        if not m[i]:
            if pad == "rand":
                a[i] = rng.randint(-5, 5)
            elif pad == "huge":
                a[i] = rng.choice([-900, -300, 300, 900, 0])
            elif pad == "wild":
                a[i] = rng.choice(some) if beyond(c, n, i) else rng.randint(-5, 5)
            elif pad == "zero":
                a[i] = 0


def fill_cfg(rng, c, purpose, cap, forb, pad, wide):
    S = c.NT + c.T
    pots = []
    for b in range(c.B):
        n = c.lens[b]
        room = cap - math.log2(max(1, c.nstructs(n)))
        if purpose == "scores":
            far = rng.random() < wide
            val = lambda: rng.randint(-9, 9) * (rng.choice([1, 12, 70]) if far else 1)
        elif purpose == "ties":
            val = lambda: rng.choice([0, 0, 1])
        elif room >= 2 * n:
            val = lambda: rng.choice([0, 0, 1])
        else:
            val = lambda: 0
        V = dict(
            terms=np.array([[val() for _ in range(c.T)] for _ in range(c.N)]),
            rules=np.array([[[val() for _ in range(S)] for _ in range(S)] for _ in range(c.NT)]),
            roots=np.array([val() for _ in range(c.NT)]),
        )
        if purpose == "weights" and room < 2 * n:
            for _ in range(max(0, int(room) // n)):
                V["rules"].flat[rng.randrange(V["rules"].size)] = 1
                break
            for _ in range(max(0, int(room) - n)):
                V["terms"][rng.randrange(n), rng.randrange(c.T)] = 1
        if forb > 0:
            c.live[b] = k = random_cfg(rng, c, n)
            kr, kt = set(k["rules"]), set(k["terms"])
            for i in np.ndindex(*V["rules"].shape):
                if i not in kr and rng.random() < forb:
                    V["rules"][i] = FORB
            for i in np.ndindex(*V["terms"].shape):
                if i not in kt and rng.random() < forb:
                    V["terms"][i] = FORB
        for i in range(n, c.N):
            for t in range(c.T):
                V["terms"][i, t] = {"rand": rng.randint(-5, 5), "huge": rng.choice([-900, 900, 300]), "wild": rng.choice(sorted(WILD)), "zero": 0}.get(pad, V["terms"][i, t])
        pots.append(V)
    c.pot = pots
    return c


def sparse_long(rng, c, free):
    """Chains and segmentations too long to have few structures: all but `free`
    positions are forced, so that the total weight stays small."""
    shp = c.shape()
    pots = []
    for b in range(c.B):
        n = c.lens[b]
        keep = random_struct(rng, c, n)
        a = np.full(shp, FORB)
        for p in keep:
            a[p] = 0
        extra = [random_struct(rng, c, n) for _ in range(3)]
        opened = rng.sample(range(max(1, n - 1)), min(free, max(1, n - 1)))
        for s in extra:
            for p in s:
                if p[0] in opened:
                    a[p] = rng.choice([0, 1])
        padding(rng, c, a, n, "rand")
        pots.append(a)
    c.pot = np.stack(pots)
    return c


def bound(c, a, n):
    """Upper bound of the total weight of the structures of length n."""
    w = lambda e: 0 if e < -50 else 2 ** int(e)
    if c.fam == "chain":
        v = [1] * c.C
        for t in range(n - 1):
            v = [sum(w(a[t, i, j]) * v[j] for j in range(c.C)) for i in range(c.C)]
        return sum(v)
    if c.fam == "semi":
        v = [[1] * c.C]
        for t in range(1, n):
            v.append([sum(w(a[t - k, k, i, j]) * v[t - k][j] for k in range(1, min(c.K - 1, t) + 1) for j in range(c.C)) for i in range(c.C)])
        return sum(v[n - 1])
    if c.fam in ("dep", "depl", "np"):
        return math.prod(sum(w(e) for e in a[:n, j].flat) for j in range(n))
    if c.fam == "span":
        lab = [[sum(w(e) for e in a[i, j]) for j in range(n)] for i in range(n)]
        t = {(i, i): lab[i][i] for i in range(n)}
        for k in range(1, n):
            for i in range(n - k):
                t[i, i + k] = lab[i][i + k] * sum(t[i, m] * t[m + 1, i + k] for m in range(i, i + k))
        return t[0, n - 1]
    S = c.NT + c.T
    t = {(i, i): [0] * c.NT + [w(e) for e in a["terms"][i]] for i in range(n)}
    ru = [(x, y, z, w(a["rules"][x, y, z])) for x, y, z in np.ndindex(c.NT, S, S) if a["rules"][x, y, z] > -50]
    for k in range(1, n):
        for i in range(n - k):
            v = [0] * S
            for x, y, z, q in ru:
                v[x] += q * sum(t[i, m][y] * t[m + 1, i + k][z] for m in range(i, i + k))
            t[i, i + k] = v
    return sum(t[0, n - 1][x] * w(a["roots"][x]) for x in range(c.NT))


def few(rng, c, cap=22, hi=2, pad="rand"):
    """Potentials that leave only the parts of a few random structures (any shape, small totals)."""
    pots = []
    c.kept = []
    for b in range(c.B):
        n = c.lens[b]
        c.kept.append([])
        S = c.NT + c.T
        if c.fam == "cfg":
            a = dict(terms=np.full((c.N, c.T), FORB), rules=np.full((c.NT, S, S), FORB), roots=np.full(c.NT, FORB))
        else:
            a = np.full(c.shape(), FORB)
        for m in range(rng.randint(1, 5)):
            old = copy.deepcopy(a)
            t = random_cfg(rng, c, n) if c.fam == "cfg" else random_struct(rng, c, n)
            c.kept[b].append(t)
            if c.fam == "cfg":
                for k in ("terms", "rules", "roots"):
                    for p in t[k]:
                        if a[k][p] < -50:
                            a[k][p] = rng.randint(0, hi if k != "rules" and n < 7 else 0)
            else:
                for p in t:
                    if a[p] < -50:
                        a[p] = rng.choice([0, 0] + list(range(hi + 1)))
            if m == 0 and bound(c, a, n) > 2 ** cap:
                for x in a.values() if c.fam == "cfg" else (a,):
                    x[x > 0] = 0
            elif m and bound(c, a, n) > 2 ** cap:
                a = old
                c.kept[b].pop()
        if c.fam == "cfg":
            for i in range(n, c.N):
                for t in range(c.T):
                    a["terms"][i, t] = {"rand": rng.randint(-5, 5), "huge": rng.choice([-900, 900, 300]), "wild": rng.choice(sorted(WILD))}.get(pad, 0)
        else:
            padding(rng, c, a, n, pad)
        pots.append(a)
    c.pot = pots if c.fam == "cfg" else np.stack(pots)
    return c


# ---------------------------------------------------------------- construction
def layouted(t, layout):
    if layout == "plain":
        return t
    if layout == "transposed" and t.dim() >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    if layout == "batchlast":
        p = list(range(1, t.dim())) + [0]
        inv = [t.dim() - 1] + list(range(t.dim() - 1))
        return t.permute(p).contiguous().permute(inv)
    if layout == "slice":
        big = torch.full(tuple(s + 2 for s in t.shape), 7.25, dtype=t.dtype)
        ix = tuple(slice(1, s + 1) for s in t.shape)
        big[ix] = t
        return big[ix]
    if layout == "expanded":                # every element is the first one
        return t[:1].clone().expand(t.shape)
    if layout == "strided":
        big = torch.full(t.shape[:-1] + (2 * t.shape[-1],), -3.5, dtype=t.dtype)
        big[..., ::2] = t
        return big[..., ::2]
    return t


def shifts(c):
    """Real offsets added to the potentials so that element b of length n gains sum(shift[b][:n])."""
    f = c.fam
    off = np.zeros((c.B,) + (c.shape() if f != "cfg" else (c.N, c.T)))
    for b in range(c.B):
        s = c.shift[b]
        if f == "chain":
            for n in range(c.N - 1):
                off[b, n] += s[n]
        elif f == "semi":
            for n in range(c.N - 1):
                for k in range(c.K):
                    off[b, n, k] += sum(s[n : n + k])
        elif f in ("dep", "depl", "np"):
            for n in range(c.N):
                off[b, :, n] += s[n]
        elif f == "span":
            for n in range(c.N):
                off[b, n, n] += s[n]
        else:
            for n in range(c.N):
                off[b, n] += s[n]
    return off


def tensors(c):
    def mk(a):
        t = torch.tensor(np.asarray(a, dtype=float) * LN2, dtype=c.dtype)
        return layouted(t, c.layout)

    if c.fam == "cfg":
        def part(k):
            raw = np.stack([v[k] for v in c.pot])
            x = raw.astype(float)
            if k == "terms" and c.shift is not None:
                x = x + shifts(c)
            x[raw == NINF] = -np.inf
            return mk(tame(raw, x))

        out = tuple(part(k) for k in ("terms", "rules", "roots"))
        if c.grad:
            out = tuple(t.detach().requires_grad_(True) if c.layout == "plain" else t for t in out)
        return out
    a = c.pot.astype(float)
    if c.shift is not None:
        a = a + shifts(c)
    a[c.pot == NINF] = -np.inf
    t = mk(tame(c.pot, a))
    if c.grad:
        t = t.detach().requires_grad_(True)
    return t


DIST = dict(chain="LinearChainCRF", semi="SemiMarkovCRF", dep="DependencyCRF", depl="DependencyCRF",
            span="TreeCRF", cfg="SentCFG", np="NonProjectiveDependencyCRF")


def construct(c, t=None):
    t = tensors(c) if t is None else t
    cls = getattr(ts, DIST[c.fam])
    kw = {}
    if c.given:
        kw["lengths"] = torch.tensor(c.lens)
    if c.fam in ("dep", "depl", "np"):
        kw["multiroot"] = c.root == "multi"
    return cls(t, **kw)


# ---------------------------------------------------------------- recorder
class Rec:
    hangs = 0

    def __init__(self):
        self.events = []
        self.n = 0
        self.ops = {}

    def add(self, ev):
        self.ops[ev["op"]] = self.ops.get(ev["op"], 0) + 1
        self.events.append(ev)

    def call(self, ev, fn):
        """Run fn(), which fills in the answer; record how it went."""
        ev["st"] = "ok"
        signal.alarm(CALL_LIMIT)
        try:
            ev.update(fn())
        except Hang:
            ev["st"] = "hangs"
        except Bad as e:
            ev["st"] = str(e)
        except MemoryError:
            raise
        except Exception as e:  # the library raised inside its documented domain
            ev["st"] = "raises " + type(e).__name__
            ev["msg"] = str(e)[:200]
        finally:
            signal.alarm(0)
        self.add(ev)
        if ev["st"] == "hangs":
            Rec.hangs += 1
            if Rec.hangs >= MAX_HANGS:
                raise Enough()
        return ev["st"] == "ok"

    def new(self, c, t=None, note=None):
        self.n += 1
        c.ident = self.n
        ev = dict(op="new", id=self.n, d=c.d(), B=c.B, N=c.N, lens=c.lens)
        if c.fam == "cfg":
            ev["pot"] = [{k: v[k].tolist() for k in ("terms", "rules", "roots")} for v in c.pot]
        else:
            ev["pot"] = c.pot.tolist()
        if c.shift is not None:
            ev["shift"] = c.shift
        ev["opt"] = [str(c.dtype), c.layout, c.grad, c.given]
        if note:
            ev["note"] = note
        box = {}

        def go():
            box["d"] = construct(c, t)
            return {}

        self.call(ev, go)
        return box.get("d")


def vec(x, shape, dtype=None):
    if not torch.is_tensor(x):
        raise Bad("not a tensor")
    if tuple(x.shape) != tuple(shape):
        raise Bad("shape")
    if dtype is not None and x.dtype != dtype:
        raise Bad("dtype")
    a = x.detach().cpu().double().numpy()
    if not np.isfinite(a).all():
        raise Bad("not finite")
    return a


def clampi(x):
    return int(max(-1999999990, min(1999999990, x)))


def as_int(x, tol=1e-3):
    r = round(x)
    return clampi(r) if abs(x - r) <= tol else NOINT


def rtol(c):
    return 1e-9 if c.dtype == torch.float64 else 2e-5


def interval(x, r, slack=1e-3):
    return clampi(math.ceil(x * (1 - r) - slack)), clampi(math.floor(x * (1 + r) + slack))


def tot(c):
    return [sum(c.shift[b][: (c.lens[b] - 1 if c.fam in ("chain", "semi") else c.lens[b])]) for b in range(c.B)]


def expz(c, p, b, total):
    v = p[b] - total[b] * LN2
    return math.exp(min(v, 25.0)) if v < 25 else 1.9e9


def shift_tol(c):
    """Relative error of exp() caused by rounding at the size of the offsets."""
    big = 1.0
    if c.shift is not None:
        big += max(sum(abs(x) for x in s) for s in c.shift)
    if c.fam != "cfg" and c.pot is not None:
        big += float(np.abs(c.pot[(c.pot != NINF) & (c.pot < 1000000)]).max(initial=0)) * (2 if c.dtype == torch.float64 else 1)
    eps = 2.3e-16 if c.dtype == torch.float64 else 1.2e-7
    return eps * big * 40


def q_partition(rec, c, dist, nprtol=None, fn=None):
    def go():
        p = vec((fn or (lambda: dist.partition))(), (c.B,), c.dtype)
        total = tot(c) if c.shift is not None else [0] * c.B
        r = rtol(c) + shift_tol(c) if nprtol is None else nprtol
        iv = [interval(expz(c, p, b, total), r) for b in range(c.B)]
        out = dict(lo=[i[0] for i in iv], hi=[i[1] for i in iv])
        if c.shift is not None:
            out["tot"] = total
        return out

    return rec.call(dict(op="partition", id=c.ident), go)


def score_tol(c):
    return max(1e-4 if c.dtype == torch.float64 else 2e-2, shift_tol(c))


def q_max(rec, c, dist, fn=None):
    def go():
        m = vec((fn or (lambda: dist.max))(), (c.B,), c.dtype)
        total = tot(c) if c.shift is not None else [0] * c.B
        out = dict(x=[as_int(m[b] / LN2 - total[b], score_tol(c)) for b in range(c.B)])
        if c.shift is not None:
            out["tot"] = total
        return out

    return rec.call(dict(op="max", id=c.ident), go)


def parts_of(a):
    """(clean, parts) of one event array."""
    on = a > 0.5
    clean = bool((np.abs(a - on) <= 1e-4).all()) and int(on.sum()) <= 400
    return clean, ((np.argwhere(on) + 1).tolist() if clean else [])


def cfg_event(c, tm, ru, ro, sp):
    cl, terms = parts_of(tm)
    r = np.rint(ru)
    cl = cl and bool((np.abs(ru - r) <= 1e-4).all()) and bool((r >= 0).all())
    rules = [[int(i) + 1 for i in ix] + [int(r[tuple(ix)])] for ix in np.argwhere(r > 0)]
    c2, roots = parts_of(ro)
    c3, spans = parts_of(sp)
    cl = cl and c2 and c3
    return cl, dict(terms=terms, rules=rules, roots=[x[0] for x in roots], spans=[[i, i + w, a] for w, i, a in spans])


def cfg_shapes(c):
    S = c.NT + c.T
    return [(c.B, c.N, c.T), (c.B, c.NT, S, S), (c.B, c.NT), (c.B, c.N, c.N, c.NT)]


def q_argmax(rec, c, dist, attr="argmax", fn=None):
    def go():
        e = fn() if fn else getattr(dist, attr)
        if c.fam == "cfg":
            if len(e) != 4:
                raise Bad("shape")
            a = [vec(x, s, c.dtype) for x, s in zip(e, cfg_shapes(c))]
            r = [cfg_event(c, a[0][b], a[1][b], a[2][b], a[3][b]) for b in range(c.B)]
            return dict(clean=[x[0] for x in r], ev=[x[1] for x in r])
        a = vec(e, (c.B,) + c.shape(), c.dtype)
        r = [parts_of(a[b]) for b in range(c.B)]
        return dict(clean=[x[0] for x in r], parts=[x[1] for x in r])

    return rec.call(dict(op="argmax", id=c.ident, via=attr), go)


def q_kmax(rec, c, dist, k):
    def go():
        v = vec(dist.kmax(k), (k, c.B), c.dtype)
        total = tot(c) if c.shift is not None else [0] * c.B
        out = dict(k=k, v=[[as_int(v[i, b] / LN2 - total[b], score_tol(c) * 2) for b in range(c.B)] for i in range(k)])
        if c.shift is not None:
            out["tot"] = total
        return out

    return rec.call(dict(op="kmax", id=c.ident), go)


def q_topk(rec, c, dist, k):
    def go():
        e = dist.topk(k)
        if c.fam == "cfg":
            S = c.NT + c.T
            tm = np.rint(vec(e[0], (c.B, c.N, c.T), c.dtype))
            ru = np.rint(vec(e[1], (c.B, c.NT, S, S), c.dtype))
            ro = np.rint(vec(e[2], (c.B, c.NT), c.dtype))
            sp = vec(e[3], (k, c.B, c.N, c.N, c.NT), c.dtype)
            pr = [[parts_of(sp[i, b]) for b in range(c.B)] for i in range(k)]
            nz = lambda a: [[int(j) + 1 for j in ix] + [int(a[tuple(ix)])] for ix in np.argwhere(a)]
            return dict(k=k, clean=[[x[0] for x in r] for r in pr],
                        spans=[[[[i, i + w, a] for w, i, a in x[1]] for x in r] for r in pr],
                        ev=[dict(terms=nz(tm[b]), rules=nz(ru[b]), roots=nz(ro[b])) for b in range(c.B)])
        a = vec(e, (k, c.B) + c.shape(), c.dtype)
        r = [[parts_of(a[i, b]) for b in range(c.B)] for i in range(k)]
        return dict(k=k, clean=[[x[0] for x in y] for y in r], parts=[[x[1] for x in y] for y in r])

    return rec.call(dict(op="topk", id=c.ident), go)


def fix6(a):
    return np.rint(np.clip(a, -1000, 1000) * 1e6).astype(int).tolist()


def mtol(c):
    return (4 if c.dtype == torch.float64 else 150) + int(1e6 * shift_tol(c))


def q_marginals(rec, c, dist, tol=None, fn=None, via="marginals"):
    def go():
        m = (fn or (lambda: dist.marginals))()
        t = mtol(c) if tol is None else tol
        if c.fam == "cfg":
            if len(m) != 4:
                raise Bad("shape")
            a = [vec(x, s, c.dtype) for x, s in zip(m, cfg_shapes(c))]
            return dict(tol=t * 3, m=[dict(terms=fix6(a[0][b]), rules=fix6(a[1][b]), roots=fix6(a[2][b]), spans=fix6(a[3][b])) for b in range(c.B)])
        return dict(tol=t, m=fix6(vec(m, (c.B,) + c.shape(), c.dtype)))

    return rec.call(dict(op="marginals", id=c.ident, via=via), go)


def q_count(rec, c, dist):
    def go():
        v = vec(dist.count, (c.B,), c.dtype)
        return dict(x=[as_int(v[b], 1e-6 if c.dtype == torch.float64 else 0.1) for b in range(c.B)])

    return rec.call(dict(op="count", id=c.ident), go)


def zints(c, dist):
    """The normalisers as integers (the specification compares them with its own)."""
    p = vec(dist.partition, (c.B,), c.dtype)
    total = tot(c) if c.shift is not None else [0] * c.B
    return [max(1, as_int(expz(c, p, b, total), 0.4)) for b in range(c.B)]


def score_of(c, lp, z):
    """Log-probability turned back into the integer score of the event."""
    return as_int(lp / LN2 + math.log2(z), score_tol(c)) if math.isfinite(lp) else NOINT


def q_entropy(rec, c, dist, ref=None):
    """ref: a fresh distribution from which the normaliser is read."""

    def go():
        h = vec(dist.entropy, (c.B,), c.dtype)
        p = vec((ref or dist).partition, (c.B,), c.dtype)
        total = tot(c) if c.shift is not None else [0] * c.B
        zi, lo, hi = [], [], []
        for b in range(c.B):
            z = max(1, as_int(expz(c, p, b, total), 0.4))
            x = z * (math.log2(z) - h[b] / LN2)
            r = z * (1e-8 if c.dtype == torch.float64 else 2e-4) + z * shift_tol(c) * 2 + 1e-4
            zi.append(z)
            lo.append(clampi(math.ceil(x - r)))
            hi.append(clampi(math.floor(x + r)))
        return dict(zi=zi, lo=lo, hi=hi)

    return rec.call(dict(op="entropy", id=c.ident), go)


def q_cross(rec, c, dist, c2, dist2, kind):
    def go():
        h = vec(dist.cross_entropy(dist2) if kind == "ce" else dist.kl(dist2), (c.B,), c.dtype)
        pp = vec(dist.partition, (c.B,), c.dtype)
        pq = vec(dist2.partition, (c.B,), c.dtype)
        zp, zq, lo, hi = [], [], [], []
        zs = [tot(x) if x.shift is not None else [0] * c.B for x in (c, c2)]
        for b in range(c.B):
            a, q = max(1, as_int(expz(c, pp, b, zs[0]), 0.4)), max(1, as_int(expz(c2, pq, b, zs[1]), 0.4))
            x = a * (math.log2(q) - h[b] / LN2) if kind == "ce" else a * (math.log2(q) - math.log2(a) - h[b] / LN2)
            r = a * (1e-8 if c.dtype == torch.float64 else 2e-4) + a * (shift_tol(c) + shift_tol(c2)) * 2 + 1e-4
            zp.append(a)
            zq.append(q)
            lo.append(clampi(math.ceil(x - r)))
            hi.append(clampi(math.floor(x + r)))
        return dict(zp=zp, zq=zq, lo=lo, hi=hi)

    return rec.call(dict(op=kind, id=c.ident, id2=c2.ident), go)


def one_hot(c, parts, dtype):
    t = torch.zeros(c.shape(), dtype=dtype)
    for p in parts:
        t[tuple(p)] = 1
    return t


def plus1(parts):
    return [[int(x) + 1 for x in p] for p in parts]


def mix_lens(rng, N, B, low=1):
    ls = [rng.randint(low, N) for _ in range(B)]
    ls[rng.randrange(B)] = N
    return ls
