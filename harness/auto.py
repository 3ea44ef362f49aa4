"""Recording of autoregressive models given as score tables."""
from lib import *


KINDS = ("pair", "deep", "flat", "four")


def pack(kind, b, code):
    """One row of a state tensor standing for element b and a prefix code."""
    if kind == "pair":
        return torch.tensor([b, code], dtype=torch.float64)
    if kind == "deep":
        return torch.tensor([[code, b, 7]])
    if kind == "flat":
        return torch.tensor(code * 64 + b)
    return torch.tensor([[[b, 5]], [[code, 3]]], dtype=torch.float64)


def unpack(kind, x):
    v = [int(i) for i in x.reshape(-1)]
    if kind == "pair":
        return v[0], v[1]
    if kind == "deep":
        return (v[1], v[0]) if v[2] == 7 else (-1, 0)
    if kind == "flat":
        return v[0] % 64, v[0] // 64
    return (v[0], v[2]) if (v[1], v[3]) == (5, 3) else (-1, 0)


class Table(torch.nn.Module):
    """A model given by a score table.  Every tensor of its state (of different
    ranks and dtypes) spells the element and prefix it stands for; tensors that
    disagree give different scores."""

    def __init__(self, tab, C, N, start, dtype, kinds=("pair", "deep")):
        super().__init__()
        self.tab, self.C, self.N, self.start, self.dtype, self.kinds = tab, C, N, start, dtype, kinds
        self.soft = []

    def init_state(self, B):
        return tuple(torch.stack([pack(k, b, 0) for b in range(B)]) for k in self.kinds)

    def row(self, b, pre):
        """pre: tokens consumed so far, start token first."""
        if b < 0 or not pre or pre[0] != self.start or len(pre) > self.N or max(pre[1:], default=0) >= self.C:
            return [((3 * c + len(pre)) % 4) for c in range(self.C)] if len(pre) <= self.N else [0] * self.C
        k = 0
        for t in pre[1:]:
            k = k * self.C + t
        return self.tab[b][len(pre) - 1][k]

    def decode(self, code):
        out = []
        base = 2 * self.C + 12
        while code:
            out.append(code % base - 1)
            code //= base
        return out[::-1]

    def forward(self, inputs, state):
        rows, n = inputs.shape[0], inputs.shape[1]
        base = 2 * self.C + 12
        if inputs.dim() == 3:
            self.soft.append(inputs.detach().clone())
            inputs = inputs.argmax(-1)
        if len(state) != len(self.kinds) or any(s.shape[0] != rows for s in state):
            raise ValueError("state rows")
        logits = torch.zeros(rows, n, self.C, dtype=self.dtype)
        new = [[] for _ in self.kinds]
        for r in range(rows):
            marks = [list(unpack(k, s[r])) for k, s in zip(self.kinds, state)]
            for j in range(n):
                tok = int(inputs[r, j])
                for m in marks:
                    m[1] = m[1] * base + tok + 1
                reads = [(m[0], self.decode(m[1])) for m in marks]
                v = list(self.row(*reads[0]))
                for x in reads[1:]:
                    if x != reads[0]:
                        w = self.row(*x)
                        v = [v[c] + 2 * w[(c + 1) % self.C] + 1 + c for c in range(self.C)]
                logits[r, j] = torch.tensor(v, dtype=self.dtype) * LN2
            for i, (k, m) in enumerate(zip(self.kinds, marks)):
                new[i].append(pack(k, *m))
        return logits, tuple(torch.stack(x) for x in new)


class ACase:
    def __init__(self, rng, C, N, B, norm, emax, start=None, dtype=torch.float64, distinct=False):
        self.C, self.N, self.B, self.norm, self.dtype = C, N, B, norm, dtype
        self.kinds = rng.choice([("pair", "deep"), ("flat",), ("flat", "four"), ("deep", "flat", "pair"), ("four",), KINDS])
        self.start = rng.choice([0, 0, rng.randrange(C), C, C + 3]) if start is None else start
        self.tab = []
        for _ in range(B):
            lv = []
            for n in range(N):
                rows = []
                for _ in range(C ** n):
                    if distinct:
                        rows.append(rng.sample(range(emax + 1), C))
                    else:
                        rows.append([rng.randint(0, emax) for _ in range(C)])
                lv.append(rows)
            self.tab.append(lv)


class Mixed(Table):
    """A model of any size: the scores of a step depend on the prefix through a mixed number.
    Every state tensor holds the element and a code of the prefix length and that number."""

    def __init__(self, c):
        super().__init__(c.tab, c.C, c.N, c.start, c.dtype, c.kinds)
        self.H, self.unit, self.off = c.H, c.unit, c.off

    def step(self, code, tok):
        n, h = divmod(code, self.H)
        if n == 0:
            return self.H + (0 if tok == self.start else 1)
        return (n + 1) * self.H + (h * 3 + tok + 1) % self.H

    def forward(self, inputs, state):
        rows, n = inputs.shape[0], inputs.shape[1]
        if len(state) != len(self.kinds) or any(s.shape[0] != rows for s in state):
            raise ValueError("state rows")
        out = np.zeros((rows, n, self.C))
        new = [[] for _ in self.kinds]
        for r in range(rows):
            marks = [list(unpack(k, s[r])) for k, s in zip(self.kinds, state)]
            for j in range(n):
                for m in marks:
                    m[1] = self.step(m[1], int(inputs[r, j]))
                b, code = marks[0]
                t, h = divmod(code, self.H)
                if t <= self.N and 0 <= b < len(self.tab):
                    v = self.tab[b][t - 1][h] if all(m == marks[0] for m in marks) else self.tab[b][t - 1][h][::-1]
                    out[r, j] = (np.array(v) + self.off[b][t - 1][h]) * self.unit
            for i, (k, m) in enumerate(zip(self.kinds, marks)):
                new[i].append(pack(k, *m))
        return torch.tensor(out, dtype=self.dtype), tuple(torch.stack(x) for x in new)


class WCase:
    """A large model: the rows of a step are permutations of one set of distinct integers."""

    def __init__(self, rng, C, N, B, norm):
        self.C, self.N, self.B, self.norm, self.dtype = C, N, B, norm, torch.float64
        self.kinds = rng.choice([("pair", "deep"), ("flat",), ("flat", "four"), ("deep", "flat", "pair")])
        self.start = rng.choice([0, rng.randrange(C), C])
        self.H = rng.choice([7, 11])
        self.unit = LN2 / 64
        top = rng.choice([600, 4000, 40000])
        self.tab, self.off = [], []
        self.logz = np.zeros((B, N))
        for b in range(B):
            lv = []
            for n in range(N):
                xs = [x - rng.choice([0, top // 2, top]) for x in rng.sample(range(top), C)]
                lv.append([rng.sample(xs, C) for _ in range(self.H)])
                v = np.array(xs) * self.unit
                self.logz[b, n] = (math.log(np.exp(v - v.max()).sum()) + v.max()) if norm else 0.0
            self.tab.append(lv)
            self.off.append([[rng.randint(-5000, 5000) if norm else 0 for _ in range(self.H)] for _ in range(N)])

    def val(self, b, p):
        """Score of a path in units (only used to avoid ties)."""
        h, v = 0, 0
        for n, t in enumerate(p):
            v += self.tab[b][n][h][t]
            h = (h * 3 + t + 1) % self.H
        return v


def anew(rec, c):
    rec.n += 1
    c.ident = rec.n
    ev = dict(op="anew", id=rec.n, C=c.C, N=c.N, B=c.B, norm=c.norm, tab=c.tab, start=c.start, opt=[str(c.dtype)] + list(c.kinds))
    if hasattr(c, "H"):
        ev["H"] = c.H
    box = {}

    def go():
        c.model = Mixed(c) if hasattr(c, "H") else Table(c.tab, c.C, c.N, c.start, c.dtype, c.kinds)
        box["d"] = ts.Autoregressive(c.model, c.model.init_state(c.B), c.C, c.N, normalize=c.norm, start_class=c.start)
        return {}

    rec.call(ev, go)
    return box.get("d")


def tol(c):
    return 5 if c.dtype == torch.float64 else 120


def onehots(a):
    """(clean, classes) of an N x C array."""
    on = a > 0.5
    clean = bool((np.abs(a - on) <= 1e-4).all()) and bool((on.sum(-1) == 1).all())
    return clean, (on.argmax(-1).tolist() if clean else [])


def sc(c, x, b=0, n=None):
    """Reported score of a path of element b (or of its step n)."""
    if hasattr(c, "H"):
        return as_int((x + (c.logz[b].sum() if n is None else c.logz[b, n])) / c.unit, 1e-3)
    if c.norm:
        return clampi(round(math.exp(min(x, 3.0)) * 1e6))
    return as_int(x / LN2, 1e-3)


def q_greedy(rec, c, d, alpha=None):
    def go():
        c.model.soft = []
        path, score, logits = d.greedy_max() if alpha is None else d.greedy_tempmax(alpha)
        a = vec(path, (c.B, c.N, c.C))
        s = vec(score, (c.B,))
        g = vec(logits, (c.B, c.N, c.C))
        if alpha is not None:
            # the path is a softmax at the given temperature; its mode is the greedy path
            if (a < -1e-6).any() or np.abs(a.sum(-1) - 1).max() > 1e-3:
                raise Bad("not a distribution")
            b = np.zeros_like(a)
            np.put_along_axis(b, a.argmax(-1)[..., None], 1.0, -1)
            a = b
        r = [onehots(a[b]) for b in range(c.B)]
        soft = {}
        if alpha in (1, 2, 3):
            # what the model was given after the first step
            x = [vec(t, (c.B, 1, c.C)) for t in c.model.soft]
            soft = dict(alpha=alpha, soft=[fix6(np.stack([t[b, 0] for t in x])) if x else [] for b in range(c.B)])
        return dict(**soft, tol=tol(c), clean=[x[0] for x in r], paths=[x[1] for x in r], score=[sc(c, s[b], b) for b in range(c.B)],
                    rows=[[[sc(c, g[b, n, k], b, n) for k in range(c.C)] for n in range(c.N)] for b in range(c.B)])

    return rec.call(dict(op="greedy" if alpha is None else "tempgreedy", id=c.ident), go)


def q_beam(rec, c, d, K):
    def go():
        a = vec(d.beam_topk(K), (K, c.B, c.N, c.C))
        r = [[onehots(a[i, b]) for b in range(c.B)] for i in range(K)]
        out = dict(tol=tol(c), K=K, clean=[[x[0] for x in y] for y in r], paths=[[x[1] for x in y] for y in r])
        if all(x[0] for y in r for x in y):
            lp = vec(d.log_prob(torch.tensor(a)), (K, c.B))
            out["score"] = [[sc(c, lp[i, b], b) for b in range(c.B)] for i in range(K)]
        return out

    return rec.call(dict(op="beam", id=c.ident), go)


def q_seqprob(rec, c, d, seqs, sparse, allb=None, dtype=torch.long):
    """seqs: list (sample) of list (batch) of class sequences."""

    def go():
        S = len(seqs)
        v = torch.tensor(seqs)
        if not sparse:
            v = torch.nn.functional.one_hot(v, c.C)
        lp = vec(d.log_prob(v.to(dtype), sparse=True) if sparse else d.log_prob(v.to(dtype)), (S, c.B))
        items = [dict(b=b + 1, p=seqs[i][b], s=sc(c, lp[i, b], b)) for i in range(S) for b in range(c.B) if allb is None or b == allb - 1]
        return dict(tol=tol(c), items=items)

    ev = dict(op="seqprob", id=c.ident, sparse=sparse)
    if allb is not None:
        ev["all"] = allb
    return rec.call(ev, go)


def q_seqdraws(rec, c, d, S, law=True, lags=(), pairs=()):
    box = {}

    def go():
        a = vec(d.sample((S,)), (S, c.B, c.N, c.C))
        box["a"] = a
        hist = []
        for b in range(c.B):
            h = {}
            for i in range(S):
                key = a[i, b].tobytes()
                if key not in h:
                    cl, p = onehots(a[i, b])
                    h[key] = dict(clean=cl, p=p, n=0)
                h[key]["n"] += 1
            hist.append(list(h.values()))
        return dict(S=S, hist=hist, law=law)

    if not rec.call(dict(op="seqdraws", id=c.ident), go):
        return
    a = box["a"].reshape(S, c.B, -1)
    for x, y in pairs:
        rec.add(dict(op="seqindep", st="ok", id=c.ident, b=x, c=y, S=S, agree=int((a[:, x - 1] == a[:, y - 1]).all(-1).sum())))
    for b in range(c.B if lags else 0):
        for lag in lags:
            rec.add(dict(op="seqindep", st="ok", id=c.ident, b=b + 1, c=b + 1, S=S - lag, agree=int((a[lag:, b] == a[:-lag, b]).all(-1).sum())))


class Learned(torch.nn.Module):
    """The same scores held in parameters, so that what is computed from them can be back-propagated.
    If carried, they reach the model only through its initial state."""

    def __init__(self, c, carried=False):
        super().__init__()
        self.plain = Mixed(c) if hasattr(c, "H") else Table(c.tab, c.C, c.N, c.start, c.dtype, c.kinds)
        self.unit = getattr(c, "unit", LN2)
        self.par = [[torch.tensor(x, dtype=c.dtype).mul(self.unit).requires_grad_(True) for x in lv] for lv in c.tab]
        self.C, self.N, self.wide, self.carried = c.C, c.N, hasattr(c, "H"), carried
        self.at = [sum(x.numel() for x in self.par[0][:n]) for n in range(c.N)]

    def init_state(self, B):
        own = (torch.stack([torch.cat([x.reshape(-1) for x in lv]) for lv in self.par]),) if self.carried else ()
        return self.plain.init_state(B) + own

    def forward(self, inputs, state):
        t = self.plain
        own = ()
        if self.carried:
            own, state = state[-1:], state[:-1]
        logits, new = t(inputs, state)
        # the rows of the table that these scores were read from, where there are such
        base = 2 * self.C + 12
        rows = []
        for r in range(inputs.shape[0]):
            b, code = unpack(t.kinds[0], state[0][r])
            for j in range(inputs.shape[1]):
                tok = int(inputs[r, j])
                if self.wide:
                    code = t.step(code, tok)
                    n, k = divmod(code, t.H)
                else:
                    code = code * base + tok + 1
                    pre = t.decode(code)
                    n, k = len(pre), 0
                    if pre[0] != t.start or max(pre[1:], default=0) >= self.C:
                        b = -1
                    for x in pre[1:]:
                        k = k * self.C + x
                if 0 <= b < len(self.par) and 1 <= n <= self.N:
                    x = own[0][r, self.at[n - 1] + k * self.C :][: self.C] if own else self.par[b][n - 1][k]
                    rows.append(x + (logits[r, j] - x).detach())
                else:
                    rows.append(logits[r, j])
        return torch.stack(rows).view(logits.shape), new + own


def q_seqslope(rec, c, seqs, how, carried=False):
    """Gradient, in the model's scores, of the scores of sequences (or of the greedy path)."""

    def go():
        m = Learned(c, carried)
        d = ts.Autoregressive(m, m.init_state(c.B), c.C, c.N, normalize=c.norm, start_class=c.start)
        if how == "greedy":
            path, s, _ = d.greedy_max()
            a = vec(path.detach(), (c.B, c.N, c.C))
            ps = [onehots(a[b])[1] for b in range(c.B)]
            if any(len(p) != c.N for p in ps):
                raise Bad("one-hot")
            S, lp = [ps], s.unsqueeze(0)
        else:
            S = seqs
            v = torch.tensor(seqs)
            lp = d.log_prob(v, sparse=True) if how == "sparse" else d.log_prob(torch.nn.functional.one_hot(v, c.C))
        w = torch.tensor([[1 + (i + 2 * b) % 5 for b in range(c.B)] for i in range(len(S))])
        (lp * w.to(lp.dtype)).sum().backward()
        g = [[fix6((torch.zeros_like(x) if x.grad is None else x.grad).numpy()) for x in lv] for lv in m.par]
        return dict(tol=10 * tol(c), g=g, items=[dict(b=b + 1, p=S[i][b], w=int(w[i, b])) for i in range(len(S)) for b in range(c.B)])

    return rec.call(dict(op="seqslope", id=c.ident, how=how), go)


def q_swor(rec, c, d, K):
    def go():
        a = vec(d.sample_without_replacement((K,)), (K, c.B, c.N, c.C))
        r = [[onehots(a[i, b]) for b in range(c.B)] for i in range(K)]
        return dict(K=K, clean=[[x[0] for x in y] for y in r], paths=[[x[1] for x in y] for y in r])

    return rec.call(dict(op="swor", id=c.ident), go)
