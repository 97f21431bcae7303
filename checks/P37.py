"""Losses, regularisation, sparse dropout, binomials and log helpers equal their definitions."""
import io
import logging
import math
import re
import sys

import torch

from lib.ref import kl_bound, lagged

RULE = "one state per distinct input of a helper"


def bpr(ctx):
    from dhg.nn import BPRLoss

    rng = ctx.rng
    al, be = rng.choice([1.0, 0.5, 2.0, rng.uniform(0.1, 3)]), rng.choice([1.0, 0.5, 3.0, rng.uniform(0.1, 3)])
    act = rng.choice(["sigmoid_then_log", "softplus"])
    r = rng.random()
    L = BPRLoss() if r < 0.15 else BPRLoss(al, be, act) if r < 0.5 else BPRLoss(alpha=al, beta=be, activation=act)
    if r < 0.15:
        al = be = 1.0
    for _ in range(3):
        shape = rng.choice([(1,), (5,), (3, 4), (7, 1), (), (2, 3, 4), (64,), (1030,), (40, 30), (5000,)])
        s = rng.choice([0.1, 1.0, 5.0])
        dt = rng.choice([torch.float32, torch.float32, torch.float32, torch.float64])
        p, n = (s * torch.randn(shape, dtype=dt), s * torch.randn(shape, dtype=dt))
        if p.dim() == 2 and rng.random() < 0.5:         # another layout, same numbers
            p = p.T.contiguous().T
        if rng.random() < 0.2 and p.numel() > 4:        # ties, and one clear winner
            n = p.clone(memory_format=torch.contiguous_format)
            n.view(-1)[0] -= 20 if act == "softplus" else 5
        p.requires_grad_(), n.requires_grad_()
        p0, n0 = p.detach().clone(), n.detach().clone()
        out = L(p, n)
        z = al * p0.double() - be * n0.double()
        want = -torch.nn.functional.logsigmoid(z)
        ctx.ok(out.dim() == 0 and abs(float(out) - float(want.mean())) < 1e-4 * (1 + abs(float(want.mean()))), "the BPR loss is the mean of -log sigmoid(alpha pos - beta neg)",
               got=float(out), want=float(want.mean()), alpha=al, beta=be, activation=act)
        out.backward()
        g = -torch.sigmoid(-z) / z.numel()
        ctx.ok(torch.allclose(p.grad.double(), al * g, atol=1e-5) and torch.allclose(n.grad.double(), -be * g, atol=1e-5), "the BPR gradients", alpha=al, beta=be)
        ctx.ok(torch.equal(p.detach(), p0) and torch.equal(n.detach(), n0), "scores are unchanged")
        ctx.state("bpr", al, be, act, p0.tolist())
    bad = rng.choice(["relu", "", "sigmoid", "log"])
    ctx.raises(lambda: BPRLoss(activation=bad), "an unknown activation is refused", activation=bad)
    ctx.event("bpr")


def reg(ctx):
    from dhg.nn import EmbeddingRegularization

    rng = ctx.rng
    p, wd = rng.choice([1, 2, 2, 3, 4]), rng.choice([1e-4, 0.0, 0.1, 2.0])
    R = EmbeddingRegularization(p, wd) if rng.random() < 0.7 else EmbeddingRegularization(p=p, weight_decay=wd)
    if rng.random() < 0.2:
        R, p, wd = EmbeddingRegularization(), 2, 1e-4
    big = rng.random() < 0.1
    embs = [torch.randn(rng.randint(1, 6) if not big else rng.choice([64, 257, 1030]), rng.randint(1, 5) if not big else rng.choice([8, 65])) for _ in range(rng.choice([1, 2, 3, 4, 9]))]
    if rng.random() < 0.15:
        embs = [e.double() for e in embs]
    if rng.random() < 0.2:                              # the same embedding twice counts twice; zeros are fine
        embs.append(embs[0].clone())
        embs[0][0] = 0
    if rng.random() < 0.2:
        embs = [e.T.contiguous().T for e in embs]
    if big:
        ctx.event("big embeddings")
    old = [e.clone() for e in embs]
    for e in embs:
        e.requires_grad_()
    out = R(*embs)
    want = wd * sum((o.double() ** p).sum(1).mean() / p for o in old)
    ctx.ok(abs(float(out) - float(want)) < 1e-5 + 1e-4 * abs(float(want)), "the regularisation is weight_decay times the sum of mean row powers over p", got=float(out), want=float(want), p=p, wd=wd)
    out.backward()
    for e, o in zip(embs, old):
        ctx.ok(torch.allclose(e.grad.double(), wd * o.double() ** (p - 1) / o.shape[0], atol=1e-5, rtol=1e-4), "the gradient of the regularisation", p=p, wd=wd)
        ctx.ok(torch.equal(e.detach(), o), "embeddings are unchanged")
    if float(wd) > 0:
        half = R(*[o for o in old]) * 0.5 + 0.5 * R(*reversed(old))
        ctx.ok(torch.allclose(half, out.detach(), rtol=1e-5), "the order of the embeddings does not matter")
    ctx.event("regularisation")
    ctx.state("reg", p, wd, [o.tolist() for o in old])


def rand_sparse(rng, nnz):
    n, m = rng.randint(1, 30), rng.randint(1, 30)
    if nnz > 400:
        n, m = rng.choice([(1030, rng.randint(5, 40)), (rng.randint(5, 40), 1030), (200, 150), (1, 9000), (70000, 2)])
    nnz = min(nnz, n * m)
    idx = rng.sample(range(n * m), nnz)
    i = torch.tensor([[k // m for k in idx], [k % m for k in idx]], dtype=torch.long).reshape(2, nnz)
    v = torch.tensor([rng.choice([-1, 1]) * rng.uniform(0.5, 4) for _ in idx])
    return torch.sparse_coo_tensor(i, v, (n, m))


def sparse(ctx):
    from dhg.utils import sparse_dropout

    rng = ctx.rng
    S = rand_sparse(rng, rng.choice([0, 1, 5, 60, 400, 400, 1100, 5000]))
    if rng.random() < 0.4:
        S = S.coalesce()
    elif rng.random() < 0.3 and S._nnz():     # repeated entries add up before dropping
        S = torch.sparse_coo_tensor(torch.cat([S._indices(), S._indices()[:, :1]], 1), torch.cat([S._values(), S._values()[:1]]), S.shape)
    if rng.random() < 0.3:
        S = S.double()
    old_i, old_v, dense = S._indices().clone(), S._values().clone(), S.to_dense().clone()
    p = rng.choice([0, 0.0, 1, 1.0, 0.5, 0.1, 0.9, rng.random()])
    kw = {}
    fill = 0.0
    if rng.random() < 0.4:
        kw["fill_value"] = fill = rng.choice([0.0, -7.5, 100.0])
    T = sparse_dropout(S, p, **kw)
    ctx.ok(torch.equal(S._indices(), old_i) and torch.equal(S._values(), old_v), "the matrix is unchanged")
    ctx.need(T.is_sparse and T.shape == S.shape and T.dtype == S.dtype, "a sparse matrix of the same shape and type", got=(T.shape, T.dtype))
    D = T.to_dense()
    at = dense != 0
    kept = (D == dense) & at
    gone = torch.isclose(D, torch.tensor(fill, dtype=D.dtype)) & at & ~kept
    ctx.ok(bool((kept | gone)[at].all()), "every entry is kept unscaled or replaced by the fill value", p=p, fill=fill)
    ctx.ok(bool((D[~at] == 0).all()), "nothing appears elsewhere")
    k, g = int(kept.sum()), int(gone.sum())
    if p == 0:
        ctx.ok(g == 0, "rate 0 keeps everything")
    if p == 1:
        ctx.ok(k == 0, "rate 1 drops everything", kept=k)
    c = ctx.__dict__.setdefault("_drops", {}).setdefault(round(float(p), 6), [0, 0])
    c[0] += g
    c[1] += k + g
    if k + g > 50 and 0 < p < 1:
        ctx.ok(kl_bound(g, k + g, float(p)), "entries are dropped at the given rate", dropped=g, of=k + g, p=p)
        ctx.event("rate judged")
    ctx.event("dropout")
    if old_v.numel() > 1000:
        ctx.event("big dropout")
        if k + g == old_v.numel() and 0 < p < 1:        # the front and the back are treated alike
            gc = gone[tuple(S.coalesce()._indices())]
            h = gc.numel() // 2
            for part in (gc[:h], gc[h:], gc[::2], gc[1::2], gc[-200:], gc[1000:]):
                if part.numel() > 50:
                    ctx.ok(kl_bound(int(part.sum()), part.numel(), float(p)), "every part of the matrix is dropped at the given rate", dropped=int(part.sum()), of=part.numel(), p=p)
            bad = lagged(gc.numpy(), float(p))
            ctx.ok(not bad, "entries are dropped independently of those at any distance", lags=bad[:4], p=p, of=gc.numel())
            ctx.event("lags")
    ctx.state("drop", old_i.tolist(), old_v.tolist(), p, fill)


def refuse_rate(ctx):
    from dhg.utils import sparse_dropout

    S = rand_sparse(ctx.rng, 5)
    for p in (-0.1, 1.1, 5, -3):
        ctx.raises(lambda: sparse_dropout(S, p), "an impossible rate is refused", p=p)
    # pooled over the run: independent of position
    for p, (g, n) in list(ctx.__dict__.get("_drops", {}).items()):
        if 0 < p < 1 and n > 200:
            ctx.ok(kl_bound(g, n, p), "entries are dropped at the given rate over the run", dropped=g, of=n, p=p)
    # every entry is hit alike, none always together with its neighbour
    S = torch.sparse_coo_tensor(torch.arange(40).repeat(2, 1), torch.ones(40), (40, 40))
    hits, both, N = torch.zeros(40), 0, 150
    for _ in range(N):
        d = sparse_dropout(S, 0.5).to_dense().diagonal() == 0
        hits += d
        both += int((d[0::2] & d[1::2]).sum())
    ctx.ok(all(kl_bound(int(h), N, 0.5) for h in hits), "every entry is dropped alike", hits=hits.tolist())
    ctx.ok(kl_bound(both, N * 20, 0.25), "entries are dropped independently", both=both, of=N * 20)
    ctx.event("dropout law")
    ctx.state("law", ctx.idx)


def binomials(ctx):
    from dhg.utils import C

    rng = ctx.rng
    for _ in range(30):
        n = rng.choice([0, 1, 2, 5, 10, 30, 67, 100, rng.randint(0, 300), rng.choice([513, 1025, 2100])])
        m = rng.choice([0, 1, 2, n, max(n - 1, 0), n + 1, n + 5, rng.randint(0, n), n // 2])
        want = 0
        if m <= n:
            want = math.factorial(n) // (math.factorial(m) * math.factorial(n - m))
        got = C(n, m)
        ctx.ok(got == want and isinstance(got, int), "the exact number of ways to choose m of n", n=n, m=m, got=got)
        ctx.state("C", n, m)
    ctx.event("binomials")


def logs(ctx):
    from dhg.utils import default_log_formatter, simple_stdout2file

    rng = ctx.rng
    d = ctx.tmp()
    f = d / "out.txt"
    before = ""
    if rng.random() < 0.5:
        before = "earlier\n"
        f.write_text(before)
    term, real = io.StringIO(), sys.stdout
    sys.stdout = term
    said = ""
    ok = []
    try:
        simple_stdout2file(str(f) if rng.random() < 0.5 else f)
        for _ in range(rng.randint(1, 8)):
            t = rng.choice(["hello", "", "a b\tc", "zwei", "1 2 3", "x" * 300, "y" * 9000, "l\nm\n" * 40])
            end = rng.choice(["\n", "", " "])
            if rng.random() < 0.5:
                print(t, end=end)
                said += t + end
            else:
                sys.stdout.write(t)
                said += t
            ok.append(f.read_text() == before + said and term.getvalue() == said)
        nested = rng.random() < 0.3
        if nested:
            f2 = d / "second.txt"
            simple_stdout2file(f2)
            print("both")
            said += "both\n"
            ok.append(f.read_text() == before + said and term.getvalue() == said and f2.read_text() == "both\n")
        try:
            simple_stdout2file(d / "missing" / "out.txt")
            refused = False
        except Exception:
            refused = True
        print("still")
        said += "still\n"
        ok.append(f.read_text() == before + said and term.getvalue() == said)
    finally:
        sys.stdout = real
    ctx.ok(all(ok), "what is printed appears at once, in order, on the terminal and at the end of the file", file=f.read_text(), want=before + said, terminal=term.getvalue())
    ctx.ok(refused, "a missing directory is refused")
    ctx.ok(not (d / "missing").exists(), "a refused redirection creates nothing")
    # formatter
    F = default_log_formatter()
    lvl = rng.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR])
    msg, args = rng.choice([("done %s of %d", ("3", 4)), ("plain", ()), ("100%%", (1,)[:0])])
    rec = logging.LogRecord("n", lvl, "f.py", 1, msg, args, None)
    rec.created = 86400.0 * rng.randint(1, 20000)
    out = F.format(rec)
    m = re.fullmatch(r"\[(\w+) ([^\]]+)\]-> (.*)", out)
    ctx.ok(isinstance(F, logging.Formatter) and m is not None and m.group(1) == logging.getLevelName(lvl) and m.group(3) == rec.getMessage() and m.group(2) == F.formatTime(rec),
           "a log line holds level, time and message", got=out)
    ctx.event("logs")
    ctx.state("logs", before, said, out)
    ctx.sample(dict(file=f.read_text()[:100], formatted=out))


SCENARIOS = [("bpr", bpr, 150, 3000), ("regularisation", reg, 150, 3000), ("sparse", sparse, 250, 5000), ("refuse", refuse_rate, 2, 20), ("binomials", binomials, 20, 300), ("logs", logs, 60, 800)]
REQUIRED_EVENTS = {"bpr": 140, "regularisation": 140, "dropout": 200, "rate judged": 30, "binomials": 15, "logs": 50}
ASSUMPTIONS = ["score differences below 60, beyond which sigmoid_then_log underflows", "CPU device"]
