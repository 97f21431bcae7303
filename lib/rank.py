"""Ranking workloads and the monitor shared by the retrieval and recommender checks."""
from . import metref as M


def rows(rng, b, n, binary=True, empty=True):
    import torch

    T, P = [], []
    sparse = rng.random() < (0.5 if b > 500 else 0.1)
    for _ in range(b):
        d = 0.05 if sparse else rng.choice([0.1, 0.3, 0.6, 1.0])
        if binary:
            t = [1 if rng.random() < d else 0 for _ in range(n)]
        else:
            t = [rng.choice([0, 0, 1, 2, 3, 5] if not sparse else [0] * 20 + [1, 3]) for _ in range(n)]
        if not empty and not any(t):
            t[rng.randrange(n)] = 1
        p = rng.sample(range(-200, 200) if n <= 400 else range(-n, n), n)       # distinct scores: the order is unique
        T.append(t)
        P.append([x / 7 for x in p])
    if binary and not any(any(t) for t in T):
        T[rng.randrange(b)][rng.randrange(n)] = 1
    yt = torch.tensor(T)
    if binary:
        yt = yt.to(rng.choice([torch.bool, torch.int64, torch.float32, torch.int32, torch.uint8, torch.float64]))
    else:
        yt = yt.to(rng.choice([torch.int64, torch.float32, torch.int32, torch.float64]))
    yp = torch.tensor(P, dtype=rng.choice([torch.float32, torch.float64]))
    r = rng.random()
    if r < 0.25:
        yp = yp - 1000                            # all negative
    elif r < 0.35:
        yp = yp * 1e-5
    elif r < 0.45:
        yp = torch.sigmoid(yp.double() / 200)     # probabilities
    elif r < 0.52:
        yp = (yp * 7).round().long()
    elif r < 0.6:
        yp = yp * 1e6
    elif r < 0.66:
        yp = 0.5 + torch.tensor(P, dtype=torch.float64) * 1e-9       # distinct in double precision only
    elif r < 0.7:
        yp = 2 ** 40 + (yp * 7).round().long()
    if rng.random() < 0.2:                        # views that are not contiguous
        yt, yp = yt.t().contiguous().t(), yp.repeat_interleave(2, dim=1)[:, ::2]
    if rng.random() < 0.2 and yp.is_floating_point():
        yp = yp.clone().requires_grad_(True)
    return T, P, yt, yp


def cut(rng, n):
    r = rng.random()
    if r < 0.25:
        return {}
    if r < 0.7:
        return {"k": rng.choice([1, 2, n, n + 5, rng.randint(1, n)])}
    if r < 0.95:
        return {"ratio": rng.choice([0.1, 0.25, 0.5, 1.0, 0.01, round(rng.uniform(0.05, 1), 3)])}
    return {"k": rng.randint(1, n), "ratio": 0.5}


def lst(x):
    return [float(v) for v in (x.tolist() if hasattr(x, "tolist") else x)]


def topk_metric(ctx, mod, name, ref, binary=True):
    """Batch, per-row and 1-D results of one top-k metric against the reference."""
    import torch

    rng = ctx.rng
    b, n = rng.choice([1, 1, 2, 5, 9]), rng.choice([1, 2, 4, 7, 15, 40])
    if rng.random() < 0.05:                       # many samples, or many items
        b, n = rng.choice([(300, 12), (2, 2300), (130, 130), (1, 1100)])
    elif ctx.idx % 12 == 5:
        b, n = rng.choice([(700, 10), (1300, 5)])
    T, P, yt, yp = rows(rng, b, n, binary)
    kt, kp = yt.clone(), yp.detach().clone()
    kw = cut(rng, n)
    f = getattr(mod, name)
    ks = M.topk(n, kw.get("k"), kw.get("ratio"))
    want = [[ref(t, p, k) for k in ks] for t, p in zip(T, P)]
    got = lst(f(yt, yp, ret_batch=True, **kw))
    ctx.need(len(got) == b, name + ": one score per sample", got=got)
    for i in range(b):
        ctx.ok(any(abs(got[i] - w) < 2e-5 for w in want[i]), name + " equals its definition", cut=kw, got=got[i], want=want[i], true=T[i],
               pred=P[i])
    v = f(yt, yp, **kw)
    ctx.ok(abs(float(v) - sum(got) / b) < 2e-5, name + ": overall score is the mean over samples", got=v, want=sum(got) / b)
    ctx.ok(isinstance(v, float), name + ": overall score is a float", got=type(v))
    i = rng.choice([j for j in range(b) if not binary or any(T[j])])
    v = f(yt[i], yp[i], **kw)
    ctx.ok(any(abs(float(v) - w) < 2e-5 for w in want[i]), name + ": a 1-D sample scores as in a batch", got=v, want=want[i])
    ctx.ok(torch.equal(yt, kt) and torch.equal(yp.detach(), kp), "inputs are not modified")
    # the same tensors with other content
    with torch.no_grad():
        i = torch.randperm(n, generator=torch.Generator().manual_seed(rng.randrange(10 ** 6)))
        yt.copy_(yt.clone()[:, i])
        if rng.random() < 0.5:
            yp.copy_(yp.clone().flip(1))
    T2, P2 = [[int(x) for x in r] for r in yt.tolist()], yp.tolist()
    again = lst(f(yt, yp, ret_batch=True, **kw))
    for i in range(b):
        w = [ref(T2[i], P2[i], k) for k in ks]
        ctx.ok(any(abs(again[i] - x) < 2e-5 for x in w), name + " follows tensors edited in place", cut=kw, got=again[i], want=w)
    ctx.raises(lambda: f(yt, yp[:, :-1] if n > 1 else yp.repeat(1, 2), **kw), "different shapes are refused")
    ctx.raises(lambda: f(yt.view(1, b, n), yp.view(1, b, n), **kw), "3-D inputs are refused")
    if name in ("precision", "recall"):
        ctx.raises(lambda: f(yt.float() * 3, yp, **kw), "graded relevance is refused")
    ctx.event(name)
    ctx.event("cut " + "+".join(sorted(kw)))
    ctx.state(name, T, P, sorted(kw.items()))
    ctx.sample({"metric": name, "cut": kw, "true": T[0][:10], "scores": got[:4]})
