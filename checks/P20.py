"""Classification metrics equal their definitions."""
from lib import metref as M

RULE = "one state per distinct (labels, predictions, average)"


def sample(rng):
    import torch

    n, c = rng.choice([1, 2, 5, 20, 80]), rng.randint(1, 6)
    if rng.random() < 0.06:                       # many vertices, or many classes
        n, c = rng.choice([(3000, 4), (700, 40), (300, 130)])
    names = list(range(c)) if rng.random() < 0.7 or c > 6 else sorted(rng.sample(range(15), c))
    far = rng.random() < (0.08 if n < 300 else 0.5)                     # labels far from zero, some of them close together
    if far:
        base = rng.choice([100, 126, 250, 255, 300, 2047, 32766, 65534, 2 ** 24 - 1, 2 ** 31 - 2, 2 ** 40])
        names = sorted({base + rng.choice([0, 1, 2, 3, 256, 512, 1000]) for _ in range(c)})
    t = [rng.choice(names) for _ in range(n)]
    width = max(names) + 1 + rng.choice([0, 0, 2])
    mode = rng.random()
    p = [x if mode < 0.2 or (mode < 0.6 and rng.random() < 0.6) else rng.choice(names) if far else rng.randrange(width) for x in t]
    if rng.random() < 0.5 or far and (width > 400 or n > 100):
        pred = torch.tensor(p)
        kind = "labels"
    else:
        S = []
        for y in p:                      # distinct scores, maximum at y
            row = rng.sample(range(-50, 50) if width <= 100 else range(-width, width), width)
            j = row.index(max(row))
            row[j], row[y] = row[y], row[j]
            S.append(row)
        pred = torch.tensor(S, dtype=rng.choice([torch.float32, torch.float64])) * rng.choice([1.0, 0.01, 1e-6, 1e8])
        r = rng.random()
        if r < 0.15:
            pred = torch.log_softmax(pred.double() / pred.abs().max(), 1)
        elif r < 0.25:
            pred = pred - 2 * pred.abs().max()              # all negative
        elif r < 0.35:
            pred = pred.t().contiguous().t()
        if rng.random() < 0.4:
            pred.requires_grad_(True)
        kind = "scores"
    return t, p, torch.tensor(t), pred, kind


def run(ctx):
    import torch
    from dhg.metrics import classification as C

    rng = ctx.rng
    t, p, yt, yp, kind = sample(rng)
    kt, kp = yt.clone(), yp.detach().clone()
    v = C.accuracy(yt, yp)
    ctx.ok(isinstance(v, float) and abs(v - M.acc(t, p)) < 1e-5, "accuracy is the share of correct vertices", got=v, want=M.acc(t, p))
    avg = rng.choice(["macro", "micro", "weighted"])
    v = C.f1_score(yt, yp) if avg == "macro" and rng.random() < 0.6 else C.f1_score(yt, yp, average=avg)
    ctx.ok(abs(v - M.f1(t, p, avg)) < 1e-6, "f1 equals its definition", average=avg, got=v, want=M.f1(t, p, avg), true=t, pred=p)
    v = C.confusion_matrix(yt, yp)
    ctx.ok(v.tolist() == M.cm(t, p), "confusion matrix counts (true, predicted) pairs", got=v.tolist(), want=M.cm(t, p))
    ctx.ok(torch.equal(yt, kt) and torch.equal(yp.detach(), kp), "inputs are not modified")
    with torch.no_grad():                        # the same tensors with other content
        i = torch.randperm(len(t), generator=torch.Generator().manual_seed(rng.randrange(10 ** 6)))
        yt.copy_(yt.clone()[i])
    t2 = yt.tolist()
    ctx.ok(abs(C.accuracy(yt, yp) - M.acc(t2, p)) < 1e-5 and abs(C.f1_score(yt, yp, average=avg) - M.f1(t2, p, avg)) < 1e-6
           and C.confusion_matrix(yt, yp).tolist() == M.cm(t2, p), "tensors edited in place are scored anew", true=t2, pred=p)
    f = rng.choice([C.accuracy, C.f1_score, C.confusion_matrix])
    ctx.raises(lambda: f(torch.cat([yt, yt]), yp), "different lengths are refused")
    ctx.raises(lambda: f(yt.view(-1, 1), yp), "2-D labels are refused")
    ctx.raises(lambda: f(yt, torch.zeros(len(t), 2, 2)), "3-D predictions are refused")
    ctx.event(kind)
    ctx.event("average " + avg)
    ctx.state(t, p, kind, avg)
    ctx.sample({"true": t[:10], "pred": p[:10], "kind": kind})


def perm(ctx):
    """Metamorphic: order of the vertices is irrelevant; perfect predictions score 1."""
    import torch
    from dhg.metrics import classification as C

    t, p, yt, yp, kind = sample(ctx.rng)
    i = list(range(len(t)))
    ctx.rng.shuffle(i)
    for f in (C.accuracy, C.f1_score):
        a, b = f(yt, yp), f(yt[i], yp[i])
        ctx.ok(abs(a - b) < 1e-6, "order of the vertices is irrelevant", metric=f.__name__, got=(a, b))
        ctx.ok(abs(f(yt, yt) - 1) < 1e-6, "perfect predictions score 1", metric=f.__name__)
    ctx.event("metamorphic")
    ctx.state("m", t, p)


SCENARIOS = [("metrics", run, 300, 6000), ("metamorphic", perm, 60, 1000)]
REQUIRED_EVENTS = {"labels": 80, "scores": 80, "average macro": 30, "average micro": 30, "average weighted": 30, "metamorphic": 30}
ASSUMPTIONS = ["score rows have a unique maximum"]
