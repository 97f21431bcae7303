"""Recommender metrics equal their definitions."""
from lib import metref as M
from lib.rank import lst, rows, topk_metric

RULE = "one state per distinct (metric, relevance, scores, cut-off)"


def topk(ctx):
    from dhg.metrics import recommender as R

    name, ref = ctx.rng.choice([("precision", M.prec), ("recall", M.rec), ("ndcg", M.ndcg)])
    topk_metric(ctx, R, name, ref, binary=name != "ndcg" or ctx.rng.random() < 0.5)


def masked(ctx):
    """Training items masked with -inf are never recommended before any other item."""
    import torch
    from dhg.metrics import recommender as R

    rng = ctx.rng
    n = rng.choice([4, 7, 15])
    T, P, yt, yp = rows(rng, 1, n)
    both = rng.random() < 0.4                      # an item may be masked and relevant: it then still counts as relevant
    hide = [i for i in range(n) if (both or not T[0][i]) and rng.random() < 0.4][: n - 1]
    mask = torch.zeros(n)
    mask[hide] = float("-inf")
    yp = yp.detach() + mask if yp.is_floating_point() else yp.double() + mask
    k = rng.randint(1, n - len(hide))
    p = [-1e9 - i if i in hide else x for i, x in enumerate(P[0])]
    for name, ref in (("precision", M.prec), ("recall", M.rec), ("ndcg", M.ndcg)):
        v = getattr(R, name)(yt, yp, k=k)
        ctx.ok(abs(v - ref(T[0], p, k)) < 2e-5, name + " with masked items", got=v, want=ref(T[0], p, k), masked=hide, true=T[0], pred=P[0], k=k)
    ctx.event("masked")
    ctx.state("masked", T, P, hide, k)


def monotone(ctx):
    """Metamorphic: only the order matters; promoting a relevant item never hurts; perfect order scores 1."""
    from dhg.metrics import recommender as R

    rng = ctx.rng
    b, n = rng.choice([1, 3]), rng.choice([3, 6, 12])
    T, P, yt, yp = rows(rng, b, n, empty=False)
    k = rng.randint(1, n)
    for name in ("precision", "recall", "ndcg"):
        f = getattr(R, name)
        a = lst(f(yt, yp, k=k, ret_batch=True))
        c = lst(f(yt, yp * 2 + 3, k=k, ret_batch=True))
        ctx.ok(all(abs(x - y) < 1e-6 for x, y in zip(a, c)), name + ": only the order of the scores matters")
        up = yp.detach().double().clone()
        for i in range(b):
            up[i, rng.choice([j for j in range(n) if T[i][j]])] = up[i].max() + 1
        c = lst(f(yt, up, k=k, ret_batch=True))
        ctx.ok(all(y >= x - 1e-6 for x, y in zip(a, c)), name + ": promoting a relevant item never hurts", before=a, after=c)
    v = R.ndcg(yt, yt.float() * 10 - __import__("torch").arange(n).float() / n, k=k)
    ctx.ok(abs(v - 1) < 1e-5, "a perfect order has ndcg 1", got=v)
    ctx.event("metamorphic")
    ctx.state("mono", T, P, k)


SCENARIOS = [("topk", topk, 400, 8000), ("masked", masked, 80, 1500), ("metamorphic", monotone, 80, 1500)]
REQUIRED_EVENTS = {"precision": 60, "recall": 60, "ndcg": 60, "masked": 40, "metamorphic": 40, "cut k": 60, "cut ratio": 30}
ASSUMPTIONS = ["scores within a sample are distinct (the order of ties is unspecified)"]
