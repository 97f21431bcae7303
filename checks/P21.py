"""Retrieval metrics equal their definitions."""
from lib import metref as M
from lib.rank import lst, rows, topk_metric

RULE = "one state per distinct (metric, relevance, scores, cut-off)"


def topk(ctx):
    from dhg.metrics import retrieval as R

    name, ref = ctx.rng.choice([("precision", M.prec), ("recall", M.rec), ("ndcg", M.ndcg), ("ndcg", M.ndcg), ("mrr", M.rr)])
    topk_metric(ctx, R, name, ref, binary=name != "ndcg" or ctx.rng.random() < 0.5)
    T, P, yt, yp = rows(ctx.rng, 1, 5)
    for bad in (0, 1.5, -0.2):
        if name in ("precision", "recall", "ndcg", "mrr"):
            ctx.raises(lambda: getattr(R, name)(yt, yp, ratio=bad), "ratio outside (0, 1] is refused")


def rr(ctx):
    from dhg.metrics import retrieval as R

    rng = ctx.rng
    n = rng.choice([1, 3, 6, 20, 20, 300, 2500] if rng.random() < 0.3 else [1, 3, 6, 20])
    T, P, yt, yp = rows(rng, 1, n)
    k = rng.choice([None, 1, 2, n, n + 3])
    v = R.rr(yt[0], yp[0]) if k is None else R.rr(yt[0], yp[0], k=k)
    w = M.rr(T[0], P[0], M.topk(n, k)[0])
    ctx.ok(abs(v - w) < 2e-5, "rr equals its definition", got=v, want=w, true=T[0], pred=P[0], k=k)
    q = rng.choice([0.2, 0.5, 1.0])
    v = R.rr(yt[0], yp[0], ratio=q)
    ctx.ok(any(abs(v - M.rr(T[0], P[0], c)) < 2e-5 for c in M.topk(n, None, q)), "rr equals its definition", got=v, ratio=q)
    ctx.event("rr")
    ctx.state("rr", T, P, k)


def average_precision(ctx):
    import torch
    from dhg.metrics import retrieval as R

    rng = ctx.rng
    b, n = rng.choice([1, 2, 5]), rng.choice([1, 2, 4, 8, 30])
    if rng.random() < 0.04:
        b, n = rng.choice([(150, 9), (2, 1500)])
    T, P, yt, yp = rows(rng, b, n, empty=rng.random() < 0.4)
    kt, kp = yt.clone(), yp.detach().clone()
    for method in ("legacy", "pascal_voc"):
        kw = {} if method == "pascal_voc" and rng.random() < 0.5 else {"method": method}
        want = [M.ap(t, p, method) for t, p in zip(T, P)]
        for i in range(b):
            v = R.ap(yt[i], yp[i], **kw)
            ctx.ok(abs(v - want[i]) < 2e-5, "ap equals its definition", method=method, got=v, want=want[i], true=T[i], pred=P[i])
        got = lst(R.map(yt, yp, ret_batch=True, **kw))
        ctx.ok(len(got) == b and all(abs(x - y) < 2e-5 for x, y in zip(got, want)), "map per sample is ap", got=got, want=want)
        v = R.map(yt, yp, **kw)
        ctx.ok(abs(v - sum(want) / b) < 2e-5, "map is the mean of ap", got=v, want=sum(want) / b)
    ctx.ok(torch.equal(yt, kt) and torch.equal(yp.detach(), kp), "inputs are not modified")
    ctx.raises(lambda: R.map(yt, yp, method="sideways"), "unknown method is refused")
    ctx.raises(lambda: R.ap(yt, yp), "ap takes one sample")
    ctx.event("map")
    ctx.state("map", T, P)


def curve(ctx):
    from dhg.metrics import retrieval as R

    rng = ctx.rng
    b, n = rng.choice([1, 2, 5]), rng.choice([1, 2, 4, 8, 30])
    if rng.random() < 0.04:
        b, n = rng.choice([(150, 9), (2, 1500)])
    T, P, yt, yp = rows(rng, b, n, empty=False)
    method = rng.choice(["legacy", "pascal_voc"])
    pts = rng.choice([11, 11, 2, 5, 21])
    kw = {}
    if method != "pascal_voc" or rng.random() < 0.5:
        kw["method"] = method
    if pts != 11 or rng.random() < 0.5:
        kw["n_points"] = pts
    want = [M.pr_curve(t, p, method, pts) for t, p in zip(T, P)]
    pc, rc = R.pr_curve(yt, yp, ret_batch=True, **kw)
    ctx.need(len(pc) == b and len(rc) == b, "one curve per sample")
    for i in range(b):
        ctx.ok(len(rc[i]) == pts and all(abs(x - y) < 1e-6 for x, y in zip(rc[i], want[i][1])), "recall coordinates are equidistant", got=rc[i])
        ctx.ok(len(pc[i]) == pts and all(any(abs(x - y) < 2e-5 for y in ys) for x, ys in zip(pc[i], want[i][0])),
               "precision at every recall point", method=method, got=pc[i], want=want[i][0], true=T[i], pred=P[i])
        if method == "pascal_voc":
            ctx.ok(all(x >= y - 1e-6 for x, y in zip(pc[i], pc[i][1:])), "interpolated precision never rises with recall", got=pc[i])
    p, r = R.pr_curve(yt, yp, **kw)
    ctx.ok(len(p) == pts and all(abs(p[j] - sum(x[j] for x in pc) / b) < 1e-5 for j in range(pts)), "overall curve is the mean curve", got=p)
    ctx.ok(len(r) == pts and all(abs(x - y) < 1e-6 for x, y in zip(r, want[0][1])), "recall coordinates are equidistant", got=r)
    ctx.event("pr_curve")
    ctx.state("curve", T, P, method, pts)


SCENARIOS = [("topk", topk, 400, 8000), ("rr", rr, 80, 1500), ("map", average_precision, 120, 2500), ("pr_curve", curve, 120, 2500)]
REQUIRED_EVENTS = {"precision": 30, "recall": 30, "ndcg": 60, "mrr": 30, "rr": 40, "map": 60, "pr_curve": 60, "cut k": 60, "cut ratio": 30}
ASSUMPTIONS = ["scores within a sample are distinct (the order of ties is unspecified)",
               "the reciprocal-rank score averages over all hits within the cut-off, as documented by the examples",
               "average precision and precision-recall curves are judged without a cut-off (documented examples ignore it)"]
