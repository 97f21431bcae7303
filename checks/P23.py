"""Evaluators: batch-partition invariance, epoch isolation, markers and validation metric."""
import copy

from lib import metref as M
from lib.rank import rows

RULE = "one state per distinct (evaluator, metric configuration, event history)"


def marker(cfg):
    if isinstance(cfg, str):
        return cfg
    (name, params), = cfg.items()
    out = []
    for k, v in params.items():
        out.append(k + "@" + (("%.4f" % v) if isinstance(v, float) else str(v)))
    return name + " -> " + " | ".join(out)


def name_of(cfg):
    return cfg if isinstance(cfg, str) else next(iter(cfg))


def par(cfg):
    return {} if isinstance(cfg, str) else cfg[name_of(cfg)]


def rank_cfgs(rng, kind):
    pool = ["precision", "recall", "ndcg", {"precision": {"k": 2}}, {"recall": {"k": 4}}, {"ndcg": {"k": 3}}, {"recall": {"ratio": 0.5}},
            {"precision": {"k": 1}}, {"ndcg": {"ratio": 0.5, "k": 2}}, {"recall": {"k": 2, "ratio": 0.75}}, {"precision": {"ratio": 0.25, "k": 1}}]
    if kind == "retrieval":
        pool += ["mrr", "map", {"map": {"method": "legacy"}}, {"mrr": {"k": 3}}, "pr_curve", {"pr_curve": {"method": "legacy", "n_points": 11}}, {"pr_curve": {"n_points": 5, "method": "pascal_voc"}},
                 {"map": {"method": "legacy", "k": 30}}]
    return rng.sample(pool, rng.randint(1, 4))


def expect(cfg, T, P):
    """Acceptable values of a metric over a set of samples (list) or a curve."""
    n = len(T[0])
    name, kw = name_of(cfg), par(cfg)
    if name == "pr_curve":
        c = [M.pr_curve(t, p, kw.get("method", "pascal_voc"), kw.get("n_points", 11)) for t, p in zip(T, P)]
        m = len(c[0][1])
        lo = [sum(x[0][j][0] for x in c) / len(c) for j in range(m)]
        hi = [sum(x[0][j][-1] for x in c) / len(c) for j in range(m)]
        return ("curve", lo, hi, c[0][1])
    if name == "map":
        v = [sum(M.ap(t, p, kw.get("method", "pascal_voc")) for t, p in zip(T, P)) / len(T)]
    else:
        ref = {"precision": M.prec, "recall": M.rec, "ndcg": M.ndcg, "mrr": M.rr}[name]
        v = [sum(ref(t, p, k) for t, p in zip(T, P)) / len(T) for k in M.topk(n, kw.get("k"), kw.get("ratio"))]
    return ("num", v)


def agrees(got, want):
    if want[0] == "num":
        return isinstance(got, (int, float)) and any(abs(got - w) < 2e-5 for w in want[1])
    if not isinstance(got, list) or len(got) != 2:
        return False
    return (len(got[0]) == len(want[1]) and all(a - 2e-5 <= x <= b + 2e-5 for x, a, b in zip(got[0], want[1], want[2]))
            and all(abs(x - y) < 1e-5 for x, y in zip(got[1], want[3])))


def batches(ctx):
    """Interleaved validation/test epochs over arbitrary batch partitions."""
    from dhg.metrics import RetrievalEvaluator, UserItemRecommenderEvaluator, build_evaluator

    rng = ctx.rng
    kind = rng.choice(["retrieval", "recommender"])
    cfgs = rank_cfgs(rng, kind)
    ok_val = [i for i, c in enumerate(cfgs) if name_of(c) != "pr_curve"]
    if not ok_val:
        cfgs.append("ndcg")
        ok_val = [len(cfgs) - 1]
    vi = rng.choice(ok_val)
    keep = copy.deepcopy(cfgs)
    if vi == 0 and rng.random() < 0.5:             # the first metric is the default one
        ctx.event("default validation metric")
        if kind == "retrieval":
            ev = RetrievalEvaluator(cfgs)
        else:
            ev = UserItemRecommenderEvaluator(cfgs) if rng.random() < 0.5 else build_evaluator("user_item_recommender", cfgs)
    elif kind == "retrieval":
        ev = RetrievalEvaluator(cfgs, vi)
    else:
        ev = UserItemRecommenderEvaluator(cfgs, vi) if rng.random() < 0.5 else build_evaluator("user_item_recommender", cfgs, vi)
    ctx.ok(cfgs == keep, "configurations are not modified")
    n = rng.choice([3, 5, 9])
    pend = {"v": ([], []), "t": ([], [])}
    last = {"v": None, "t": None}
    held = []
    hist = []
    if rng.random() < 0.3:
        ctx.raises(ev.validate_epoch_res, "an epoch without any batch is refused")
    endless = ctx.idx % 70 == 5                    # an epoch of more than a thousand batches
    long = endless or rng.random() < 0.06                     # an epoch of many (up to several hundred) batches
    for _ in range(2400 if endless else rng.choice([140, 300]) if long else rng.randint(2, 14)):
        ph = rng.choice("vt")
        if rng.random() < (2 if endless else 0.995 if long else 0.65) or (not pend[ph][0] and last[ph] is None):
            T, P, yt, yp = rows(rng, rng.choice([1, 1, 2, 4]), n, empty=False)
            (ev.validate_add_batch if ph == "v" else ev.test_add_batch)(yt, yp)
            pend[ph][0].extend(T)
            pend[ph][1].extend(P)
            hist.append((ph, len(T)))
            ctx.note("add", ph, len(T))
        else:
            fresh = bool(pend[ph][0])
            if fresh:
                T, P = pend[ph]
                last[ph] = [expect(keep[vi], T, P)] if ph == "v" else [expect(c, T, P) for c in keep]
                pend[ph] = ([], [])
                ctx.event("epoch")
            else:
                ctx.event("repeated result")
            r = ev.validate_epoch_res() if ph == "v" else ev.test_epoch_res()
            hist.append((ph, "res"))
            ctx.note("res", ph)
            if ph == "v":
                ctx.ok(agrees(r, last["v"][0]), "the epoch's validation score is that of all its samples", got=r, want=last["v"], metric=keep[vi], history=hist)
            else:
                ctx.need(sorted(r) == sorted({marker(c) for c in keep}), "one result per configured metric under its marker", got=list(r),
                         want=[marker(c) for c in keep])
                for c, w in zip(keep, last["t"]):
                    ctx.ok(agrees(r[marker(c)], w), "the epoch's test score is that of all its samples", got=r[marker(c)], want=w, metric=c, history=hist)
                held.append((r, copy.deepcopy(dict(r))))
        for r, was in held:
            ctx.ok(dict(r) == was, "a returned result never changes afterwards", got=dict(r), was=was)
    if long:
        for ph in "vt":
            if pend[ph][0]:
                T, P = pend[ph]
                r = ev.validate_epoch_res() if ph == "v" else ev.test_epoch_res()
                for c in ([keep[vi]] if ph == "v" else keep):
                    g = r if ph == "v" else r[marker(c)]
                    ctx.ok(agrees(g, expect(c, T, P)), "the score of a long epoch is that of all its samples", got=g, metric=c, samples=len(T))
        ctx.event("long epoch")
    ctx.event(kind)
    ctx.state(kind, repr(keep), vi, hist)
    ctx.sample({"kind": kind, "metrics": repr(keep), "validate": vi, "history": hist[:12]})


def classification(ctx):
    import torch
    from dhg.metrics import (GraphVertexClassificationEvaluator, HypergraphVertexClassificationEvaluator, VertexClassificationEvaluator,
                             build_evaluator)

    rng = ctx.rng
    pool = ["accuracy", "f1_score", {"f1_score": {"average": "micro"}}, {"f1_score": {"average": "weighted"}}, "confusion_matrix"]
    cfgs = rng.sample(pool, rng.randint(1, 4))
    vi = rng.randrange(len(cfgs))
    make = rng.choice([VertexClassificationEvaluator, GraphVertexClassificationEvaluator, HypergraphVertexClassificationEvaluator,
                       lambda *a: build_evaluator("graph_vertex_classification", *a),
                       lambda *a: build_evaluator("hypergraph_vertex_classification", *a)])
    ev = make(cfgs, vi) if vi or rng.random() < 0.5 else make(cfgs)      # the first metric is the default one

    def want(c, t, p):
        if name_of(c) == "accuracy":
            return M.acc(t, p)
        if name_of(c) == "f1_score":
            return M.f1(t, p, par(c).get("average", "macro"))
        return M.cm(t, p)

    def same(g, w):
        return g.tolist() == w if isinstance(w, list) else abs(g - w) < 1e-5

    for _ in range(rng.randint(1, 4)):
        n, c = rng.randint(2, 15), rng.randint(2, 4)
        t, p = [rng.randrange(c) for _ in range(n)], [rng.randrange(c) for _ in range(n)]
        yp = torch.tensor(p) if rng.random() < 0.5 else torch.nn.functional.one_hot(torch.tensor(p), c).float()
        if rng.random() < 0.5:
            v = ev.validate(torch.tensor(t), yp)
            ctx.ok(same(v, want(cfgs[vi], t, p)), "validation uses the chosen metric", metric=cfgs[vi], got=v, want=want(cfgs[vi], t, p))
            ctx.event("validate")
        else:
            r = ev.test(torch.tensor(t), yp)
            ctx.need(list(r) == [marker(x) for x in cfgs], "one result per configured metric under its marker", got=list(r))
            for x in cfgs:
                ctx.ok(same(r[marker(x)], want(x, t, p)), "test reports every metric", metric=x, got=r[marker(x)], want=want(x, t, p))
            ctx.event("test")
    ctx.raises(lambda: make(cfgs, len(cfgs)), "validation index out of range is refused")
    ctx.raises(lambda: make(cfgs, -1), "validation index out of range is refused")
    ctx.raises(lambda: make(["recall"], 0), "unknown metric is refused")
    ctx.raises(lambda: make([{"ndcg": {"k": 2}}], 0), "unknown metric is refused")
    ctx.raises(lambda: make([{"accuracy": {}, "f1_score": {}}], 0), "ambiguous configuration is refused")
    ctx.raises(lambda: build_evaluator("weather", cfgs), "unknown task is refused")
    ctx.state("cls", repr(cfgs), vi)


def close_params(ctx):
    """Parameters that look alike when rounded are still two metrics, each with its own result."""
    from dhg.metrics import RetrievalEvaluator, UserItemRecommenderEvaluator

    rng = ctx.rng
    n, d = rng.choice([9, 12, 15]), 3
    m = [rng.choice(["precision", "recall", "ndcg"]) for _ in range(2)]
    a, b = round(1 / d - 2e-6, 6), round(1 / d + 1e-5, 6)            # n / 3 items, and one more
    if rng.random() < 0.5:
        a, b = b, a
    cfgs = [{m[0]: {"ratio": a}}, {m[0]: {"ratio": b}}]
    if rng.random() < 0.5:
        cfgs.insert(rng.randrange(3), m[1])
    vi = rng.randrange(len(cfgs))
    ev = rng.choice([RetrievalEvaluator, UserItemRecommenderEvaluator])(cfgs, vi)
    T, P, parts = [], [], []
    for _ in range(rng.randint(1, 3)):
        t, p, yt, yp = rows(rng, rng.choice([1, 2, 4]), n, empty=False)
        parts.append((t, p, yt, yp))
        T += t
        P += p
        ev.test_add_batch(yt, yp)
        ev.validate_add_batch(yt, yp)
    ctx.ok(agrees(ev.validate_epoch_res(), expect(cfgs[vi], T, P)), "close parameters: validation metric")
    for how in ("epoch", "whole"):
        if how == "epoch":
            res = ev.test_epoch_res()
        else:
            T, P, yt, yp = parts[0]
            res = ev.test(yt, yp)
            ctx.ok(agrees(ev.validate(yt, yp), expect(cfgs[vi], T, P)), "close parameters: validation metric")
        ctx.need(len(res) == len(cfgs), "close parameters: one result per metric", got=res, configs=cfgs)
        ctx.ok(all(k.split(" ")[0] == name_of(c) and agrees(v, expect(c, T, P)) for (k, v), c in zip(res.items(), cfgs)),
               "close parameters: each metric has its own result, in the given order", got=res, configs=cfgs)
    ctx.event("close parameters")
    ctx.state("close", cfgs, vi, T)


SCENARIOS = [("batches", batches, 220, 4000), ("classification", classification, 120, 2000), ("close parameters", close_params, 30, 600)]
REQUIRED_EVENTS = {"epoch": 150, "repeated result": 30, "retrieval": 50, "recommender": 50, "validate": 40, "test": 40, "close parameters": 20}
ASSUMPTIONS = ["scores within a sample are distinct; every sample has a relevant item"]
