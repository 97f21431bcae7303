"""Isolation: copies and derived structures do not share state; caller arguments are never modified."""
import copy
import random

import torch

from lib import gmodel as G
from lib import hmodel as H
from lib.ref import pick_w, rdense

RULE = "one state per distinct pair of (structure state, copy state) observed after interleaved edits of both"


def two_graphs(ctx, kind):
    import dhg

    rng = ctx.rng
    gm = G.rand_model(rng, kind)
    g = G.build(dhg, gm)
    G.observe(ctx, g, gm, rng.choice([0.0, 0.4, 1.0]))
    how = rng.choice(["clone", "clone", "state_dict", "drop0", "switch"])
    ctx.note("copy by", how)
    if how == "clone":
        h, hm = g.clone(), gm.copy()
    elif how == "state_dict":
        h, hm = type(g).from_state_dict(g.state_dict), gm.copy()
    elif how == "drop0":
        h, hm = g.drop_edges(0.0), gm.copy()
    elif kind == "b":
        h, hm = g.switch_uv(), G.GM("b", gm.m, gm.n)
        hm.w = {(v, u): w for (u, v), w in gm.w.items()}
    else:
        h, hm = g.clone(), gm.copy()
    ctx.event("copy:" + how)
    ctx.ok(h is not g and type(h) is type(g), "copy is a new object of the same class")
    if how in ("clone", "state_dict", "drop0"):
        ctx.ok(h.e == g.e, "a copy has the same edges, to the last digit and in the same order", how=how)
    share = rng.choice([0.2, 1.0])
    G.observe(ctx, h, hm, share)
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.5:
            ctx.note("edit original")
            g, gm, _ = G.edit(ctx, g, gm)
        else:
            ctx.note("edit copy")
            h, hm, _ = G.edit(ctx, h, hm)
        G.observe(ctx, g, gm, share)
        G.observe(ctx, h, hm, share)
    G.observe(ctx, g, gm)
    G.observe(ctx, h, hm)
    ctx.state(gm.fp(), hm.fp())


def two_hypergraphs(ctx):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, vw=True)
    hg = H.build(dhg, hm)
    H.observe(ctx, hg, hm, rng.choice([0.0, 0.3, 1.0]))
    how = rng.choice(["clone", "clone", "state_dict", "drop0", "drop0-group", "subgraph"])
    ctx.note("copy by", how)
    if how == "clone":
        h = hg.clone()
    elif how == "state_dict":
        h = dhg.Hypergraph.from_state_dict(hg.state_dict)
    elif how == "drop0":
        h = hg.drop_hyperedges(0.0)
    elif how == "drop0-group":
        h = hg.drop_hyperedges_of_group(rng.choice(list(hm.g)), 0.0)
    else:
        h = hg.subgraph(list(range(hm.n)))
    m2 = hm.copy()
    ctx.event("hypergraph copy:" + how)
    ctx.ok(h is not hg, "copy is a new object")
    if how != "subgraph":
        ctx.ok(h.e == hg.e and h.group_names == hg.group_names and h.v_weight == hg.v_weight,
               "a copy has the same hyperedges, to the last digit and in the same order", how=how)
    share = rng.choice([0.1, 0.6])
    H.observe(ctx, h, m2, share)
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.5:
            ctx.note("edit original")
            H.edit(ctx, hg, hm)
        else:
            ctx.note("edit copy")
            H.edit(ctx, h, m2)
        H.observe(ctx, hg, hm, share)
        H.observe(ctx, h, m2, share)
    H.observe(ctx, hg, hm)
    H.observe(ctx, h, m2)
    ctx.state(hm.fp(), m2.fp())
    ctx.sample({"original": hm.fp(), "copy": m2.fp()})


def scribble(o):
    """Overwrite, in place, every matrix and list that a structure hands out."""
    names = list(o.vars_for_DL) + ["e", "v"] + ["e_both_side"] * hasattr(type(o), "e_both_side") + ["v_weight"] * hasattr(type(o), "v_weight")
    got = [getattr(o, a) for a in names]
    if hasattr(o, "group_names"):
        for g in o.group_names:
            for a in ("e", "H", "H_T", "W_e", "D_v", "D_v_neg_1", "D_v_neg_1_2", "D_e", "D_e_neg_1", "L_sym", "L_rw", "L_HGNN"):
                got.append(getattr(o, a + "_of_group")(g))
    for v in got:
        for x in v if isinstance(v, tuple) else (v,):
            if isinstance(x, torch.Tensor):
                (x._values() if x.is_sparse else x).fill_(77)
            elif isinstance(x, list):
                x[:] = []
    return len(got)


OWN = {"g": ["e_src", "e_dst", "e_weight", "deg_v", "v"], "d": ["e_src", "e_dst", "e_weight", "deg_v_in", "deg_v_out", "v"],
       "b": ["e_u", "e_v", "e_weight", "deg_u", "deg_v", "u", "v"],
       "h": ["deg_v", "deg_e", "v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight", "group_names"]}
CALLS = {"g": ["nbr_v", "N_v"], "d": ["nbr_v_in", "nbr_v_out", "N_v_in", "N_v_out"], "b": ["nbr_u", "N_u", "nbr_v", "N_v"], "h": ["nbr_e", "N_e"]}
GROUP = ["deg_v", "deg_e", "v2e_src", "v2e_dst", "v2e_weight", "e2v_src", "e2v_dst", "e2v_weight"]


def handed_out(ctx):
    """Edge tensors, degree lists and neighbour lists are the caller's own: overwriting them changes nothing."""
    import dhg

    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    if kind == "h":
        m = H.rand_model(rng, vw=True)
        o, mod = H.build(dhg, m), H
    else:
        m = G.rand_model(rng, kind)
        o, mod = G.build(dhg, m), G
    mod.observe(ctx, o, m, rng.choice([0.0, 0.4, 1.0]))
    read = [lambda a=a: getattr(o, a) for a in OWN[kind]]
    for a in CALLS[kind]:
        i = rng.randrange(min(m.n, m.m) if kind == "b" else m.n)
        read.append(lambda a=a, i=i: getattr(o, a)(i))
    if kind == "h":
        for gname in m.g:
            read += [lambda a=a, gname=gname: getattr(o, a + "_of_group")(gname) for a in GROUP]
    rng.shuffle(read)
    for f in read:
        x = f()
        before = copy.deepcopy(x)
        ctx.need(isinstance(x, (torch.Tensor, list)), "a tensor or a list is handed out")
        if isinstance(x, list):
            x.reverse()
            x.append(91)
        elif x.numel():
            x.copy_(torch.zeros_like(x) if rng.random() < 0.5 else x.flip(0))
            x.sub_(3)
        y = f()
        ctx.event("handed out:" + kind)
        same = torch.equal(y, before) if isinstance(before, torch.Tensor) else y == before
        ctx.ok(same, "a value handed out and then overwritten is read again unchanged")
    mod.observe(ctx, o, m)
    ctx.state("handed out", kind, m.fp())


def scribbled(ctx):
    """Whatever is overwritten in the views of a copy does not show in its source."""
    import dhg

    rng = ctx.rng
    kind = ["g", "d", "b", "h"][ctx.idx % 4]
    if kind == "h":
        m = H.rand_model(rng, vw=True)
        o, mod = H.build(dhg, m), H
    else:
        m = G.rand_model(rng, kind)
        o, mod = G.build(dhg, m), G
    mod.observe(ctx, o, m, rng.choice([0.3, 1.0]))
    how = rng.choice(["clone", "clone", "drop0", "state_dict"])
    if how == "clone":
        c = o.clone()
    elif how == "drop0":
        c = o.drop_hyperedges(0.0) if kind == "h" else o.drop_edges(0.0)
    else:
        c = type(o).from_state_dict(o.state_dict)
    back = rng.random() < 0.3
    ctx.event("views overwritten", scribble(o if back else c))
    mod.observe(ctx, c if back else o, m)
    ctx.state("scribbled", kind, how, m.fp())


def arguments(ctx):
    """Arguments stay bit-identical, and changing them later does not reach the structure."""
    import dhg

    rng = ctx.rng
    kind = rng.choice(["g", "d", "b", "h", "h"])
    bulk = rng.choice([110, 300, 1100]) if rng.random() < 0.1 else 0       # long lists are left alone as well
    if bulk:
        ctx.event("long arguments")
    if kind == "h":
        m = H.HM(rng.randint(2, 7))
        es = [list(e) for e in H.rand_es(rng, m, bulk or rng.randint(1, 5))]
        if rng.random() < 0.5:
            es = tuple(es)
        ws = [pick_w(rng) for _ in es]
        vw = [float(pick_w(rng)) for _ in range(m.n)]
        es0, ws0, vw0 = copy.deepcopy((es, ws, vw))
        hg = dhg.Hypergraph(m.n, es, ws, v_weight=vw)
        m.add(es0, ws0, "mean")
        m.vw = list(vw0)
        ctx.ok((es, ws, vw) == (es0, ws0, vw0), "constructor leaves its arguments alone", got=(es, ws, vw), want=(es0, ws0, vw0))
        es2 = [list(e) for e in H.rand_es(rng, m, bulk or rng.randint(1, 4))]
        ws2 = [pick_w(rng) for _ in es2]
        c = copy.deepcopy((es2, ws2))
        hg.add_hyperedges(es2, ws2, group_name="g2")
        m.add(*c, "mean", "g2")
        ctx.ok((es2, ws2) == c, "add_hyperedges leaves its arguments alone", got=(es2, ws2), want=c)
        rem = [list(rng.choice(es2)) for _ in range(bulk or 1)]
        for e in rem:
            rng.shuffle(e)
        c2 = copy.deepcopy(rem)
        hg.remove_hyperedges(rem)
        m.remove(c2)
        ctx.ok(rem == c2, "remove_hyperedges leaves its argument alone", got=rem, want=c2)
        vw2 = [float(pick_w(rng)) for _ in range(m.n)]
        hg.v_weight = vw2
        m.vw = list(vw2)
        for lst in (ws, vw, ws2, vw2):
            for i in range(len(lst)):
                lst[i] = -77.0
        for e in list(es) + es2:
            e[:] = [0]
        H.observe(ctx, hg, m)
        n = m.n
        keep = sorted(rng.sample(range(n), rng.randint(1, n)))
        rng.shuffle(keep)
        k0 = list(keep)
        hg.subgraph(keep)
        ctx.ok(keep == k0, "subgraph leaves its argument alone")
        F = torch.tensor(rdense(rng, n, 2), dtype=torch.float)
        F0 = F.clone()
        hg.add_hyperedges_from_feature_kNN(F, rng.randint(1, n), group_name="other")
        ctx.ok(torch.equal(F, F0), "feature matrix untouched")
        ctx.state(m.fp())
    else:
        gm = G.GM(kind, rng.randint(2, 6), rng.randint(2, 6) if kind == "b" else None)
        es = [list(e) for e in G.rand_edges(rng, gm, bulk or rng.randint(2, 6))]
        ws = [pick_w(rng) for _ in es]
        c = copy.deepcopy((es, ws))
        cls = {"g": dhg.Graph, "d": dhg.DiGraph, "b": dhg.BiGraph}[kind]
        g = cls(*((gm.n, gm.m) if kind == "b" else (gm.n,)), es, ws)
        gm.add(*c, "mean")
        ctx.ok((es, ws) == c, "constructor leaves its arguments alone", got=(es, ws), want=c)
        es2 = [list(e) for e in G.rand_edges(rng, gm, bulk or rng.randint(2, 4))]
        ws2 = [pick_w(rng) for _ in es2]
        c2 = copy.deepcopy((es2, ws2))
        g.add_edges(es2, ws2, merge_op="sum")
        gm.add(*c2, "sum")
        ctx.ok((es2, ws2) == c2, "add_edges leaves its arguments alone", got=(es2, ws2), want=c2)
        rem = [list(e) for e in G.rand_edges(rng, gm, bulk or 2)]
        c3 = copy.deepcopy(rem)
        g.remove_edges(rem)
        gm.remove(c3)
        ctx.ok(rem == c3, "remove_edges leaves its argument alone", got=rem, want=c3)
        for lst in (ws, ws2):
            for i in range(len(lst)):
                lst[i] = -77.0
        for e in es + es2 + rem:
            e[:] = [0, 0]
        G.observe(ctx, g, gm)
        adj = [[rng.randrange(gm.n)] + [rng.randrange(gm.m or gm.n) for _ in range(rng.choice([0, 1, 2, 3, bulk]))] for _ in range(bulk or 3)]
        a0 = copy.deepcopy(adj)
        cls.from_adj_list(*((gm.n, gm.m) if kind == "b" else (gm.n,)), adj)
        ctx.ok(adj == a0, "from_adj_list leaves its argument alone")
        ctx.state(gm.fp())
    ctx.event("arguments:" + kind)


def sources(ctx):
    """Conversions never change, nor stay connected to, the structure they start from."""
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, min_size=2)
    hg = H.build(dhg, hm)
    gm = G.rand_model(rng, "g", n=hm.n, loops=False, extra=False)
    g = G.build(dhg, gm)
    bm = G.rand_model(rng, "b", n=hm.n)
    b = G.build(dhg, bm)
    H.observe(ctx, hg, hm, 0.3)
    G.observe(ctx, g, gm, 0.3)
    G.observe(ctx, b, bm, 0.3)
    F = torch.tensor(rdense(rng, hm.n, 2), dtype=torch.float)
    ops = [
        lambda: dhg.Graph.from_hypergraph_star(hg, weighted=rng.random() < 0.5)[0],
        lambda: dhg.Graph.from_hypergraph_clique(hg, weighted=rng.random() < 0.5),
        lambda: dhg.Graph.from_hypergraph_hypergcn(hg, F, rng.random() < 0.5),
        lambda: dhg.BiGraph.from_hypergraph(hg, rng.random() < 0.5, rng.random() < 0.5),
        lambda: dhg.Hypergraph.from_graph(g),
        lambda: dhg.Hypergraph.from_graph_kHop(g, rng.randint(1, 3)),
        lambda: dhg.Hypergraph.from_bigraph(b, rng.random() < 0.5),
        lambda: hg.clone().add_hyperedges_from_graph(g),
        lambda: hg.clone().add_hyperedges_from_graph_kHop(g, 2),
        lambda: hg.clone().add_hyperedges_from_bigraph(b, U_as_vertex=True),
        lambda: g.drop_edges(0.5),
        lambda: b.drop_edges(0.5),
        lambda: b.switch_uv(),
        lambda: hg.drop_hyperedges(0.5),
        lambda: hg.subgraph(rng.sample(range(hm.n), rng.randint(1, hm.n))),
    ]
    F0 = F.clone()
    for i in rng.sample(range(len(ops)), 5):
        ctx.note("conversion", i)
        new = ops[i]()
        if new is not None:   # edit the result, too
            if isinstance(new, dhg.Hypergraph):
                new.add_hyperedges([0], 9.0)
                new.clear()
            else:
                new.add_edges([0, 0], 9.0)
                new.clear()
        G.observe(ctx, g, gm, 0.5)
        G.observe(ctx, b, bm, 0.5)
        H.observe(ctx, hg, hm, 0.4)
        ctx.event("conversion")
    ctx.ok(torch.equal(F, F0), "feature matrix untouched")
    ctx.state(hm.fp(), gm.fp(), bm.fp())


def snap(x):
    """The whole value of an argument: contents, types and shapes."""
    import dhg
    import numpy as np
    import scipy.sparse as sp

    if isinstance(x, torch.Tensor):
        if x.is_sparse:
            x = x.detach().coalesce()
            return ("sparse", tuple(x.shape), x.indices().tolist(), x.values().numpy().tobytes())
        return ("tensor", tuple(x.shape), str(x.dtype), x.requires_grad, x.detach().cpu().contiguous().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes() if x.dtype != object else repr(x.tolist()))
    if sp.issparse(x):
        return ("scipy", type(x).__name__, x.shape, str(x.dtype), x.toarray().tobytes())
    if isinstance(x, dict):
        return ("dict", [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    if isinstance(x, dhg.Hypergraph):
        return ("h", x.num_v, list(x.v_weight), [(n, snap(x.e_of_group(n))) for n in x.group_names])
    if isinstance(x, dhg.BiGraph):
        return ("b", x.num_u, x.num_v, snap(x.e))
    if isinstance(x, (dhg.Graph, dhg.DiGraph)):
        return (type(x).__name__, x.num_v, snap(x.e))
    return (type(x).__name__, repr(x) if isinstance(x, (int, float, str, bool, type(None))) else "")


def short(s):
    return repr(s)[:300]


def functions(ctx):
    """Whatever a public function is given is the same after the call."""
    import dhg
    import numpy as np
    import scipy.sparse as sp
    from dhg import datapipe as D
    from dhg import nn, utils
    from dhg.metrics import classification as MC
    from dhg.metrics import recommender as MR
    from dhg.metrics import retrieval as MT
    from lib.ref import strided

    rng = ctx.rng
    torch.manual_seed(rng.randrange(10 ** 6))
    np.random.seed(rng.randrange(10 ** 6))
    random.seed(rng.randrange(10 ** 6))
    n, c, k = rng.choice([4, 9, 40] if rng.random() < 0.9 else [300, 1100]), rng.randint(2, 5), rng.randint(1, 4)
    first = rng.choice([0, 1, 1, 3])

    def vec(vals, kinds=("list", "array", "tensor")):
        t = rng.choice(kinds)
        return list(vals) if t == "list" else np.array(vals, dtype=rng.choice([np.int64, np.int64, np.int32, float])) if t == "array" else torch.tensor(vals, dtype=rng.choice([torch.int64, torch.int64, torch.int32]))

    def mat(r, q, **kw):
        t = strided(rng, torch.randn(r, q) * rng.choice([1.0, 1.0, 100.0]))
        if rng.random() < 0.1:
            t = t.double()
        if rng.random() < 0.2 and r > 1:
            t = t.clone()
            t[rng.randrange(r)] = 0
        return t

    lab = vec([first + i % c for i in range(n)])
    X = mat(n, rng.choice([1, 3, 40]))
    pairs = [(rng.randrange(5), rng.randrange(7)) for _ in range(rng.randint(1, 12) if n < 300 else n)]
    raw = [rng.choice([(a, b), [a, b], ("u%d" % a, "i%d" % b)]) for a, b in pairs]
    adj = [[u] + [v for a, v in pairs if a == u] for u in rng.sample(range(5), 5)]
    y, out = torch.tensor([rng.randrange(c) for _ in range(n)]), mat(n, c).float()
    rel, sc = (torch.rand(n, c) < 0.5).float(), mat(n, c).float()
    rel[:, rng.randrange(c)] = 1
    if rng.random() < 0.3:
        rel = rel.to(rng.choice([torch.int64, torch.float64, torch.bool]))
    if rng.random() < 0.3:
        sc[rng.randrange(n), rng.randrange(c)] = -float("inf")
    a1 = mat(n, c)
    csr = sp.csr_matrix(np.round(np.random.rand(4, 3)))
    F = {
        "split_by_num": (utils.split_by_num, (n, lab, 1) + rng.choice([(), (1,), (1, 1)])),
        "split_by_ratio": (utils.split_by_ratio, (n, lab, 0.4) + rng.choice([(), (0.2,), (0.2, 0.3)])),
        "edge_list_to_adj_list": (utils.edge_list_to_adj_list, (raw,)), "edge_list_to_adj_dict": (utils.edge_list_to_adj_dict, (raw,)),
        "adj_list_to_edge_list": (utils.adj_list_to_edge_list, (adj,)),
        "remap_edge_list": (utils.remap_edge_list, (raw, rng.random() < 0.5, rng.random() < 0.5)),
        "remap_edge_lists": (lambda *a: utils.remap_edge_lists(*a, bipartite_graph=bool(n % 2), ret_map=True), (raw, pairs)),
        "remap_adj_list": (utils.remap_adj_list, (adj, rng.random() < 0.5, rng.random() < 0.5)),
        "remap_adj_lists": (lambda *a: utils.remap_adj_lists(*a, bipartite_graph=bool(k % 2), ret_map=True), (adj, adj[:2])),
        "normal_features": (dhg.random.normal_features, (vec([i % c for i in range(n)], ("list", "array", "tensor")),)),
        "to_tensor": (D.to_tensor, (rng.choice([X, X.numpy(), X.tolist(), csr, csr.tocoo()]),)),
        "to_bool_tensor": (D.to_bool_tensor, (rng.choice([X, X.numpy(), X.tolist()]),)), "to_long_tensor": (D.to_long_tensor, (rng.choice([X, X.numpy(), X.tolist()]),)),
        "norm_ft": (D.norm_ft, (rng.choice([X, X[0]]), rng.choice([None, 1, 2, float("inf")]))), "min_max_scaler": (D.min_max_scaler, (X, -1.0, rng.choice([1.0, 0.0, 5.0]))),
        "compose_pipes": (D.compose_pipes(D.to_tensor, D.norm_ft), (X,)),
        "accuracy": (MC.accuracy, (y, out)), "f1_score": (MC.f1_score, (y, out, rng.choice(["macro", "micro", "weighted"]))), "confusion_matrix": (MC.confusion_matrix, (y, out)),
        "bpr": (nn.BPRLoss(), (sc[:, 0].nan_to_num(neginf=0.0), out[:, 1])), "regularization": (nn.EmbeddingRegularization(p=rng.choice([1, 2, 3])), (X, a1)),
        "kNN h": (dhg.Hypergraph.from_feature_kNN, (X, min(k, n))), "kNN d": (dhg.DiGraph.from_feature_kNN, (X, min(k, n - 1))),
        "sparse_dropout": (utils.sparse_dropout, (torch.eye(5).to_sparse(), 0.5, rng.choice([0.0, 0.7]))),
        "UserItemDataset": (lambda p, q: [utils.UserItemDataset(5, 8, p, q, phase="test")[i] for i in range(5)], (pairs, pairs[::2])),
        "UserItemDataset train": (lambda p: [utils.UserItemDataset(5, 8, p)[i] for i in range(len(p))], (pairs,)),
        "from_adj_list": (lambda a: dhg.BiGraph.from_adj_list(5, 7, a), (adj,)),
    }
    rel2 = rel.float() if rel.dtype == torch.bool else rel
    for mod, names in ((MR, ("precision", "recall", "ndcg")), (MT, ("precision", "recall", "ndcg", "map", "mrr", "pr_curve"))):
        for f in names:
            kw = {"k": rng.choice([None, 1, 2, 50])} if f not in ("pr_curve",) else {}
            F["%s.%s" % (mod.__name__, f)] = (getattr(mod, f), (rel2, sc), kw)
    for f in ("ap", "rr"):
        F["retrieval." + f] = (getattr(MT, f), (rel2[0], sc[0]))
    cfg = rng.choice([["precision", {"ndcg": {"k": 2}}], [{"recall": {"k": 1}}, "precision"]])
    ev = dhg.metrics.UserItemRecommenderEvaluator(cfg, rng.randrange(2))
    F["evaluator"] = (lambda c, a, b: (dhg.metrics.UserItemRecommenderEvaluator(c), ev.test_add_batch(a, b), ev.validate_add_batch(a, b)), (cfg, rel2, sc))
    cf2 = [{"f1_score": {"average": "macro"}}, "accuracy"]
    F["vertex evaluator"] = (lambda c, a, b: dhg.metrics.VertexClassificationEvaluator(c).test(a, b), (cf2, y, out))
    for name in rng.sample(sorted(F), 18):
        fn, args, kw = (F[name] + ({},))[:3]
        before = [snap(a) for a in args] + [snap(kw)]
        fn(*args, **kw)
        after = [snap(a) for a in args] + [snap(kw)]
        ctx.ok(after == before, "arguments come back as they were", function=name, got=short([a for a, b in zip(after, before) if a != b]),
               want=short([b for a, b in zip(after, before) if a != b]))
        ctx.event("function call")
        ctx.state(name, n, c, str(type(args[0])))


def networks(ctx):
    """Layers and models leave features and structures alone, training or not."""
    import dhg
    from lib import zoo
    from lib.ref import strided

    rng = ctx.rng
    torch.manual_seed(rng.randrange(10 ** 6))
    E = zoo.zoo()
    e = E[ctx.idx % len(E)]
    a, b = rng.choice([(4, 3), (3, 3), (4, 4)])
    w = zoo.rand_world(rng, e.kind, 7, a, b)
    structs = zoo.build(dhg, w)
    xs = [strided(rng, x) for x in w["x"]]
    net = e.make(rng, a, b, w)
    if rng.random() < 0.3:
        xs = [x.clone().requires_grad_() for x in xs]
    before = snap([structs, xs])
    for train in rng.sample([True, False, True], 3):
        net.train(train)
        quiet = not train and rng.random() < 0.6
        with torch.set_grad_enabled(not quiet):
            out = e.call(net, structs, xs)
        if train:
            sum(o.square().sum() for o in out).backward()
        now = snap([structs, xs])
        ctx.ok(now == before, "a model leaves features and structures as they were", model=e.name, training=train, features=snap(xs) == snap_of(before, 1), structures=snap(structs) == snap_of(before, 0))
        for o in out:      # the result is the caller's: writing into it reaches neither the inputs nor the structure
            if not (o.requires_grad and o.is_leaf):
                o.data.fill_(7.5) if not e.emb else None
        ctx.ok(snap([structs, xs]) == before, "writing into a model's result does not reach its inputs", model=e.name, training=train)
        ctx.event("network call")
    ctx.state(e.name, tuple(w["n"]), a, b)


def snap_of(s, i):
    return s[1][i]


def pictures(ctx):
    """Drawing leaves the structure and the style lists alone."""
    import dhg
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    rng = ctx.rng
    kind = rng.choice("gdbh")
    if kind == "h":
        m = H.rand_model(rng, n=rng.randint(2, 4), groups=["main"], ne=rng.randint(1, 2), min_size=2)
        s = H.build(dhg, m)
    else:
        gm = G.rand_model(rng, kind, n=rng.randint(2, 4), loops=False, extra=False)
        s = G.build(dhg, gm)
    ne = len(s.e[0])
    if not ne:
        s.add_edges([[0, 1 if kind != "b" else 0]])
        ne = 1
    col = lambda k: [rng.choice(["r", "b", "#00ff00", "gray"]) for _ in range(k)]
    num = lambda k: [rng.choice([0.5, 1.0, 2.0]) for _ in range(k)]
    nv = s.num_v
    kw = {"e_color": col(ne), "e_line_width": num(ne)}
    if kind == "h":
        kw["e_fill_color"] = col(ne)
    for t, k in ((("u", s.num_u), ("v", nv)) if kind == "b" else (("v", nv),)):
        kw.update({t + "_label": ["%s%d" % (t, i) for i in range(k)], t + "_size": num(k), t + "_color": col(k), t + "_line_width": num(k)})
    kw = {k: kw[k] for k in kw if rng.random() < 0.8 and len(kw[k])}
    before, st = snap(kw), snap(s)
    s.draw(**kw)
    plt.close("all")
    ctx.ok(snap(kw) == before, "drawing leaves the style lists alone", got=short(snap(kw)), want=short(before))
    ctx.ok(snap(s) == st, "drawing leaves the structure alone", got=short(snap(s)), want=short(st))
    ctx.event("picture")
    ctx.state(kind, sorted(kw), snap(s))


SCENARIOS = [
    ("functions", functions, 60, 900),
    ("networks", networks, 58, 580),
    ("pictures", pictures, 12, 100),
    ("scribbled", scribbled, 60, 1200),
    ("handed_out", handed_out, 60, 1200),
    ("graph", lambda c: two_graphs(c, "g"), 70, 1200),
    ("digraph", lambda c: two_graphs(c, "d"), 70, 1200),
    ("bigraph", lambda c: two_graphs(c, "b"), 70, 1200),
    ("hypergraph", two_hypergraphs, 70, 1000),
    ("arguments", arguments, 150, 2500),
    ("sources", sources, 60, 1000),
]
REQUIRED_EVENTS = {"copy:clone": 30, "hypergraph copy:clone": 10, "arguments:h": 10, "conversion": 100, "function call": 500, "network call": 100, "picture": 8}
ASSUMPTIONS = ["the dictionary returned by state_dict itself is a live view; its restored copy is independent",
               "matrices, edge lists and vertex lists are handed out as the cached objects; overwriting those is outside the property"]
