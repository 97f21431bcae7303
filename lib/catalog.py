"""A catalogue of dhg functions without random outcomes, on inputs of their own: ``calls(rng, tmp)`` gives {name: function}.

Every function returns a comparable value (numbers, strings, lists) and does the same however often it is called.
"""
import json
import pickle

import torch

from . import gmodel as G
from . import hmodel as H


def _t(x):
    return [list(x.shape), x.detach().double().to_dense().reshape(-1).tolist() if x.is_sparse else x.detach().double().reshape(-1).tolist()]


def _e(s):
    if type(s).__name__ == "Hypergraph":
        return [s.num_v, [[g, [list(e) for e in s.e_of_group(g)[0]], list(s.e_of_group(g)[1])] for g in s.group_names], list(s.v_weight)]
    return [s.num_v, [list(e) for e in s.e[0]], list(s.e[1])]


def calls(rng, tmp=None, k=1):
    """k: how much larger than tiny the inputs are."""
    import dhg
    from dhg import datapipe as D
    from dhg import nn, utils
    from dhg.metrics import classification as MC
    from dhg.metrics import recommender as MR
    from dhg.metrics import retrieval as MT

    dens = None if k == 1 else min(0.6, 8 / k)
    gm, dm, bm = (G.rand_model(rng, t, n=(5 if t == "b" else 6) * k, m=6 * k if t == "b" else None, dens=dens) for t in "gdb")
    hm = H.rand_model(rng, n=6 * k, vw=rng.random() < 0.5, min_size=2, ne=None if k == 1 else 9 * k)
    g, d, b, hg = G.build(dhg, gm), G.build(dhg, dm), G.build(dhg, bm), H.build(dhg, hm)
    X = torch.tensor([[rng.uniform(-1, 1) for _ in range(3)] for _ in range(6 * k)])
    pairs = sorted({(rng.randrange(5 * k), rng.randrange(6 * k)) for _ in range(9 * k)})
    adj = [[u] + [v for a, v in pairs if a == u] for u in sorted({a for a, _ in pairs})]
    big = [(u * 100 + 7, v * 10 + 3) for u, v in pairs]
    n, c = 7 * k, 4 if k == 1 else 3 * k
    cls = torch.tensor([rng.randrange(c) for _ in range(n)])
    out = torch.tensor([[rng.random() for _ in range(c)] for _ in range(n)])
    rel = torch.tensor([[float(rng.random() < 0.4) for _ in range(c)] for _ in range(n)])
    rel[:, 0] = 1.0
    lay = {"GCNConv": nn.GCNConv(3, 2), "GraphSAGEConv": nn.GraphSAGEConv(3, 2), "GATConv": nn.GATConv(3, 2),
           "GINConv": nn.GINConv(nn.MLP([3, 2]), 0.3), "HGNNConv": nn.HGNNConv(3, 2), "HGNNPConv": nn.HGNNPConv(3, 2), "HNHNConv": nn.HNHNConv(3, 2),
           "UniGCNConv": nn.UniGCNConv(3, 2), "UniSAGEConv": nn.UniSAGEConv(3, 2), "UniGATConv": nn.UniGATConv(3, 2), "JHConv": nn.JHConv(3, 3)}
    for m in lay.values():
        m.eval()
    bpr, reg = nn.BPRLoss(), nn.EmbeddingRegularization()
    C = {
        "graph": lambda: _e(G.build(dhg, gm)), "digraph": lambda: _e(G.build(dhg, dm)), "bigraph": lambda: _e(G.build(dhg, bm)), "hypergraph": lambda: _e(H.build(dhg, hm)),
        "clone g": lambda: _e(g.clone()), "clone d": lambda: _e(d.clone()), "clone b": lambda: _e(b.clone()), "clone h": lambda: _e(hg.clone()),
        "state g": lambda: _e(dhg.Graph.from_state_dict(g.state_dict)), "state h": lambda: _e(dhg.Hypergraph.from_state_dict(hg.state_dict)),
        "adj list": lambda: _e(dhg.BiGraph.from_adj_list(5 * k, 6 * k, adj)), "biadj": lambda: _e(dhg.BiGraph.from_hypergraph(hg)),
        "kNN h": lambda: _e(dhg.Hypergraph.from_feature_kNN(X, 2)), "kNN d": lambda: _e(dhg.DiGraph.from_feature_kNN(X, 2)),
        "h of g": lambda: _e(dhg.Hypergraph.from_graph(g)), "h of g 2-hop": lambda: _e(dhg.Hypergraph.from_graph_kHop(g, 2)),
        "h of b": lambda: _e(dhg.Hypergraph.from_bigraph(b, U_as_vertex=True)), "h of b v": lambda: _e(dhg.Hypergraph.from_bigraph(b, U_as_vertex=False)),
        "g of h clique": lambda: _e(dhg.Graph.from_hypergraph_clique(hg)), "g of h star": lambda: _e(dhg.Graph.from_hypergraph_star(hg)[0]),
        "sub h": lambda: _e(hg.subgraph([0, 2, 3])),
        "g views": lambda: [_t(x.clone().L_sym) for x in [g]] + [_t(g.clone().L_GCN), g.clone().deg_v, sorted(g.clone().nbr_v(1, 2))],
        "d views": lambda: [_t(d.clone().A), d.clone().deg_v_in, d.clone().nbr_v_out(1)],
        "b views": lambda: [_t(b.clone().B), b.clone().deg_u, b.clone().nbr_u(1), _t(b.clone().L_GCN)],
        "h views": lambda: [_t(hg.clone().L_HGNN), hg.clone().deg_v, hg.clone().deg_e, _t(hg.clone().L_sym)],
        "g v2v": lambda: [_t(g.v2v(X, aggr=a)) for a in ("sum", "mean", "softmax_then_sum")], "g GCN": lambda: _t(g.smoothing_with_GCN(X)),
        "d v2v": lambda: [_t(d.v2v(X, aggr=a)) for a in ("sum", "mean")], "b v2u": lambda: _t(b.v2u(X, aggr="mean")), "b u2v": lambda: _t(b.u2v(X[:5 * k], aggr="sum")),
        "h v2v": lambda: [_t(hg.v2v(X, aggr=a)) for a in ("sum", "mean", "softmax_then_sum")], "h HGNN": lambda: _t(hg.smoothing_with_HGNN(X)),
        "to adj": lambda: utils.edge_list_to_adj_list(pairs), "to adj dict": lambda: sorted(utils.edge_list_to_adj_dict(pairs).items()),
        "to edges": lambda: [list(x) for x in utils.adj_list_to_edge_list(adj)],
        "remap": lambda: [utils.remap_edge_list(big, bipartite_graph=True)],
        "sparse dropout 0": lambda: _t(utils.sparse_dropout(g.A, 0.0)), "C": lambda: [utils.C(40, 3), utils.C(6, 0)],
        "accuracy": lambda: MC.accuracy(cls, out), "f1": lambda: [MC.f1_score(cls, out, a) for a in ("macro", "micro", "weighted")],
        "confusion": lambda: MC.confusion_matrix(cls, out).tolist(),
        "rec": lambda: [f(rel, out, k=2) for f in (MR.precision, MR.recall, MR.ndcg)] + [MR.ndcg(rel, out, ret_batch=True)],
        "ret": lambda: [f(rel, out, k=2) for f in (MT.precision, MT.recall, MT.ndcg, MT.mrr)] + [MT.map(rel, out), MT.ap(rel[0], out[0]), MT.rr(rel[0], out[0])],
        "pr": lambda: [list(map(float, x)) for x in MT.pr_curve(rel, out)],
        "norm": lambda: [_t(D.norm_ft(X)), _t(D.min_max_scaler(X, -1.0, 2.0))],
        "tensors": lambda: [_t(D.to_tensor(X.numpy())), _t(D.to_long_tensor([1, 2])), _t(D.to_bool_tensor([1, 0])), _t(D.compose_pipes(D.to_tensor, D.norm_ft)(X.tolist()))],
        "bpr": lambda: float(bpr(out[:, 0], out[:, 1])), "reg": lambda: float(reg(X, out)),
        "items": lambda: [_t(t) if isinstance(t, torch.Tensor) else t for t in utils.UserItemDataset(5 * k, 6 * k, [(u, u) for u in range(5 * k)], train_user_item_list=[(u, u + 1) for u in range(5 * k)], phase="test")[2]],
    }
    for name, m in lay.items():
        s = g if name in ("GCNConv", "GraphSAGEConv", "GATConv", "GINConv") else hg
        C[name] = lambda m=m, s=s: _t(m(X, s))
        C[name + " gradient"] = lambda m=m, s=s: [_t(q) for q in torch.autograd.grad(m(X, s).square().sum(), list(m.parameters()), allow_unused=True) if q is not None]
    if tmp is not None:
        (tmp / "c.pkl").write_bytes(pickle.dumps({"a": [1, 2], "b": "x"}))
        (tmp / "c.json").write_text(json.dumps({"a": [1, {"b": None}]}))
        (tmp / "c.txt").write_text("1 2 3\n4 5 6\n")
        hg.save(tmp / "h.dhg")
        g.save(tmp / "g.dhg")
        C.update({"pickle": lambda: D.load_from_pickle(tmp / "c.pkl"), "pickle key": lambda: D.load_from_pickle(tmp / "c.pkl", keys="b"),
                  "json": lambda: D.load_from_json(tmp / "c.json"), "txt": lambda: D.load_from_txt(tmp / "c.txt", "int", sep=" "),
                  "load h": lambda: _e(dhg.Hypergraph.load(tmp / "h.dhg")), "load g": lambda: _e(dhg.load_structure(tmp / "g.dhg"))})
    return C
