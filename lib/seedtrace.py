"""A fixed catalogue of random dhg operations; ``trace(seed, plan)`` is their observable outcome."""
import hashlib
import json
import random
import sys


def _t(x):
    return [list(x.shape), x.detach().cpu().double().reshape(-1).tolist()]


def _e(g):
    e, w = g.e
    return [[list(x) for x in e], list(w)]


def ops(v=0):
    """v = 0: small inputs; 1: larger ones and high rates; 2: dense and low rates."""
    import dhg
    import dhg.random as R
    import torch
    from dhg import models, nn, utils

    hg = dhg.Hypergraph(9, [[0, 1, 2], [2, 3], [3, 4, 5, 6], [6, 7, 8], [0, 8], [1, 5]])
    g = dhg.Graph(9, [[0, 1], [1, 2], [2, 3], [3, 4], [4, 5], [5, 6], [6, 7], [7, 8], [0, 4]])
    d = dhg.DiGraph(9, [[0, 1], [1, 2], [2, 3], [3, 4], [5, 4], [5, 6], [6, 7], [8, 7]])
    b = dhg.BiGraph(5, 6, [[0, 1], [0, 2], [0, 3], [1, 0], [1, 4], [2, 5], [3, 3], [4, 0], [4, 1], [4, 2]])
    hm = dhg.Hypergraph(9)
    for i, name in enumerate(("alpha", "beta", "gamma", "delta", "epsilon")):
        hm.add_hyperedges([[i, i + 1], [i, i + 2, i + 3], [i, i + 4]], [1.0, 2.0, 0.5], group_name=name)
    lab = [0, 1, 2, 0, 1, 2, 0, 0, 1, 2, 2, 1]
    n, nu, ni, p, r = 9, 5, 6, 0.4, 0.5
    if v:
        fix = random.Random(v)      # fixed inputs, not part of the trace
        n, nu, ni = (70, 12, 90) if v == 1 else (24, 9, 14)
        p, r = (0.15, 0.8) if v == 1 else (0.85, 0.1)
        pick = lambda lo, hi: sorted(fix.sample(range(n), fix.randint(lo, hi)))
        hg = dhg.Hypergraph(n, [pick(2, 6) for _ in range(25)] + [pick(n // 2, n - 2) for _ in range(3)], [fix.uniform(0.2, 3) for _ in range(28)])
        g = dhg.Graph(n, [pick(2, 2) for _ in range(3 * n)], extra_selfloop=True)
        d = dhg.DiGraph(n, [tuple(fix.sample(range(n), 2)) for _ in range(3 * n)])
        b = dhg.BiGraph(nu, ni, [(u, i) for u in range(nu) for i in fix.sample(range(ni), fix.choice([1, 2, ni // 2, ni - 2]))])
        hm = dhg.Hypergraph(n)
        for i in range(14):
            hm.add_hyperedges([pick(2, 9) for _ in range(4)], group_name="g%d" % (i * 7 % 14))
        hm.add_hyperedges([pick(2, 9) for _ in range(40)], group_name="delta")
        hm.add_hyperedges([pick(2, 9) for _ in range(40)], group_name="gamma")
        lab = [fix.randrange(3) for _ in range(n)]
    X = torch.arange(n * 4).view(n, 4).float() / 10
    s = utils.UserItemDataset(nu, ni, [tuple(e) for e in b.e[0]])
    s2 = utils.UserItemDataset(nu, ni, [tuple(e) for e in b.e[0]], strict_link=False)

    def state(m):
        return [_t(p) for p in m.parameters()]

    def picture(s):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        plt.close("all")
        s.draw()
        out = [[round(float(x), 9) for x in p.center] for p in plt.gca().patches if hasattr(p, "center")]
        for c in plt.gca().collections:
            out += [[round(float(x), 9) for x in p.vertices.reshape(-1)] for p in c.get_paths()]
        plt.close("all")
        return out

    def run(m, *a):
        m.train()
        return _t(m(*a))

    return {
        "graph_Gnp": lambda: _e(R.graph_Gnp(n - 1, p)), "graph_Gnp_fast": lambda: _e(R.graph_Gnp_fast(n + 3, p)),
        "graph_Gnm": lambda: _e(R.graph_Gnm(n, n * (n - 1) // 2 - 3 if v == 2 else n + 2)), "digraph_Gnp": lambda: _e(R.digraph_Gnp(n - 2, p)),
        "digraph_Gnp_fast": lambda: _e(R.digraph_Gnp_fast(n, p)), "digraph_Gnm": lambda: _e(R.digraph_Gnm(n, n * (n - 1) - 3 if v == 2 else 2 * n + 2)),
        "bigraph_Gnp": lambda: _e(R.bigraph_Gnp(nu, ni, p)), "bigraph_Gnm": lambda: _e(R.bigraph_Gnm(nu, ni, nu * ni - 3 if v == 2 else 2 * ni)),
        "uniform_Gnp": lambda: _e(R.uniform_hypergraph_Gnp(3, 7 if not v else 20, p)), "uniform_Gnm": lambda: _e(R.uniform_hypergraph_Gnm(3 + 4 * v, n, n)),
        "hypergraph_Gnm": lambda: _e(R.hypergraph_Gnm(n, n + 3)), "hypergraph_Gnm_u": lambda: _e(R.hypergraph_Gnm(n, n + 3, "uniform")),
        "hypergraph_Gnm_c": lambda: _e(R.hypergraph_Gnm(6, 9, "custom", [1, 0, 2, 1, 1])),
        "normal_features": lambda: _t(R.normal_features(lab, 0.7)),
        "drop_g": lambda: _e(g.drop_edges(r)), "drop_d": lambda: _e(d.drop_edges(r)), "drop_b": lambda: _e(b.drop_edges(r)),
        "drop_hg": lambda: _e(hg.drop_hyperedges(r)), "drop_hgg": lambda: _e(hg.drop_hyperedges_of_group("main", r)),
        "hypergcn": lambda: _e(dhg.Graph.from_hypergraph_hypergcn(hg, torch.sin(X * 37), True)),
        "split_num": lambda: [m.tolist() for m in utils.split_by_num(len(lab), lab, 1, 1, 1)],
        "split_ratio": lambda: [m.tolist() for m in utils.split_by_ratio(len(lab), lab, 0.5, 0.25)],
        "split_ui_num": lambda: list(utils.split_by_num_for_UI_bigraph(b, 1 + 3 * v)),
        "split_ui_ratio": lambda: list(utils.split_by_ratio_for_UI_bigraph(b, 0.5)),
        "sparse_dropout": lambda: _t(utils.sparse_dropout(g.A, r).to_dense()),
        "smoothing_drop": lambda: _t(g.v2v(X, drop_rate=r)), "hg_drop": lambda: _t(hg.v2v(X, drop_rate=r)),
        "ui_strict": lambda: [s[i] for i in range(len(s))], "ui_loose": lambda: [s2[i] for i in range(len(s2))],
        "ui_triplet": lambda: [s.sample_triplet() for _ in range(5)],
        "GCN": lambda: run(models.GCN(4, 3, 2), X, g), "HGNNP": lambda: run(models.HGNNP(4, 3, 2), X, hg),
        "GAT": lambda: run(models.GAT(4, 3, 2, 2), X, g), "GIN": lambda: state(models.GIN(4, 3, 2, 2)),
        "UniGAT": lambda: state(models.UniGAT(4, 3, 2, 2)), "LightGCN": lambda: state(models.LightGCN(nu, ni, 4 + 60 * v)),
        "NGCF": lambda: state(models.NGCF(nu, ni, 4 + 60 * v)),
        "DHCF": lambda: state(models.DHCF(nu, ni, 4 + 60 * v)), "HyperGCN": lambda: state(models.HyperGCN(4, 3, 2)),
        "HGNNPConv": lambda: state(nn.HGNNPConv(4, 3)), "JHConv": lambda: state(nn.JHConv(4, 3)),
        "drop_multi": lambda: _e(hm.drop_hyperedges(r)), "drop_multi_g": lambda: _e(hm.drop_hyperedges_of_group("gamma", r)),
        "multi_v2v": lambda: _t(hm.v2v(X, drop_rate=r)), "multi_smooth": lambda: _t(hm.smoothing_with_HGNN_of_group("delta", X, drop_rate=r)),
        "d_v2v": lambda: _t(d.v2v(X, drop_rate=r)), "g_gcn": lambda: _t(g.smoothing_with_GCN(X, drop_rate=r)),
        "HGNN": lambda: run(models.HGNN(4, 3, 2), X, hm), "HNHN": lambda: run(models.HNHN(4, 3, 2), X, hm),
        "HyperGCN_run": lambda: run(models.HyperGCN(4, 3, 2), X, hm), "UniGCN": lambda: run(models.UniGCN(4, 3, 2), X, hm),
        "UniSAGE": lambda: run(models.UniSAGE(4, 3, 2), X, hm), "UniGIN": lambda: run(models.UniGIN(4, 3, 2), X, hm),
        "UniGAT_run": lambda: run(models.UniGAT(4, 3, 2, 2), X, hm), "GraphSAGE": lambda: run(models.GraphSAGE(4, 3, 2), X, g),
        "GIN_run": lambda: run(models.GIN(4, 3, 2, 2), X, g), "MLP": lambda: state(nn.MLP([4, 3, 2])),
        "NGCF_run": lambda: [_t(t) for t in models.NGCF(nu, ni, 4 + 60 * v).train()(b)], "Discriminator": lambda: state(nn.Discriminator(4, 3, 2)),
        "draw_g": lambda: picture(dhg.Graph(3, [[0, 1], [1, 2]])), "draw_hg": lambda: picture(dhg.Hypergraph(3, [[0, 1, 2], [1, 2]])),
        "draw_b": lambda: picture(dhg.BiGraph(2, 2, [[0, 1], [1, 0]])), "draw_d": lambda: picture(dhg.DiGraph(3, [[0, 1], [2, 1]])),
        "linear": lambda: _t(torch.rand(3)),
    }


def trace(seed, plan, reseed=None, v=0):
    """Outcome of the planned operations after set_seed(seed)."""
    import dhg.random as R

    table = ops(v)
    (reseed or R.set_seed)(seed)
    return [table[n]() for n in plan]


if __name__ == "__main__":
    import torch

    torch.set_num_threads(1)
    sys.path.insert(0, sys.argv[1])
    res = trace(int(sys.argv[2]), json.loads(sys.argv[3]), v=int(sys.argv[4]))
    print("TRACE " + hashlib.sha256(json.dumps(res).encode()).hexdigest())
