"""Every model and layer of the library behind one calling convention, for metamorphic monitors.

An entry builds a module for given channels; ``call(module, world)`` runs it on a
world = dict(s=structures, x=input tensors) and returns a list of output tensors,
one per vertex set of the world.
"""
import torch

from . import gmodel as G
from . import hmodel as H


class Entry:
    def __init__(self, name, kind, make, call, hops, emb=False, tie=False):
        self.name, self.kind, self.make, self.call, self.hops, self.emb, self.tie = name, kind, make, call, hops, emb, tie


def gin_layer(nn, a, b, rng):
    return nn.GINConv(nn.MLP([a, 6, b], use_bn=rng.random() < 0.5, drop_rate=0.0), eps=rng.choice([0.0, 0.5]), train_eps=rng.random() < 0.5)


def zoo():
    from dhg import models as m
    from dhg import nn

    def bn(r):
        return {"use_bn": True} if r.random() < 0.4 else {}

    one = lambda l, s, x: [l(x[0], s[0])]
    E = []
    for c in (nn.GCNConv, nn.GraphSAGEConv, nn.GATConv):
        E.append(Entry(c.__name__, "g", lambda r, a, b, w, c=c: c(a, b, drop_rate=0.0, **bn(r)), one, 1))
    E.append(Entry("GINConv", "g", lambda r, a, b, w: gin_layer(nn, a, b, r), one, 1))
    for c in (m.GCN, m.GraphSAGE):
        E.append(Entry(c.__name__, "g", lambda r, a, b, w, c=c: c(a, 8, b, drop_rate=0.0, **bn(r)), one, 2))
    E.append(Entry("GAT", "g", lambda r, a, b, w: m.GAT(a, 5, b, 3, drop_rate=0.0, **bn(r)), one, 2))
    E.append(Entry("GIN", "g", lambda r, a, b, w: m.GIN(a, 8, b, 3, drop_rate=0.0, **bn(r)), one, 3))
    for c in (nn.HGNNConv, nn.HGNNPConv, nn.HNHNConv, nn.UniGCNConv, nn.UniGATConv, nn.UniSAGEConv, nn.UniGINConv):
        E.append(Entry(c.__name__, "h", lambda r, a, b, w, c=c: c(a, b, drop_rate=0.0, **bn(r)), one, 1))
    E.append(Entry("JHConv", "h", lambda r, a, b, w: nn.JHConv(a, a, drop_rate=0.0, **bn(r)), one, 1))
    for c in (m.HGNN, m.HGNNP, m.HNHN, m.UniGCN, m.UniSAGE, m.UniGIN):
        E.append(Entry(c.__name__, "h", lambda r, a, b, w, c=c: c(a, 8, b, drop_rate=0.0, **bn(r)), one, 2))
    E.append(Entry("UniGAT", "h", lambda r, a, b, w: m.UniGAT(a, 5, b, 3, drop_rate=0.0, **bn(r)), one, 2))
    for fast in (True, False):
        E.append(Entry("HyperGCN" + ("" if fast else " slow"), "h",
                       lambda r, a, b, w, fast=fast: m.HyperGCN(a, 8, b, drop_rate=0.0, fast=fast, use_mediator=r.random() < 0.5, **bn(r)), one, 2, tie=True))
    for c in (m.LightGCN, m.NGCF):
        E.append(Entry(c.__name__, "b", lambda r, a, b, w, c=c: c(w["n"][0], w["n"][1], a, num_layers=2, drop_rate=0.0),
                       lambda l, s, x: list(l(s[0])), 2, emb=True))
    E.append(Entry("DHCF", "hh", lambda r, a, b, w: m.DHCF(w["n"][0], w["n"][1], a, num_layers=2, drop_rate=0.0),
                   lambda l, s, x: list(l(s[0], s[1])), 2, emb=True))
    for c in (m.LightGCN, m.NGCF):
        E.append(Entry(c.__name__ + " deep", "b", lambda r, a, b, w, c=c: c(w["n"][0], w["n"][1], a, num_layers=5, drop_rate=0.0),
                       lambda l, s, x: list(l(s[0])), 5, emb=True))
    E.append(Entry("DHCF deep", "hh", lambda r, a, b, w: m.DHCF(w["n"][0], w["n"][1], a, num_layers=5, drop_rate=0.0),
                   lambda l, s, x: list(l(s[0], s[1])), 5, emb=True))
    E.append(Entry("BGNN_Adv", "b", lambda r, a, b, w: m.BGNN_Adv(a, b, 3), lambda l, s, x: [l(x[0], x[1], s[0])], 3))
    E.append(Entry("BGNN_MLP", "b", lambda r, a, b, w: m.BGNN_MLP(a, b, 5, 6, layer_depth=3, drop_rate=0.0), lambda l, s, x: [l(x[0], x[1], s[0])], 3))
    return E


def settle(m):
    """Batch-norm statistics and biases away from their trivial start, evaluation mode."""
    with torch.no_grad():
        for b in m.modules():
            if isinstance(b, torch.nn.BatchNorm1d):
                b.running_mean.normal_()
                b.running_var.uniform_(0.5, 2)
                b.weight.uniform_(0.5, 2)
                b.bias.normal_()
    return m.eval()


# ---- structures as plain data ------------------------------------------------
def rand_world(rng, kind, size, a, b):
    """Plain data: sizes, edges (list of (tuple, weight)) per structure and the input features."""
    n = [rng.randint(3, size), rng.randint(3, size)] if kind in ("b", "hh") else [rng.randint(3, size)]
    es = []
    if kind == "g":
        gm = G.rand_model(rng, "g", n=n[0], dens=rng.choice([1.5 / n[0], 3 / n[0], 0.4]), extra=False)
        es.append(list(gm.w.items()) + [((v, v), w) for v, w in gm.loops.items()])
    elif kind == "b":
        gm = G.rand_model(rng, "b", n=n[0], m=n[1], dens=rng.choice([1.5 / n[0], 3 / n[0], 0.4]))
        es.append(list(gm.w.items()))
    else:
        for k in n:
            hm = H.rand_model(rng, n=k, groups=["main"], ne=rng.randint(1, k), min_size=2)
            es.append(list(hm.g["main"].items()))
    return dict(kind=kind, n=n, e=es, x=[torch.randn(n[0], a), torch.randn(n[1], b)] if kind == "b" else [torch.randn(n[0], a)])


def build(dhg, w):
    k = w["kind"]
    out = []
    for i, es in enumerate(w["e"]):
        e, ws = [list(x) for x, _ in es], [float(y) for _, y in es]
        if k == "g":
            out.append(dhg.Graph(w["n"][0], e, ws) if e else dhg.Graph(w["n"][0]))
        elif k == "b":
            out.append(dhg.BiGraph(w["n"][0], w["n"][1], e, ws) if e else dhg.BiGraph(*w["n"]))
        else:
            hg = dhg.Hypergraph(w["n"][i])
            for gname in sorted(set(w.get("groups", ["main"] * len(e)))):
                idx = [j for j in range(len(e)) if w.get("groups", ["main"] * len(e))[j] == gname]
                if idx:
                    hg.add_hyperedges([e[j] for j in idx], [ws[j] for j in idx], group_name=gname)
            out.append(hg)
    return out


def permuted(rng, w):
    """The same world with every vertex set renamed; returns (world, permutations p with new = p[old])."""
    p = [rng.sample(range(k), k) for k in w["n"]]
    v = dict(w)
    e = []
    for i, es in enumerate(w["e"]):
        if w["kind"] == "b":
            e.append([((p[0][s], p[1][d]), x) for (s, d), x in es])
        else:
            e.append([(tuple(p[i][u] for u in t), x) for t, x in es])
        rng.shuffle(e[-1])
    v["e"] = e
    v["x"] = [move(x, q) for x, q in zip(w["x"], p)]
    return v, p


def move(x, p):
    """Row p[i] of the result is row i of x."""
    y = torch.empty_like(x)
    y[torch.tensor(p)] = x
    return y


def shuffled(rng, w):
    """The same world written down differently: edge order, order inside an edge, groups."""
    v = dict(w)
    e = []
    for es in w["e"]:
        es = list(es)
        rng.shuffle(es)
        if w["kind"] != "b":
            es = [(tuple(rng.sample(t, len(t))), x) for t, x in es]
        e.append(es)
    v["e"] = e
    if w["kind"] == "h":
        v["groups"] = [rng.choice(["main", "a", "b"]) for _ in e[0]]
    return v


def joined(w1, w2):
    """Disjoint union (second world's vertices behind the first's)."""
    v = dict(kind=w1["kind"], n=[a + b for a, b in zip(w1["n"], w2["n"])])
    e = []
    for i, (x, y) in enumerate(zip(w1["e"], w2["e"])):
        off = w1["n"] if w1["kind"] == "b" else None
        if off:
            e.append(x + [((s + off[0], d + off[1]), q) for (s, d), q in y])
        else:
            e.append(x + [(tuple(u + w1["n"][i] for u in t), q) for t, q in y])
    v["e"] = e
    v["x"] = [torch.cat([a, b]) for a, b in zip(w1["x"], w2["x"])]
    return v


def reach(w, side, v0, hops):
    """Vertices per set within the given number of steps of vertex v0 of the set ``side``."""
    kind = w["kind"]
    near = {(side, v0)}
    for _ in range(hops):
        new = set(near)
        for i, es in enumerate(w["e"]):
            for t, _w in es:
                vs = [(0, t[0]), (1, t[1])] if kind == "b" else [(i, u) for u in t]
                if any(u in near for u in vs):
                    new.update(vs)
        near = new
    return near
