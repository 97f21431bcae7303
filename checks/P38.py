"""Refused operations change nothing: after any rejected call the structure is what it was and keeps working."""
import random

import numpy as np
import torch

from lib import gmodel as G
from lib import hmodel as H

RULE = "one state per distinct (structure, rejected call)"


def bad_graph_calls(ctx, dhg, g, gm):
    """(name, call) that must be refused."""
    rng = ctx.rng
    kind = gm.kind
    n, m = gm.n, gm.m if kind == "b" else gm.n
    d = ctx.tmp()
    good = lambda: (rng.randrange(n), rng.randrange(m))
    outs = [(n, 0), (0, m), (-1, 0), (0, -1), (n + 3, rng.randrange(m)), (rng.randrange(n), m + 2)]
    es = [good() for _ in range(rng.randint(1, 4) if rng.random() < 0.9 else rng.choice([70, 300, 1100]))]
    mixed = list(es)
    mixed.insert(rng.randint(0, len(es)), rng.choice(outs))
    k = len(es)
    calls = [
        ("add out of range", lambda: g.add_edges(mixed)),
        ("add out of range with weights", lambda: g.add_edges(mixed, [2.0] * len(mixed), merge_op="sum")),
        ("add one edge out of range", lambda: g.add_edges([rng.choice(outs)])),
        ("remove out of range", lambda: g.remove_edges(mixed)),
        ("too many weights", lambda: g.add_edges(es, [2.0] * (k + 1))),
        ("too few weights", lambda: g.add_edges(es + [good()], [2.0] * k)),
        ("unknown merge", lambda: g.add_edges(es, [2.0] * k, merge_op=rng.choice(["min", "avg", "", "MEAN"]))),
        ("weights that are no numbers", lambda: g.add_edges(es + [good()], [2.0] * k + [rng.choice([None, "w", [1.0]])])),
        ("ragged edges", lambda: g.add_edges(es + [(0, 0, 0)])),
        ("save to nowhere", lambda: g.save(d / "no" / "where.dhg")),
        ("load of nothing", lambda: type(g).load(d / "nothing.dhg")),
        ("unknown order of dropping", lambda: g.drop_edges(0.5, ord="degree")),
    ]
    X = torch.randn(n if kind != "b" else m, 3)
    if kind == "b":
        XU, XV = torch.randn(n, 3), torch.randn(m, 3)
        calls += [("unknown aggregation", lambda: g.u2v(XU, aggr="max")), ("unknown aggregation", lambda: g.v2u(XV, aggr="")),
                  ("connection weights of the wrong number", lambda: g.u2v(XU, e_weight=torch.ones(len(gm.w) + 1))),
                  ("connection weights of the wrong number", lambda: g.v2u(XV, e_weight=torch.ones(len(gm.w) + 1)))]
    else:
        calls += [("unknown aggregation", lambda: g.v2v(X, aggr="max")),
                  ("connection weights of the wrong number", lambda: g.v2v(X, e_weight=torch.ones(int(g.e_src.shape[0]) + 1)))]
    if kind == "g":
        calls += [("no hop", lambda: g.nbr_v(0, 0))]
    if kind == "d":
        calls += [("unknown aggregation", lambda: g.v2v(X, aggr=rng.choice(["max", ""]), direction="src2dst")),
                  ("connection weights of the wrong number", lambda: g.v2v(X, aggr=rng.choice(["sum", "mean"]), direction="src2dst", e_weight=torch.ones(int(g.e_src.shape[0]) + 1)))]
        calls += [("unknown direction", lambda: g.v2v(X, direction="up"))]
    return calls


def refused(ctx, call, what, **info):
    """The call is refused, and the random streams of a seeded program go on as if it had not been made."""
    a = random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2], torch.get_rng_state().numpy().tobytes()
    ctx.raises(call, what, **info)
    b = random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2], torch.get_rng_state().numpy().tobytes()
    ctx.ok(a == b, "a refused call draws no random numbers", what=what, **info)


def graph_case(ctx, kind):
    import dhg

    rng = ctx.rng
    gm = G.rand_model(rng, kind)
    g = G.build(dhg, gm)
    G.observe(ctx, g, gm, rng.choice([0.0, 0.3, 1.0]))
    for _ in range(4):
        name, call = rng.choice(bad_graph_calls(ctx, dhg, g, gm))
        ctx.note("refused:", name)
        refused(ctx, call, "refused: " + name, kind=kind)
        ctx.event("refused " + name)
        G.observe(ctx, g, gm, rng.choice([0.2, 1.0]))
        ctx.state(gm.fp(), name)
        if rng.random() < 0.6:
            g, gm, _what = G.edit(ctx, g, gm)
            ctx.event("edited after a refusal")
            G.observe(ctx, g, gm, 0.3)
    G.observe(ctx, g, gm)


def bad_hyper_calls(ctx, dhg, hg, hm):
    rng = ctx.rng
    n = hm.n
    d = ctx.tmp()
    es = H.rand_es(rng, hm, rng.randint(1, 4) if rng.random() < 0.9 else rng.choice([70, 300, 1100]))
    k = len(es)
    group = rng.choice(["main", "fresh"] + list(hm.g))
    lost = "no such group"
    X, X1 = torch.randn(n, 3), torch.randn(n + 1, 3)
    ne = len(hm.all())
    Y = torch.randn(ne, 3)
    per = {a: sum(len(e) for e in hm.g[a]) for a in hm.g}
    m = sum(per.values())
    calls = [
        ("too many weights", lambda: hg.add_hyperedges(es, [2.0] * (k + 1), group_name=group)),
        ("too few weights", lambda: hg.add_hyperedges(es + [tuple(range(n))], [2.0] * k, group_name=group)),
        ("unknown merge", lambda: hg.add_hyperedges(es, 2.0, merge_op=rng.choice(["min", "avg", "", "MEAN"]), group_name=group)),
        ("weights that are no numbers", lambda: hg.add_hyperedges(es + [tuple(range(n))], [2.0] * k + [rng.choice([None, "w", [1.0]])], group_name=group)),
        ("weights of no list", lambda: hg.add_hyperedges(es, "w", group_name=group)),
        ("hyperedges of no list", lambda: hg.add_hyperedges(rng.choice([5, "none", {"a": 1}]), group_name=group)),
        ("hyperedges that are no lists", lambda: hg.add_hyperedges(es + [0], group_name=group)),
        ("removal from an unknown group", lambda: hg.remove_hyperedges(es, group_name=lost)),
        ("vertex weights of the wrong number", lambda: setattr(hg, "v_weight", [1.0] * (n + rng.choice([-1, 1])))),
        ("a graph of another size", lambda: hg.add_hyperedges_from_graph(dhg.Graph(n + 1, [(0, n)]), group_name=group)),
        ("a graph of another size", lambda: hg.add_hyperedges_from_graph_kHop(dhg.Graph(n + 1, [(0, n)]), 1, group_name=group)),
        ("no hop", lambda: hg.add_hyperedges_from_graph_kHop(dhg.Graph(n, [(0, 0)]), 0, group_name=group)),
        ("a bipartite graph of another size", lambda: hg.add_hyperedges_from_bigraph(dhg.BiGraph(n + 1, n + 1, [(0, 0)]), group_name=group)),
        ("a bipartite graph of another size", lambda: hg.add_hyperedges_from_bigraph(dhg.BiGraph(n + 1, n, [(0, 0)]), U_as_vertex=True, group_name=group)),
        ("features of another number", lambda: hg.add_hyperedges_from_feature_kNN(X1, 1, group_name=group)),
        ("too many neighbours", lambda: hg.add_hyperedges_from_feature_kNN(X, n + 1, group_name=group)),
        ("save to nowhere", lambda: hg.save(d / "no" / "where.dhg")),
        ("load of nothing", lambda: type(hg).load(d / "nothing.dhg")),
        ("unknown order of dropping", lambda: hg.drop_hyperedges(0.5, ord="degree")),
        ("a view of an unknown group", lambda: getattr(hg, rng.choice(["e_of_group", "H_of_group", "W_e_of_group", "D_v_of_group", "D_e_of_group", "num_e_of_group", "deg_v_of_group",
                                                                       "deg_e_of_group", "L_HGNN_of_group", "v2e_weight_of_group", "e2v_src_of_group"]))(lost)),
        ("an empty subset", lambda: hg.subgraph([])),
        ("a subset out of range", lambda: hg.subgraph([0, rng.choice([n, -1])])),
        ("unknown aggregation", lambda: hg.v2v(X, aggr="max")),
        ("unknown aggregation", lambda: hg.v2e(X, aggr="")),
        ("connection weights of the wrong number", lambda: hg.v2e(X, v2e_weight=torch.ones(m + 1))),
        ("hyperedge weights of the wrong number", lambda: hg.v2e(X, e_weight=torch.ones(ne + 1))),
        ("unknown aggregation", lambda: hg.e2v(Y, aggr=rng.choice(["max", ""]), **rng.choice([{}, {"e2v_weight": torch.ones(m)}]))),
        ("unknown aggregation", lambda: hg.v2e(X, aggr="max", v2e_weight=torch.ones(m))),
        ("connection weights of the wrong number", lambda: hg.e2v(Y, aggr=rng.choice(["sum", "mean"]), e2v_weight=torch.ones(m + 1))),
        ("connection weights of the wrong number", lambda: hg.v2v(X, e2v_weight=torch.ones(m + 1))),
        ("hyperedge beyond the last", lambda: hg.N_v(ne)),
        ("vertex beyond the last", lambda: hg.N_e(n)),
    ]
    for a in hm.g:
        q, YG = len(hm.g[a]), torch.randn(len(hm.g[a]), 3)
        calls += [
            ("unknown aggregation in a group", lambda a=a: hg.v2e_of_group(a, X, aggr="max")),
            ("unknown aggregation in a group", lambda a=a, q=per[a]: hg.v2e_of_group(a, X, aggr="", v2e_weight=torch.ones(q))),
            ("unknown aggregation in a group", lambda a=a, YG=YG: hg.e2v_of_group(a, YG, aggr="max")),
            ("unknown aggregation in a group", lambda a=a, YG=YG, q=per[a]: hg.e2v_of_group(a, YG, aggr="", e2v_weight=torch.ones(q))),
            ("unknown aggregation in a group", lambda a=a: hg.v2v_of_group(a, X, aggr="max")),
            ("connection weights of the wrong number in a group", lambda a=a, q=per[a]: hg.v2e_of_group(a, X, v2e_weight=torch.ones(q + 1))),
            ("connection weights of the wrong number in a group", lambda a=a, YG=YG, q=per[a]: hg.e2v_of_group(a, YG, e2v_weight=torch.ones(q + 1))),
            ("hyperedge weights of the wrong number in a group", lambda a=a, q=q: hg.v2e_of_group(a, X, e_weight=torch.ones(q + 1))),
        ]
    return calls


def hyper_case(ctx):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng)
    hg = H.build(dhg, hm)
    H.observe(ctx, hg, hm, rng.choice([0.0, 0.3, 1.0]))
    for _ in range(4):
        name, call = rng.choice(bad_hyper_calls(ctx, dhg, hg, hm))
        ctx.note("refused:", name)
        refused(ctx, call, "refused: " + name)
        ctx.event("refused " + name)
        H.observe(ctx, hg, hm, rng.choice([0.15, 1.0]))
        ctx.state(hm.fp(), name)
        if rng.random() < 0.6:
            H.edit(ctx, hg, hm)
            ctx.event("edited after a refusal")
            H.observe(ctx, hg, hm, 0.2)
    H.observe(ctx, hg, hm)


def constructors(ctx):
    """What an edit refuses, construction refuses; and arguments stay as they were."""
    import copy

    import dhg

    rng = ctx.rng
    for bad in (0, -1, -3, 2.5, "3", None):
        ctx.raises(lambda: dhg.Graph(bad), "refused: number of vertices", given=bad)
        ctx.raises(lambda: dhg.DiGraph(bad), "refused: number of vertices", given=bad)
        ctx.raises(lambda: dhg.Hypergraph(bad), "refused: number of vertices", given=bad)
    n = rng.randint(2, 5)
    es = [(rng.randrange(n), rng.randrange(n)) for _ in range(rng.randint(1, 4))]
    k = len(es)
    for cls in (dhg.Graph, dhg.DiGraph, lambda nn, *a, **kw: dhg.BiGraph(nn, nn, *a, **kw)):
        kept = copy.deepcopy(es)
        ctx.raises(lambda: cls(n, es + [(0, n)]), "refused: construction with an edge out of range")
        ctx.raises(lambda: cls(n, es + [(-1, 0)]), "refused: construction with an edge out of range")
        ctx.raises(lambda: cls(n, es, [1.0] * (k + 1)), "refused: construction with too many weights")
        ctx.raises(lambda: cls(n, es, [1.0] * k, merge_op="min"), "refused: construction with an unknown merge")
        ctx.ok(es == kept, "arguments are kept")
    hes = [tuple(rng.sample(range(n), 2)) for _ in range(3)]
    kept = copy.deepcopy(hes)
    ctx.raises(lambda: dhg.Hypergraph(n, hes, [1.0] * 4), "refused: construction with too many weights")
    ctx.raises(lambda: dhg.Hypergraph(n, hes, merge_op="min"), "refused: construction with an unknown merge")
    ctx.raises(lambda: dhg.Hypergraph(n, hes, v_weight=[1.0] * (n + 1)), "refused: construction with vertex weights of the wrong number")
    ctx.ok(hes == kept, "arguments are kept")
    from dhg.models import GCN  # noqa: F401  (importable next to refused constructions)
    ctx.event("constructors")
    ctx.state("ctor", n, es, hes)


SCENARIOS = [("graph", lambda c: graph_case(c, "g"), 130, 2500), ("digraph", lambda c: graph_case(c, "d"), 130, 2500), ("bigraph", lambda c: graph_case(c, "b"), 130, 2500),
             ("hypergraph", hyper_case, 160, 3000), ("constructors", constructors, 10, 100)]
REQUIRED_EVENTS = {"edited after a refusal": 300, "constructors": 5, "refused unknown merge": 20, "refused add out of range": 10, "refused weights that are no numbers": 15}
ASSUMPTIONS = ["hypergraphs do not check the range of vertex indices when hyperedges are added", "CPU device"]
