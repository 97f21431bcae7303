"""Conversions between graphs, bipartite graphs and hypergraphs."""
import numpy as np

from lib import gmodel as G
from lib import hmodel as H
from lib.ref import same_weighted

RULE = "one state per distinct (source structure, conversion, options) whose result was compared with the definition"


def from_hg(ctx, huge=False):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, vw=rng.random() < 0.3) if rng.random() < 0.93 else H.HM(rng.randint(1, 5))
    if huge:
        hm = H.huge_model(rng, top=60)
    hg = H.build(dhg, hm)
    if rng.random() < 0.3:
        H.observe(ctx, hg, hm, 0.3)
        H.edit(ctx, hg, hm)
    e, w = hg.e
    e = [tuple(x) for x in e]
    n, m = hm.n, len(e)

    def graph_is(g, gm, key, **kw):
        ctx.ok(type(g) is {"g": dhg.Graph, "b": dhg.BiGraph}[gm.kind], key + ": class")
        G.check_edges(ctx, g, gm, key)
        G.observe(ctx, g, gm, 0.4)
        ctx.state(hm.fp(), key, repr(kw))
        ctx.event(key)

    # star
    weighted = rng.random() < 0.5
    g, mask = dhg.Graph.from_hypergraph_star(hg, weighted=weighted, merge_op=rng.choice(["sum", "mean", "max"]))
    gm = G.GM("g", n + m)
    gm.w = {(v, n + j): 1.0 for j, x in enumerate(e) for v in x}
    graph_is(g, gm, "star expansion", weighted=weighted)
    ctx.ok(mask.tolist() == [True] * n + [False] * m, "star expansion vertex mask", got=mask.tolist())
    # clique
    weighted = rng.random() < 0.7
    miu = rng.choice([1.0, 0.5, 2.0, rng.uniform(0.1, 3), 1e-5, 5e3] if rng.random() < 0.3 else [1.0, 0.5, rng.uniform(0.1, 3)])
    g = dhg.Graph.from_hypergraph_clique(hg, weighted=weighted, miu=miu)
    gm = G.GM("g", n)
    for x in e:
        for a in x:
            for b in x:
                if a < b:
                    gm.w[(a, b)] = gm.w.get((a, b), 0.0) + miu
    if not weighted:
        gm.w = {k: 1.0 for k in gm.w}
    graph_is(g, gm, "clique expansion", weighted=weighted, miu=miu)
    # bipartite
    as_u, weighted = rng.random() < 0.5, rng.random() < 0.5
    b = dhg.BiGraph.from_hypergraph(hg, vertex_as_U=as_u, weighted=weighted) if m else None
    if m:
        gm = G.GM("b", n if as_u else m, m if as_u else n)
        for j, x in enumerate(e):
            for v in x:
                gm.w[(v, j) if as_u else (j, v)] = float(w[j]) if weighted else 1.0
        graph_is(b, gm, "bipartite form", as_u=as_u, weighted=weighted)
        back = dhg.Hypergraph.from_bigraph(b, U_as_vertex=as_u)
        ctx.ok(back.num_v == n and sorted(tuple(sorted(x)) for x in back.e[0]) == sorted(set(tuple(sorted(x)) for x in e)),
               "hypergraph -> bipartite -> hypergraph", got=back.e[0], want=e)
        ctx.event("round trip")
    H.observe(ctx, hg, hm, 0.2)
    if m > 2:
        ctx.sample({"hypergraph": hm.fp(), "miu": miu})


def to_hg(ctx, huge=False):
    import dhg

    rng = ctx.rng
    gm = G.rand_model(rng, "g", n=rng.randint(1, 9), loops=False, extra=False)
    if huge:
        gm = G.GM("g", rng.randint(1030, 1200))
        gm.w = {tuple(sorted(rng.sample(range(gm.n), 2))): float(rng.choice([1.0, 2.0, 0.5])) for _ in range(rng.choice([700, 1500]))}
    long = not huge and rng.random() < 0.06      # a long chain with a few side branches
    if long:
        gm = G.GM("g", rng.randint(10, 30))
        chain = rng.sample(range(gm.n), gm.n)
        gm.w = {tuple(sorted((a, b if rng.random() < 0.85 else rng.choice(chain[:i + 1])))): rng.choice([0.5, 1.0, 2.0]) for i, (b, a) in enumerate(zip(chain, chain[1:]))}
    g = G.build(dhg, gm)
    if rng.random() < 0.5:
        G.observe(ctx, g, gm, 0.3)
    n = gm.n
    nb = {v: set() for v in range(n)}
    for u, v in gm.w:
        nb[u].add(v)
        nb[v].add(u)

    def hops(k, only):
        out = []
        for v in range(n):
            s = {v}
            front = {v}
            for step in range(1, k + 1):
                front = set().union(*(nb[u] for u in front)) if front else front
                if step == k or not only:
                    s |= front
            out.append(tuple(sorted(s)))
        return out

    def check(hg, hm, key, **kw):
        ctx.ok(type(hg) is dhg.Hypergraph and hg.num_v == hm.n, key + ": class and vertices")
        H.observe(ctx, hg, hm, 0.3)
        H.check_view(ctx, hg, hm, "e")
        H.check_view(ctx, hg, hm, "counts")
        for name in hm.g:
            H.check_view(ctx, hg, hm, "e", name)
        ctx.state(gm.fp(), key, repr(kw))
        ctx.event(key)

    def base(n):
        """Either a fresh hypergraph or one that already has hyperedges."""
        hm = H.rand_model(rng, n=n) if n > 1 else H.HM(n)
        return H.build(dhg, hm), hm

    ones = lambda es: [1.0] * len(es)
    grp = lambda: {} if rng.random() < 0.5 else {"group_name": rng.choice(hm.names)}
    es, ws = [k for k in gm.w], list(gm.w.values())
    # edges -> 2-vertex hyperedges
    hm = H.HM(n)
    hm.add(es, ws, "mean")
    if es:
        check(dhg.Hypergraph.from_graph(g), hm, "from_graph")
    hg, hm = base(n)
    kw = grp()
    if es:
        hg.add_hyperedges_from_graph(g, **kw)
        hm.add(es, ws, "mean", kw.get("group_name", "main"))
        check(hg, hm, "add_hyperedges_from_graph", **kw)
    # k-hop neighbourhoods
    k, only = rng.randint(5, 16) if long else rng.randint(1, 4), rng.random() < 0.5
    if long:
        ctx.event("many hops")
    es = hops(k, only)
    uniq = lambda es: sorted(set(es))
    hm = H.HM(n)
    hm.add(uniq(es), ones(es), "mean")
    args = (k, only) if rng.random() < 0.5 else (k,)
    if args == (k,):
        hm = H.HM(n)
        hm.add(uniq(hops(k, False)), ones(es), "mean")
    check(dhg.Hypergraph.from_graph_kHop(g, *args), hm, "from_graph_kHop", k=k, args=args)
    hg, hm = base(n)
    kw = grp()
    hg.add_hyperedges_from_graph_kHop(g, k, only_kHop=only, **kw)
    hm.add(es, ones(es), "mean", kw.get("group_name", "main"))
    check(hg, hm, "add_hyperedges_from_graph_kHop", k=k, only=only, **kw)
    # bipartite graph: one hyperedge per non-isolated vertex of the other side
    bm = G.rand_model(rng, "b")
    b = G.build(dhg, bm)
    B = bm.P()
    for as_u in (True, False):
        M = B.T if as_u else B
        es = [tuple(np.nonzero(r)[0].tolist()) for r in M if r.any()]
        nv = bm.n if as_u else bm.m
        hm = H.HM(nv)
        hm.add(uniq(es), ones(es), "mean")
        if as_u and rng.random() < 0.5:
            hg = dhg.Hypergraph.from_bigraph(b)
        else:
            hg = dhg.Hypergraph.from_bigraph(b, U_as_vertex=as_u)
        if es:
            check(hg, hm, "from_bigraph", as_u=as_u, b=bm.fp())
        hg, hm = base(nv)
        kw = grp()
        if es:
            hg.add_hyperedges_from_bigraph(b, U_as_vertex=as_u, **kw)
            hm.add(es, ones(es), "mean", kw.get("group_name", "main"))
            check(hg, hm, "add_hyperedges_from_bigraph", as_u=as_u, b=bm.fp(), **kw)
    G.observe(ctx, g, gm, 0.2)
    G.observe(ctx, b, bm, 0.2)


SCENARIOS = [("from hypergraph", from_hg, 200, 3500), ("to hypergraph", to_hg, 130, 2500),
             ("from huge hypergraph", lambda c: from_hg(c, True), 2, 20), ("huge to hypergraph", lambda c: to_hg(c, True), 2, 20)]
REQUIRED_EVENTS = {"star expansion": 50, "clique expansion": 50, "bipartite form": 50, "from_graph_kHop": 50,
                   "from_bigraph": 50, "round trip": 50}
ASSUMPTIONS = ["source graphs have no self-loops", "miu and weights are positive"]
