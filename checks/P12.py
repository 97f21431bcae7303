"""HyperGCN conversion of a hypergraph to a weighted graph."""
import math

import numpy as np
import torch

from lib import gmodel as G
from lib import hmodel as H
from lib.ref import rdense

RULE = "one state per distinct (hypergraph, features, mediator?, self-loop removal?) whose converted graph was checked"


def expected(n, es, score, med):
    gm = G.GM("g", n)
    for e in es:
        hi, lo = max(e, key=lambda v: score[v]), min(e, key=lambda v: score[v])
        pairs = [(hi, lo)]
        w = 1.0 / len(e)
        if med:
            w = 1.0 / (2 * len(e) - 3)
            for v in e:
                if v not in (hi, lo):
                    pairs += [(hi, v), (lo, v)]
        gm.add(pairs, [w] * len(pairs), "sum")
    return gm


def directions(F):
    """One direction of every range of non-negative plane directions that order the rows alike."""
    cuts = {0.0, math.pi / 2}
    for i in range(len(F)):
        for j in range(i):
            a = math.atan2(-(F[i, 0] - F[j, 0]), F[i, 1] - F[j, 1]) % math.pi      # F[i] and F[j] project alike
            if a < math.pi / 2:
                cuts.add(a)
    cuts = sorted(cuts)
    return [((math.cos(t), math.sin(t))) for t in ((x + y) / 2 for x, y in zip(cuts, cuts[1:]) if y > x)]


def one(ctx, big=False):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, n=rng.randint(3, 10), min_size=2, isolated=True)
    if big:
        hm = H.rand_model(rng, n=30, min_size=2, ne=25) if ctx.idx % 3 else H.huge_model(rng, low=2)
    hg = H.build(dhg, hm)
    n = hm.n
    es = [tuple(x) for x in hg.e[0]]
    mode = rng.choice(["ranked", "ranked", "ranked", "free", "plane", "plane", "ties"])
    d = rng.choice([1, 2, 5])
    if n > 100:
        mode = "ranked"
    if mode == "plane":
        d = 2
    if mode == "ranked":
        # every non-negative projection orders the vertices the same way
        score = np.array(rng.sample(range(1, max(10 * n, 40)), n), dtype=float)
        if rng.random() < 0.3:
            score -= 5 * n
        D = np.array([rng.uniform(0.5, 1.5) for _ in range(d)])
        if n <= 100 and rng.random() < 0.12:      # many features, of which a few tell the vertices apart
            D = np.zeros(rng.choice([150, 600, 1500, 3000]))
            for _ in range(rng.choice([30, 60])):
                D[rng.choice([-1, 1]) * rng.randrange(len(D) // 3)] = rng.uniform(0.5, 1.5)
            if rng.random() < 0.6:
                D[: len(D) // 2] = 0.0
                D[-20:] = 1.0
            ctx.event("wide features")
        F = score[:, None] * D[None, :]
    elif mode in ("free", "plane"):
        F = rdense(rng, n, d)
        if mode == "plane":      # seen through more coordinates, a non-negative direction is still one of the plane
            wide = rng.choice([None, None, 3, 5, 9])
            F2, B = F, np.eye(2) if wide is None else np.array([[rng.uniform(0.1, 1) if (c + r) % 2 else rng.choice([0.0, 0.2]) for c in range(wide)] for r in range(2)])
            F = F2 @ B
    else:
        F = np.array([[rng.choice([0.0, 1.0])] * d for _ in range(n)])
    med, rem = rng.random() < 0.5, rng.random() < 0.8
    X = torch.tensor(F, dtype=torch.float)
    X0 = X.clone()
    g = dhg.Graph.from_hypergraph_hypergcn(hg, X, with_mediator=med, remove_selfloop=rem)
    ctx.ok(type(g) is dhg.Graph and g.num_v == n, "a graph on the same vertices")
    ctx.ok(torch.equal(X, X0), "features untouched")
    got = {}
    for e, w in zip(*g.e):
        got[tuple(sorted(e))] = got.get(tuple(sorted(e)), 0.0) + w
    if rem:
        ctx.ok(all(a != b for a, b in got), "no self-loop left", got=list(got))
    inside = all(any(a in e and b in e for e in es) for a, b in got)
    ctx.ok(inside, "edges stay inside a hyperedge", got=list(got), es=es)
    if mode == "ranked":
        gm = expected(n, es, score, med)
        G.check_edges(ctx, g, gm, "mediated expansion" if med else "extreme pair per hyperedge")
        G.observe(ctx, g, gm, 0.5)
        ctx.event("exact " + ("mediator" if med else "pair"))
    elif mode == "plane":
        # one projection for all hyperedges: some direction explains the whole graph
        ways = [{e: w for e, w in expected(n, es, F2 @ np.array(t), med).w.items()} for t in directions(F2)]
        same = lambda m: set(m) == set(got) and all(abs(m[e] - got[e]) < 1e-4 * (1 + m[e]) for e in m)
        ctx.ok(any(same(m) for m in ways), "one non-negative projection explains every chosen pair", got=sorted(got.items()),
               es=es, features=F.tolist())
        ctx.event("one projection")
        distinct = len({tuple(sorted((e, round(w, 6)) for e, w in m.items())) for m in ways})
        if distinct > 2:
            ctx.event("several projections possible")
    elif mode == "free":
        # total weight is conserved: 1/|e| per hyperedge, or (2|e|-3) edges of 1/(2|e|-3)
        total = sum(1.0 for e in es) if med else sum(1.0 / len(e) for e in es)
        ctx.ok(abs(sum(got.values()) - total) < 1e-3 * (1 + total), "total weight", got=sum(got.values()), want=total)
        if not med:
            # no chosen extreme may be beaten by the same other vertex in every coordinate, in either direction
            for e in es:
                okp = [(a, b) for a in e for b in e if a != b and tuple(sorted((a, b))) in got
                       and not any((F[v] > F[a]).all() for v in e) and not any((F[v] < F[b]).all() for v in e)]
                ctx.ok(bool(okp), "an extreme pair exists for each hyperedge", e=e)
        ctx.event("conservation")
    else:
        ctx.event("ties")
    H.observe(ctx, hg, hm, 0.2)
    ctx.state(hm.fp(), F.tolist(), med, rem)
    if len(es) > 2:
        ctx.sample({"hypergraph": es, "features": F.tolist(), "edges": sorted(got.items())})


def refused(ctx):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, n=5, min_size=2)
    hg = H.build(dhg, hm)
    ctx.raises(lambda: dhg.Graph.from_hypergraph_hypergcn(hg, torch.rand(4, 2)), "feature rows must match the vertices")
    ctx.state(hm.fp())


SCENARIOS = [("random", one, 500, 9000), ("large", lambda c: one(c, True), 10, 150), ("refused", refused, 10, 50)]
REQUIRED_EVENTS = {"wide features": 8, "exact mediator": 50, "exact pair": 50, "conservation": 20, "ties": 20, "one projection": 50, "several projections possible": 30}
ASSUMPTIONS = ["hyperedges have at least two vertices", "the random projection has non-negative entries"]
