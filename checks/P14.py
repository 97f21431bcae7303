"""kNN constructions: digraph and hypergraph from features."""
import math

import numpy as np

from lib import gmodel as G
from lib import hmodel as H
from lib.ref import rdense

RULE = "one state per distinct (features, k, options) whose neighbourhoods were compared with brute force"


def feats(rng, n, dup=True):
    """Feature rows of several shapes; returns (torch tensor, float64 rows, generic?)."""
    import torch

    c = rng.choice([1, 2, 3, 8, 8, 40 if n < 200 else 8, rng.choice([40, 300, 700]) if n < 40 else 8])
    kind = rng.random()
    generic = True
    if kind < 0.5:
        F = rdense(rng, n, c, lo=-5, hi=5)
    elif kind < 0.65:
        F = rdense(rng, n, c, lo=0, hi=1) * rng.choice([1e-2, 30.0])
    elif kind < 0.8 and dup:
        base = rdense(rng, max(1, n // 2), c, lo=-3, hi=3)
        F = base[[rng.randrange(len(base)) for _ in range(n)]]
        generic = False
    elif dup:
        F = np.array([[rng.randint(-1, 2) for _ in range(c)] for _ in range(n)], float)
        generic = False
    else:
        F = rdense(rng, n, c)
    r = rng.random()
    if r < 0.15:      # far from the origin
        F = F + rng.choice([1e2, 1e3, 1e4]) * np.array([rng.choice([-1, 0, 1, 1]) for _ in range(c)])
    elif r < 0.25:    # distances that differ by little
        F = np.round(F) + 1e-3 * rdense(rng, n, c, lo=-1, hi=1)
    elif r < 0.35:    # axes of very different scale
        F = F * np.array([rng.choice([1e-3, 1.0, 1e3]) for _ in range(c)])
    t = torch.tensor(F, dtype=rng.choice([torch.float32, torch.float64]))
    return t, t.double().numpy(), generic


def dist(F, p):
    d = np.abs(F[:, None, :] - F[None, :, :])
    return (d ** p).sum(-1) ** (1.0 / p)


def digraph(ctx, huge=False):
    import dhg
    import torch

    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 9, 14, 30, 30, 70, 150]) if not huge else rng.randint(1030, 1200)
    X, F, generic = feats(rng, n)
    inc, src, dw = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    p = rng.choice([2, 2, 1, 3])
    hi = n if inc else n - 1
    if hi < 1:
        return
    k = rng.choice([1, hi, rng.randint(1, hi)]) if not huge else rng.choice([1, 5, 20, 300])
    kw = dict(p=p, distance2weight=dw, include_center=inc, center_as_src=src)
    if p == 2 and rng.random() < 0.5:
        kw.pop("p")
    for key, default in (("distance2weight", False), ("include_center", False), ("center_as_src", True)):
        if kw[key] == default and rng.random() < 0.5:
            kw.pop(key)
    before = X.clone()
    g = dhg.DiGraph.from_feature_kNN(X, k, **kw)
    ctx.ok(torch.equal(before, X), "features are not modified")
    ctx.need(type(g) is dhg.DiGraph and g.num_v == n, "a directed graph on the feature rows", got=g.num_v)
    D = dist(F, p)
    e, w = g.e
    nb = {v: {} for v in range(n)}
    for (a, b), x in zip(e, w):
        c, o = (a, b) if src else (b, a)
        ctx.need(o not in nb[c], "no neighbour twice", edge=(a, b))
        nb[c][o] = x
    gm = G.GM("d", n, None, inc)
    for v in range(n):
        if inc:
            ctx.need(abs(nb[v].pop(v, -9) - 1.0) < 1e-6, "the centre is its own neighbour with weight 1", vertex=v, got=nb[v])
        ctx.ok(v not in nb[v], "no other self-loop", vertex=v)
        ctx.need(len(nb[v]) == (k - 1 if inc else k), "exactly k neighbours", vertex=v, got=sorted(nb[v]), k=k, include_center=inc)
        rest = [D[v, u] for u in range(n) if u != v and u not in nb[v]]
        worst = max([D[v, u] for u in nb[v]], default=0.0)
        ctx.ok(not rest or worst <= min(rest) * (1 + 1e-5) + 1e-12, "the neighbours are the nearest vertices", vertex=v, p=p,
               got=sorted(nb[v]), order=np.argsort(D[v], kind="stable").tolist())
        for u, x in nb[v].items():
            want = math.exp(-D[v, u]) if dw else 1.0
            ctx.ok(abs(x - want) < 1e-5, "weight is exp(-distance) or 1", got=x, want=want)
            gm.w[(v, u) if src else (u, v)] = x
    if not dw or D.max() < 30:      # beyond, weights exp(-distance) leave the range of float32
        G.observe(ctx, g, gm, 0.4)
    ctx.raises(lambda: dhg.DiGraph.from_feature_kNN(X, n + 1, **kw), "more neighbours than vertices are refused")
    if not inc and n > 1:
        ctx.raises(lambda: dhg.DiGraph.from_feature_kNN(X, n, **kw), "more neighbours than other vertices are refused")
    ctx.raises(lambda: dhg.DiGraph.from_feature_kNN(X[:, 0], 1), "features must be 2-D")
    ctx.event("digraph generic" if generic else "digraph ties")
    ctx.state(F.tolist(), k, sorted(kw.items()))
    ctx.sample({"n": n, "k": k, "options": kw, "edges": e[:6]})


def valid(ctx, es, F, k, key):
    """Every centre has a hyperedge of its k nearest; every hyperedge is one of some centre."""
    n = len(F)
    D = dist(F, 2)
    near = np.sort(D, axis=1)

    def fits(e, v):
        return k == n or D[v, list(e)].max() <= near[v, k] * (1 + 1e-5) + 1e-12 and D[v, list(e)].max() <= near[v, k - 1] * (1 + 1e-5) + 1e-12

    if n > 25:
        ctx.event("many vertices")
        if np.abs(F).max() > 50 * D.max():
            ctx.event("many vertices far off")
    ctx.ok(all(len(set(e)) == len(e) == k for e in es), key + ": every hyperedge has k vertices", got=[e for e in es if len(e) != k][:3])
    for v in range(n):
        ctx.ok(any(fits(e, v) for e in es), key + ": every vertex has its neighbourhood", vertex=v, k=k,
               order=np.argsort(D[v], kind="stable")[:k].tolist(), got=es[:20])
    for e in es:
        ctx.ok(any(fits(e, v) for v in range(n)), key + ": every hyperedge is the neighbourhood of some vertex", got=e)


def hyper(ctx, huge=False):
    import dhg
    import torch

    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 9, 14, 30, 30, 70, 150]) if not huge else rng.randint(1030, 1100)
    if huge and ctx.idx % 2 == 0:
        n = rng.choice([280, 600, 1100])
    X, F, generic = feats(rng, n) if not huge or ctx.idx % 2 else shift(rng, n)
    k = rng.choice([1, n, rng.randint(1, n), min(n, 3)]) if not huge else rng.choice([2, 5, 130])
    before = X.clone()
    hg = dhg.Hypergraph.from_feature_kNN(X, k)
    ctx.ok(torch.equal(before, X), "features are not modified")
    ctx.need(type(hg) is dhg.Hypergraph and hg.num_v == n and hg.group_names == ["main"], "a hypergraph on the feature rows")
    e, w = hg.e
    es = [tuple(sorted(x)) for x in e]
    ctx.ok(all(abs(x - 1) < 1e-6 for x in w), "weights are 1", got=w)
    valid(ctx, es, F, k, "kNN")
    hm = H.HM(n)
    hm.add(es, w, "mean")
    H.observe(ctx, hg, hm, 0.3)
    # added to a group of an existing hypergraph
    hm = H.rand_model(rng, n=n) if n > 1 else H.HM(1)
    base = H.build(dhg, hm)
    H.observe(ctx, base, hm, 0.3)
    grp = rng.choice(["main", "g2", "kNN"])
    before_e = {name: set(d) for name, d in hm.g.items()}
    if grp == "main" and rng.random() < 0.5:
        base.add_hyperedges_from_feature_kNN(X, k)
    else:
        base.add_hyperedges_from_feature_kNN(X, k, group_name=grp)
    ctx.ok(torch.equal(before, X), "features are not modified")
    ctx.need(grp in base.group_names, "the group exists", got=base.group_names)
    got = {tuple(sorted(x)): y for x, y in zip(*base.e_of_group(grp))}
    old = before_e.get(grp, set())
    ctx.ok(old <= set(got), "existing hyperedges are kept")
    new = [x for x in got if x not in old or len(x) == k]
    if not old:
        valid(ctx, list(got), F, k, "added")
    else:
        ctx.ok(all(len(x) == k for x in got if x not in old), "added: every hyperedge has k vertices")
        # every neighbourhood is present (possibly merged with an old hyperedge)
        D = dist(F, 2)
        if generic:
            want = {tuple(sorted(np.argsort(D[v], kind="stable")[:k].tolist())) for v in range(n)}
            gap = min([np.sort(D[v])[k] - np.sort(D[v])[k - 1] for v in range(n)] if k < n else [1])
            if gap > 1e-4 * (1 + D.max()):
                ctx.ok(set(got) == old | want, "added: exactly the neighbourhoods", got=sorted(got), want=sorted(old | want))
    for x in got:
        if x in old:
            lo, hi = sorted((hm.g[grp][x], 1.0))
            ctx.ok(lo - 1e-5 <= got[x] <= hi + 1e-5, "merged with the mean", got=got[x], old=hm.g[grp][x])
        else:
            ctx.ok(abs(got[x] - 1) < 1e-6, "weights are 1", got=got[x])
    hm.g[grp] = got
    H.observe(ctx, base, hm, 0.6)
    ctx.raises(lambda: dhg.Hypergraph.from_feature_kNN(X, n + 1), "more neighbours than vertices are refused")
    ctx.raises(lambda: dhg.Hypergraph.from_feature_kNN(X[:, 0], 1), "features must be 2-D")
    ctx.raises(lambda: base.add_hyperedges_from_feature_kNN(torch.rand(n + 1, 2), 1), "features of another vertex count are refused")
    H.observe(ctx, base, hm, 0.3)
    ctx.event("hypergraph generic" if generic else "hypergraph ties")
    ctx.state(F.tolist(), k, grp)


def shift(rng, n):
    """Well separated rows, all far from the origin."""
    import torch

    c = rng.choice([1, 2, 5])
    F = rdense(rng, n, c, lo=-20, hi=20) + rng.choice([1e3, -1e4, 3e4])
    t = torch.tensor(F, dtype=torch.float32)
    return t, t.double().numpy(), True


SCENARIOS = [("digraph", digraph, 160, 3000), ("hypergraph", hyper, 140, 2500),
             ("huge digraph", lambda c: digraph(c, True), 3, 20), ("huge hypergraph", lambda c: hyper(c, True), 2, 10)]
REQUIRED_EVENTS = {"digraph generic": 40, "digraph ties": 20, "hypergraph generic": 30, "hypergraph ties": 15, "many vertices": 20, "many vertices far off": 2}
ASSUMPTIONS = ["any choice among equally distant vertices is accepted (distances compared with a float32 tolerance)"]
