"""Graph / bipartite graph Laplacians and GCN operators against dense references."""
import numpy as np
import torch

from lib import gmodel as G
from lib.ref import close, cols, diff, dn, rdense, strided

RULE = ("one state per distinct graph (vertices, weighted edges, self-loops, extra-self-loop flag) whose operators were "
        "compared with a dense float64 reference")


def one(ctx, kind, n=None):
    import dhg

    rng = ctx.rng
    gm = G.huge_model(rng, kind) if n == "huge" else G.rand_model(rng, kind, n=n, m=n)
    g = G.build(dhg, gm)
    names = ["L", "L_sym", "L_rw", "L_GCN"] if kind == "g" else ["L_GCN"]
    edits = 0 if n == "huge" else rng.choice([0, 0, 1, 2])
    for step in range(edits + 1):
        if step:
            g, gm, what = G.edit(ctx, g, gm)
            ctx.event("edit")
        N = gm.n + (gm.m if kind == "b" else 0)
        order = names[:]
        rng.shuffle(order)
        X = strided(rng, torch.tensor(rdense(rng, N, 3 if n == "huge" else cols(rng, 4), lo=0.05 if n == "huge" else -2.0), dtype=torch.float))
        for name in order:
            G.check_view(ctx, g, gm, name)
            ref = G.lap(gm, name) if kind == "g" else G.bi_gcn(gm)
            L = getattr(g, name)
            lam = rng.choice([0.0, 1.0, -0.5, rng.uniform(-2, 2)])
            X0 = X.clone()
            got = g.smoothing(X, L, lam)
            want = X.double().numpy() + lam * ref @ X.double().numpy()
            mag = np.abs(X.double().numpy()) + abs(lam) * np.abs(ref) @ np.abs(X.double().numpy())
            ctx.ok(close(got, want, mag=mag), "smoothing(X, L, lamb)", op=name, lamb=lam, diff=diff(got, X.double().numpy() + lam * ref @ X.double().numpy()))
            ctx.ok(torch.equal(X, X0), "smoothing leaves X alone")
            if name == "L_sym":
                ev = np.linalg.eigvalsh(dn(L))
                ctx.ok(ev.min() > -1e-4 and ev.max() < 2 + 1e-4, "spectrum of L_sym in [0, 2]", ev=ev.tolist())
            if name == "L":
                d = dn(L)
                ctx.ok(np.abs(d.sum(1)).max() < 1e-3 * (1 + np.abs(d).max()), "rows of L sum to zero")
        ref = G.lap(gm, "L_GCN") if kind == "g" else G.bi_gcn(gm)
        got = g.smoothing_with_GCN(X)
        want = ref @ X.double().numpy()
        ctx.ok(close(got, want), "smoothing_with_GCN", diff=diff(got, want), model=gm.fp())
        got = g.smoothing_with_GCN(X, drop_rate=1.0)
        ctx.ok(close(got, np.zeros_like(want)), "smoothing_with_GCN drop_rate=1")
        p = rng.choice([0.2, 0.5, 0.8])
        got = dn(g.smoothing_with_GCN(torch.eye(N), drop_rate=p))
        hit = np.abs(got - ref) < 1e-4 * (1 + np.abs(ref))
        ctx.ok(bool((hit | (np.abs(got) < 1e-7)).all()), "smoothing_with_GCN drops or keeps entries unchanged", p=p)
        got = g.smoothing_with_GCN(X)
        ctx.ok(close(got, want), "smoothing_with_GCN after dropping", diff=diff(got, want))
        G.check_edges(ctx, g, gm, "edges unchanged by smoothing")
        ctx.state(gm.fp())
        ctx.event("graph:" + kind)
        if len(gm.w) > 3:
            ctx.sample(gm.fp())


def directed(ctx):
    """Smoothing of a directed graph's features with any operator."""
    import dhg

    rng = ctx.rng
    gm = G.rand_model(rng, "d")
    g = G.build(dhg, gm)
    X = strided(rng, torch.tensor(rdense(rng, gm.n, cols(rng, 4)), dtype=torch.float))
    for name in rng.sample(["A", "A_T", "given", "D_v_in_neg_1"], 4):
        if name == "given":
            D = torch.tensor(rdense(rng, gm.n, gm.n), dtype=torch.float)
            L = (D * (torch.rand_like(D) < 0.5)).to_sparse()
        else:
            L = getattr(g, name)
        lam = rng.choice([0.0, 1.0, -0.5, rng.uniform(-2, 2)])
        X0, ref, x = X.clone(), dn(L), X.double().numpy()
        got = g.smoothing(X, L, lam)
        want = x + lam * ref @ x
        ctx.ok(close(got, want, mag=np.abs(x) + abs(lam) * np.abs(ref) @ np.abs(x)), "smoothing(X, L, lamb) on a directed graph", op=name, lamb=lam, diff=diff(got, want))
        ctx.ok(torch.equal(X, X0) and np.array_equal(dn(L), ref), "smoothing leaves its inputs alone")
    G.observe(ctx, g, gm, 0.2)
    ctx.event("graph:d")
    ctx.state(gm.fp())


SCENARIOS = [
    ("digraph", directed, 80, 1200),
    ("graph", lambda c: one(c, "g"), 400, 6000),
    ("bigraph", lambda c: one(c, "b"), 300, 4000),
    ("graph-large", lambda c: one(c, "g", 40), 5, 60),
    ("bigraph-large", lambda c: one(c, "b", 30), 5, 60),
    ("graph-huge", lambda c: one(c, "g", "huge"), 2, 16),
    ("bigraph-huge", lambda c: one(c, "b", "huge"), 2, 16),
]
REQUIRED_EVENTS = {"graph:g": 100, "graph:b": 100}
ASSUMPTIONS = ["edge weights are not negative", "float32 results compared at relative tolerance 2e-4"]
