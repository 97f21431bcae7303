"""Message passing on graphs, directed graphs and bipartite graphs."""
import numpy as np
import torch

from lib import gmodel as G
from lib.ref import agg, close, cols, diff, dn, inv, rdense, signed_agg, signed_w, strided, weight_grad

RULE = ("one state per distinct (graph, direction, aggregation, explicit weights?) whose result was compared with a "
        "per-vertex dense reference")
AGGR = ["mean", "sum", "softmax_then_sum"]


def ways(g, gm, kind, A):
    """(name, call, dense weights with receiving rows, number of senders, transposed?) and the receivers and senders of the edge tensors."""
    if kind == "g":
        runs = [("v2v", lambda X, **k: g.v2v(X, **k), A, gm.n, False)]
    elif kind == "d":
        runs = [("dst2src", lambda X, **k: g.v2v(X, direction="dst2src", **k), A, gm.n, False),
                ("src2dst", lambda X, **k: g.v2v(X, direction="src2dst", **k), A.T, gm.n, True),
                ("default", lambda X, **k: g.v2v(X, **k), A, gm.n, False)]
    else:
        runs = [("v2u", lambda X, **k: g.v2u(X, **k), A, gm.m, False),
                ("u2v", lambda X, **k: g.u2v(X, **k), A.T, gm.n, True)]
    if kind == "b":
        ei, ej = g.e_u.tolist(), g.e_v.tolist()
    elif kind == "d":
        ei, ej = g.e_src.tolist(), g.e_dst.tolist()
    else:  # messages go from e_src to e_dst
        ei, ej = g.e_dst.tolist(), g.e_src.tolist()
    return runs, ei, ej


def signed(ctx):
    """Explicit weights of either sign (attention scores are): sums, signed means and softmax."""
    import dhg

    rng = ctx.rng
    kind = rng.choice("gdb")
    gm = G.rand_model(rng, kind, n=25, m=25) if rng.random() < 0.1 else G.rand_model(rng, kind)
    g = G.build(dhg, gm)
    A = gm.A()
    runs, ei, ej = ways(g, gm, kind, A)
    for name, run, P, nin, flip in runs:
        Z = gm.P().T if flip else gm.P()
        ew = signed_w(rng, len(ei))
        W = np.zeros_like(A)
        for i, j, w in zip(ei, ej, ew):
            W[i, j] = w
        W = W.T if flip else W
        Xn = rdense(rng, nin, cols(rng))
        for how in AGGR:
            X = torch.tensor(Xn, dtype=torch.float, requires_grad=True)
            got = run(X, aggr=how, e_weight=torch.tensor(ew, dtype=torch.float))
            want, mag, rows = signed_agg(W, Z, X.detach().double().numpy(), how)
            ctx.ok(got.shape == want.shape and close(dn(got)[rows], want[rows], mag=mag[rows]), "%s %s with weights of either sign" % (name, how),
                   diff=diff(dn(got)[rows], want[rows]), got=dn(got).tolist(), want=want.tolist(), weights=ew.tolist(), model=gm.fp())
            R = rdense(rng, *got.shape) * rows[:, None]
            (got[torch.tensor(rows)] * torch.tensor(R[rows], dtype=torch.float)).sum().backward()
            op, mop, _ = signed_agg(W, Z, np.eye(nin), how)
            ctx.ok(close(X.grad, op.T @ R, mag=mop.T @ np.abs(R)), "gradient with weights of either sign", name=name, aggr=how,
                   diff=diff(X.grad, op.T @ R))
            ctx.event("signed %s" % how)
            if how == "mean" and (rows & (W.sum(1) < 0)).any():
                ctx.event("negative sum")
            ctx.state(gm.fp(), name, how, "signed")


def one(ctx, kind, n=None):
    import dhg

    rng = ctx.rng
    gm = G.huge_model(rng, kind) if n == "huge" else G.rand_model(rng, kind, n=n, m=n)
    g = G.build(dhg, gm)
    for step in range(1 if n == "huge" else rng.choice([1, 1, 2])):
        if step:
            g, gm, _ = G.edit(ctx, g, gm)
        A = gm.A()
        runs, ei, ej = ways(g, gm, kind, A)
        rng.shuffle(runs)
        lo = 0.05 if n == "huge" else -2.0               # thousands of terms: no cancellation, float32 stays accurate
        for name, run, P, nin, flip in runs:
            Z = gm.P().T if flip else gm.P()             # an edge of weight zero is an edge
            top = 3 if rng.random() < 0.85 else 150      # now and then weights whose exponential overflows
            ew = np.array([rng.uniform(0.05, top) for _ in ei])
            W = np.zeros_like(A)
            for i, j, w in zip(ei, ej, ew):
                W[i, j] = w
            W = W.T if flip else W
            for how in AGGR:
                X = strided(rng, torch.tensor(rdense(rng, nin, 2 if n == "huge" else cols(rng), lo=lo), dtype=torch.float)).requires_grad_(rng.random() < 0.5)
                X0 = X.detach().clone()
                for weighted in (False, True):
                    Q = W if weighted else P
                    kw = {"aggr": how} if how != "mean" or rng.random() < 0.5 else {}
                    ewt = torch.tensor(ew, dtype=torch.float)
                    if weighted:
                        kw["e_weight"] = ewt
                    got = run(X, **kw)
                    want = agg(Q, Z, X0.double().numpy(), how)
                    mag = agg(Q, Z, np.abs(X0.double().numpy()), how)
                    ctx.ok(close(got, want, mag=mag), "%s %s%s" % (name, how, " e_weight" if weighted else ""),
                           diff=diff(got, want), got=dn(got).tolist(), want=want.tolist(), model=gm.fp())
                    if X.requires_grad:
                        R = rdense(rng, *got.shape, lo=lo)
                        X.grad = None
                        (got * torch.tensor(R, dtype=torch.float)).sum().backward()
                        op = agg(Q, Z, np.eye(nin), how).T
                        gw = op @ R
                        ctx.ok(X.grad is not None and close(X.grad, gw, mag=op @ np.abs(R)), "gradient of " + name,
                               diff=diff(X.grad, gw) if X.grad is not None else "no grad", aggr=how)
                        ctx.event("gradient")
                    ctx.ok(torch.equal(X.detach(), X0) and (not weighted or np.allclose(ewt.numpy(), ew, atol=1e-6)),
                           "inputs untouched by message passing")
                    ctx.state(gm.fp(), name, how, weighted)
                    ctx.event("%s %s" % (name, how))
            # dropping connections: nothing is invented, nothing is rescaled
            for weighted in (False, True):
                kw = {"e_weight": torch.tensor(ew, dtype=torch.float)} if weighted else {}
                Q = W if weighted else P
                got = dn(run(torch.eye(nin), aggr="sum", drop_rate=rng.choice([0.3, 0.7]), **kw))
                ctx.ok(got.shape == Q.shape and bool(((np.abs(got - Q) < 1e-4 * (1 + np.abs(Q))) | (np.abs(got) < 1e-7)).all()),
                       "dropped message passing keeps or zeroes connections", name=name, weighted=weighted)
                for how in AGGR:
                    got = run(torch.eye(nin), aggr=how, drop_rate=1.0, **kw)
                    ctx.ok(close(got, 0 * Q), "drop_rate=1 passes nothing", name=name, aggr=how)
                # the connections that are left are aggregated as if the others were not there
                for how in ("mean", "softmax_then_sum"):
                    got = dn(run(torch.eye(nin), aggr=how, drop_rate=rng.choice([0.3, 0.7]), **kw))
                    left = (got != 0) & Z
                    if how == "mean" and not weighted:
                        want = inv(Q.sum(1), -1.0)[:, None] * np.where(left, Q, 0)
                    else:
                        want = agg(np.where(left, Q, 0), left, np.eye(nin), how)
                    ctx.ok(close(got, want), "connections left after dropping are aggregated alone", name=name, aggr=how,
                           weighted=weighted, diff=diff(got, want), model=gm.fp())
                    ctx.event("aggregated after dropping")
            # explicit connection weights can be learned, dropped connections or not
            for how in AGGR:
                ewt = torch.tensor(ew, dtype=torch.float, requires_grad=True)
                Xd = rdense(rng, nin, 2)
                got = run(torch.tensor(Xd, dtype=torch.float), aggr=how, e_weight=ewt)
                R = rdense(rng, *got.shape)
                if not len(ew) or n == "huge":
                    continue
                (got * torch.tensor(R, dtype=torch.float)).sum().backward()
                at = list(zip(ej, ei) if flip else zip(ei, ej))
                want = weight_grad(W, Z, Xd, R, how)
                want = np.array([want[i, j] for i, j in at])
                ctx.ok(ewt.grad is not None and close(ewt.grad, want), "gradient of explicit weights", name=name, aggr=how,
                       diff="none" if ewt.grad is None else diff(ewt.grad, want), model=gm.fp())
                ewt = torch.tensor(ew, dtype=torch.float, requires_grad=True)
                got = run(torch.eye(nin), aggr=how, e_weight=ewt, drop_rate=rng.choice([0.3, 0.6]))
                left = (dn(got) != 0) & Z
                R = rdense(rng, *got.shape)
                ctx.need(got.requires_grad, "explicit weights keep their gradient when connections are dropped", name=name, aggr=how)
                (got * torch.tensor(R, dtype=torch.float)).sum().backward()
                want = weight_grad(np.where(left, W, 0), left, np.eye(nin), R, how)
                want = np.array([want[i, j] for i, j in at])
                ctx.ok(ewt.grad is not None and close(ewt.grad, want), "gradient of explicit weights when dropping", name=name, aggr=how,
                       diff="none" if ewt.grad is None else diff(ewt.grad, want), model=gm.fp())
                ctx.event("weight gradient")
        G.observe(ctx, g, gm, 0.15)
        if len(gm.w) > 4:
            ctx.sample(gm.fp())


SCENARIOS = [
    ("signed", signed, 120, 2500),
    ("graph", lambda c: one(c, "g"), 120, 2500),
    ("digraph", lambda c: one(c, "d"), 80, 1500),
    ("bigraph", lambda c: one(c, "b"), 100, 2000),
    ("graph-large", lambda c: one(c, "g", 40), 3, 30),
    ("digraph-large", lambda c: one(c, "d", 40), 3, 30),
    ("bigraph-large", lambda c: one(c, "b", 30), 3, 30),
    ("graph-huge", lambda c: one(c, "g", "huge"), 1, 10),
    ("digraph-huge", lambda c: one(c, "d", "huge"), 1, 10),
    ("bigraph-huge", lambda c: one(c, "b", "huge"), 1, 10),
]
REQUIRED_EVENTS = {"v2v mean": 50, "src2dst softmax_then_sum": 50, "u2v sum": 50, "v2u mean": 50, "gradient": 100, "signed mean": 40, "negative sum": 10}
ASSUMPTIONS = ["stored weights are not negative", "CPU device", "relative tolerance 2e-4"]
