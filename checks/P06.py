"""Hypergraph spectral operators (overall and per group) against dense references."""
import numpy as np
import torch

from lib import hmodel as H
from lib.ref import close, cols, diff, dn, rdense, strided

RULE = ("one state per distinct hypergraph (vertices, weighted hyperedges per group) whose operators were compared with a "
        "dense float64 reference, overall and per group")
SPEC = ["L_HGNN", "L_sym", "L_rw"]


def one(ctx, big=False):
    import dhg

    rng = ctx.rng
    if big == "huge":
        hm = H.huge_model(rng)
    elif big:
        hm = H.rand_model(rng, n=rng.randint(25, 40), ne=rng.randint(20, 40))
    elif rng.random() < 0.05:
        hm = H.HM(rng.randint(1, 6))
    else:
        hm = H.rand_model(rng)
    hg = H.build(dhg, hm)
    for step in range(1 if big else rng.choice([1, 1, 2, 3])):
        if step:
            what = H.edit(ctx, hg, hm)
            ctx.event("edit:" + what)
        H.observe(ctx, hg, hm, rng.choice([0.5, 1.0]), SPEC)
        X = strided(rng, torch.tensor(rdense(rng, hm.n, 3 if big == "huge" else cols(rng, 4), lo=0.05 if big == "huge" else -2.0), dtype=torch.float))
        Xn = X.double().numpy()
        for gname in [None] + list(hm.g):
            e = hg.e if gname is None else hg.e_of_group(gname)
            Hm, w = H.mats(e, hm.n)
            for name in SPEC:
                L = getattr(hg, name) if gname is None else getattr(hg, name + "_of_group")(gname)
                lam = rng.choice([0.0, 1.0, -0.5, rng.uniform(-2, 2)])
                want = Xn + lam * H.ref(Hm, w, name) @ Xn
                got = hg.smoothing(X, L, lam)
                ctx.ok(close(got, want, mag=np.abs(Xn) + abs(lam) * np.abs(H.ref(Hm, w, name)) @ np.abs(Xn)), "smoothing(X, L, lamb)", op=name, group=gname, diff=diff(got, want))
            if gname is None:
                ev = np.linalg.eigvalsh((dn(hg.L_sym) + dn(hg.L_sym).T) / 2)
                ctx.ok(ev.min() > -1e-4 and ev.max() < 1 + 1e-4, "spectrum of L_sym in [0, 1]", ev=ev.tolist())
                run = lambda Y, **k: hg.smoothing_with_HGNN(Y, **k)
            else:
                run = lambda Y, **k: hg.smoothing_with_HGNN_of_group(gname, Y, **k)
            ref = H.ref(Hm, w, "L_HGNN")
            ctx.ok(close(run(X), ref @ Xn), "smoothing_with_HGNN", group=gname, diff=diff(run(X), ref @ Xn), model=hm.fp())
            ctx.ok(close(run(X, drop_rate=1.0), 0 * Xn), "smoothing_with_HGNN drop_rate=1", group=gname)
            got = dn(run(torch.eye(hm.n), drop_rate=rng.choice([0.2, 0.5, 0.8])))
            hit = np.abs(got - ref) < 1e-4 * (1 + np.abs(ref))
            ctx.ok(bool((hit | (np.abs(got) < 1e-7)).all()), "dropping keeps or zeroes entries", group=gname)
            ctx.ok(close(run(X), ref @ Xn), "smoothing_with_HGNN after dropping", group=gname)
            ctx.event("structure" if gname is None else "group")
        H.check_view(ctx, hg, hm, "e")
        ctx.state(hm.fp())
        if len(hm.all()) > 4:
            ctx.sample(hm.fp())


SCENARIOS = [("random", one, 250, 4000), ("large", lambda c: one(c, True), 5, 60), ("huge", lambda c: one(c, "huge"), 2, 16)]
REQUIRED_EVENTS = {"structure": 100, "group": 100, "edit:add": 10}
ASSUMPTIONS = ["hyperedge weights are positive", "float32 results compared at relative tolerance 2e-4"]
