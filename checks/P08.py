"""Message passing on hypergraphs: v2e, e2v, v2v, overall and per group."""
import numpy as np
import torch

from lib import hmodel as H
from lib.ref import agg, close, cols, diff, dn, inv, rdense, signed_agg, signed_w, strided, weight_grad

RULE = ("one state per distinct (hypergraph, group, stage, aggregation, explicit weights?) whose result was compared with a "
        "dense reference")
AGGR = ["mean", "sum", "softmax_then_sum"]


def stage(Hs, w, X, how, cw=None, norm_deg=None):
    """One aggregation; rows of Hs receive.  norm_deg: degrees used by an unweighted mean."""
    P = Hs if cw is None else cw
    if how == "mean" and cw is None:
        return inv(norm_deg, -1.0)[:, None] * (Hs @ X)
    return agg(P, Hs != 0, X, how)


def signed(ctx):
    """Explicit connection and hyperedge weights of either sign."""
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, n=rng.randint(15, 30), ne=rng.randint(10, 25)) if rng.random() < 0.1 else H.rand_model(rng)
    hg = H.build(dhg, hm)
    for gname in [None] + [g for g in hm.g]:
        e = hg.e if gname is None else hg.e_of_group(gname)
        Hm, w = H.mats(e, hm.n)
        ne = Hm.shape[1]
        pre, sfx = ((), "") if gname is None else ((gname,), "_of_group")
        f = lambda name: (lambda *a, **k: getattr(hg, name + sfx)(*pre, *a, **k))
        att = lambda name: (getattr(hg, name) if gname is None else getattr(hg, name + "_of_group")(gname)).tolist()
        a, b, ew = signed_w(rng, int((Hm != 0).sum())), signed_w(rng, int((Hm != 0).sum())), signed_w(rng, ne)
        ewt = torch.tensor(ew, dtype=torch.float)
        V2E, E2V = np.zeros((ne, hm.n)), np.zeros((hm.n, ne))
        for v, x, val in zip(att("v2e_src"), att("v2e_dst"), a):
            V2E[x, v] = val
        for x, v, val in zip(att("e2v_src"), att("e2v_dst"), b):
            E2V[v, x] = val
        for what, W, Z, vals, nin in (("v2e", V2E, Hm.T != 0, a, hm.n), ("e2v", E2V, Hm != 0, b, ne)):
            Xn = rdense(rng, nin, cols(rng))
            wt = torch.tensor(vals, dtype=torch.float)
            for how in AGGR:
                X = torch.tensor(Xn, dtype=torch.float, requires_grad=True)
                want, mag, rows = signed_agg(W, Z, X.detach().double().numpy(), how)
                got = f(what + "_aggregation")(X, how, **{what + "_weight": wt})
                ctx.ok(got.shape == want.shape and close(dn(got)[rows], want[rows], mag=mag[rows]),
                       "%s_aggregation%s with weights of either sign" % (what, sfx), aggr=how, diff=diff(dn(got)[rows], want[rows]),
                       weights=vals.tolist(), model=hm.fp(), group=gname)
                if what == "v2e":
                    got = f("v2e")(X, how, v2e_weight=wt, e_weight=ewt)
                    want, mag = ew[:, None] * want, np.abs(ew)[:, None] * mag
                    ctx.ok(close(dn(got)[rows], want[rows], mag=mag[rows]), "v2e%s with weights of either sign" % sfx, aggr=how,
                           diff=diff(dn(got)[rows], want[rows]), model=hm.fp(), group=gname)
                R = rdense(rng, *got.shape)
                (got[torch.tensor(rows)] * torch.tensor(R[rows], dtype=torch.float)).sum().backward()
                op, mop, _ = signed_agg(W, Z, np.eye(nin), how)
                S = R * rows[:, None] * (ew[:, None] if what == "v2e" else 1.0)
                ctx.ok(close(X.grad, op.T @ S, mag=mop.T @ np.abs(S)), "gradient with weights of either sign" + sfx, stage=what, aggr=how,
                       diff=diff(X.grad, op.T @ S))
                ctx.event("signed " + how)
                if how == "mean" and (rows & (W.sum(1) < 0)).any():
                    ctx.event("negative sum")
                ctx.state(hm.fp(), gname, what, how, "signed")


def one(ctx, big=False):
    import dhg

    rng = ctx.rng
    hm = H.huge_model(rng) if big == "huge" else H.rand_model(rng, n=rng.randint(20, 35), ne=rng.randint(15, 30)) if big else H.rand_model(rng)
    hg = H.build(dhg, hm)
    if not big and rng.random() < 0.3:
        H.observe(ctx, hg, hm, 0.3, H.STATE_VIEWS)
        H.edit(ctx, hg, hm)
    for gname in [None] + [g for g in hm.g]:
        e = hg.e if gname is None else hg.e_of_group(gname)
        Hm, w = H.mats(e, hm.n)
        ne = Hm.shape[1]
        pre = () if gname is None else (gname,)
        sfx = "" if gname is None else "_of_group"
        f = lambda name: (lambda *a, **k: getattr(hg, name + sfx)(*pre, *a, **k))
        att = lambda name: getattr(hg, name) if gname is None else getattr(hg, name + "_of_group")(gname)
        top = 3 if rng.random() < 0.85 else 150          # now and then weights whose exponential overflows
        a = np.array([rng.uniform(0.05, top) for _ in range(int((Hm != 0).sum()))])
        b = np.array([rng.uniform(0.05, top) for _ in range(int((Hm != 0).sum()))])
        V2E, E2V = np.zeros((ne, hm.n)), np.zeros((hm.n, ne))
        for v, x, val in zip(att("v2e_src").tolist(), att("v2e_dst").tolist(), a):
            V2E[x, v] = val
        for x, v, val in zip(att("e2v_src").tolist(), att("e2v_dst").tolist(), b):
            E2V[v, x] = val
        at, bt = torch.tensor(a, dtype=torch.float), torch.tensor(b, dtype=torch.float)
        ew = rdense(rng, ne, lo=0.1, hi=3)
        ewt = torch.tensor(ew, dtype=torch.float)
        lo = 0.05 if big == "huge" else -2.0            # thousands of terms: no cancellation, float32 stays accurate
        X = strided(rng, torch.tensor(rdense(rng, hm.n, 2 if big == "huge" else cols(rng), lo=lo), dtype=torch.float))
        Y = strided(rng, torch.tensor(rdense(rng, ne, 2 if big == "huge" else cols(rng), lo=lo), dtype=torch.float))
        Xn, Yn = X.double().numpy(), Y.double().numpy()
        de, dv = Hm.sum(0), Hm @ w

        def eq(name, got, want, mag=0.0, **kw):
            ctx.ok(close(got, want, mag=mag), name + sfx, diff=diff(got, want), model=hm.fp(), group=gname, **kw)
            ctx.event(name.split(" ")[0] + sfx)
            ctx.state(hm.fp(), gname, name, repr(sorted(kw.items())))

        for how in AGGR:
            for weighted in (False, True):
                k1 = {"v2e_weight": at} if weighted else {}
                k2 = {"e2v_weight": bt} if weighted else {}
                c1, c2 = (V2E, E2V) if weighted else (None, None)
                m1 = stage(Hm.T, w, Xn, how, c1, de)
                m2 = stage(Hm, w, Yn, how, c2, dv)
                b1, b2 = stage(Hm.T, w, np.abs(Xn), how, c1, de), stage(Hm, w, np.abs(Yn), how, c2, dv)
                eq("v2e_aggregation", f("v2e_aggregation")(X, how, **k1), m1, mag=b1, aggr=how, weighted=weighted)
                eq("v2e", f("v2e")(X, how, **k1), w[:, None] * m1, mag=w[:, None] * b1, aggr=how, weighted=weighted)
                eq("v2e", f("v2e")(X, how, e_weight=ewt, **k1), ew[:, None] * m1, mag=ew[:, None] * b1, aggr=how, weighted=weighted, ew=True)
                eq("e2v_aggregation", f("e2v_aggregation")(Y, how, **k2), m2, mag=b2, aggr=how, weighted=weighted)
                eq("e2v", f("e2v")(Y, how, **k2), m2, mag=b2, aggr=how, weighted=weighted)
        eq("v2e_update", f("v2e_update")(Y), w[:, None] * Yn)
        eq("v2e_update", f("v2e_update")(Y, ewt), ew[:, None] * Yn, ew=True)
        eq("e2v_update", f("e2v_update")(Y), Yn)
        for _ in range(4):
            kw, h0 = {}, rng.choice(AGGR)
            h1 = h2 = h0
            c1 = c2 = None
            we = w
            if rng.random() < 0.4:
                h1 = kw["v2e_aggr"] = rng.choice(AGGR)
            if rng.random() < 0.4:
                h2 = kw["e2v_aggr"] = rng.choice(AGGR)
            if rng.random() < 0.4:
                kw["v2e_weight"], c1 = at, V2E
            if rng.random() < 0.4:
                kw["e2v_weight"], c2 = bt, E2V
            if rng.random() < 0.4:
                kw["e_weight"], we = ewt, ew
            Z = X.clone().requires_grad_(True)
            got = f("v2v")(Z, h0, **kw)
            full = lambda I: stage(Hm, w, we[:, None] * stage(Hm.T, w, I, h1, c1, de), h2, c2, dv)
            eq("v2v", got, full(Xn), mag=full(np.abs(Xn)), aggr=h0, kw=sorted(kw), h1=h1, h2=h2)
            R = rdense(rng, *got.shape, lo=lo)
            (got * torch.tensor(R, dtype=torch.float)).sum().backward()
            op = full(np.eye(hm.n)).T
            want = op @ R
            ctx.ok(Z.grad is not None and close(Z.grad, want, mag=op @ np.abs(R)), "gradient of v2v" + sfx)
        # dropping
        I = torch.eye(hm.n)
        got = dn(f("v2e_aggregation")(I, "sum", drop_rate=rng.choice([0.3, 0.7])))
        ctx.ok(got.shape == Hm.T.shape and bool(((np.abs(got - Hm.T) < 1e-4) | (np.abs(got) < 1e-7)).all()), "dropped v2e" + sfx)
        got = dn(f("e2v_aggregation")(torch.eye(ne), "sum", drop_rate=rng.choice([0.3, 0.7])))
        ctx.ok(got.shape == Hm.shape and bool(((np.abs(got - Hm) < 1e-4) | (np.abs(got) < 1e-7)).all()), "dropped e2v" + sfx)
        for what, Hs, W, wt, deg, nin, at2 in (
                ("v2e", Hm.T, V2E, "v2e_weight", de, hm.n, list(zip(att("v2e_dst").tolist(), att("v2e_src").tolist()))),
                ("e2v", Hm, E2V, "e2v_weight", dv, ne, list(zip(att("e2v_dst").tolist(), att("e2v_src").tolist())))):
            vals = a if what == "v2e" else b
            run = f(what + "_aggregation")
            how = rng.choice(AGGR)
            for weighted in (False, True):
                kw = {wt: torch.tensor(vals, dtype=torch.float)} if weighted else {}
                got = run(torch.eye(nin), how, drop_rate=1.0, **kw)
                ctx.ok(close(got, 0 * Hs), "drop_rate=1 passes nothing" + sfx, stage=what, aggr=how)
                got = dn(run(torch.eye(nin), how, drop_rate=rng.choice([0.3, 0.7]), **kw))
                left = (got != 0) & (Hs != 0)
                Q = np.where(left, W if weighted else Hs, 0)
                want = inv(deg, -1.0)[:, None] * Q if how == "mean" and not weighted else agg(Q, left, np.eye(nin), how)
                ctx.ok(close(got, want), "connections left after dropping are aggregated alone" + sfx, stage=what, aggr=how,
                       weighted=weighted, diff=diff(got, want), model=hm.fp())
            if not len(vals) or big == "huge":
                continue
            for drop in (False, True):          # explicit connection weights can be learned
                wt1 = torch.tensor(vals, dtype=torch.float, requires_grad=True)
                Xd = np.eye(nin) if drop else rdense(rng, nin, 2)
                kw = {"drop_rate": rng.choice([0.3, 0.6])} if drop else {}
                got = run(torch.tensor(Xd, dtype=torch.float), how, **{wt: wt1}, **kw)
                left = (Hs != 0) & (dn(got) != 0) if drop else Hs != 0
                R = rdense(rng, *got.shape)
                ctx.need(got.requires_grad, "explicit weights keep their gradient", stage=what, aggr=how, drop=drop)
                (got * torch.tensor(R, dtype=torch.float)).sum().backward()
                G = weight_grad(np.where(left, W, 0), left, Xd, R, how)
                want = np.array([G[i, j] for i, j in at2])
                ctx.ok(wt1.grad is not None and close(wt1.grad, want), "gradient of explicit weights" + sfx, stage=what, aggr=how,
                       drop=drop, diff="none" if wt1.grad is None else diff(wt1.grad, want))
                ctx.event("weight gradient")
        if ne:
            ew1 = torch.tensor(ew, dtype=torch.float, requires_grad=True)
            R = rdense(rng, ne, X.shape[1], lo=lo)
            (f("v2e")(X, "sum", e_weight=ew1) * torch.tensor(R, dtype=torch.float)).sum().backward()
            ctx.ok(close(ew1.grad, (R * (Hm.T @ Xn)).sum(1)), "gradient of hyperedge weights" + sfx)
        base = stage(Hm, w, w[:, None] * (Hm.T @ Xn), "sum")
        ctx.ok(close(f("v2v")(X, "sum", drop_rate=1.0), 0 * base), "v2v drop_rate=1" + sfx)
        ctx.ok(close(f("v2v")(X, "sum", drop_rate=1.0, v2e_drop_rate=0.0, e2v_drop_rate=0.0), base, mag=stage(Hm, w, w[:, None] * (Hm.T @ np.abs(Xn)), "sum")), "v2v stage drop rates override" + sfx)
        ctx.ok(close(f("v2v")(X, "sum", v2e_drop_rate=1.0), 0 * base), "v2v v2e_drop_rate=1" + sfx)
        ctx.ok(close(f("v2v")(X, "sum", e2v_drop_rate=1.0), 0 * base), "v2v e2v_drop_rate=1" + sfx)
        ctx.ok(np.array_equal(X.double().numpy(), Xn) and np.array_equal(Y.double().numpy(), Yn)
               and np.allclose(at.numpy(), a, atol=1e-6) and np.allclose(bt.numpy(), b, atol=1e-6)
               and np.allclose(ewt.numpy(), ew, atol=1e-6), "inputs untouched" + sfx)
    H.observe(ctx, hg, hm, 0.1, H.STATE_VIEWS)
    if len(hm.all()) > 4:
        ctx.sample(hm.fp())


SCENARIOS = [("random", one, 90, 2000), ("signed", signed, 60, 1200), ("large", lambda c: one(c, True), 4, 40), ("huge", lambda c: one(c, "huge"), 2, 16)]
REQUIRED_EVENTS = {"v2v": 100, "v2v_of_group": 100, "v2e": 100, "e2v_of_group": 100, "signed mean": 40, "negative sum": 10}
ASSUMPTIONS = ["stored hyperedge weights are positive or zero", "CPU device", "relative tolerance 2e-4"]
