"""Hypergraph layers and models equal their dense float64 definitions (outputs and gradients)."""
import itertools

import numpy as np
import torch

from checks.P29 import chan, convs, ft, many, mode, opts, settle
from lib import defaults, drops, replace
from lib import gmodel as G
from lib import hmodel as H
from lib import nnref as N
from lib.ref import close, diff, kl, rdense

RULE = "one state per distinct (layer or model, options, hypergraph, features) compared with the dense reference"


def mats(hm):
    es = hm.all()
    M = np.zeros((hm.n, len(es)))
    for j, (e, _) in enumerate(es):
        M[list(e), j] = 1
    return {"H": M, "w": np.array([w for _, w in es], float)}


def world(rng, huge=False, **kw):
    if huge:
        hm = H.huge_model(rng, top=300)
        left = 1300
        for name, d in hm.g.items():
            hm.g[name] = {e: min(x, 5.0) for e, x in list(d.items())[:left]}
            left -= len(hm.g[name])
        hm.g = {name: d for name, d in hm.g.items() if d}
    else:
        hm = H.rand_model(rng, **kw)
        hm.g = {name: {e: min(x, 200.0) for e, x in d.items()} for name, d in hm.g.items()}      # normalising in training takes differences
    return hm, mats(hm)


def table():
    from dhg import nn

    return {"HGNNConv": (nn.HGNNConv, N.hgnn), "HGNNPConv": (nn.HGNNPConv, N.hgnnp), "HNHNConv": (nn.HNHNConv, N.hnhn), "JHConv": (nn.JHConv, N.jh),
            "UniGCNConv": (nn.UniGCNConv, N.unigcn), "UniGATConv": (nn.UniGATConv, N.unigat), "UniSAGEConv": (nn.UniSAGEConv, N.unisage),
            "UniGINConv": (nn.UniGINConv, N.unigin)}


def layer(ctx, huge=False):
    import dhg

    rng = ctx.rng
    T = table()
    name = sorted(T)[ctx.idx % len(T)]
    cls, ref = T[name]
    hm, S = world(rng, huge)
    hg = H.build(dhg, hm)
    ci, co = chan(rng, 5), chan(rng, 4)
    if name == "JHConv":
        co = ci
    kw, last, bn, bias = opts(rng)
    train = mode(rng, kw)
    ex = {}
    if name == "UniGATConv" and rng.random() < 0.5:
        kw["atten_neg_slope"] = ex["slope"] = rng.choice([0.05, 0.5])
    if name == "UniGINConv":
        eps, tr = rng.choice([0.0, 0.3, -0.5, 2.0]), rng.random() < 0.5
        if eps or rng.random() < 0.5:
            kw["eps"] = eps
        if tr or rng.random() < 0.5:
            kw["train_eps"] = tr
    L = settle(rng, cls(ci, co, **kw), train)
    ctx.ok(any(k.endswith("bias") and "bn" not in k for k, _ in L.named_parameters()) == bias, "bias as asked", layer=name)
    if name == "UniGINConv":
        ctx.ok(any("eps" in k for k, _ in L.named_parameters()) == tr, "epsilon is learnable exactly if asked")
        if tr:
            ctx.ok(abs(float(L.eps) - eps) < 1e-6, "epsilon starts at the given value")
    X = ft(rng, hm.n, ci, True)
    if name == "UniGATConv" and rng.random() < 0.3:      # attention scores beyond the clamp
        with torch.no_grad():
            L.atten_e.weight.mul_(5)

    def full(l, x):
        if name == "UniGINConv":
            return ref(l, x, S, last, bn, l.eps if tr else eps)
        return ref(l, x, S, last, bn, **ex)

    out = N.compare(ctx, name, L, [X], lambda l, x: l(x, hg), full, info=dict(kw=kw, hypergraph=hm.fp(), train=train))
    ctx.ok(tuple(out[0].shape) == (hm.n, co), "one output row per vertex")
    H.observe(ctx, hg, hm, 0.1)
    ctx.event(name)
    ctx.state(name, sorted(kw.items()), hm.fp(), X.tolist())


def edited(ctx):
    """The same layer on a hypergraph that is edited in between: never a stale structure."""
    import dhg

    rng = ctx.rng
    T = table()
    name = sorted(T)[ctx.idx % len(T)]
    cls, ref = T[name]
    hm, _ = world(rng)
    hg = H.build(dhg, hm)
    L = cls(3, 3, use_bn=False).eval()
    X = ft(rng, hm.n, 3)
    more = (0.0,) if name == "UniGINConv" else ()
    for _ in range(3):
        S = mats(hm)
        N.compare(ctx, name + " after edits", L, [X], lambda l, x: l(x, hg), lambda l, x: ref(l, x, S, False, False, *more), grad=False, info=dict(hypergraph=hm.fp()))
        H.edit(ctx, hg, hm)
    ctx.event("edited")
    ctx.state("edited", name, hm.fp())


def ranked(rng, n, d):
    """Features that every non-negative projection orders like the returned score."""
    score = np.array(rng.sample(range(1, 10 * n), n), dtype=float) / n
    if rng.random() < 0.3:
        score -= 5
    return score, torch.tensor(score[:, None] * np.array([rng.uniform(0.5, 1.5) for _ in range(d)])[None, :], dtype=torch.float)


def hypergcn(ctx):
    from dhg.models import HyperGCN
    from dhg.nn import HyperGCNConv
    import dhg

    rng = ctx.rng
    hm, _ = world(rng, n=rng.randint(3, 9), min_size=2)
    hg = H.build(dhg, hm)
    es = [e for e, _ in hm.all()]
    ci, co, med = rng.randint(1, 4), rng.randint(1, 4), rng.random() < 0.5
    score, X = ranked(rng, hm.n, ci)
    kw, last, bn, _b = opts(rng)
    train = mode(rng, kw)
    if med or rng.random() < 0.5:
        kw["use_mediator"] = med
    L = settle(rng, HyperGCNConv(ci, co, **kw), train)
    with torch.no_grad():
        L.theta.weight.abs_().add_(0.05)        # keeps the order of the vertices in theta(X)
    S = {"A": N.hypergcn_graph(es, score, med, hm.n)}
    N.compare(ctx, "HyperGCNConv", L, [X], lambda l, x: l(x, hg), lambda l, x: N.gcn(l, x, S, last, bn), info=dict(kw=kw, hypergraph=hm.fp()))
    gm = G.rand_model(rng, "g", n=hm.n)
    g = G.build(dhg, gm)
    S2 = {"A": gm.A(), "extra": gm.extra}
    N.compare(ctx, "HyperGCNConv with a given graph", L, [X], lambda l, x: l(x, hg, g), lambda l, x: N.gcn(l, x, S2, last, bn), info=dict(kw=kw, graph=gm.fp()))
    # the model: the graph comes from the input features, and in fast mode from the first call only
    kw = {}
    if med or rng.random() < 0.5:
        kw["use_mediator"] = med
    bn = rng.random() < 0.3
    if bn:
        kw["use_bn"] = True
    train = mode(rng, kw)
    if rng.random() < 0.3:
        kw["fast"] = True
    M = settle(rng, HyperGCN(ci, 3, co, **kw), train)

    def full(m, x):
        a, b = convs(m, HyperGCNConv)
        return N.gcn(b, N.gcn(a, x, S, False, bn), S, True, bn)

    for rep in range(2):
        Z = X if rep == 0 else ft(rng, hm.n, ci)
        N.compare(ctx, "HyperGCN", M, [Z], lambda m, x: m(x, hg), full, tol=1e-3, grad=not (bn and train), info=dict(kw=kw, hypergraph=hm.fp(), call=rep))
    # without caching the second layer's graph follows the hidden features: one hidden channel, order-preserving
    kw.pop("fast", None)
    kw.pop("use_bn", None)
    M = HyperGCN(ci, 1, co, fast=False, **kw).eval()
    a, b = convs(M, HyperGCNConv)
    with torch.no_grad():
        a.theta.weight.abs_().add_(0.05)
        a.theta.bias.fill_(60.0)
        b.theta.weight.abs_().add_(0.05)
    for Z, sc in ((X, score), ranked(rng, hm.n, ci)[::-1]):
        S1 = {"A": N.hypergcn_graph(es, sc, med, hm.n)}
        hid = N.gcn(N.twin(a), Z.double(), S1, False, False).detach().numpy()[:, 0]
        if len(set(np.round(hid, 3))) < hm.n:
            continue
        S2 = {"A": N.hypergcn_graph(es, hid, med, hm.n)}
        N.compare(ctx, "HyperGCN without caching", M, [Z], lambda m, x: m(x, hg), lambda m, x: N.gcn(m.layers[1], N.gcn(m.layers[0], x, S1, False, False), S2, True, False),
                  tol=1e-3, grad=False, info=dict(kw=kw, hypergraph=hm.fp()))
        ctx.event("HyperGCN slow")
    H.observe(ctx, hg, hm, 0.1)
    ctx.event("HyperGCN")
    ctx.state("hypergcn", med, hm.fp(), score.tolist())


def model(ctx, huge=False):
    import dhg
    from dhg import models, nn

    rng = ctx.rng
    names = ["HGNN", "HGNNP", "HNHN", "UniGCN", "UniSAGE", "UniGIN", "UniGAT"]
    name = names[ctx.idx % len(names)]
    hm, S = world(rng, huge)
    hg = H.build(dhg, hm)
    ci, hid, cls = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)
    bn = rng.random() < 0.4
    kw = {}
    if bn or rng.random() < 0.3:
        kw["use_bn"] = bn
    train = mode(rng, kw)
    C, ref = table()[name + "Conv"]
    cl = getattr(models, name)
    if name == "UniGAT":
        k, sl = many(rng, 3), rng.choice([0.2, 0.4])
        if sl != 0.2:
            kw["atten_neg_slope"] = sl
        M = cl(ci, hid, cls, k, **kw)
        ctx.need(len(convs(M, C)) == k + 1, "the asked number of heads")

        def full(m, x):
            *heads, out = convs(m, C)
            return ref(out, torch.cat([ref(h, x, S, False, bn, sl) for h in heads], 1), S, False, bn, sl)
    elif name == "UniGIN":
        eps, tr = rng.choice([0.0, 0.4]), rng.random() < 0.5
        if eps:
            kw["eps"] = eps
        if tr:
            kw["train_eps"] = True
        M = cl(ci, hid, cls, **kw)

        def full(m, x):
            a, b = convs(m, C)
            e = lambda l: l.eps if tr else eps
            return ref(b, ref(a, x, S, False, bn, e(a)), S, True, bn, e(b))
    else:
        M = cl(ci, hid, cls, **kw)

        def full(m, x):
            a, b = convs(m, C)
            return ref(b, ref(a, x, S, False, bn), S, True, bn)
    M = settle(rng, M, train)
    X = ft(rng, hm.n, ci)
    out = N.compare(ctx, name, M, [X], lambda m, x: m(x, hg), full, tol=1e-3, grad=not (bn and train), info=dict(kw=kw, hypergraph=hm.fp(), train=train))
    ctx.ok(tuple(out[0].shape) == (hm.n, cls), "one score per vertex and class")
    ctx.event(name)
    ctx.state(name, sorted(kw.items()), hm.fp(), X.tolist())
    ctx.sample({"model": name, "options": kw, "hypergraph": hm.fp(), "output": out[0].tolist()[:3]})


def dhcf(ctx, huge=False):
    import dhg
    from dhg.models import DHCF

    rng = ctx.rng
    nu, ni = rng.randint(2, 7), rng.randint(2, 7)
    hu, Su = world(rng, huge, n=nu)
    hi, Si = world(rng, huge, n=ni)
    nu, ni = hu.n, hi.n
    gu, gi = H.build(dhg, hu), H.build(dhg, hi)
    nl, dim = many(rng, 4), rng.randint(2, 4)
    kw = {} if nl == 3 and rng.random() < 0.5 else {"num_layers": nl}
    train = mode(rng, kw)
    M = DHCF(nu, ni, dim, **kw).train(train)
    tiny = rng.random() < 0.25      # embeddings far below one, no bias to lift them
    with torch.no_grad():
        for p in M.parameters():
            if p.dim() == 1:
                p.uniform_(-0.5, 0.5)
                if tiny:
                    p.zero_()
        if tiny:
            f = rng.choice([1e-3, 1e-5, 1e-7])
            M.u_embedding.weight.mul_(f)
            M.i_embedding.weight.mul_(f)
            ctx.event("tiny embeddings")
    Lu, Li = N.hgnn_op(Su["H"], Su["w"]), N.hgnn_op(Si["H"], Si["w"])

    def ref(m):
        E = torch.cat([m.u_embedding.weight, m.i_embedding.weight])
        ctx.ok(tuple(E.shape) == (nu + ni, dim), "one embedding per user and item")
        out = [E]
        for i in range(nl):
            Gb = torch.cat([Lu @ E[:nu], Li @ E[nu:]])
            E = N.leaky(m.W_gc[i](Gb) + E, 0.2) + N.leaky(m.W_bi[i](E * Gb), 0.2)
            E = torch.nn.functional.normalize(E, p=2, dim=1)
            out.append(E)
        E = torch.stack(out).mean(0)
        return E[:nu], E[nu:]

    N.compare(ctx, "DHCF", M, [], lambda m: m(gu, gi), ref, tol=1e-3, grad=not tiny, info=dict(kw=kw, users=hu.fp(), items=hi.fp()))
    a = M.u_embedding.weight.detach().clone()
    M.reset_parameters()
    ctx.ok(not torch.equal(a, M.u_embedding.weight), "resetting draws new embeddings")
    ctx.event("DHCF")
    ctx.state("DHCF", nl, dim, hu.fp(), hi.fp())


def dropping(ctx):
    """Dropout acts in training only, on the documented place and at the given rate."""
    import dhg
    from dhg.nn import HyperGCNConv

    rng = ctx.rng
    T = table()
    names = sorted(set(T) - {"UniGATConv"}) + ["HyperGCNConv"]
    name = names[ctx.idx % len(names)]
    C = T[name][0] if name in T else HyperGCNConv
    hm, S = world(rng, min_size=2)
    hg = H.build(dhg, hm)
    p = rng.choice([0.2, 0.5, 0.8])
    mk = lambda **kw: C(4, 4, **kw) if p == 0.5 and rng.random() < 0.5 else C(4, 4, drop_rate=p, **kw)
    X = ft(rng, hm.n, 4)
    extra = (dhg.Graph.from_hypergraph_clique(hg),) if name == "HyperGCNConv" else ()
    with torch.no_grad():
        L = mk()
        base = L.eval()(X, hg, *extra)
        ctx.ok(torch.equal(base, L(X, hg, *extra)), name + ": evaluation is deterministic")
        L.train()
        hit = tot = 0
        on = base > 1e-4
        for _ in range(30):
            o = L(X, hg, *extra)
            z = o == 0
            ctx.ok(bool((z | ((o - base / (1 - p)).abs() < 1e-4 * (1 + base.abs() / (1 - p)))).all()), name + ": an output is dropped or rescaled", p=p)
            tot += int(on.sum())
            hit += int((z & on).sum())
        ctx.ok(tot == 0 or tot * kl(hit / tot, p) < 32, name + ": outputs are dropped at the given rate", p=p, dropped=hit, of=tot)
        L = mk(is_last=True)
        a = L.eval()(X, hg, *extra)
        ctx.ok(torch.equal(a, L.train()(X, hg, *extra)), name + ": the last layer drops nothing")
        C = T["UniGATConv"][0]
        A = C(4, 2, drop_rate=p, is_last=True)
        ctx.ok(close(A.eval()(X, hg), N.unigat(N.twin(A), X.double(), S, True, False)), "UniGATConv: evaluation drops nothing")
        A.train()
        W = N.twin(A)
        Y = N.v2e_op(S["H"], S["w"]) @ W.theta(X.double())
        sc = torch.nn.functional.leaky_relu(W.atten_e(Y), 0.2)
        o = A(X, hg)
        for v in range(hm.n):
            nb = np.flatnonzero(S["H"][v]).tolist()
            if not nb:
                ctx.ok(float(o[v].abs().max()) == 0, "UniGATConv: no hyperedge, no message")
            elif len(nb) <= 6:
                ok = False
                for keep in itertools.product([0, 1], repeat=len(nb)):
                    s = torch.clamp(torch.stack([sc[u, 0] * k / (1 - p) for u, k in zip(nb, keep)]), 0.001, 5)
                    ok = ok or close(o[v], (torch.softmax(s, 0)[:, None] * Y[nb]).sum(0), 1e-3)
                ctx.ok(ok, "UniGATConv: attention scores are dropped or rescaled in training", vertex=v, p=p)
    ctx.event("dropping")
    ctx.state("drop", name, p, hm.fp())


def model_dropping(ctx):
    """What is dropped inside models in training: every possible outcome is known, and the frequencies follow the rate."""
    import dhg
    from dhg import models, nn

    rng = ctx.rng
    names = ["HGNN", "HGNNP", "HNHN", "UniGCN", "UniSAGE", "UniGIN", "UniGAT", "HyperGCN", "DHCF"]
    name = names[ctx.idx % len(names)]
    p = rng.choice([0.2, 0.5, 0.7])
    kw = {"drop_rate": p} if p != 0.5 or rng.random() < 0.5 else {}
    r = 1 / (1 - p)

    def small(n, es):
        hm = H.HM(n)
        hm.g["main"] = {tuple(e): float(rng.choice([1.0, 0.5, 2.0])) for e in es}
        return hm, mats(hm), H.build(dhg, hm)

    def stir(m):
        with torch.no_grad():
            for q in m.parameters():
                q.add_(0.3 * torch.randn_like(q))
        return m

    if name == "UniGAT":      # one hyperedge each: attention is 1 whatever is dropped of its scores
        hm, S, hg = small(2, [(0, 1)] if rng.random() < 0.5 else [(0,), (1,)])
        X = ft(rng, 2, 2)
        M = stir(models.UniGAT(2, 1, 2, 2, **kw))
        *heads, out = convs(N.twin(M), nn.UniGATConv)
        drops.judge(ctx, name, lambda: [M(X, hg)], [(2, 2), (2, 2)],
                    lambda m, k: [N.unigat(out, k * r * torch.cat([N.unigat(h, m * r * X.double(), S, False, False) for h in heads], 1), S, False, False)], p)
    elif name == "DHCF":
        (hu, Su, gu), (hi, Si, gi) = small(2, [(0, 1), (1,)]), small(2, [(0,), (0, 1)])
        M = stir(models.DHCF(2, 2, 2, num_layers=1, **kw))
        T = N.twin(M)
        E = torch.cat([T.u_embedding.weight, T.i_embedding.weight])
        Gb = torch.cat([N.hgnn_op(Su["H"], Su["w"]) @ E[:2], N.hgnn_op(Si["H"], Si["w"]) @ E[2:]])
        Z = N.leaky(T.W_gc[0](Gb) + E, 0.2) + N.leaky(T.W_bi[0](E * Gb), 0.2)
        drops.judge(ctx, name, lambda: list(M(gu, gi)), [(4, 2)], lambda m: [(E + torch.nn.functional.normalize(m * r * Z, p=2, dim=1)) / 2], p)
        X = E
    else:
        es = rng.choice([[(0, 1), (1, 2)], [(0, 1, 2), (0, 2)], [(0, 1), (0, 2), (0, 1, 2)]])
        X = ft(rng, 3, 2)
        if name.startswith("HyperGCN"):      # hyperedges of two vertices: no choice of extremes
            es = rng.choice([[(0, 1), (1, 2)], [(0, 2), (0, 1)], [(0, 1), (0, 2), (1, 2)]])
        hm, S, hg = small(3, es)
        if name.startswith("HyperGCN"):
            med = rng.random() < 0.5
            M = stir(models.HyperGCN(2, 2, 3, fast=True, use_mediator=med, **kw))
            A = np.zeros((3, 3))
            w = 1.0 if med else 0.5
            for u, v in es:
                A[u, v] = A[v, u] = w
            C, ref, S, more = nn.HyperGCNConv, N.gcn, {"A": A}, ()
        else:
            M = stir(getattr(models, name)(2, 2, 3, **kw))
            C, ref = table()[name + "Conv"]
            more = (0.0,) if name == "UniGIN" else ()
        a, b = convs(N.twin(M), C)
        hid = ref(a, X.double(), S, False, False, *more)
        drops.judge(ctx, name, lambda: [M(X, hg)], [(3, 2)], lambda m: [ref(b, m * r * hid, S, True, False, *more)], p)
    ctx.event("dropping in " + name)
    ctx.state("model drop", name, p, X.tolist())


def defaulted(ctx):
    """What is not asked for has its documented default."""
    from dhg import models as m
    from dhg import nn
    import dhg

    rng = ctx.rng
    hm, _ = world(rng, n=rng.randint(4, 9), min_size=2)
    hg = H.build(dhg, hm)
    hu, hi = H.rand_model(rng, n=4), H.rand_model(rng, n=5)
    gu, gi = H.build(dhg, hu), H.build(dhg, hi)
    X = ft(rng, hm.n, 3)
    on = lambda l: [l(X, hg)]
    conv = dict(bias=True, use_bn=False, drop_rate=0.5, is_last=False)
    mod = dict(use_bn=False, drop_rate=0.5)
    T = [(k, getattr(nn, k), (3, 4), conv, on) for k in ("HGNNConv", "HGNNPConv", "HNHNConv", "UniGCNConv", "UniSAGEConv")]
    T += [("JHConv", nn.JHConv, (3, 3), conv, on), ("UniGATConv", nn.UniGATConv, (3, 4), dict(conv, atten_neg_slope=0.2), on),
          ("UniGINConv", nn.UniGINConv, (3, 4), dict(conv, eps=0.0, train_eps=False), on),
          ("HyperGCNConv", nn.HyperGCNConv, (3, 4), dict(conv, use_mediator=False), on)]
    T += [(k, getattr(m, k), (3, 4, 2), mod, on) for k in ("HGNN", "HGNNP", "HNHN", "UniGCN", "UniSAGE")]
    T += [("UniGAT", m.UniGAT, (3, 4, 2, 2), dict(mod, atten_neg_slope=0.2), on), ("UniGIN", m.UniGIN, (3, 4, 2), dict(mod, eps=0.0, train_eps=False), on),
          ("HyperGCN", m.HyperGCN, (3, 4, 2), dict(mod, use_mediator=False, fast=True), on),
          ("DHCF", m.DHCF, (4, 5, 3), dict(num_layers=3, drop_rate=0.5), lambda l: list(l(gu, gi)))]
    defaults.check(ctx, *T[ctx.idx % len(T)])


def edgecases(ctx):
    """Hypergraphs with no hyperedge or a single connection."""
    import dhg

    rng = ctx.rng
    T = table()
    for e in (None, [(0,)], [(1,)], [(0, 1)]):
        hg = dhg.Hypergraph(2, e) if e else dhg.Hypergraph(2)
        M = np.zeros((2, len(e or [])))
        for j, x in enumerate(e or []):
            M[list(x), j] = 1
        S = {"H": M, "w": np.ones(M.shape[1])}
        X = ft(rng, 2, 3)
        for name, (C, ref) in T.items():
            L = C(3, 3).eval()
            more = (0.0,) if name == "UniGINConv" else ()
            N.compare(ctx, name + " on nearly nothing", L, [X], lambda l, x: l(x, hg), lambda l, x: ref(l, x, S, False, False, *more), info=dict(edges=e))
    ctx.event("edge cases")
    ctx.state("edge", X.tolist())


def huge(ctx):
    """More than a thousand vertices."""
    (dhcf if ctx.idx == 7 else layer if ctx.idx < 16 else model)(ctx, True)
    ctx.event("huge")


def again(ctx):
    """Structures edited or replaced, features overwritten between two calls of one module."""
    replace.replaced(ctx, ("h", "hh"))


SCENARIOS = [("again", again, 126, 1800), ("huge", huge, 23, 92), ("layer", layer, 320, 6400), ("edited", edited, 40, 800), ("hypergcn", hypergcn, 60, 1000), ("model", model, 140, 2800), ("dhcf", dhcf, 40, 800),
             ("dropping", dropping, 24, 400), ("model dropping", model_dropping, 36, 540), ("defaults", defaulted, 36, 360), ("edge cases", edgecases, 3, 30)]
REQUIRED_EVENTS = dict({n: 30 for n in ["HGNNConv", "HGNNPConv", "HNHNConv", "JHConv", "UniGCNConv", "UniGATConv", "UniSAGEConv", "UniGINConv"]},
                       **{n: 15 for n in ["HGNN", "HGNNP", "HNHN", "UniGCN", "UniSAGE", "UniGIN", "UniGAT"]},
                       **{"HyperGCN": 40, "HyperGCN slow": 20, "DHCF": 30, "gradient": 150, "dropping": 20, "edited": 30, "defaults": 25, "huge": 15, "dropout outcomes": 30, "dropout rate": 8, "tiny embeddings": 3})
ASSUMPTIONS = ["hyperedge weights are positive", "gradients are compared only when no pre-activation is within 3e-5 of a kink", "float tolerance 2e-4 (layers) to 1e-3 (models)"]
