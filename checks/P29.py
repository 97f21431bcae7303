"""Graph layers and models equal their dense float64 definitions (outputs and gradients)."""
import itertools

import numpy as np
import torch

from lib import defaults, drops, replace
from lib import gmodel as G
from lib import nnref as N
from lib.ref import close, diff, kl, rdense

RULE = "one state per distinct (layer or model, options, graph, features) compared with the dense reference"


def world(rng, kind="g", n=None, m=None, huge=False):
    if huge:
        gm = G.huge_model(rng, kind)
        gm.w = {e: min(x, 5.0) for e, x in gm.w.items()}
        gm.loops = {v: min(x, 5.0) for v, x in gm.loops.items()} if kind != "b" else gm.loops
    elif not n and rng.random() < 0.06:
        gm = G.rand_model(rng, kind, n=rng.choice([17, 40]), m=m, dens=rng.choice([0.05, 0.2]))
    else:
        gm = G.rand_model(rng, kind, n=n or rng.randint(2, 9), m=m)
    gm.w = {e: min(x, 200.0) for e, x in gm.w.items()}      # normalising in training takes differences
    if kind != "b":
        gm.loops = {v: min(x, 200.0) for v, x in gm.loops.items()}
    return gm, {"A": gm.A(), "P": gm.P(), "extra": gm.extra}


def ft(rng, n, c, wide=False):
    return torch.tensor(rdense(rng, n, c) * rng.choice([1, 1, 1, 1, 8, 1e-4, 300.0] if wide else [1, 1, 1, 1, 1, 1, 1e-3, 30.0]), dtype=torch.float)


def chan(rng, small):
    return rng.choice([33, 64, 130, 260]) if rng.random() < 0.06 else rng.randint(1, small)


def many(rng, few):
    """How many layers or heads: now and then more than anybody would ask for."""
    return rng.choice([6, 9, 12, 17]) if rng.random() < 0.1 else rng.randint(1, few)


def opts(rng, last=True):
    """Constructor options and what they must mean: (kwargs, last, bn, bias)."""
    kw = {}
    bn, lst, bias = rng.random() < 0.4, last and rng.random() < 0.4, rng.random() < 0.7
    if bn or rng.random() < 0.3:
        kw["use_bn"] = bn
    if last and (lst or rng.random() < 0.3):
        kw["is_last"] = lst
    if not bias or rng.random() < 0.3:
        kw["bias"] = bias
    return kw, lst, bn, bias


def mode(rng, kw):
    """Training with nothing dropped, or evaluation with any drop rate."""
    if rng.random() < 0.5:
        kw["drop_rate"] = 0.0
        return True
    if rng.random() < 0.5:
        kw["drop_rate"] = rng.choice([0.3, 0.9])
    return False


def settle(rng, m, train):
    """Non-trivial batch-norm statistics and parameters."""
    for b in m.modules():
        if isinstance(b, torch.nn.BatchNorm1d):
            b.running_mean.normal_()
            b.running_var.uniform_(0.5, 2)
            with torch.no_grad():
                b.weight.uniform_(0.5, 2)
                b.bias.normal_()
    m.train(train)
    return m


def layer(ctx, huge=False):
    from dhg.nn import GATConv, GCNConv, GraphSAGEConv
    import dhg

    rng = ctx.rng
    name, cls, ref, bip = rng.choice([("GCNConv", GCNConv, N.gcn, 0), ("GraphSAGEConv", GraphSAGEConv, N.sage, 0), ("GATConv", GATConv, N.gat, 0)])
    gm, S = world(rng, huge=huge)
    g = G.build(dhg, gm)
    ci, co = chan(rng, 5), chan(rng, 4)
    kw, last, bn, bias = opts(rng)
    train = mode(rng, kw)
    slope = {}
    if name == "GATConv" and rng.random() < 0.5:
        slope = {"slope": rng.choice([0.05, 0.5])}
        kw["atten_neg_slope"] = slope["slope"]
    if name == "GraphSAGEConv" and rng.random() < 0.3:
        kw["aggr"] = "mean"
    L = settle(rng, cls(ci, co, **kw), train)
    names = {k for k, _ in L.named_parameters() if k.endswith("theta.bias") or k == "theta.bias"}
    ctx.ok(bool(names) == bias, "bias as asked", layer=name, got=sorted(names))
    X = ft(rng, gm.n, ci, True)
    if name == "GATConv" and rng.random() < 0.3:      # attention scores beyond the clamp
        with torch.no_grad():
            L.atten_src.weight.mul_(5)
    out = N.compare(ctx, name, L, [X], lambda l, x: l(x, g), lambda l, x: ref(l, x, S, last, bn, **slope),
                    info=dict(kw=kw, graph=gm.fp(), train=train))
    ctx.ok(tuple(out[0].shape) == (gm.n, co), "one output row per vertex")
    if name == "GraphSAGEConv":
        ctx.raises(lambda: cls(ci, co, aggr="max"), "an unsupported aggregation is refused")
    G.observe(ctx, g, gm, 0.2)
    ctx.event(name)
    ctx.state(name, sorted(kw.items()), gm.fp(), X.tolist())


def gin_layer(ctx, huge=False):
    from dhg.nn import GINConv, MLP
    import dhg

    rng = ctx.rng
    gm, S = world(rng, huge=huge)
    g = G.build(dhg, gm)
    ci, co = rng.randint(1, 4), rng.randint(1, 4)
    eps, tr = rng.choice([0.0, 0.3, -0.5, 2.0]), rng.random() < 0.5
    kw = {}
    if eps or rng.random() < 0.5:
        kw["eps"] = eps
    if tr or rng.random() < 0.5:
        kw["train_eps"] = tr
    bn = rng.random() < 0.4
    train = rng.random() < 0.5
    M = MLP([ci, 3, co], use_bn=bn, drop_rate=0.0 if train else 0.5) if rng.random() < 0.7 else None
    L = settle(rng, GINConv(M if M is not None else torch.nn.Linear(ci, co), **kw), train)
    ctx.ok(any("eps" in k for k, _ in L.named_parameters()) == tr, "epsilon is learnable exactly if asked")
    X = ft(rng, gm.n, ci)

    def ref(l, x):
        e = l.eps if tr else eps
        if M is None:
            return l.MLP((1 + e) * x + N.t64(S["A"]) @ x)
        return N.gin(l.MLP, x, S, e, bn)

    if tr:
        ctx.ok(abs(float(L.eps) - eps) < 1e-6, "epsilon starts at the given value")
        with torch.no_grad():
            L.eps += 0.25
    N.compare(ctx, "GINConv", L, [X], lambda l, x: l(x, g), ref, info=dict(kw=kw, graph=gm.fp()))
    ctx.event("GINConv")
    ctx.state("gin", eps, tr, gm.fp())


def parts(ctx):
    """MLP, MultiHeadWrapper, Discriminator."""
    from dhg.nn import Discriminator, GCNConv, MLP, MultiHeadWrapper
    import dhg

    rng = ctx.rng
    ch = [rng.randint(1, 5) for _ in range(rng.randint(2, 5) if rng.random() < 0.9 else rng.choice([8, 12]))]
    kw = {}
    bn, last = rng.random() < 0.6, rng.random() < 0.5
    if not bn or rng.random() < 0.4:
        kw["use_bn"] = bn
    if last or rng.random() < 0.4:
        kw["is_last"] = last
    act = N.relu
    if rng.random() < 0.4:
        kw.update(act_name="LeakyReLU", act_kwargs={"negative_slope": 0.3})
        act = lambda x: N.leaky(x, 0.3)
    train = mode(rng, kw)
    if bn and train:      # many batch norms in a row are too badly conditioned to compare
        ch = ch[:5]
    M = settle(rng, MLP(ch, **kw), train)
    lin = [(m.in_features, m.out_features) for m in M.modules() if isinstance(m, torch.nn.Linear)]
    ctx.ok(lin == list(zip(ch, ch[1:])), "one linear map per pair of channels", got=lin, want=ch)
    X = ft(rng, rng.randint(2, 6), ch[0])
    N.compare(ctx, "MLP", M, [X], lambda m, x: m(x), lambda m, x: N.mlp(m, x, bn, last, act), info=dict(kw=kw, channels=ch))
    ctx.raises(lambda: MLP([3]), "fewer than two channels are refused")
    # heads
    gm, S = world(rng)
    g = G.build(dhg, gm)
    k, ro = many(rng, 4), rng.choice(["concat", "mean", "max", "sum"])
    W = MultiHeadWrapper(k, ro, GCNConv, in_channels=2, out_channels=3, drop_rate=0.0)
    heads = [m for m in W.modules() if isinstance(m, GCNConv)]
    ctx.need(len(heads) == k, "one layer per head", got=len(heads))
    ctx.ok(k == 1 or not torch.equal(heads[0].theta.weight, heads[1].theta.weight), "heads are initialised independently")
    X = ft(rng, gm.n, 2)

    def ref(w, x):
        o = [N.gcn(h, x, S, False, False) for h in w.modules() if isinstance(h, GCNConv)]
        s = torch.stack(o)
        return {"concat": torch.cat(o, 1), "mean": s.mean(0), "max": s.max(0)[0], "sum": s.sum(0)}[ro]

    N.compare(ctx, "MultiHeadWrapper", W, [X], lambda w, x: w(X=x, g=g), ref, grad=ro != "max", info=dict(heads=k, readout=ro))
    ctx.raises(lambda: MultiHeadWrapper(2, "vote", GCNConv, in_channels=2, out_channels=3)(X=X, g=g), "an unknown readout is refused")
    dd = Discriminator(3, 4, 2, drop_rate=0.5).eval()

    def dref(d, x):
        a, b = [m for m in d.modules() if isinstance(m, torch.nn.Linear)]
        return torch.sigmoid(b(N.leaky(a(x), 0.01)))

    N.compare(ctx, "Discriminator", dd, [ft(rng, 4, 3)], lambda d, x: d(x), dref)
    ctx.event("parts")
    ctx.state("parts", ch, sorted(map(repr, kw.items())), k, ro)


def convs(m, cls):
    return [l for l in m.modules() if isinstance(l, cls)]


def model(ctx, huge=False):
    from dhg.models import GAT, GCN, GIN, GraphSAGE
    from dhg.nn import GATConv, GCNConv, GINConv, GraphSAGEConv
    import dhg

    rng = ctx.rng
    name = ["GCN", "GraphSAGE", "GAT", "GIN"][ctx.idx % 4]
    gm, S = world(rng, huge=huge)
    g = G.build(dhg, gm)
    ci, hid, cls = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4)
    bn = rng.random() < 0.4
    kw = {}
    if bn or rng.random() < 0.3:
        kw["use_bn"] = bn
    train = mode(rng, kw)
    X = ft(rng, gm.n, ci)
    if name in ("GCN", "GraphSAGE"):
        C, ref = (GCNConv, N.gcn) if name == "GCN" else (GraphSAGEConv, N.sage)
        M = settle(rng, (GCN if name == "GCN" else GraphSAGE)(ci, hid, cls, **kw), train)

        def full(m, x):
            a, b = convs(m, C)
            return ref(b, ref(a, x, S, False, bn), S, True, bn)
    elif name == "GAT":
        k = many(rng, 3)
        sl = rng.choice([0.2, 0.4])
        if sl != 0.2:
            kw["atten_neg_slope"] = sl
        M = settle(rng, GAT(ci, hid, cls, k, **kw), train)

        def full(m, x):
            *heads, out = convs(m, GATConv)
            x = torch.cat([N.gat(h, x, S, False, bn, sl) for h in heads], 1)
            return N.gat(out, x, S, False, bn, sl)
        ctx.ok(len(convs(M, GATConv)) == k + 1, "the asked number of heads")
    else:
        nl, nm = max(2, many(rng, 4)), many(rng, 3)
        if bn and train:      # many batch norms in a row are too badly conditioned to compare
            nl, nm = min(nl, 4), min(nm, 3)
        eps, tr = rng.choice([0.0, 0.4]), rng.random() < 0.5
        if nm != 2:
            kw["num_mlp_layers"] = nm
        if eps:
            kw["eps"] = eps
        if tr:
            kw["train_eps"] = tr
        M = settle(rng, GIN(ci, hid, cls, nl, **kw), train)
        ctx.need(len(convs(M, GINConv)) == nl, "the asked number of layers")
        ctx.ok(all(sum(isinstance(x, torch.nn.Linear) for x in c.modules()) == nm for c in convs(M, GINConv)), "the asked number of linear maps per layer")
        ctx.raises(lambda: GIN(ci, hid, cls, 1), "fewer than two layers are refused")

        def full(m, x):
            out = m.pred_layers[0](x)
            for i, c in enumerate(convs(m, GINConv)):
                x = N.gin(c.MLP, x, S, c.eps if tr else eps, bn)
                out = out + m.pred_layers[i + 1](x)
            return out
    out = N.compare(ctx, name, M, [X], lambda m, x: m(x, g), full, tol=1e-3, grad=not (bn and train), info=dict(kw=kw, graph=gm.fp(), train=train))
    ctx.ok(tuple(out[0].shape) == (gm.n, cls), "one score per vertex and class")
    ctx.event(name)
    ctx.state(name, sorted(kw.items()), gm.fp(), X.tolist())
    ctx.sample({"model": name, "options": kw, "graph": gm.fp(), "output": out[0].tolist()[:3]})


def recommend(ctx, huge=False):
    from dhg.models import LightGCN, NGCF
    import dhg

    rng = ctx.rng
    name = rng.choice(["LightGCN", "NGCF"])
    gm, _ = world(rng, "b", rng.randint(1, 7), rng.randint(1, 7), huge=huge)
    g = G.build(dhg, gm)
    nl, dim = many(rng, 4), rng.randint(1, 4)
    kw = {}
    if nl != 3 or rng.random() < 0.5:
        kw["num_layers"] = nl
    train = mode(rng, kw)
    M = (LightGCN if name == "LightGCN" else NGCF)(gm.n, gm.m, dim, **kw).train(train)
    ctx.ok(tuple(M.u_embedding.weight.shape) == (gm.n, dim) and tuple(M.i_embedding.weight.shape) == (gm.m, dim), "one embedding per user and item")
    op = N.bi_op(gm.A())
    with torch.no_grad():
        tiny = rng.random() < 0.25      # embeddings far below one, no bias to lift them
        M.u_embedding.weight.mul_(3)
        for p in M.parameters():
            if p.dim() == 1:
                p.uniform_(-0.5, 0.5)
                if tiny:
                    p.zero_()
        if tiny:
            f = rng.choice([1e-3, 1e-5, 1e-7])
            M.u_embedding.weight.mul_(f)
            M.i_embedding.weight.mul_(f)
            ctx.event("tiny embeddings")

    def ref(m):
        E = torch.cat([m.u_embedding.weight, m.i_embedding.weight])
        all_ = [E]
        for i in range(nl):
            if name == "LightGCN":
                E = op @ E
            else:
                Gb = op @ E
                E = N.leaky(m.W_gc[i](Gb), 0.2) + N.leaky(m.W_bi[i](E * Gb), 0.2)
                E = torch.nn.functional.normalize(E, p=2, dim=1)
            all_.append(E)
        E = torch.stack(all_).mean(0)
        return E[:gm.n], E[gm.n:]

    N.compare(ctx, name, M, [], lambda m: m(g), ref, tol=1e-3, grad=(name == "LightGCN" or dim > 1) and not tiny, info=dict(kw=kw, graph=gm.fp(), train=train))
    a = M.u_embedding.weight.detach().clone()
    M.reset_parameters()
    ctx.ok(not torch.equal(a, M.u_embedding.weight), "resetting draws new embeddings")
    ctx.event(name)
    ctx.state(name, sorted(kw.items()), gm.fp(), dim)


def bgnn(ctx):
    from dhg.models import BGNN_Adv, BGNN_MLP
    import dhg

    rng = ctx.rng
    gm, _ = world(rng, "b", rng.randint(2, 6), rng.randint(2, 6))
    gm.w = {e: min(w, 1.0) for e, w in gm.w.items()}
    g = G.build(dhg, gm)
    B = N.t64(gm.A())
    du, dv, depth = rng.randint(1, 4), rng.randint(1, 4), many(rng, 4)
    adv = rng.random() < 0.5
    kw = {} if depth == 3 and rng.random() < 0.5 else {"layer_depth": depth}
    if adv:
        M = BGNN_Adv(du, dv, **kw)
    else:
        M = BGNN_MLP(du, dv, 3, 4, drop_rate=0.4, **kw)
    M.eval()
    U, V = ft(rng, gm.n, du), ft(rng, gm.m, dv)

    def ref(m, u, v):
        for i in range(depth):
            dec = (lambda x: x) if adv else (lambda x: torch.tanh(m.decoders[i].layers[3](N.relu(m.decoders[i].layers[0](x)))))
            if i % 2 == 0:
                u = dec(torch.tanh(B @ m.layers[i](v)))
            else:
                v = dec(torch.tanh(B.T @ m.layers[i](u)))
        return u

    name = type(M).__name__
    N.compare(ctx, name, M, [U, V], lambda m, u, v: m(u, v, g), ref, info=dict(graph=gm.fp(), depth=depth))
    # cascaded training: every layer is trained, and the result is what the trained model computes
    stages = [torch.nn.ModuleList([l] + ([] if adv else [M.decoders[i]])) for i, l in enumerate(M.layers)]
    before = [{k: p.detach().clone() for k, p in l.named_parameters()} for l in stages]
    U0, V0 = U.clone(), V.clone()
    ep = rng.choice([1, 3])
    r = M.train_with_cascaded(U, V, g, 0.01, 0.0, ep)
    ctx.ok(torch.equal(U, U0) and torch.equal(V, V0), name + ": training keeps the features")
    if gm.w:
        moved = lambda: [any(not torch.equal(p, before[i][k]) for k, p in l.named_parameters()) for i, l in enumerate(stages)]
        done = moved()
        for _ in range(6):      # a saturated or wholly dropped signal moves nothing: once more, with small features
            if not all(done):
                ctx.event("trained once more")
                M.train_with_cascaded(*(0.5 * x / max(float(x.abs().max()), 1e-6) + 0.05 for x in (U, V)), g, 0.01, 0.0, 3)
                done = [a or b for a, b in zip(done, moved())]
                r = None
        ctx.ok(all(done), name + ": every layer is trained", got=done, depth=depth)
    ctx.ok(all(bool(torch.isfinite(p).all()) for p in M.parameters()), name + ": parameters stay finite")
    M.eval()
    with torch.no_grad():
        out = M(U, V, g)
    if r is not None:
        ctx.ok(close(r, out, 1e-4), name + ": training returns what the trained model computes", diff=diff(r, out))
        ctx.ok(not r.requires_grad, name + ": the result is detached")
    G.observe(ctx, g, gm, 0.2)
    ctx.event(name)
    ctx.state(name, depth, du, dv, gm.fp())


def cascade_ref(M, U, V, B, lr, wd, epochs):
    """Cascaded training as published, in float64, on a copy; also the smallest non-zero gradient that was seen."""
    adv = not hasattr(M, "decoders")
    feats, least = [U.double(), V.double()], [1.0]
    bce, one, zero = torch.nn.functional.binary_cross_entropy, lambda k: torch.ones(k, 1, dtype=N.D), lambda k: torch.zeros(k, 1, dtype=N.D)

    def step(opt, loss):
        opt.zero_grad()
        loss.backward()
        for grp in opt.param_groups:
            for p in grp["params"]:
                g = p.grad.abs()
                g = g[g > 0]
                if g.numel():
                    least[0] = min(least[0], float(g.min()))
        opt.step()

    def run(i, x):
        h = torch.tanh((B if i % 2 == 0 else B.T) @ M.layers[i](x))
        return h if adv else torch.tanh(M.decoders[i].layers[3](N.relu(M.decoders[i].layers[0](h))))

    for i in range(len(M.layers)):
        mine, other = feats[i % 2], feats[1 - i % 2]
        if adv:
            a, b = torch.nn.Linear(mine.shape[1], 16), torch.nn.Linear(16, 1)      # drawn in float32, like the real ones
            a, b = a.double(), b.double()
            disc = lambda x: torch.sigmoid(b(N.leaky(a(x), 0.01)))
            og = torch.optim.Adam(M.layers[i].parameters(), lr=lr, weight_decay=wd)
            od = torch.optim.Adam([*a.parameters(), *b.parameters()], lr=lr, weight_decay=wd)
            for _ in range(epochs):
                fake = run(i, other)
                step(od, bce(disc(mine), one(len(mine))) + bce(disc(fake.detach()), zero(len(mine))))
                step(og, bce(disc(fake), one(len(mine))))
        else:
            o = torch.optim.Adam([*M.layers[i].parameters(), *M.decoders[i].parameters()], lr=lr, weight_decay=wd)
            for _ in range(epochs):
                step(o, torch.nn.functional.mse_loss(run(i, other), mine))
        with torch.no_grad():
            feats[i % 2] = run(i, other)
    return feats[0], least[0]


def cascade(ctx):
    """The parameters after cascaded training are those of the published losses and optimisers."""
    from dhg.models import BGNN_Adv, BGNN_MLP
    import copy
    import dhg

    rng = ctx.rng
    gm, _ = world(rng, "b", rng.randint(2, 6), rng.randint(2, 6))
    gm.w = {e: min(w, 1.0) for e, w in gm.w.items()}
    g = G.build(dhg, gm)
    du, dv, depth = rng.randint(1, 4), rng.randint(1, 4), many(rng, 4)
    M = BGNN_Adv(du, dv, layer_depth=depth) if ctx.idx % 2 else BGNN_MLP(du, dv, 3, 4, drop_rate=0.0, layer_depth=depth)
    U, V = ft(rng, gm.n, du), ft(rng, gm.m, dv)
    lr, wd, ep = rng.choice([0.01, 0.003]), rng.choice([0.0, 0.01]), rng.choice([1, 2, 5, 12])
    twin = copy.deepcopy(M).double()
    kw = {"drop_rate": 0.0} if ctx.idx % 2 else {}
    s = rng.randrange(10 ** 6)
    torch.manual_seed(s)
    r = M.train_with_cascaded(U, V, g, lr, wd, ep, **kw)
    torch.manual_seed(s)
    N.Kink.least = 1.0
    want, least = cascade_ref(twin, U, V, N.t64(gm.A()), lr, wd, ep)
    name = type(M).__name__
    if least < 1e-5 or N.Kink.least < 1e-5:      # Adam divides by the gradient's own size: rounding decides
        ctx.event("ill-conditioned training")
        return
    ctx.ok(close(r, want, 2e-3), name + ": cascaded training returns the published result", diff=diff(r, want), depth=depth, epochs=ep, lr=lr, weight_decay=wd)
    for (k, p), q in zip(M.named_parameters(), twin.parameters()):
        ctx.ok(close(p, q, 2e-3), name + ": cascaded training gives the published parameters", of=k, diff=diff(p, q), depth=depth, epochs=ep, lr=lr, weight_decay=wd)
    ctx.event("cascade " + name)
    ctx.state("cascade", name, depth, ep, lr, wd, gm.fp())


def dropping(ctx):
    """Dropout acts in training only, on the documented place and at the given rate."""
    from dhg.nn import GATConv, GCNConv, GraphSAGEConv
    import dhg

    rng = ctx.rng
    gm, S = world(rng)
    g = G.build(dhg, gm)
    C = rng.choice([GCNConv, GraphSAGEConv])
    p = rng.choice([0.2, 0.5, 0.8])
    L = C(3, 4, drop_rate=p) if p != 0.5 or rng.random() < 0.5 else C(3, 4)
    X = ft(rng, gm.n, 3)
    with torch.no_grad():
        base = L.eval()(X, g)
        L.train()
        hit = tot = 0
        on = base > 1e-4
        for _ in range(30):
            o = L(X, g)
            z = o == 0
            ctx.ok(bool((z | ((o - base / (1 - p)).abs() < 1e-4 * (1 + base.abs() / (1 - p)))).all()), C.__name__ + ": an output is dropped or rescaled", p=p)
            tot += int(on.sum())
            hit += int((z & on).sum())
        ctx.ok(tot == 0 or tot * kl(hit / tot, p) < 32, C.__name__ + ": outputs are dropped at the given rate", p=p, dropped=hit, of=tot)
        L = C(3, 4, drop_rate=p, is_last=True)
        a = L.eval()(X, g)
        ctx.ok(torch.equal(a, L.train()(X, g)), C.__name__ + ": the last layer drops nothing")
        # attention dropout: each connection's score is dropped or rescaled, then clamped
        A = GATConv(3, 2, drop_rate=p, is_last=True)
        full = A.eval()(X, g)
        ctx.ok(close(full, N.gat(N.twin(A), X.double(), S, True, False)), "GATConv: evaluation drops nothing")
        A.train()
        W = N.twin(A)
        H = W.theta(X.double())
        sc = torch.nn.functional.leaky_relu(W.atten_src(H).T + W.atten_dst(H), 0.2)
        o = A(X, g)
        for v in range(gm.n):
            nb = [u for u in range(gm.n) if S["P"][v, u]]
            if not nb:
                ctx.ok(float(o[v].abs().max()) == 0, "GATConv: no neighbour, no message")
            elif len(nb) <= 6:
                cand = []
                for keep in itertools.product([0, 1], repeat=len(nb)):
                    s = torch.clamp(torch.stack([sc[v, u] * k / (1 - p) for u, k in zip(nb, keep)]), 0.001, 5)
                    cand.append((torch.softmax(s, 0)[:, None] * H[nb]).sum(0))
                ctx.ok(any(close(o[v], c, 1e-3) for c in cand), "GATConv: attention scores are dropped or rescaled in training", vertex=v, p=p)
    ctx.event("dropping")
    ctx.state("drop", C.__name__, p, gm.fp())


def model_dropping(ctx):
    """What is dropped inside models in training: every possible outcome is known, and the frequencies follow the rate."""
    from dhg import models, nn
    import dhg

    rng = ctx.rng
    names = ["GCN", "GraphSAGE", "GAT", "GIN", "NGCF", "LightGCN", "BGNN_MLP", "MLP", "MLP last", "Discriminator", "heads"]
    name = names[ctx.idx % len(names)]
    p = rng.choice([0.2, 0.5, 0.7])
    kw = {"drop_rate": p} if p != 0.5 or name == "LightGCN" or rng.random() < 0.5 else {}
    r = 1 / (1 - p)
    one = torch.ones(1)
    gm = G.GM("g", 3)
    gm.w = {e: float(rng.choice([1.0, 0.5, 2.0])) for e in rng.sample([(0, 1), (0, 2), (1, 2)], rng.randint(2, 3))}
    if name in ("GAT", "GIN"):
        gm = G.GM("g", 2)
        gm.w = {(0, 1): 0.7}
    if name in ("NGCF", "LightGCN", "BGNN_MLP"):
        gm = G.GM("b", 2, 2)
        gm.w = {e: float(rng.choice([1.0, 0.5])) for e in rng.sample([(0, 0), (0, 1), (1, 0), (1, 1)], rng.randint(2, 3))}
    g = G.build(dhg, gm)
    S = {"A": gm.A(), "extra": False}
    X = ft(rng, 3, 2) if name in ("GCN", "GraphSAGE", "heads") else ft(rng, 2, 2)
    x = X.double()

    def fresh(make):
        """Parameters away from dead activations: something is worth dropping."""
        for _ in range(20):
            m = make()
            with torch.no_grad():
                for q in m.parameters():
                    q.add_(0.3 * torch.randn_like(q))
            yield m

    if name in ("GCN", "GraphSAGE"):
        C, ref = (nn.GCNConv, N.gcn) if name == "GCN" else (nn.GraphSAGEConv, N.sage)
        M = next(fresh(lambda: getattr(models, name)(2, 2, 3, **kw)))
        a, b = convs(N.twin(M), C)
        H = ref(a, x, S, False, False)
        drops.judge(ctx, name, lambda: [M(X, g)], [(3, 2)], lambda m: [ref(b, m * r * H, S, True, False)], p)
    elif name == "heads":
        M = next(fresh(lambda: nn.MultiHeadWrapper(2, "concat", nn.GCNConv, in_channels=2, out_channels=1, **kw)))
        H = torch.cat([N.gcn(h, x, S, False, False) for h in convs(N.twin(M), nn.GCNConv)], 1)
        drops.judge(ctx, name, lambda: [M(X=X, g=g)], [(3, 2)], lambda m: [m * r * H], p)
    elif name == "GAT":      # one neighbour each: attention is 1 whatever is dropped of its scores
        M = next(fresh(lambda: models.GAT(2, 1, 2, 2, **kw)))
        *heads, out = convs(N.twin(M), nn.GATConv)
        drops.judge(ctx, name, lambda: [M(X, g)], [(2, 2), (2, 2)],
                    lambda m, n: [N.gat(out, n * r * torch.cat([N.gat(h, m * r * x, S, False, False) for h in heads], 1), S, False, False)], p)
    elif name == "GIN":
        M = next(fresh(lambda: models.GIN(2, 2, 3, 2, num_mlp_layers=1, **kw)))
        T = N.twin(M)
        a, b = [[l for l in c.modules() if isinstance(l, torch.nn.Linear)][0] for c in convs(T, nn.GINConv)]
        A = N.t64(S["A"])

        def f(m, n):
            h = m * r * torch.relu(a(x + A @ x))
            k = n * r * torch.relu(b(h + A @ h))
            return [T.pred_layers[0](x) + T.pred_layers[1](h) + T.pred_layers[2](k)]
        drops.judge(ctx, name, lambda: [M(X, g)], [(2, 2), (2, 2)], f, p)
    elif name == "NGCF":
        M = next(fresh(lambda: models.NGCF(2, 2, 2, num_layers=1, **kw)))
        T = N.twin(M)
        E = torch.cat([T.u_embedding.weight, T.i_embedding.weight])
        Gb = N.bi_op(gm.A()) @ E
        Z = N.leaky(T.W_gc[0](Gb), 0.2) + N.leaky(T.W_bi[0](E * Gb), 0.2)
        drops.judge(ctx, name, lambda: list(M(g)), [(4, 2)], lambda m: [(E + torch.nn.functional.normalize(m * r * Z, p=2, dim=1)) / 2], p)
    elif name == "LightGCN":
        nl = rng.choice([1, 1, 2]) if len(gm.w) == 2 else 1
        M = next(fresh(lambda: models.LightGCN(2, 2, 2, num_layers=nl, **kw)))
        T = N.twin(M)
        E = torch.cat([T.u_embedding.weight, T.i_embedding.weight])
        op = N.bi_op(gm.A())
        at = op.nonzero()
        if nl == 2:      # keep the number of possible outcomes small
            g = dhg.BiGraph(2, 2)
            op = N.bi_op(np.zeros((2, 2)))
            at = op.nonzero()

        def f(*ms):
            outs = [E]
            for m in ms:
                L = torch.zeros_like(op)
                L[at[:, 0], at[:, 1]] = op[at[:, 0], at[:, 1]] * m
                outs.append(L @ outs[-1])
            return [torch.stack(outs).mean(0)]
        drops.judge(ctx, name, lambda: list(M(g)), [(len(at),)] * nl, f, p)
    elif name == "BGNN_MLP":
        U, V = ft(rng, 2, 2), ft(rng, 2, 3)
        M = next(fresh(lambda: models.BGNN_MLP(2, 3, 2, 3, layer_depth=1, **kw)))
        T = N.twin(M)
        l = [q for q in T.decoders[0].modules() if isinstance(q, torch.nn.Linear)]
        H = torch.relu(l[0](torch.tanh(N.t64(gm.A()) @ T.layers[0](V.double()))))
        drops.judge(ctx, name, lambda: [M(U, V, g)], [(2, 3)], lambda m: [torch.tanh(l[1](m * r * H))], p)
    elif name == "Discriminator":
        M = next(fresh(lambda: nn.Discriminator(2, 3, 1, **kw)))
        l = [q for q in N.twin(M).modules() if isinstance(q, torch.nn.Linear)]
        H = N.leaky(l[0](x), 0.01)
        drops.judge(ctx, name, lambda: [M(X)], [(2, 3)], lambda m: [torch.sigmoid(l[1](m * r * H))], p)
    else:
        last = name == "MLP last"
        M = next(fresh(lambda: nn.MLP([2, 3, 2], use_bn=False, **kw, **({"is_last": True} if last else {}))))
        l = [q for q in N.twin(M).modules() if isinstance(q, torch.nn.Linear)]
        H = torch.relu(l[0](x[:1]))
        f = (lambda m: [l[1](m * r * H)]) if last else (lambda m, n: [n * r * torch.relu(l[1](m * r * H))])
        drops.judge(ctx, name, lambda: [M(X[:1])], [(1, 3)] if last else [(1, 3), (1, 2)], f, p)
    ctx.event("dropping in " + name)
    ctx.state("model drop", name, p, X.tolist())


def defaulted(ctx):
    """What is not asked for has its documented default."""
    from dhg import models as m
    from dhg import nn
    import dhg

    rng = ctx.rng
    gm, _ = world(rng, n=rng.randint(4, 9))
    g = G.build(dhg, gm)
    bm = G.rand_model(rng, "b", n=4, m=5)
    b = G.build(dhg, bm)
    X, U, V = ft(rng, gm.n, 3), ft(rng, 4, 3), ft(rng, 5, 2)
    on = lambda l: [l(X, g)]
    conv = dict(bias=True, use_bn=False, drop_rate=0.5, is_last=False)
    mod = dict(use_bn=False, drop_rate=0.5)
    T = [("GCNConv", nn.GCNConv, (3, 4), conv, on), ("GATConv", nn.GATConv, (3, 4), dict(conv, atten_neg_slope=0.2), on),
         ("GraphSAGEConv", nn.GraphSAGEConv, (3, 4), dict(conv, aggr="mean"), on),
         ("GINConv", nn.GINConv, (torch.nn.Linear(3, 4),), dict(eps=0.0, train_eps=False), on),
         ("MLP", nn.MLP, ([3, 4, 2],), dict(act_name="ReLU", act_kwargs=None, use_bn=True, drop_rate=0.5, is_last=False), lambda l: [l(X)]),
         ("Discriminator", nn.Discriminator, (3, 4, 1), dict(drop_rate=0.5), lambda l: [l(X)]),
         ("GCN", m.GCN, (3, 4, 2), mod, on), ("GAT", m.GAT, (3, 4, 2, 2), dict(mod, atten_neg_slope=0.2), on),
         ("GraphSAGE", m.GraphSAGE, (3, 4, 2), dict(mod, aggr="mean"), on),
         ("GIN", m.GIN, (3, 4, 2, 3), dict(mod, num_mlp_layers=2, eps=0.0, train_eps=False), on),
         ("LightGCN", m.LightGCN, (4, 5, 3), dict(num_layers=3, drop_rate=0.0), lambda l: list(l(b))),
         ("NGCF", m.NGCF, (4, 5, 3), dict(num_layers=3, drop_rate=0.5), lambda l: list(l(b))),
         ("BGNN_Adv", m.BGNN_Adv, (3, 2), dict(layer_depth=3), lambda l: [l(U, V, b)]),
         ("BGNN_MLP", m.BGNN_MLP, (3, 2, 4, 5), dict(drop_rate=0.5, layer_depth=3), lambda l: [l(U, V, b)])]
    defaults.check(ctx, *T[ctx.idx % len(T)])


def edgecases(ctx):
    """Graphs with no or a single connection."""
    import dhg
    from dhg.models import GAT, GCN, GraphSAGE

    rng = ctx.rng
    for e, A in ((None, np.zeros((2, 2))), ([(0, 0)], np.diag([1.0, 0])), ([(1, 1)], np.diag([0, 1.0])), ([(0, 1)], np.array([[0, 1.0], [1, 0]]))):
        g = dhg.Graph(2, e)
        S = {"A": A}
        X = ft(rng, 2, 3)
        from dhg.nn import GATConv, GCNConv, GraphSAGEConv
        for C, ref in ((GATConv, N.gat), (GCNConv, N.gcn), (GraphSAGEConv, N.sage)):
            L = C(3, 2).eval()
            N.compare(ctx, C.__name__, L, [X], lambda l, x: l(x, g), lambda l, x: ref(l, x, S, False, False), info=dict(edges=e))
        for M in (GCN(3, 2, 2), GraphSAGE(3, 2, 2), GAT(3, 2, 2, 2)):
            o = M(X, g)
            ctx.ok(bool(torch.isfinite(o).all()) and tuple(o.shape) == (2, 2), "finite scores on nearly empty graphs", model=type(M).__name__)
    ctx.event("edge cases")
    ctx.state("edge", X.tolist())


def huge(ctx):
    """More than a thousand vertices."""
    [layer, gin_layer, layer, model, recommend, layer, model, recommend, model, model, layer][ctx.idx % 11](ctx, True)
    ctx.event("huge")


def again(ctx):
    """Structures edited or replaced, features overwritten between two calls of one module."""
    replace.replaced(ctx, ("g", "b"))


SCENARIOS = [("again", again, 66, 1320), ("huge", huge, 11, 88), ("layer", layer, 240, 5000), ("gin layer", gin_layer, 60, 1500), ("parts", parts, 50, 1000), ("model", model, 120, 2500),
             ("recommend", recommend, 60, 1500), ("bgnn", bgnn, 30, 500), ("cascade", cascade, 120, 900), ("dropping", dropping, 25, 400), ("model dropping", model_dropping, 44, 660), ("defaults", defaulted, 28, 280), ("edge cases", edgecases, 4, 30)]
REQUIRED_EVENTS = {"edited, sizes kept": 20, "GCNConv": 40, "GATConv": 40, "GraphSAGEConv": 40, "GINConv": 40, "GCN": 20, "GAT": 20, "GIN": 20, "GraphSAGE": 20, "LightGCN": 10,
                   "NGCF": 10, "BGNN_Adv": 5, "BGNN_MLP": 5, "cascade BGNN_Adv": 1, "cascade BGNN_MLP": 1, "dropout outcomes": 35, "dropout rate": 8, "dropping": 20, "gradient": 150, "parts": 30, "defaults": 20, "huge": 8, "tiny embeddings": 3}
ASSUMPTIONS = ["edge weights are positive", "gradients are compared only when no pre-activation is within 3e-5 of a kink", "float tolerance 2e-4 (layers) to 1e-3 (models)"]
