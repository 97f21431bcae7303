"""Models can be trained, saved, restored, copied and share structures without side effects."""
import collections
import copy
import io

import torch

from lib import zoo as Z
from lib.ref import close, diff

RULE = "one state per distinct (module, history, structure)"


def pick(ctx):
    E = Z.zoo()
    return E[ctx.idx % len(E)]


def meets(es):
    """Some vertices have several edges, so that shares (attention) are not all one."""
    deg = collections.Counter(v for t, _ in es for v in set(t) if len(set(t)) > 1)
    return sum(k > 1 for k in deg.values()) >= 2


def world(ctx, e, lo=False):
    rng = ctx.rng
    a, b = rng.randint(3, 5), rng.randint(2, 4)
    w = Z.rand_world(rng, e.kind, 12, a, b)
    while lo and not all(len(es) >= 3 and meets(es) for es in w["e"]):
        w = Z.rand_world(rng, e.kind, 12, a, b)
    if lo:      # training: moderate weights, so that a step size suits every model
        w["e"] = [[(t, min(float(x), 3.0)) for t, x in es] for es in w["e"]]
    return w, a, b


def out(e, m, s, w, seed=0):
    torch.manual_seed(seed)
    with torch.no_grad():
        return [t.clone() for t in e.call(m, s, w["x"])]


def eq(ctx, e, a, b, what, exact=True, **info):
    ok = all((torch.equal(x, y) if exact else close(x, y, 1e-4)) for x, y in zip(a, b)) and len(a) == len(b)
    return ctx.ok(ok, e.name + ": " + what, diff=[diff(x, y) for x, y in zip(a, b)], **info)


def loss_of(o, seed=0):
    g = torch.Generator().manual_seed(seed)
    return sum(((t - torch.randn(t.shape, generator=g)) ** 2).mean() for t in o)


def view(s, kind):
    r = []
    for x in s:
        if kind in ("g", "b"):
            r.append((x.num_v if kind == "g" else (x.num_u, x.num_v), x.e, x.A.to_dense().tolist()))
        else:
            r.append((x.num_v, x.e, x.group_names, x.H.to_dense().tolist(), x.W_e.to_dense().tolist(), x.D_v.to_dense().tolist()))
    return copy.deepcopy(r)


def restore(ctx):
    """state_dict / file / deepcopy / pickle of a trained module give the same function."""
    import dhg

    e = pick(ctx)
    rng = ctx.rng
    w, a, b = world(ctx, e)
    s = Z.build(dhg, w)
    st = rng.getstate()
    m = Z.settle(e.make(rng, a, b, w))
    k0 = rng.randint(0, 3)
    out(e, m, s, w)      # HyperGCN's fast mode draws its graph at the first call
    train(e, m, s, w, k0)
    m.eval()
    o = out(e, m, s, w)
    rng.setstate(st)
    m2 = e.make(rng, a, b, w)
    ctx.ok(set(m.state_dict()) == set(m2.state_dict()), e.name + ": the same options give the same parameters")
    ctx.ok({k for k, _ in m.named_parameters()} <= set(m.state_dict()), e.name + ": every parameter is saved")
    f = io.BytesIO()
    torch.save(m.state_dict(), f)
    f.seek(0)
    m2.load_state_dict(torch.load(f, weights_only=True))
    eq(ctx, e, out(e, m2.eval(), s, w), o, "a saved and restored model computes the same", trained=k0)
    m3 = copy.deepcopy(m)
    eq(ctx, e, out(e, m3, Z.build(dhg, w), w), o, "a copy computes the same, on an equal structure too", exact=e.kind == "g" or not e.tie)
    if k0 % 2:
        f = io.BytesIO()
        torch.save(m, f)
        f.seek(0)
        eq(ctx, e, out(e, torch.load(f, weights_only=False), s, w), o, "a pickled model computes the same")
        ctx.event("pickled")
    train(e, m3, s, w, 1)
    m.eval()
    eq(ctx, e, out(e, m, s, w), o, "training a copy leaves the original alone")
    ctx.event("restored")
    ctx.state("restore", e.name, k0, w["e"])


def train(e, m, s, w, steps, opt=None, lr=0.01):
    m.train()
    opt = opt or torch.optim.Adam(m.parameters(), lr=lr)
    ls = []
    for _ in range(steps):
        opt.zero_grad()
        l = loss_of(e.call(m, s, w["x"]))
        l.backward()
        opt.step()
        ls.append(float(l))
    return ls


def fits(ctx):
    """Training: finite, every parameter is reached, the loss goes down, structure and features are kept, seeded runs repeat."""
    import dhg

    e = pick(ctx)
    rng = ctx.rng
    w, a, b = world(ctx, e, lo=True)
    s = Z.build(dhg, w)
    x0 = [x.clone() for x in w["x"]]
    v0 = view(s, e.kind)
    st = rng.getstate()
    runs = []
    for rep in range(2):
        rng.setstate(st)
        dhg.random.set_seed(77)
        m = e.make(rng, a, b, w)
        with torch.autograd.detect_anomaly(check_nan=True):
            ls = train(e, m, s, w, 25, lr=0.02)
        runs.append((ls, [p.detach().clone() for p in m.parameters()]))
        if rep == 0:
            ctx.ok(all(l == l and abs(l) < float("inf") for l in ls), e.name + ": losses stay finite", losses=ls)
            down, tries = min(ls[5:]) < ls[0], [ls]
            for again in range(8):      # a start may be dead (all ReLUs off); not every start is
                if down:
                    break
                tries.append(train(e, e.make(rng, a, b, w), s, w, 25, lr=0.005))
                down = min(tries[-1][5:]) < tries[-1][0]
            ctx.ok(down, e.name + ": the loss goes down from some start", losses=tries)
            ctx.ok(all(bool(torch.isfinite(p).all()) for p in m.parameters()), e.name + ": parameters stay finite")
            s2 = Z.build(dhg, w)      # the same run on an equal structure
            s, s_old = s2, s
    ctx.ok(view(s_old, e.kind) == v0 and view(s2, e.kind) == v0, e.name + ": training keeps the structure")
    ctx.ok(all(torch.equal(x, y) for x, y in zip(w["x"], x0)), e.name + ": training keeps the features")
    ctx.ok(all(close(p, q, 5e-3) for p, q in zip(runs[0][1], runs[1][1])), e.name + ": a seeded run on an equal structure repeats",
           diff=[diff(p, q) for p, q in zip(runs[0][1], runs[1][1])][:4])
    ctx.event("trained")
    ctx.state("fits", e.name, w["e"])


def reached(ctx):
    """Every parameter (and every input) gets a gradient: none is detached or unused."""
    import dhg

    e = pick(ctx)
    rng = ctx.rng
    w, a, b = world(ctx, e, lo=True)
    s = Z.build(dhg, w)
    st = rng.getstate()
    seen, names, xin = set(), None, [False] * len(w["x"])
    for rep in range(6):
        rng.setstate(st)
        m = Z.settle(e.make(rng, a, b, w))
        names = [k for k, _ in m.named_parameters()]
        x = [t.detach().clone().requires_grad_(True) for t in w["x"]]
        o = e.call(m, s, x)
        ctx.ok(all(t.requires_grad for t in o), e.name + ": the output is differentiable")
        loss_of(o, rep).backward()
        seen |= {k for k, p in m.named_parameters() if p.grad is not None and float(p.grad.abs().max()) > 0}
        for i, t in enumerate(x):
            xin[i] = xin[i] or (t.grad is not None and float(t.grad.abs().max()) > 0)
        ctx.ok(all(p.requires_grad for p in m.parameters()), e.name + ": parameters are trainable")
    known = unused(e, m)
    ctx.ok(set(names) - seen <= known, e.name + ": every parameter is reached by gradients", missing=sorted(set(names) - seen - known), edges=w["e"])
    if not e.emb:
        ctx.ok(any(xin) if e.name.startswith("BGNN") else all(xin), e.name + ": the features are reached by gradients")
    ctx.event("reached")
    ctx.state("reached", e.name, w["e"])


def unused(e, m):
    """Parameters the published formula itself does not use for the result."""
    names = set()
    if e.hops > 1:      # the last layer of a model is not normalised
        bns = [n for n, x in m.named_modules() if isinstance(x, torch.nn.BatchNorm1d)]
        if bns:
            names |= {k for k, _ in m.named_parameters() if k.startswith(bns[-1] + ".")}
    if e.name.startswith("UniGAT"):      # scores the hyperedges only; see DESIGN.md
        names |= {k for k, _ in m.named_parameters() if "atten_dst" in k}
    return names


def rewire(ctx, w):
    """The same sizes and numbers of edges, connected otherwise."""
    v, _ = Z.permuted(ctx.rng, w)
    v["x"] = w["x"]
    return v


def reconnect(s, kind, w, v):
    """Edit the structure objects from the edges of w to those of v."""
    for o, old, new in zip(s, w["e"], v["e"]):
        if not old:
            continue
        if kind in ("g", "b"):
            o.remove_edges([list(t) for t, _ in old])
            o.add_edges([list(t) for t, _ in new], [float(x) for _, x in new])
        else:
            o.remove_hyperedges([list(t) for t, _ in old])
            o.add_hyperedges([list(t) for t, _ in new], [float(x) for _, x in new])


def sharing(ctx):
    """One module on several structures and features, edits and training calls in between: no call leaves a trace."""
    import dhg

    e = pick(ctx)
    rng = ctx.rng
    w1, a, b = world(ctx, e)
    if rng.random() < 0.5:
        w2 = rewire(ctx, w1)
    else:
        w2 = Z.rand_world(rng, e.kind, 12, w1["x"][0].shape[1], w1["x"][1].shape[1] if len(w1["x"]) > 1 else b)
        if e.emb:
            while w2["n"] != w1["n"]:
                w2 = Z.rand_world(rng, e.kind, 12, a, b)
    fixed = e.name == "HyperGCN"      # the fast mode keeps the structure of its first call, as documented
    if fixed:
        w2 = w1
    W = [w1, w2]
    S = [Z.build(dhg, w) for w in W]
    st = rng.getstate()
    m = Z.settle(e.make(rng, a, b, w1))
    sd = {k: v.clone() for k, v in m.state_dict().items()}
    if fixed:
        out(e, m, S[0], w1)
        S[1] = S[0]
    first = copy.deepcopy(m)

    def fresh():
        if fixed:
            return copy.deepcopy(first)
        now = rng.getstate()
        rng.setstate(st)
        x = e.make(rng, a, b, w1)
        rng.setstate(now)
        x.load_state_dict(sd)
        return x.eval()

    def judge(k, scale=1.0):
        w = dict(W[k], x=[x * scale for x in W[k]["x"]])
        got, want = out(e, m, S[k], w), out(e, fresh(), S[0] if fixed else Z.build(dhg, W[k]), w)
        ok = len(got) == len(want) and all(x.shape == y.shape and bool(((x - y).abs() <= 1e-4 * (1 + y.abs().max())).all()) for x, y in zip(got, want))
        ctx.ok(ok, e.name + ": the result depends on parameters, structure and features only", history=hist, structure=k, edges=W[k]["e"], diff=[diff(x, y) for x, y in zip(got, want)])

    other = Z.settle(e.make(rng, a, b, w1))
    hist = []
    for _ in range(rng.randint(3, 8)):
        k = rng.choice([0, 1])
        what = rng.choice(["eval", "eval", "scaled", "other", "train copy", "train call", "edit", "with gradients"])
        hist.append((what, k))
        if what == "eval":
            judge(k)
        elif what == "scaled":
            judge(k, rng.choice([1e-3, 1e3]))
        elif what == "other":
            train(e, other, S[0], W[0], 1)
        elif what == "train copy":
            c = copy.deepcopy(m)
            train(e, c, S[k], W[k], 1)
        elif what == "train call":      # statistics and parameters are put back afterwards
            w = dict(W[k], x=[x * rng.choice([0.01, 1.0, 50.0]) for x in W[k]["x"]])
            train(e, m, S[k], w, rng.choice([1, 2]))
            m.load_state_dict(sd)
            m.eval()
            ctx.event("trained in between")
            judge(k, rng.choice([1.0, 1e-3, 1e3, 1e3]))
        elif what == "with gradients":
            loss_of(e.call(m, S[k], [x.clone().requires_grad_(True) for x in W[k]["x"]])).backward()
            m.zero_grad(set_to_none=rng.random() < 0.5)
        elif not fixed:
            v = rewire(ctx, W[k])
            reconnect(S[k], e.kind, W[k], v)
            W[k] = v
            ctx.event("edited in between")
            judge(k)
    judge(0)
    judge(1)
    ctx.event("shared")
    ctx.state("shared", e.name, hist, w1["e"], w2["e"])


def initial(ctx):
    """Building and resetting draw all parameters afresh, of every layer by the same law, in place."""
    from dhg.models import DHCF, LightGCN, NGCF

    rng = ctx.rng
    C = [LightGCN, NGCF, DHCF][ctx.idx % 3]
    nl, dim, nu, ni = rng.randint(1, 7), rng.choice([24, 40]), rng.randint(20, 60), rng.randint(20, 60)
    torch.manual_seed(rng.randrange(10 ** 6))
    M, F = C(nu, ni, dim, num_layers=nl), C(nu, ni, dim, num_layers=nl)
    P0 = dict(M.named_parameters())
    ctx.ok(len(P0) == 2 + (0 if C is LightGCN else 4 * nl) and all(p.requires_grad and bool(p.isfinite().all()) for p in P0.values()),
           "every layer's parameters are registered, finite and trainable", model=C.__name__, layers=nl, got=sorted(P0))
    old = {k: p.detach().clone() for k, p in P0.items()}
    with torch.no_grad():
        for p in P0.values():
            p.uniform_(-5, 5) if rng.random() < 0.7 else None
    used = {k: p.detach().clone() for k, p in P0.items()}
    M.reset_parameters()
    P1 = dict(M.named_parameters())
    ctx.ok(all(P1[k] is P0[k] for k in P0) and P1.keys() == P0.keys(), "resetting keeps the parameter objects (an optimizer goes on working)", model=C.__name__)
    role = lambda k: ".".join(x for x in k.split(".") if not x.isdigit())
    for k, p in P1.items():
        ref = [q.detach() for j, q in F.named_parameters() if role(j) == role(k)] + [q.detach() for j, q in P1.items() if role(j) == role(k)] + [old[k]]
        for q in ref:      # the same law: all constant or spread alike (uniform or normal: 7 standard deviations of the variance ratio)
            a, b = p.detach(), q
            if float(b.std()) == 0:
                ctx.ok(torch.equal(a, b), "resetting restores constant parameters, of every layer", model=C.__name__, parameter=k, layers=nl)
            else:
                n = a.numel()
                ratio = float(a.var() / b.var())
                ctx.ok(float(a.std()) > 0 and abs(ratio - 1) < 7 * (4 / n) ** 0.5 + 0.02, "random parameters of every layer follow the same law, built or reset", model=C.__name__, parameter=k, layers=nl, ratio=ratio)
        if float(p.detach().std()) > 0:
            ctx.ok(not torch.equal(p, used[k]) and not torch.equal(p, old[k]) and not torch.equal(p, dict(F.named_parameters())[k]), "random parameters are drawn afresh", model=C.__name__, parameter=k)
    ctx.event("initial parameters", len(P1))
    ctx.state("initial", C.__name__, nl, dim, nu, ni)


SCENARIOS = [("initial", initial, 30, 600), ("restore", restore, 120, 2400), ("fits", fits, 60, 900), ("reached", reached, 90, 1500), ("sharing", sharing, 240, 5000)]
REQUIRED_EVENTS = {"initial parameters": 100, "restored": 80, "trained": 40, "reached": 60, "shared": 100, "edited in between": 20, "trained in between": 20, "pickled": 20}
ASSUMPTIONS = ["CPU only", "equal structures may sum floats in another order: tolerance 1e-4 (outputs), 5e-3 (after 25 steps)"]
