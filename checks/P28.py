"""User-item sampling dataset for recommendation."""
import copy
import math

from lib.ref import kl

RULE = "one state per distinct (interactions, phase, mode, drawn samples)"


def world(rng, rep=0.35, size=None):
    nu, ni = rng.randint(1, 7), rng.randint(2, 12)
    if size is None and rng.random() < 0.05:
        nu, ni = rng.choice([(3, 300), (40, 70), (1030, 20), (150, 1100)])
    elif size:
        nu, ni = size
    adj = {}
    for u in range(nu):
        k = rng.randint(1, ni - 1) if ni < 100 or u % 8 == 0 else rng.randint(1, 20)
        adj[u] = rng.sample(range(ni), k)
    es = [(u, v) for u in adj for v in adj[u]]
    if rng.random() < rep:
        es += rng.choices(es, k=rng.randint(1, 4))                 # interactions that happened more than once
    rng.shuffle(es)
    return nu, ni, es, {u: set(v) for u, v in adj.items()}


def train(ctx):
    from dhg.utils import UserItemDataset

    rng = ctx.rng
    nu, ni, es, adj = world(rng)
    arg = [list(e) for e in es] if rng.random() < 0.4 else list(es)
    keep = copy.deepcopy(arg)
    strict = rng.random() < 0.5
    kw = {} if strict and rng.random() < 0.5 else {"strict_link": strict}
    if rng.random() < 0.5:
        kw["phase"] = "train"
    ds = UserItemDataset(nu, ni, arg, **kw)
    ctx.ok(len(ds) == len(es), "one training sample per interaction", got=len(ds), want=len(es))
    got = []
    for i in [rng.randrange(len(es)) for _ in range(12)]:
        s = ds[i]
        ctx.need(len(s) == 3, "a (user, positive, negative) sample", got=s)
        u, p, n = map(int, s)
        got.append((u, p, n))
        if strict:
            ctx.ok((u, p) == tuple(es[i]), "sample i is interaction i", index=i, got=(u, p), want=es[i])
        ctx.ok(0 <= u < nu and p in adj[u], "the positive item was interacted with", got=(u, p))
        ctx.ok(0 <= n < ni and n not in adj[u], "the negative item was not interacted with", user=u, negative=n, items=sorted(adj[u]))
    for _ in range(4):
        u, p, n = ds.sample_triplet()
        ctx.ok(0 <= u < nu and p in adj[u] and 0 <= n < ni and n not in adj[u], "a sampled triplet is a user, an own and a foreign item", got=(u, p, n))
        u = rng.randrange(nu)
        n = ds.sample_neg_item(u)
        ctx.ok(0 <= n < ni and n not in adj[u], "the negative item was not interacted with", user=u, negative=n)
    ctx.ok(arg == keep, "the interactions are not modified")
    ctx.raises(lambda: UserItemDataset(nu, ni, arg, phase="sideways"), "an unknown phase is refused")
    ctx.event("train strict" if strict else "train loose")
    ctx.state("train", es, strict, got)
    ctx.sample({"users": nu, "items": ni, "strict": strict, "samples": got[:5]})


def test(ctx):
    import torch
    from dhg.utils import UserItemDataset

    rng = ctx.rng
    nu, ni, es, _ = world(rng)
    tr = [e for e in es if rng.random() < 0.6]
    known = set(tr)
    te = [e for e in es if e not in known]
    keep = (list(tr), list(te))
    ds = UserItemDataset(nu, ni, te, tr, phase="test") if rng.random() < 0.5 else UserItemDataset(nu, ni, te, train_user_item_list=tr, strict_link=False, phase="test")
    ctx.ok(len(ds) == nu, "one test sample per user", got=len(ds), want=nu)
    order = list(range(nu)) + [rng.randrange(nu) for _ in range(3)]
    tr_, te_ = set(tr), set(te)
    if nu > 30:
        order = rng.sample(range(nu), 30)
    for u in order:
        s = ds[u]
        ctx.need(len(s) == 3 and s[0] == u, "a (user, mask, rating) sample", got=s)
        m, r = s[1], s[2]
        ctx.need(tuple(m.shape) == (ni,) and tuple(r.shape) == (ni,), "one entry per item")
        wm = [-math.inf if (u, v) in tr_ else 0.0 for v in range(ni)]
        wr = [1.0 if (u, v) in te_ else 0.0 for v in range(ni)]
        ctx.ok(m.tolist() == wm, "exactly the training items are masked with -inf", user=u, got=m.tolist(), want=wm)
        ctx.ok(r.tolist() == wr, "exactly the test items are rated 1", user=u, got=r.tolist(), want=wr)
        m += 5
        r += 5
    bs = rng.choice([1, 2, 5])
    seen = []
    for us, ms, rs in torch.utils.data.DataLoader(ds, batch_size=bs):
        for u, m, r in zip(us.tolist(), ms, rs):
            seen.append(u)
            ctx.ok(m.tolist() == [-math.inf if (u, v) in tr_ else 0.0 for v in range(ni)] and r.tolist() == [1.0 if (u, v) in te_ else 0.0 for v in range(ni)],
                   "batches hold the same samples", user=u)
    ctx.ok(seen == list(range(nu)), "a loader visits every user once", got=seen)
    ctx.ok((tr, te) == keep, "the interactions are not modified")
    ctx.raises(lambda: UserItemDataset(nu, ni, te, phase="test"), "testing needs the training interactions")
    ctx.event("test")
    ctx.state("test", tr, te, nu, ni)


def loader(ctx):
    """An epoch of a shuffled loader visits every interaction exactly once."""
    import torch
    from dhg.utils import UserItemDataset

    rng = ctx.rng
    nu, ni, es, adj = world(rng)
    ds = UserItemDataset(nu, ni, es)
    for _ in range(2):
        seen = []
        for u, p, n in torch.utils.data.DataLoader(ds, batch_size=rng.choice([1, 3, 8]), shuffle=True):
            seen += list(zip(u.tolist(), p.tolist()))
            ctx.ok(all(b not in adj[a] for a, b in zip(u.tolist(), n.tolist())), "the negative item was not interacted with")
        ctx.ok(sorted(seen) == sorted(es), "an epoch visits every interaction once", got=len(seen), want=len(es))
    ctx.event("loader")
    ctx.state("loader", es)


def fair(ctx):
    from dhg.utils import UserItemDataset

    rng = ctx.rng
    reps = 4000 if ctx.thorough else 1500
    nu, ni, es, adj = world(rng, 0.5, None if ctx.idx % 4 else rng.choice([(2, 70), (3, 130)]))
    if nu * ni > 1000:
        nu, ni, es, adj = world(rng, 0.5, (3, 30))
    ds = UserItemDataset(nu, ni, es, strict_link=False)
    cu, cp, cn = [0] * nu, {e: 0 for e in es}, {}
    for _ in range(reps):
        u, p, n = ds.sample_triplet()
        cu[u] += 1
        cp[(u, p)] += 1
        cn[(u, n)] = cn.get((u, n), 0) + 1
    for u in range(nu):
        ctx.ok(reps * kl(cu[u] / reps, 1 / nu) < 32, "users are sampled uniformly", user=u, hits=cu[u], of=reps)
        for v in range(ni):
            h, q = (cp[(u, v)], 1 / nu / len(adj[u])) if v in adj[u] else (cn.get((u, v), 0), 1 / nu / (ni - len(adj[u])))
            qs = [q]                       # a positive repeated in the list may weigh as often as it is listed
            if v in adj[u]:
                qs.append(es.count((u, v)) / nu / sum(1 for e in es if e[0] == u))
            ctx.ok(min(reps * kl(h / reps, x) for x in qs) < 32, "own and foreign items are sampled uniformly", user=u, item=v, hits=h, mean=q * reps)
    ctx.event("fair")
    ctx.state("fair", es)


def far(ctx):
    """Many items: negatives (and own items) come from the whole range, evenly, also for users of almost everything."""
    from dhg.utils import UserItemDataset

    rng = ctx.rng
    reps = 6000 if ctx.thorough else 2500
    ni = rng.choice([130, 600, 1400, 5000])
    share = rng.choice([0.02, 0.5, 0.85])
    adj = {u: rng.sample(range(ni), max(1, int(ni * (share if u == 0 else 0.1)))) for u in range(2)}
    ds = UserItemDataset(2, ni, [(u, v) for u in adj for v in adj[u]], strict_link=False)
    how = ctx.idx % 2
    for u in (0,) if how else (0, 1):
        own, free = sorted(adj[u]), sorted(set(range(ni)) - set(adj[u]))
        draws = [("negative", free, [int(ds.sample_neg_item(u)) for _ in range(reps)])] if not how else []
        if how:
            tr = [tuple(map(int, ds.sample_triplet())) for _ in range(2 * reps)]
            draws = [("negative", free, [n for a, _, n in tr if a == u]), ("positive", own, [p for a, p, _ in tr if a == u])]
        for what, items, got in draws:
            bins = min(12, len(items))
            pos = {v: i * bins // len(items) for i, v in enumerate(items)}
            size = [0] * bins
            for b in pos.values():
                size[b] += 1
            ctx.ok(all(v in pos for v in got), "a %s item is one of those it may be" % what, user=u)
            hits = [0] * bins
            for v in got:
                if v in pos:
                    hits[pos[v]] += 1
            for b in range(bins):
                ctx.ok(len(got) * kl(hits[b] / len(got), size[b] / len(items)) < 32, "%s items come evenly from the whole range" % what, user=u, items=ni, part=b, hits=hits, share=share)
    ctx.event("far")
    ctx.state("far", ni, share, how, ctx.idx)


SCENARIOS = [("far", far, 10, 80), ("train", train, 200, 4000), ("test", test, 150, 3000), ("loader", loader, 40, 500), ("fair", fair, 8, 60)]
REQUIRED_EVENTS = {"train strict": 50, "train loose": 50, "test": 80, "loader": 20, "fair": 5, "far": 6}
ASSUMPTIONS = ["every user has a positive item and at least one item it did not interact with"]
