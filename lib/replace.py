"""Replacing things under a module's feet: whatever was computed for an earlier call must not leak into the next.

A module is called, then the structure object is edited (keeping its sizes), or dropped and another
one built in its place, or the features are overwritten in place; the next call is compared with a
copy of the module that never saw anything else, on a structure object built from scratch.
"""
import copy
import gc

import torch

from . import zoo as Z
from .ref import diff


def swap(rng, w):
    """Another world of the same sizes and the same numbers of edges: how, world."""
    how = rng.choice(["renamed", "weights", "one edge", "one edge", "last edge", "first edge"])
    v = dict(w)
    if how == "renamed":
        v = Z.permuted(rng, w)[0]
        v["x"] = w["x"]
        return how, v
    v["e"] = []
    for i, es in enumerate(w["e"]):
        es = list(es)
        if how == "weights":
            es = [(t, rng.choice([0.5, 1.0, 3.0, 10.0])) for t, _ in es]
        elif es:
            have = {tuple(t) if w["kind"] == "b" else frozenset(t) for t, _ in es}
            j = {"one edge": rng.randrange(len(es)), "last edge": len(es) - 1, "first edge": 0}[how]
            k = len(es[j][0])
            for _ in range(20):
                if w["kind"] == "b":
                    t = (rng.randrange(w["n"][0]), rng.randrange(w["n"][1]))
                else:
                    t = tuple(rng.sample(range(w["n"][i]), min(k, w["n"][i]))) if len(set(es[j][0])) == k else es[j][0]
                if (t if w["kind"] == "b" else frozenset(t)) not in have:
                    es[j] = (t, es[j][1])
                    break
        v["e"].append(es)
    return how, v


def edit(rng, s, kind, w, v):
    """Edit the structure objects from the edges of w to those of v, touching all of them or the changed ones only."""
    whole = rng.random() < 0.4
    for o, old, new in zip(s, w["e"], v["e"]):
        gone = [(t, x) for t, x in old if whole or (t, x) not in new]
        come = [(t, x) for t, x in new if whole or (t, x) not in old]
        rem, add = ("remove_edges", "add_edges") if kind in ("g", "b") else ("remove_hyperedges", "add_hyperedges")
        if gone:
            getattr(o, rem)([list(t) for t, _ in gone])
        if come:
            getattr(o, add)([list(t) for t, _ in come], [float(x) for _, x in come])


def replaced(ctx, kinds, big=False):
    import dhg

    rng = ctx.rng
    E = [e for e in Z.zoo() if e.kind in kinds and e.name != "HyperGCN"]      # its fast mode keeps the first graph, as documented
    e = E[ctx.idx % len(E)]
    a, b = rng.randint(1, 5), rng.randint(1, 4)
    w = Z.rand_world(rng, e.kind, rng.choice([6, 12, 12, 30]), a, b)
    S = Z.build(dhg, w)
    m = e.make(rng, a, b, w)
    Z.settle(m)
    norm = any(isinstance(x, torch.nn.BatchNorm1d) for x in m.modules())
    if not norm and rng.random() < 0.5:
        m.train()
    new = copy.deepcopy(m)      # before any call
    hist = []
    x = [t.clone() for t in w["x"]]
    for step in range(rng.randint(2, 4)):
        grad = rng.random() < 0.3
        torch.manual_seed(step)
        if grad:
            sum(o.pow(2).sum() for o in e.call(m, S, x)).backward()
            m.zero_grad()
        else:
            with torch.no_grad():
                e.call(m, S, x)
        what = rng.choice(["edit", "edit", "edit", "other object", "features in place", "other features", "parameters"])
        if what in ("edit", "other object"):
            how, v = swap(rng, w)
            if what == "edit":
                edit(rng, S, e.kind, w, v)
            else:
                S = None
                gc.collect()
                S = Z.build(dhg, v)
            w = v
        elif what == "features in place":
            how = ""
            for t in x:
                t.mul_(-1.5).add_(0.3)
        elif what == "other features":
            how = ""
            x = None
            x = [torch.randn_like(t) for t in w["x"]]
        else:
            how = ""
            with torch.no_grad():
                for p, q in zip(m.parameters(), new.parameters()):
                    d = torch.randn_like(p) * 0.3
                    p.add_(d)
                    q.add_(d)
        hist.append((what, how))
        y = [t.clone() for t in x]
        T = Z.build(dhg, w)
        c = copy.deepcopy(new)
        with torch.no_grad():
            torch.manual_seed(99 + step)
            got = e.call(m, S, x)
            torch.manual_seed(99 + step)
            want = e.call(c, T, y)
        ok = len(got) == len(want) and all(p.shape == q.shape and bool(((p - q).abs() <= 2e-4 * (1 + q.abs().max())).all()) for p, q in zip(got, want))
        ctx.ok(ok, e.name + ": nothing computed for an earlier call is used again", steps=hist, n=w["n"], edges=w["e"], diff=[diff(p, q) for p, q in zip(got, want)])
        if what == "edit":
            ctx.event("edited, sizes kept")
    ctx.event("replaced")
    ctx.state("replaced", e.name, hist, w["n"], w["e"])


