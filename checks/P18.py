"""User-item bipartite graph splits."""
import math
from fractions import Fraction
from itertools import combinations

from lib import gmodel as G
from lib.ref import kl

RULE = "one state per distinct (bipartite graph, size or ratio) whose split was checked"


def tables(ctx, lists):
    out = {}
    for line in lists:
        ctx.need(len(line) >= 1 and line[0] not in out, "one line per user", got=lists)
        ctx.ok(len(set(line[1:])) == len(line) - 1, "no item twice in a line", got=line)
        out[line[0]] = set(line[1:])
    return out


def make(ctx, huge=False):
    import dhg

    rng = ctx.rng
    gm = G.rand_model(rng, "b", n=rng.randint(1, 8), m=rng.randint(1, 12), dens=rng.choice([0.1, 0.4, 0.8, None]))
    if rng.random() < 0.04:
        gm = G.rand_model(rng, "b", n=rng.choice([3, 40]), m=rng.choice([70, 300]), dens=0.4)
    if huge:
        gm = G.huge_model(rng, "b")
        if ctx.idx % 2 == 0:      # users who like nearly everything
            gm = G.GM("b", 3, rng.choice([700, 1300]))
            for u, dens in enumerate([0.97, 0.8, 0.02]):
                gm.w.update({(u, v): 1.0 for v in range(gm.m) if rng.random() < dens})
            ctx.event("dense users")
    g = G.build(dhg, gm)
    G.observe(ctx, g, gm, 0.3)
    nb = {u: {v for (a, v) in gm.w if a == u} for u in range(gm.n)}
    return g, gm, nb


def partition(ctx, tr, te, nb):
    ctx.ok(set(tr) | set(te) <= {u for u in nb if nb[u]}, "users without items are left out", got=(sorted(tr), sorted(te)))
    for u, items in nb.items():
        a, b = tr.get(u, set()), te.get(u, set())
        ctx.ok(not (a & b), "no item of a user is in both parts", user=u, train=sorted(a), test=sorted(b))
        ctx.ok(a | b == items, "every item of a user is in one part", user=u, got=sorted(a | b), want=sorted(items))


def by_num(ctx, huge=False):
    from dhg.utils import adj_list_to_edge_list, split_by_num_for_UI_bigraph

    g, gm, nb = make(ctx, huge)
    k = ctx.rng.choice([0, 1, 2, 3, 20, 33, 70, 129, 300] + [len(x) for x in list(nb.values())[:40]] * 2)
    r = split_by_num_for_UI_bigraph(g, k)
    ctx.need(len(r) == 2, "train and test lists")
    tr, te = tables(ctx, r[0]), tables(ctx, r[1])
    partition(ctx, tr, te, nb)
    for u, items in nb.items():
        ctx.ok(len(tr.get(u, ())) == min(k, len(items)), "the asked number of train items per user", user=u, got=tr.get(u), want=min(k, len(items)))
        ctx.ok(len(items) > k or u not in te, "a user whose items all train is not tested", user=u, items=len(items), asked=k)
    edges = set(adj_list_to_edge_list(r[0])) | set(adj_list_to_edge_list(r[1]))
    ctx.ok(edges == set(gm.w), "both parts together are the graph's edges")
    G.observe(ctx, g, gm)
    ctx.event("num")
    ctx.state(gm.fp(), k)
    ctx.sample({"graph": gm.fp(), "train_num": k, "train": r[0], "test": r[1]})


def by_ratio(ctx, huge=False):
    from dhg.utils import adj_list_to_edge_list, split_by_ratio_for_UI_bigraph

    g, gm, nb = make(ctx, huge)
    q = ctx.rng.choice([0.0, 0.2, 0.5, 0.75, 0.8, 1.0, 0.29])
    r = split_by_ratio_for_UI_bigraph(g, q)
    ctx.need(len(r) == 2, "train and test lists")
    tr, te = tables(ctx, r[0]), tables(ctx, r[1])
    partition(ctx, tr, te, nb)
    for u, items in nb.items():
        x = float(Fraction(len(items)) * Fraction(str(q)))
        ctx.ok(len(tr.get(u, ())) in (math.floor(x - 1e-9), math.floor(x + 1e-9)), "the asked share of train items per user", user=u,
               got=tr.get(u), share=x)
    edges = set(adj_list_to_edge_list(r[0])) | set(adj_list_to_edge_list(r[1]))
    ctx.ok(edges == set(gm.w), "both parts together are the graph's edges")
    G.observe(ctx, g, gm)
    ctx.event("ratio")
    ctx.state(gm.fp(), q)


def fair(ctx):
    import dhg
    from dhg.utils import split_by_num_for_UI_bigraph, split_by_ratio_for_UI_bigraph

    rng = ctx.rng
    reps = 2500 if ctx.thorough else 800
    m = rng.choice([4, 6, 9]) if ctx.idx < 4 else rng.choice([70, 150, 700])
    g = dhg.BiGraph(2, m, [[0, v] for v in range(m)] + [[1, 0], [1, 2]])
    ratio = ctx.idx % 2 == 0
    hits, sets = [0] * m, {}
    for _ in range(reps):
        tr, _te = split_by_ratio_for_UI_bigraph(g, 0.5) if ratio else split_by_num_for_UI_bigraph(g, 2)
        mine = [x for x in tr if x[0] == 0][0][1:]
        for v in mine:
            hits[v] += 1
        sets[tuple(sorted(mine))] = sets.get(tuple(sorted(mine)), 0) + 1
    p = sum(hits) / m / reps
    for v in range(m):
        ctx.ok(reps * kl(hits[v] / reps, p) < 32, "every item is equally likely to be a train item", item=v, hits=hits)
    for c in combinations(range(m), m // 2 if ratio else 2) if m <= 6 else ():
        n = m * (m - 1) // 2 if not ratio or m == 4 else 20
        ctx.ok(reps * kl(sets.get(c, 0) / reps, 1 / n) < 32, "every selection of items is equally likely", selection=c, hits=sets.get(c, 0), expected=reps / n)
        ctx.event("selection")
    ctx.event("fair")
    ctx.state("fair", m, ratio)


SCENARIOS = [("by num", by_num, 150, 3000), ("by ratio", by_ratio, 150, 3000), ("fair", fair, 6, 30),
             ("huge by num", lambda c: by_num(c, True), 2, 20), ("huge by ratio", lambda c: by_ratio(c, True), 2, 20)]
REQUIRED_EVENTS = {"num": 80, "ratio": 80, "fair": 4}
