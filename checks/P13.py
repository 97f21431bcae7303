"""Random dropping of (hyper)edges and induced sub-hypergraphs."""
from lib import gmodel as G
from lib import hmodel as H
from lib.ref import close, lagged, same_weighted

RULE = "one state per distinct (structure, rate or vertex subset) whose reduced structure was checked"


def drop_graph(ctx, kind, huge=False):
    import dhg

    rng = ctx.rng
    gm = G.huge_model(rng, kind) if huge else G.rand_model(rng, kind)
    g = G.build(dhg, gm)
    G.observe(ctx, g, gm, 0.3)
    p = rng.choice([0.0, 1.0, 0.3, 0.6, 0.9])
    h = g.drop_edges(p) if rng.random() < 0.7 else g.drop_edges(p, ord="uniform")
    ctx.ok(type(h) is type(g) and h is not g, "a new structure of the same class")
    full = dict(gm.w)
    full.update({(v, v): w for v, w in gm.loops.items()}) if kind != "b" else None
    canon = (lambda x: tuple(sorted(x))) if kind == "g" else tuple
    es = list(zip([canon(x) for x in h.e[0]], h.e[1]))
    hm = G.GM(kind, gm.n, gm.m, gm.extra)
    if gm.extra:      # the extra self-loops are kept: take them out once
        for v in range(gm.n):
            hit = [i for i, (e, w) in enumerate(es) if e == (v, v) and abs(w - 1.0) < 1e-6]
            ctx.need(bool(hit), "extra self-loops survive dropping", vertex=v, got=es)
            es.pop(hit[-1])
    ctx.ok(len(set(e for e, _ in es)) == len(es) and all(e in full and abs(full[e] - w) < 1e-5 for e, w in es),
           "survivors are edges of the original with their weights", got=es, want=list(full.items()))
    for e, w in es:
        if kind != "b" and e[0] == e[1]:
            hm.loops[e[0]] = w
        else:
            hm.w[e] = w
    if p == 0.0:
        ctx.ok(len(es) == len(full), "rate 0 keeps everything", got=len(es), want=len(full))
    if p == 1.0:
        ctx.ok(len(es) == 0, "rate 1 drops everything", got=es)
    G.observe(ctx, h, hm)
    G.observe(ctx, g, gm)
    ctx.raises(lambda: g.drop_edges(0.5, ord="sideways"), "unknown drop order is refused")
    ctx.event("drop " + kind)
    ctx.state(gm.fp(), p)


def drop_hg(ctx, huge=False):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, vw=True)
    if huge:
        hm = H.huge_model(rng)
        hm.vw = H.rand_vw(rng, hm.n)
    hg = H.build(dhg, hm)
    H.observe(ctx, hg, hm, 0.3)
    p = rng.choice([0.0, 1.0, 0.3, 0.6, 0.9])
    grp = rng.choice([None] + list(hm.g))
    h = hg.drop_hyperedges(p) if grp is None else hg.drop_hyperedges_of_group(grp, p)
    ctx.ok(type(h) is dhg.Hypergraph and h is not hg and h.num_v == hm.n, "a new hypergraph on the same vertices")
    m2 = hm.copy()
    ctx.need(set(h.group_names) == set(hm.g), "groups survive dropping", got=h.group_names, want=list(hm.g))
    for name in hm.g:
        e, w = h.e_of_group(name)
        got = {tuple(sorted(x)): y for x, y in zip(e, w)}
        ctx.ok(len(got) == len(e) and all(k in hm.g[name] and abs(hm.g[name][k] - y) < 1e-5 for k, y in got.items()),
               "survivors are hyperedges of the group with their weights", got=got, want=hm.g[name])
        hit = grp is None or name == grp
        if not hit or p == 0.0:
            ctx.ok(len(got) == len(hm.g[name]), "untouched group is complete", group=name, got=got, want=hm.g[name])
        elif p == 1.0:
            ctx.ok(not got, "rate 1 drops everything", got=got)
        m2.g[name] = got
    H.observe(ctx, h, m2)
    H.observe(ctx, hg, hm)
    ctx.raises(lambda: hg.drop_hyperedges(0.5, ord="sideways"), "unknown drop order is refused")
    ctx.raises(lambda: hg.drop_hyperedges_of_group("main", 0.5, ord="sideways"), "unknown drop order is refused")
    ctx.event("drop hypergraph" if grp is None else "drop group")
    ctx.state(hm.fp(), p, grp)


def rate(ctx):
    """The survivor count follows the binomial law of the rate (6.5 sigma)."""
    import dhg

    rng = ctx.rng
    N = 5900
    p = rng.choice([0.1, 0.25, 0.5, 0.8, round(rng.uniform(0.02, 0.98), 2), round(rng.uniform(0.02, 0.98), 3), rng.random()])
    kind = rng.choice("gdbh")
    n = 110
    if kind == "h":
        s = dhg.Hypergraph(n, [[i, j] for i in range(n) for j in range(i + 1, n)][:N])
        t = s.drop_hyperedges(p) if rng.random() < 0.5 else s.drop_hyperedges_of_group("main", p)
        left = t.num_e
    else:
        es = [[i, j] for i in range(n) for j in range(i + 1, n)][:N]
        s = {"g": lambda: dhg.Graph(n, es), "d": lambda: dhg.DiGraph(n, es), "b": lambda: dhg.BiGraph(n, n, es)}[kind]()
        left = s.drop_edges(p).num_e
    sd = (N * p * (1 - p)) ** 0.5
    ctx.ok(abs(left - N * (1 - p)) < 6.5 * sd + 1, "survivors follow the drop rate", kind=kind, p=p, left=left, mean=N * (1 - p), sd=sd)
    ctx.event("rate")
    ctx.state(kind, p, left)


def joint(ctx):
    """Every connection is dropped on its own: any two of them are kept together, dropped together and told apart."""
    import dhg

    rng = ctx.rng
    kind = "gdbhh"[ctx.idx % 5]
    n = 4
    if kind == "h":
        hm = H.HM(n)
        pool = [(0,), (0, 1), (0, 1, 2), (0, 1, 2, 3), (1, 2), (2, 3), (1,), (1, 3)]
        for name in rng.sample(["main", "b", "z9"], rng.choice([1, 2, 3])):
            for e in rng.sample(pool, rng.randint(2, 4)):
                hm.g.setdefault(name, {})[e] = rng.choice([1.0, 1.0, 2.0])
        s = H.build(dhg, hm)
        grp = rng.choice([None] + list(hm.g))
        items = [(name, e) for name in hm.g for e in hm.g[name] if grp in (None, name)]
        draw = lambda: s.drop_hyperedges(0.5) if grp is None else s.drop_hyperedges_of_group(grp, 0.5)
        there = lambda t: {(name, tuple(sorted(e))) for name in t.group_names for e in t.e_of_group(name)[0]}
    else:
        gm = G.GM(kind, n, n)
        pairs = [(a, b) for a in range(n) for b in range(n) if a <= b or kind != "g"]
        items = rng.sample(pairs, 5)
        if kind != "g":       # pairs of opposite edges
            items = sorted(set(items[:3]) | {(b, a) for a, b in items[:3]})
        gm.add(items, [rng.choice([1.0, 1.0, 2.0]) for _ in items], "sum")
        s = G.build(dhg, gm)
        draw = lambda: s.drop_edges(0.5)
        there = lambda t: {tuple(sorted(e)) if kind == "g" else tuple(e) for e in t.e[0]}
    draws = [there(draw()) for _ in range(150)]
    items = [tuple(sorted(e)) for e in items] if kind == "g" else items
    for i, a in enumerate(items):
        for b in items[:i]:
            seen = {(a in t, b in t) for t in draws}
            # each of the four outcomes misses 150 draws with probability (3/4)^150 < 1e-18
            ctx.ok(len(seen) == 4, "connections are dropped one by one", kind=kind, a=a, b=b, seen=sorted(seen))
    for a in items:
        runs = [a in t for t in draws]
        ctx.ok(len(set(zip(runs, runs[1:]))) == 4, "one draw does not decide the next", kind=kind, item=a)
    ctx.event("joint outcomes", len(items) * (len(items) - 1) // 2)
    ctx.state("joint", kind, items)


def lags(ctx):
    """In large structures no connection's fate follows that of another one at a fixed distance."""
    import dhg

    rng = ctx.rng
    kind = "gdbh"[ctx.idx % 4]
    n, k = 110, rng.choice([400, 1300, 1700, 5900])
    p = rng.choice([0.5, 0.5, 0.3, 0.7])
    if kind == "h":
        items = [(a, b, c) for a in range(30) for b in range(a + 1, 50, 2) for c in range(b + 1, 90, 4)]
        k = min(k, len(items))
        items = rng.sample(items, k)
        s = dhg.Hypergraph(n)
        cut = rng.choice([k, k // 2])
        s.add_hyperedges(items[:cut])
        if cut < k:
            s.add_hyperedges(items[cut:], group_name="b")
        order = [(g, e) for g in s.group_names for e in s.e_of_group(g)[0]]
        t = s.drop_hyperedges(p)
        left = {(g, e) for g in t.group_names for e in t.e_of_group(g)[0]}
    else:
        items = rng.sample([(a, b) for a in range(n) for b in range(n) if kind != "g" or a <= b], k)
        s = {"g": dhg.Graph, "d": dhg.DiGraph}[kind](n, items) if kind != "b" else dhg.BiGraph(n, n, items)
        order = list(s.e[0])
        left = set(s.drop_edges(p).e[0])
    bad = lagged([e not in left for e in order], p)
    ctx.ok(not bad, "connections are dropped independently of those at any distance", lags=bad[:4], kind=kind, p=p, of=len(order))
    ctx.event("lags")
    ctx.state("lags", kind, k, p, len(left))


def sub(ctx, huge=False):
    import dhg

    rng = ctx.rng
    hm = H.rand_model(rng, vw=rng.random() < 0.7)
    if huge:
        hm = H.huge_model(rng)
        hm.vw = H.rand_vw(rng, hm.n)
    hg = H.build(dhg, hm)
    H.observe(ctx, hg, hm, 0.2)
    vs = rng.sample(range(hm.n), rng.randint(1, hm.n))
    arg = list(vs) + ([vs[0]] if rng.random() < 0.3 else [])
    if rng.random() < 0.4:
        arg = set(arg)
    keep1 = rng.random() < 0.5
    t = hg.subgraph(arg) if keep1 and rng.random() < 0.5 else hg.subgraph(arg, keep_edges_with_only_one_nodes=keep1)
    new = {v: i for i, v in enumerate(sorted(vs))}
    ctx.ok(type(t) is dhg.Hypergraph and t.num_v == len(new), "sub-hypergraph has the chosen vertices")
    m2 = H.HM(len(new))
    m2.vw = [hm.vw[v] for v in sorted(vs)]
    ctx.ok(set(t.group_names) >= {g for g, d in hm.g.items() if any(set(e) & set(vs) for e in d)} or not keep1,
           "groups survive")
    for name, dct in hm.g.items():
        want = {}
        for e, w in dct.items():
            r = tuple(sorted(new[v] for v in e if v in new))
            if len(r) >= (1 if keep1 else 2):
                want.setdefault(r, []).append(w)
        if name not in t.group_names:
            ctx.ok(not want, "group with surviving hyperedges is present", group=name)
            continue
        e, w = t.e_of_group(name)
        got = {tuple(sorted(x)): y for x, y in zip(e, w)}
        ctx.ok(len(got) == len(e) and set(got) == set(want), "hyperedges are the restrictions", group=name, got=got, want=want)
        ctx.ok(all(len(want[k]) > 1 or abs(y - want[k][0]) < 1e-5 for k, y in got.items() if k in want),
               "restricted hyperedges keep their weights", group=name, got=got, want=want)
        m2.g[name] = got
    H.observe(ctx, t, m2)
    H.observe(ctx, hg, hm, 0.5)
    ctx.raises(lambda: hg.subgraph([]), "empty subset is refused")
    ctx.raises(lambda: hg.subgraph([0, hm.n]), "out-of-range vertex is refused")
    ctx.raises(lambda: hg.subgraph([-1, 0]), "negative vertex is refused")
    ctx.event("subgraph")
    ctx.state(hm.fp(), sorted(vs), keep1)
    ctx.sample({"hypergraph": hm.fp(), "vertices": sorted(vs), "keep1": keep1})


SCENARIOS = [
    ("drop graph", lambda c: drop_graph(c, "g"), 80, 1500),
    ("drop digraph", lambda c: drop_graph(c, "d"), 80, 1500),
    ("drop bigraph", lambda c: drop_graph(c, "b"), 80, 1500),
    ("drop hypergraph", drop_hg, 90, 1500),
    ("rate", rate, 16, 150),
    ("joint", joint, 40, 500),
    ("lags", lags, 8, 80),
    ("subgraph", sub, 120, 2500),
    ("huge drop", lambda c: drop_graph(c, "gdb"[c.idx % 3], True), 3, 30),
    ("huge drop hypergraph", lambda c: drop_hg(c, True), 2, 20),
    ("huge subgraph", lambda c: sub(c, True), 2, 20),
]
REQUIRED_EVENTS = {"drop g": 20, "drop d": 20, "drop b": 20, "drop group": 20, "subgraph": 50, "rate": 8, "joint outcomes": 100}
ASSUMPTIONS = ["when restricted hyperedges coincide, any one of their weights is accepted"]
